"""C29: what the catalogue says of a source, computed from the pixels."""
from checks import e2e


def main(c):
    e2e.env()
    exe = e2e.exe("quant")
    c.model("QuantLaws", "QuantLaws.cfg", min_states=1000)
    c.model("QuantLaws", "QuantLaws_origin.cfg", expect_violation="Shifted")
    out = c.path("quant.ndjson")
    c.drive(exe, ["--n", 4000 if c.thorough else 600, "--seed", c.seed * 100000 + 29], out)
    c.validate("QuantTrace", "QuantTrace.cfg", out, "measured quantities")
