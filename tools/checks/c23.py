"""C23: the catalogue of the whole program does not depend on threads or timing, and holds what the images hold."""
from checks import e2e


def main(c):
    e2e.env()
    exe = e2e.exe("e2e")
    for cfg in ("pairs", "single", "unsorted", "deep"):
        c.model("Program", "Program_%s.cfg" % cfg, min_states=60)
    for cfg in ("noprefetch", "nomeasure", "noflush"):
        c.model("Program", "Program_%s.cfg" % cfg, expect_violation="Parts")
    out = c.path("e2e.ndjson")
    c.drive(exe, ["--n", 900 if c.thorough else 60, "--seed", c.seed * 100000 + 23], out)
    c.validate("E2eTrace", "E2eTrace.cfg", out, "runs of the program")
