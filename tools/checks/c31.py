"""C31: association with a catalogue."""
from checks import e2e


def main(c):
    e2e.env()
    exe = e2e.exe("assoc")
    run = e2e.exe("assocrun")
    for cfg in ("none", "three") + (("deep",) if c.thorough else ()):
        c.model("KdTree", "KdTree_%s.cfg" % cfg, min_states=1000)
    c.model("KdTree", "KdTree_strict.cfg", expect_violation="Exact")
    c.model("KdTree", "KdTree_order.cfg", expect_violation="Ordered")
    out = c.path("assoc.ndjson")
    c.drive(exe, ["--n", 20000 if c.thorough else 2000, "--seed", c.seed * 100000 + 31], out)
    c.validate("AssocTrace", "AssocTrace.cfg", out, "associations")
    out = c.path("assocrun.ndjson")
    c.drive(run, ["--n", 3000 if c.thorough else 200, "--seed", c.seed * 100000 + 31], out)
    c.validate("AssocRunTrace", "AssocRunTrace.cfg", out, "runs with the filters")
