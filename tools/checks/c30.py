"""C30: the program works with what the configuration script says."""
import os
import vp
from checks import e2e


def main(c):
    c.model("PyConfModel", "PyConfModel.cfg", min_states=500000)
    c.model("PyConfModel", "PyConfModelBad.cfg", expect_violation="Reached")
    if c.thorough:
        c.model("PyConfModel", "PyConfModelDeep.cfg", min_states=1000000)
    e2e.env()
    exe = e2e.exe("pyconf")
    out = c.path("pyconf.ndjson")
    c.drive(exe, ["--n", 8000 if c.thorough else 1200, "--seed", c.seed * 100000 + 30, "--script", os.path.join(vp.VERIF, "harness", "pyconf.py")], out)
    c.validate("PyConfTrace", "PyConfTrace.cfg", out, "configuration scripts")
