"""C32: the check images."""
from checks import e2e


def main(c):
    e2e.env()
    exe = e2e.exe("checkimg")
    c.model("CheckImgModel", "CheckImg_locked.cfg", min_states=1000)
    c.model("CheckImgModel", "CheckImg_all.cfg", min_states=1000)
    c.model("CheckImgModel", "CheckImg_unlocked.cfg", expect_violation="Shown")
    out = c.path("checkimg.ndjson")
    c.drive(exe, ["--n", 4000 if c.thorough else 250, "--seed", c.seed * 100000 + 32], out)
    c.validate("CheckImgTrace", "CheckImgTrace.cfg", out, "runs with check images")
