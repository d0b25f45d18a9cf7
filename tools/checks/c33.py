"""C33: model fitting in the whole program."""
from checks import e2e


def main(c):
    e2e.env()
    exe = e2e.exe("fitrun")
    c.model("FitModel", "Fit_keep.cfg", min_states=2000)
    c.model("FitModel", "Fit_lost.cfg", expect_violation="Told")
    c.model("FitModel", "Fit_once.cfg", expect_violation="Better")
    out = c.path("fitrun.ndjson")
    c.drive(exe, ["--n", 4000 if c.thorough else 400, "--seed", c.seed * 100000 + 33], out)
    c.validate("FitTrace", "FitTrace.cfg", out, "runs with model fits")
