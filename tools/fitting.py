"""Shared by C17, C18 and C24: the driver of the fitting library."""
import os, vp
SRC = ["ModelFitting/src/lib/Parameters/*.cpp", "ModelFitting/src/lib/Engine/*.cpp"]
def run(c, mode, n):
    exe = vp.build("fitting", ["fitting.cpp"], SRC, flags=["-I" + os.path.join(vp.VERIF, "harness", "levmar")], libs=["-lgsl", "-lgslcblas"])
    out = c.path("fitting.ndjson")
    c.drive(exe, ["--mode", mode, "--n", n, "--seed", c.seed * 100000 + 5], out)
    c.validate("FittingTrace", "FittingTrace.cfg", out, {"conv": "converters and manager", "res": "residuals", "fit": "engines"}[mode])
