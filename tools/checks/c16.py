"""C16: parameters and those that depend on them."""
import vp
SRC = ["ModelFitting/src/lib/Parameters/BasicParameter.cpp", "ModelFitting/src/lib/Parameters/EngineParameter.cpp",
       "ModelFitting/src/lib/Parameters/NeutralConverter.cpp", "ModelFitting/src/lib/Parameters/NormalizedConverter.cpp",
       "ModelFitting/src/lib/Engine/WorldValueResidual.cpp"]
def main(c):
    exe = vp.build("params", ["params.cpp"], SRC, flags=["-fsanitize=address"], libs=["-fsanitize=address"])
    c.model("ParamsModel", "ParamsModel_5.cfg" if c.thorough else "ParamsModel.cfg", min_states=10000)
    c.model("ParamsModel", "ParamsModel_stale.cfg", expect_violation="Right")
    c.model("ParamsModel", "ParamsModel_dangling.cfg", expect_violation="DeadNotTold")
    out = c.path("params.ndjson")
    c.drive(exe, ["--n", 6000 if c.thorough else 1000, "--seed", c.seed * 100000 + 3], out)
    c.validate("ParamsTrace", "ParamsTrace.cfg", out, "parameters")
