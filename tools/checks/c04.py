"""C04: grouping partitions the sources; related sources leave together, exactly once, on request."""
import vp
SRC = ["SEImplementation/src/lib/Grouping/*.cpp", "SEImplementation/src/lib/Configuration/GroupingConfig.cpp",
       "SEImplementation/src/lib/Plugin/MoffatModelFitting/MoffatModelEvaluator.cpp",
       "SEFramework/src/lib/Property/*.cpp", "SEFramework/src/lib/Pipeline/*.cpp", "SEFramework/src/lib/Source/*.cpp",
       "SEFramework/src/lib/Task/*.cpp", "ModelFitting/src/lib/Parameters/*.cpp", "ModelFitting/src/lib/Models/*.cpp"]
def main(c):
    exe = vp.build("grouping", ["grouping.cpp"], SRC)
    c.model("Grouping", "Grouping_TRUE.cfg", min_states=1000)
    c.model("Grouping", "Grouping_FALSE.cfg", min_states=1000)
    n = 20000 if c.thorough else 2500
    out = c.path("rand.ndjson")
    c.drive(exe, ["--n", n, "--seed", c.seed * 100000 + 1, "--sources", 16 if c.thorough else 12], out)
    c.validate("GroupTrace", "GroupTrace.cfg", out, "grouping")
