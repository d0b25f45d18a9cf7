"""C03: the catalogue order is the detection order whatever order the measurements finish in."""
import vp
SRC = ["SEMain/src/lib/Sorter.cpp", "SEFramework/src/lib/Property/*.cpp", "SEFramework/src/lib/Pipeline/*.cpp", "SEFramework/src/lib/Source/*.cpp"]
def main(c):
    exe = vp.build("sorter", ["sorter.cpp"], SRC)
    c.model("Sorter", "Sorter.cfg", min_states=1000)
    out = c.path("rand.ndjson")
    c.drive(exe, ["--seed", c.seed, "--big", 2000 if c.thorough else 200, "--groups", 6 if c.thorough else 5], out)
    c.validate("SorterTrace", "SorterTrace.cfg", out, "sorting stage")
    c.cov["exhaustive"] = True
    c.cov["rule"] = "every arrival order of up to 5 groups (6 thorough), plus random larger ones"
