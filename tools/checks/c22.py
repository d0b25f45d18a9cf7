"""C22: the progress shown to the user."""
import vp
SRC = ["SEMain/src/lib/ProgressMediator.cpp", "SEFramework/src/lib/Property/PropertyId.cpp", "SEFramework/src/lib/Property/PropertyHolder.cpp", "SEFramework/src/lib/Source/SimpleSourceGroup.cpp"]
TSAN = ["-fsanitize=thread"]
def main(c):
    exe = vp.build("progress", ["progress.cpp", "common/vpsched.cpp"], SRC + ["SEMain/src/lib/ProgressLogger.cpp"])
    race = vp.build("progress_race", ["progress_race.cpp"], SRC, flags=TSAN, libs=TSAN)
    c.model("Progress", "Progress.cfg", min_states=1000)
    for bad, what in (("showfirst", "FinalShown"), ("outside", "NeverBack"), ("split", "FinalShown")):
        c.model("Progress", "Progress_%s.cfg" % bad, expect_violation=what)
    out = c.path("progress.ndjson")
    c.drive(exe, ["--n", 12000 if c.thorough else 3000, "--seed", c.seed * 100000 + 1], out)
    c.validate("ProgressTrace", "ProgressTrace.cfg", out, "progress")
    out = c.path("race.ndjson")
    c.drive(race, ["--n", 30 if c.thorough else 6, "--seed", c.seed * 1000 + 1], out)
    c.validate("ProgressTrace", "ProgressTrace.cfg", out, "progress, threads really at the same time")
