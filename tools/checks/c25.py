"""C25: the background model."""
import vp
SRC = ["SEImplementation/src/lib/Background/SE/*.cpp", "SEImplementation/src/lib/Background/SimpleBackgroundAnalyzer.cpp", "SEImplementation/src/lib/Configuration/SE2BackgroundConfig.cpp"]
def main(c):
    exe = vp.build("background", ["background.cpp"], SRC)
    c.model("BackgroundLaws", "BackgroundLaws_deep.cfg" if c.thorough else "BackgroundLaws.cfg", min_states=1000)
    c.model("BackgroundLaws", "BackgroundLaws_shifted.cfg", expect_violation="SmoothMirrors")
    c.model("BackgroundLaws", "BackgroundLaws_first.cfg", expect_violation="FillMirrors")
    out = c.path("background.ndjson")
    c.drive(exe, ["--n", 20000 if c.thorough else 3000, "--seed", c.seed * 100000 + 1], out)
    c.validate("BackgroundTrace", "BackgroundTrace.cfg", out, "background")
