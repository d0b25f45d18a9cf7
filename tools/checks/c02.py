"""C02: the measurement stage numbers, measures and delivers every group once; stop and synchronize are complete."""
import vp
SRC = ["SEImplementation/src/lib/Measurement/*.cpp", "!SEImplementation/src/lib/Measurement/MeasurementFactory.cpp",
       "SEFramework/src/lib/Property/*.cpp", "SEFramework/src/lib/Pipeline/*.cpp", "SEFramework/src/lib/Source/*.cpp"]
def main(c):
    exe = vp.build("measure", ["measure.cpp", "common/vpsched.cpp"], SRC)
    c.model("Measurement", "Measurement_queued_first.cfg", min_states=1000)
    c.model("Measurement", "Measurement_live.cfg", min_states=500)
    c.model("Measurement", "Measurement_running_first.cfg", expect_violation="NothingLost")
    n = 12000 if c.thorough else 4000
    out = c.path("rand.ndjson")
    c.drive(exe, ["--n", n, "--seed", c.seed * 100000 + 1], out)
    c.validate("MeasureTrace", "MeasureTrace.cfg", out, "measurement stage")
