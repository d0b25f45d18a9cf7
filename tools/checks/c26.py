"""C26: the frames are what the options, the headers and the configuration script say."""
import vp
SRC = ["SEFramework/src/lib/CoordinateSystem/WCS.cpp", "SEFramework/src/lib/FITS/FitsFile.cpp", "SEFramework/src/lib/FITS/FitsImageSource.cpp",
       "SEFramework/src/lib/Frame/Frame.cpp", "SEFramework/src/lib/Image/BufferedImage.cpp", "SEFramework/src/lib/Image/ImageTile.cpp",
       "SEFramework/src/lib/Image/TileManager.cpp"] + \
      ["SEImplementation/src/lib/Background/" + f for f in ("BackgroundAnalyzerFactory.cpp", "SE/*.cpp", "SimpleBackgroundAnalyzer.cpp")] + \
      ["SEImplementation/src/lib/Configuration/%s.cpp" % f for f in ("BackgroundConfig", "DetectionFrameConfig", "DetectionImageConfig", "MeasurementFrameConfig",
       "MeasurementImageConfig", "PythonConfig", "SE2BackgroundConfig", "WeightImageConfig")] + \
      ["SEImplementation/src/lib/PythonConfig/%s.cpp" % f for f in ("PyId", "PyMeasurementImage", "PyOutputWrapper")]


def main(c):
    exe = vp.build("frameconf", ["frameconf.cpp", "common/checkimages_stub.cpp"], SRC, libs=vp.FITSLIBS + ["-lboost_python312", "-lpython3.12"])
    c.model("FrameConfLaws", "FrameConfLaws.cfg", min_states=1000)
    c.model("FrameConfLaws", "FrameConfLaws_unscaled.cfg", expect_violation="SameBad")
    out = c.path("frameconf.ndjson")
    c.drive(exe, ["--n", 20000 if c.thorough else 2000, "--seed", c.seed * 100000 + 26], out)
    c.validate("FrameConfTrace", "FrameConfTrace.cfg", out, "configured frames")
