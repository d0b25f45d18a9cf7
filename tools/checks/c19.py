"""C19: aperture photometry."""
import vp
SRC = ["SEFramework/src/lib/Aperture/CircularAperture.cpp",
       "SEFramework/src/lib/Aperture/EllipticalAperture.cpp",
       "SEFramework/src/lib/Aperture/Flagging.cpp",
       "SEFramework/src/lib/Aperture/FluxMeasurement.cpp",
       "SEFramework/src/lib/Aperture/NeighbourInfo.cpp",
       "SEFramework/src/lib/Aperture/TransformedAperture.cpp",
       "SEFramework/src/lib/Frame/Frame.cpp",
       "SEFramework/src/lib/Image/BufferedImage.cpp",
       "SEFramework/src/lib/Image/ImageTile.cpp",
       "SEFramework/src/lib/Image/TileManager.cpp",
       "SEFramework/src/lib/Property/PropertyId.cpp",
       "SEImplementation/src/lib/Plugin/AperturePhotometry/ApertureFlagTask.cpp",
       "SEImplementation/src/lib/Plugin/AperturePhotometry/AperturePhotometryTask.cpp",
       "SEImplementation/src/lib/Plugin/AutoPhotometry/AutoPhotometryFlagTask.cpp",
       "SEImplementation/src/lib/Plugin/AutoPhotometry/AutoPhotometryTask.cpp",
       "SEImplementation/src/lib/Plugin/GrowthCurve/GrowthCurveTask.cpp",
       "SEImplementation/src/lib/Plugin/KronRadius/KronRadiusTask.cpp"]
def main(c):
    exe = vp.build("photometry", ["photometry.cpp", "common/checkimages_stub.cpp"], SRC)
    c.model("PhotometryLaws", "PhotometryLaws.cfg", min_states=2000)
    c.model("PhotometryLaws", "PhotometryLaws_truncated.cfg", expect_violation="BoxCovers")
    out = c.path("photometry.ndjson")
    c.drive(exe, ["--n", 10000 if c.thorough else 3000, "--seed", c.seed * 100000 + 9], out)
    c.validate("PhotTrace", "PhotTrace.cfg", out, "photometry")
