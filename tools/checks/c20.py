"""C20: flags."""
import vp
SRC = ["SEFramework/src/lib/Frame/Frame.cpp",
       "SEFramework/src/lib/Image/BufferedImage.cpp",
       "SEFramework/src/lib/Image/ImageTile.cpp",
       "SEFramework/src/lib/Image/TileManager.cpp",
       "SEFramework/src/lib/Property/PropertyId.cpp",
       "SEImplementation/src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp",
       "SEImplementation/src/lib/Plugin/SourceFlags/SourceFlagsSourceTask.cpp"]
def main(c):
    exe = vp.build("flags", ["flags.cpp"], SRC)
    c.model("FlagsLaws", "FlagsLaws.cfg", min_states=4)
    c.model("FlagsLaws", "FlagsLaws_missing.cfg", expect_violation="Printable")
    out = c.path("flags.ndjson")
    c.drive(exe, ["--n", 20000 if c.thorough else 2000, "--seed", c.seed * 100000 + 7], out)
    c.validate("FlagsTrace", "FlagsTrace.cfg", out, "flags")
