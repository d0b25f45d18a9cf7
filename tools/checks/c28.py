"""C28: a frame's layers belong to its current inputs."""
import vp
SRC = ["SEFramework/src/lib/Frame/Frame.cpp",
       "SEFramework/src/lib/Image/BufferedImage.cpp",
       "SEFramework/src/lib/Image/ImageTile.cpp",
       "SEFramework/src/lib/Image/TileManager.cpp"]
def main(c):
    exe = vp.build("frame", ["frame.cpp"], SRC)
    c.model("FrameCache", "FrameCache.cfg", min_states=200)
    c.model("FrameCache", "FrameCache_forget.cfg", expect_violation="Current")
    out = c.path("frame.ndjson")
    c.drive(exe, ["--n", 30000 if c.thorough else 6000, "--seed", c.seed * 100000 + 5], out)
    c.validate("FrameTrace", "FrameTrace.cfg", out, "layers")
