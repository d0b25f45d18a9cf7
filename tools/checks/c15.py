"""C15: the traversal along the Hilbert curve."""
import vp
SRC = ["SEFramework/src/lib/Frame/Frame.cpp",
       "SEFramework/src/lib/Image/BufferedImage.cpp",
       "SEFramework/src/lib/Image/ImageTile.cpp",
       "SEFramework/src/lib/Image/TileManager.cpp",
       "SEFramework/src/lib/Pipeline/Segmentation.cpp",
       "SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp"]
def main(c):
    exe = vp.build("hilbert", ["hilbert.cpp"], SRC)
    c.model("HilbertLaws", "HilbertLaws.cfg", min_states=5)
    out = c.path("hilbert.ndjson")
    c.drive(exe, ["--n", 20000 if c.thorough else 3000, "--seed", c.seed * 100000 + 5, "--curves", 130 if c.thorough else 40], out)
    c.validate("HilbertTrace", "HilbertTrace.cfg", out, "traversal")
