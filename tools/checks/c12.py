"""C12: composed images are views."""
import vp
SRC = ["SEFramework/src/lib/Image/BufferedImage.cpp", "SEFramework/src/lib/Image/ImageTile.cpp", "SEFramework/src/lib/Image/TileManager.cpp"]
def main(c):
    exe = vp.build("images", ["images.cpp"], SRC)
    c.model("ImagesLaws", "ImagesLaws.cfg", min_states=1000)
    out = c.path("images.ndjson")
    c.drive(exe, ["--n", 30000 if c.thorough else 2500, "--seed", c.seed * 100000 + 1, "--mode", "compose"], out)
    c.validate("ImagesTrace", "ImagesTrace.cfg", out, "composed images")
