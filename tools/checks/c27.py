"""C27: FITS files hold what was written and are read as they are."""
import vp
SRC = ["SEFramework/src/lib/FITS/FitsFile.cpp",
       "SEFramework/src/lib/FITS/FitsImageSource.cpp",
       "SEFramework/src/lib/Image/ImageTile.cpp",
       "SEFramework/src/lib/Image/BufferedImage.cpp",
       "SEFramework/src/lib/Image/TileManager.cpp"]


def main(c):
    exe = vp.build("fits", ["fits.cpp"], SRC, libs=vp.FITSLIBS)
    c.model("FitsHandle", "FitsHandle.cfg", min_states=1000)
    c.model("FitsHandle", "FitsHandle_pooled.cfg", expect_violation="Bound")
    c.model("FitsHandle", "FitsHandle_noswitch.cfg", expect_violation="Place")
    out = c.path("fits.ndjson")
    c.drive(exe, ["--n", 20000 if c.thorough else 3000, "--seed", c.seed * 100000 + 27], out)
    c.validate("FitsTrace", "FitsTrace.cfg", out, "histories over FITS files")
