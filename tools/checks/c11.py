"""C11: images behind the tile cache are registers."""
import os, vp
SRC = ["SEFramework/src/lib/FITS/FitsFile.cpp",
       "SEFramework/src/lib/FITS/FitsImageSource.cpp",
       "SEFramework/src/lib/Image/BufferedImage.cpp",
       "SEFramework/src/lib/Image/ImageTile.cpp",
       "SEFramework/src/lib/Image/TileManager.cpp"]
def main(c):
    exe = vp.build("tiles", ["tiles.cpp", "common/vpsched.cpp"], SRC, libs=vp.FITSLIBS)
    c.model("TileCache", "TileCache_pinned.cfg", min_states=100000)
    c.model("TileCache", "TileCache_asis.cfg", expect_violation="Flushed")
    c.model("TileCache", "TileCache_weak.cfg", expect_violation="Flushed")
    out = c.path("seq.ndjson")
    c.drive(exe, ["--n", 10000 if c.thorough else 1500, "--seed", c.seed * 100000 + 1, "--mode", "seq", "--dir", c.path("img")], out)
    c.validate("TileTrace", "TileTrace.cfg", out, "reads, writes and flushes")
    out = c.path("threads.ndjson")
    c.drive(exe, ["--n", 20000 if c.thorough else 2200, "--seed", c.seed * 100000 + 7, "--mode", "threads", "--dir", c.path("img")], out)
    c.validate("TileTrace", "TileTrace.cfg", out, "threads")
