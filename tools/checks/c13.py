"""C13: accessors return the image's own pixels."""
import vp
from checks.c12 import SRC
def main(c):
    exe = vp.build("images", ["images.cpp"], SRC)
    c.model("Accessor", "Accessor.cfg", min_states=1000)
    out = c.path("access.ndjson")
    c.drive(exe, ["--n", 60000 if c.thorough else 5000, "--seed", c.seed * 100000 + 3, "--mode", "access"], out)
    c.validate("ImagesTrace", "ImagesTrace.cfg", out, "accessors")
