"""C14: the spatial indices answer range queries exactly."""
import vp
def main(c):
    exe = vp.build("spatial", ["spatial.cpp"], [])
    c.model("QuadTree", "QuadTree_box.cfg" if c.thorough else "QuadTree_quick.cfg", min_states=1000)
    c.model("QuadTree", "QuadTree_corner.cfg", expect_violation="Exact")
    n = 15000 if c.thorough else 2000
    out = c.path("rand.ndjson")
    c.drive(exe, ["--n", n, "--seed", c.seed * 100000 + 1], out, timeout=120)
    c.validate("SpatialTrace", "SpatialTrace.cfg", out, "range query")
