"""C01: the prefetching stage delivers everything, once, in order, computed."""
import vp
SRC = ["SEImplementation/src/lib/Prefetcher/*.cpp", "SEFramework/src/lib/Property/*.cpp", "SEFramework/src/lib/Pipeline/PipelineStage.cpp"]
def main(c):
    exe = vp.build("prefetch", ["prefetch.cpp", "common/vpsched.cpp"], SRC)
    c.model("Prefetch", "Prefetch_fixed.cfg" if c.thorough else "Prefetch_quick.cfg", min_states=1000)
    c.model("Prefetch", "Prefetch_asis.cfg", expect_violation="emporal")
    n = 3000 if c.thorough else 400
    out = c.path("rand.ndjson")
    c.drive(exe, ["--n", n, "--seed", c.seed * 100000 + 1], out)
    c.validate("PrefetchTrace", "PrefetchTrace.cfg", out, "prefetching stage")
