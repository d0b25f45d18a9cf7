"""C05: the filter for detection."""
from checks import e2e


def main(c):
    c.model("FilterModel", "FilterModelDeep.cfg", min_states=40000)
    c.model("FilterModel", "FilterModel_halo.cfg", expect_violation="Seamless")
    c.model("FilterModel", "FilterModel_centre.cfg", expect_violation="Same")
    c.model("FilterModel", "FilterModel_small.cfg", expect_violation="Same")
    c.model("FilterLaws", "FilterLaws.cfg", min_states=100000)
    c.model("FilterLaws", "FilterLaws_weight.cfg", expect_violation="Flat")
    e2e.env()
    exe = e2e.exe("filter")
    out = c.path("filter.ndjson")
    c.drive(exe, ["--n", 20000 if c.thorough else 2500, "--seed", c.seed * 100000 + 5], out)
    c.validate("FilterTrace", "FilterTrace.cfg", out, "filters")
