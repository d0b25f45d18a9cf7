"""C21: the catalogue."""
import vp
SRC = ["SEFramework/src/lib/Output/OutputRegistry.cpp", "SEImplementation/src/lib/Output/*.cpp", "SEImplementation/src/lib/Configuration/OutputConfig.cpp",
       "SEFramework/src/lib/Property/PropertyId.cpp", "SEFramework/src/lib/Property/PropertyHolder.cpp", "SEFramework/src/lib/Source/SimpleSourceGroup.cpp"]
def main(c):
    exe = vp.build("catalog", ["catalog.cpp"], SRC, libs=vp.FITSLIBS)
    c.model("CatalogModel", "CatalogModel.cfg", min_states=500)
    c.model("CatalogModel", "CatalogModel_empty.cfg", expect_violation="NothingOld")
    out = c.path("catalog.ndjson")
    c.drive(exe, ["--n", 12000 if c.thorough else 1500, "--seed", c.seed * 100000 + 11], out)
    c.validate("CatalogTrace", "CatalogTrace.cfg", out, "catalogue")
