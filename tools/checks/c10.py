"""C10: group results are recomputed whenever the membership changes."""
import vp
SRC = ["SEFramework/src/lib/Property/PropertyHolder.cpp",
       "SEFramework/src/lib/Property/PropertyId.cpp",
       "SEFramework/src/lib/Source/EntangledSource.cpp",
       "SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp",
       "SEFramework/src/lib/Source/SourceWithOnDemandProperties.cpp",
       "SEFramework/src/lib/Task/TaskFactoryRegistry.cpp",
       "SEFramework/src/lib/Task/TaskProvider.cpp"]
def main(c):
    exe = vp.build("props", ["props.cpp"], SRC)
    c.model("PropsModel", "PropsModel_thorough.cfg" if c.thorough else "PropsModel.cfg", min_states=10000)
    out = c.path("props.ndjson")
    c.drive(exe, ["--n", 40000 if c.thorough else 5000, "--seed", c.seed * 100000 + 10, "--calm", 0], out)
    c.validate("PropsTrace", "PropsTrace.cfg", out, "properties")
