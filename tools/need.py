#!/usr/bin/env python3
"""Development aid: which sources of /repo a driver needs (to keep the builds of the checks small).
need.py <driver.cpp> [more driver sources]"""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
from concurrent.futures import ThreadPoolExecutor
srcs = vp.expand([d + "/src/lib/**/*.cpp" for d in ("SEUtils", "ModelFitting", "SEFramework", "SEImplementation", "SEMain")])
with ThreadPoolExecutor(8) as ex:
    r = dict(zip(srcs, ex.map(lambda s: vp.compile_one(s, []), srcs)))
name = {}
for s, (o, e) in r.items():
    if o: name[os.path.basename(o)] = os.path.relpath(s, vp.REPO)
    else: print("does not compile:", s, file=sys.stderr)
lib = os.path.join(vp.BUILD, "everything.a")
if os.path.exists(lib): os.remove(lib)
subprocess.check_call(["ar", "crs", lib] + [o for o, e in r.values() if o])
objs = []
for d in sys.argv[1:]:
    o, e = vp.compile_one(os.path.join(vp.VERIF, "harness", d), [])
    if e: sys.exit(e)
    objs.append(o)
p = subprocess.run(["g++", "-rdynamic", "-o", "/dev/null", "-Wl,-Map=/tmp/need.map"] + objs + [lib] + vp.ALLLIBS + vp.LIBS, capture_output=True, text=True)
if p.returncode: print(p.stderr[-3000:], file=sys.stderr)
used = set()
import re
for m in re.finditer(r"everything\.a\(([^)]+)\)", open("/tmp/need.map").read()):
    used.add(name[m.group(1)])
print(len(used), "sources", file=sys.stderr)
print("SRC = [" + ",\n       ".join('"%s"' % u for u in sorted(used)) + "]")
