#!/usr/bin/env python3
"""Checks that the toolchain the checks need is there. Nothing is kept from one run to the next: every check builds what
it needs from /repo's working tree."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vp
for f in vp.CP.split(":"):
    assert os.path.exists(f), f
subprocess.check_call(["g++", "--version"])
subprocess.check_call(["java", "-version"])
for d in ("SEUtils", "ModelFitting", "SEFramework", "SEImplementation", "SEMain"):
    assert os.path.isdir(os.path.join(vp.REPO, d)), d
os.makedirs(vp.BUILD, exist_ok=True)
print("setup ok")
