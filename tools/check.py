#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vp
def main():
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    c = vp.Check(pid)
    try:
        mod.main(c)
        c.finish()
    except vp.MachineryError as e:
        print("CHECK ERROR %s: %s" % (pid, e))
        sys.exit(2)
if __name__ == "__main__":
    main()
