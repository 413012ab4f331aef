#!/usr/bin/env python3
# Prepares the framework: checks the tools and builds the simulator once.
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
for t in ("g++", "gcc", "addr2line"):
    if not shutil.which(t):
        print("missing tool: " + t)
        sys.exit(1)
exe = check.build("P01")
r = check.run1(exe, "P01", 1000003)
print("simulator built, first execution: %s" % r.get("outcome"))
sys.exit(0 if r.get("outcome") in ("ok", "skip", "violation") else 1)
