#!/usr/bin/env python3
"""Nothing has to be built beforehand (every check builds from /repo's tree); this only verifies that the tools are there."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
ok = True
for t in (vlib.GXX, vlib.CLANGXX, "tlc"):
    if not shutil.which(t):
        print("missing tool", t)
        ok = False
os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
sys.exit(0 if ok else 1)
