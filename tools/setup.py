#!/usr/bin/env python3
"""Nothing is kept between runs: a check builds what it needs from /repo.  This
only makes sure that the tools are there."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("gcc", "g++", "ld", "objcopy"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
subprocess.run([sys.executable, "-m", "compileall", "-q", V + "/sim", V + "/engines", V + "/check.py"], check=True)
os.makedirs(V + "/evidence", exist_ok=True)
print("ok")
