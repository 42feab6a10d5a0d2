#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs from /repo itself."""
import os, shutil, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + ", ".join(missing))
os.makedirs(os.path.join(H, "build", "cache"), exist_ok=True)
os.makedirs(os.path.join(H, "evidence"), exist_ok=True)
print("ok")
