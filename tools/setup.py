#!/usr/bin/env python3
"""Check that the tools the checks need are there.  Checks build what they need themselves, so nothing has to be left behind."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
if missing or not os.path.isdir("/usr/include/eigen3/Eigen"):
    print("missing:", missing, "or eigen3")
    sys.exit(1)
os.makedirs(os.path.join(build.VERIF, "build"), exist_ok=True)
print("library sources:", len(build.lib_sources()))
