#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks use are there. Every check builds what it needs by itself."""
import shutil, sys, os
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
miss = [t for t in ("g++", "ninja", "python3") if not shutil.which(t)]
if miss or not os.path.isdir("/usr/include/eigen3"): print("missing:", miss, "or Eigen headers"); sys.exit(1)
print("ok")
