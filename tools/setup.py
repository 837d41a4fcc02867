#!/usr/bin/env python3
"""Nothing to prepare: every check builds what it needs from /repo. Only verifies that the tools are there."""
import shutil, subprocess, sys
for t in ("clang++", "g++"):
    if not shutil.which(t):
        print("missing", t); sys.exit(1)
subprocess.run(["/opt/higra/venv/bin/python", "-c", "import numpy, scipy"], check=True)
print("ok")
