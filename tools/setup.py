#!/usr/bin/env python3
"""setup_cmd: checks build what they need themselves; this only makes sure the tools they use are there."""
import shutil, subprocess, sys
bad = [t for t in ("g++", "protoc", "valgrind") if not shutil.which(t)]
r = subprocess.run(["/usr/bin/python3", "-c", "import numpy, scipy"])
if bad or r.returncode:
    print("missing", bad)
    sys.exit(1)
print("ok")
