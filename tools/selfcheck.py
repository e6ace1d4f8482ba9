#!/usr/bin/env python3
"""setup_cmd: nothing needs building; confirm the tools the checks use are present."""
import os
import shutil
import sys

missing = [t for t in ("node", "make", "ninja", "gcc", "g++", "ar", "python3-vt", "git", "openssl") if not shutil.which(t)]
try:
    import hypothesis
except ImportError:
    missing.append("hypothesis")
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence", "replay"), exist_ok=True)
if missing:
    print("missing: " + ", ".join(missing))
    sys.exit(1)
print("ok")
