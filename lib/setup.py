#!/usr/bin/env python3
"""Nothing has to be installed: verify that the tools the checks use are there."""
import shutil, sys
missing = [t for t in ("g++", "clang++", "ar", "python3") if shutil.which(t) is None]
print("tools missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
