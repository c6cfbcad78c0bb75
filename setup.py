#!/usr/bin/env python3
"""Nothing to install: every check builds what it needs from /repo. This only verifies that the tools are there."""
import shutil, sys
missing = [t for t in ("g++", "ninja", "python3") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
