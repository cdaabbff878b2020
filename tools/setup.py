#!/usr/bin/env python3
"""Nothing is prebuilt (every check builds from /repo); this only verifies that the tools are there."""
import shutil, subprocess, sys
missing = [t for t in ("java", "g++", "yasm") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: %s" % missing)
print("ok")
