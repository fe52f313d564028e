#!/usr/bin/env python3
"""Nothing is prebuilt: checks build from /repo themselves. Verify the tools are there."""
import shutil, sys
missing = [t for t in ("gcc", "make", "bison", "tar") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
print("ok")
