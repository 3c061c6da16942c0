#!/usr/bin/env python3
"""Nothing is built ahead of time: every check compiles /repo's current sources.  This only verifies the tools."""
import shutil, sys
missing = [t for t in ("goto-cc", "goto-instrument", "cbmc", "gcc", "python3") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
