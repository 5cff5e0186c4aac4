#!/usr/bin/env python3
"""Nothing is built ahead of time; this only confirms that the tools are there."""
import shutil, sys
missing = [t for t in ("verus", "rustc", "cargo") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
