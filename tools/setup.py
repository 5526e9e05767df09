#!/usr/bin/env python3
"""setup_cmd: every check builds what it needs from /repo itself; this only confirms that the tools are present."""
import shutil
import sys
missing = [t for t in ("clang++", "python3") if not shutil.which(t)]
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")
