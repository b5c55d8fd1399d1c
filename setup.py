#!/usr/bin/env python3
"""Checks that the tools the checks need are there; nothing has to be built."""
import shutil, sys
missing = [t for t in ("cbmc", "goto-cc", "goto-instrument", "gcc", "objcopy", "kissat") if not shutil.which(t, path="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")]
if missing:
    sys.exit("missing: " + " ".join(missing))
print("tools present")
