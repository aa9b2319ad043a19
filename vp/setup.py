#!/usr/bin/env python3
"""setup_cmd: nothing to build ahead of time; make sure the tools are there"""
import shutil, sys
missing = [t for t in ("goto-cc", "goto-instrument", "cbmc", "gcc", "flex", "bison") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")
