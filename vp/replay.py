#!/usr/bin/env python3
"""replay.py UNIT REPLAYFILE: run the unit's contract natively (ASan+UBSan) on the inputs listed in the file"""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry, run
u = next(u for u in registry.units("thorough") if u.name == sys.argv[1])
text = open(sys.argv[2]).read()
inputs = [int(x) for x in text[text.index("inputs:\n") + 8:].split()]
tmp = tempfile.mkdtemp(prefix="vp-replay-")
try:
    b = run.Builder(tmp)
    exe, msg = run.native_build(b, u)
    if not exe:
        sys.exit("cannot build: " + msg)
    bad, out = run.native_replay(exe, inputs, tmp)
    print(out)
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
