#!/usr/bin/env python3
"""runs every verified unit's contract natively on random inputs: on the unchanged tree nothing may be found
usage: searchall.py [SECONDS] [UNIT...]"""
import os, sys, tempfile, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vp")
import registry, run
secs = int(sys.argv[1]) if len(sys.argv) > 1 else 20
names = sys.argv[2:]
tmp = tempfile.mkdtemp(prefix="vp-search-")
b = run.Builder(tmp)
def go(u):
    exe, msg = run.native_build(b, u)
    if not exe:
        return u.name, "BUILD " + msg[-300:]
    r = []
    for seed in (1, 77):
        inputs, out, n, disc = run.native_search(exe, seed, 3, 10**9, secs, b.tmp_for(u, seed))
        if inputs is not None:
            return u.name, "FOUND " + out[-400:] + " inputs " + " ".join(map(str, inputs[:60]))
        r.append((n, disc))
    return u.name, r
try:
    us = [u for u in registry.units("thorough") if u.kind != "run" and u.native and (not names or u.name in names)]
    with cf.ThreadPoolExecutor(7) as ex:
        for n, r in ex.map(go, us):
            print(n, r, flush=True)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
