#!/usr/bin/env python3
"""catch.py [ID...]: apply each planted bug to /repo, run its property's check, undo; print who catches what"""
import sys, os, subprocess, json
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
man = {c["property"] if "property" in c else c["id"]: c for c in json.load(open("/verif/MANIFEST.json"))["checks"]}
for i in ids:
    p = json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]
    if subprocess.run(["git", "-C", "/repo", "apply", f"/verif/seeded/{i}/patch.diff"]).returncode:
        print(i, "does not apply"); continue
    try:
        r = subprocess.run(["python3", "/verif/vp/run.py", p], capture_output=True, text=True, cwd="/verif")
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, p, "CAUGHT" if r.returncode == 1 and v else f"missed rc={r.returncode}", v[:2], flush=True)
    if r.returncode not in (0, 1): print(r.stdout[-500:], r.stderr[-500:])
