#!/usr/bin/env python3
"""mkseed.py SPEC.py: build /verif/seeded/<id> from a spec (ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO = C text)
and confirm in a scratch copy that the change builds, passes the stable tests, and that its demonstration tells it apart."""
import sys, os, subprocess, shutil, json, runpy, tempfile
REPO = "/repo"
DEMO_SH = """#!/bin/bash
# run with cwd = the built repository
here=$(cd "$(dirname "$0")" && pwd)
export TZ=Pacific/Auckland
gcc -O1 -g -std=gnu11 -w -Iinclude -o build/vp_demo_%s "$here/demo.c" -Lbuild/lib -lmidoridb -lpthread -lm -Wl,-rpath,"$PWD/build/lib" || exit 3
timeout 120 ./build/vp_demo_%s > build/vp_demo_%s.log 2>&1
rc=$?
tail -5 build/vp_demo_%s.log
exit $rc
"""
def sh(c, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
def copytree(dst):
    subprocess.run(["cp", "-a", REPO, dst], check=True)
def main(spec):
    s = runpy.run_path(spec)
    i = s["ID"]
    out = f"/verif/seeded/{i}"
    w = tempfile.mkdtemp(prefix="seed")
    try:
        d = w + "/repo"
        copytree(d)
        for f, a, b in s["EDITS"]:
            t = open(f"{d}/{f}").read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(f"{d}/{f}", "w").write(t.replace(a, b))
        diff = sh("git diff", d).stdout
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.c", "w").write(s["DEMO"])
        open(out + "/demo.sh", "w").write(DEMO_SH.replace("%s", i))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(w)
    return confirm(i)
def confirm(i):
    out = f"/verif/seeded/{i}"
    # the build scripts are tied to /repo: apply there, then undo
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable_pass") or base.get("passed") or base.get("stable") or [])
    r = sh(f"bash /opt/vp/build.sh", REPO)
    assert r.returncode == 0
    d0 = sh(f"bash {out}/demo.sh", REPO)
    r = sh(f"git apply {out}/patch.diff", REPO)
    assert r.returncode == 0, r.stderr
    try:
        b = sh("bash /opt/vp/test.sh /tmp/seed_out.json", REPO)
        t = json.load(open("/tmp/seed_out.json"))
        d1 = sh(f"bash {out}/demo.sh", REPO)
    finally:
        sh("git checkout -- .", REPO)
        sh("bash /opt/vp/build.sh", REPO)
    lost = sorted(stable - set(t["passed"]))
    ok = d0.returncode == 0 and d1.returncode != 0 and not lost and t["passed"]
    print(f"{i}: {'OK' if ok else 'NOT OK'} demo clean={d0.returncode} patched={d1.returncode} passed={len(t['passed'])} lost={lost}")
    if not ok or "-v" in sys.argv:
        print("clean:", d0.stdout[-500:], d0.stderr[-800:]); print("patched:", d1.stdout[-500:], d1.stderr[-300:])
    return ok
if __name__ == "__main__":
    for a in sys.argv[1:]:
        if a == "-v": continue
        main(a) if a.endswith(".py") else confirm(a)
