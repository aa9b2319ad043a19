#!/usr/bin/env python3
"""Driver: decides one property of /repo's current source with CBMC, unit by unit.

usage: run.py PROPERTY [--tier quick|thorough] [--unit NAME] [--keep]

A unit is one contract: an entry function that establishes a precondition, calls real functions of /repo (compiled
by goto-cc from /repo's working tree, bodies untouched) and states the postcondition as obligations; or a set of
__CPROVER_requires/ensures/assigns contracts enforced / used as replacements by goto-instrument --dfcc.
See DESIGN.md for what the kinds mean and for the verdict policy.
"""
import argparse, concurrent.futures as cf, hashlib, itertools, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "vp"))
import registry  # noqa: E402

CPUS = max(1, min(8, os.cpu_count() or 1))
MEMKB = 6 * 1024 * 1024
DEADLINE = time.time() + 650


def sh(cmd, timeout=600, cwd=None, mem=True):
    """run; returns (rc, out, err, seconds); rc None on timeout"""
    t0 = time.time()
    pre = f"ulimit -v {MEMKB * 2 if mem else 'unlimited'}; exec " if mem else "exec "
    p = subprocess.Popen(["bash", "-c", pre + " ".join(cmd)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         cwd=cwd, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, time.time() - t0
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)  # with the solver it may have started
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", "timeout", time.time() - t0


def q(s):
    return "'" + s.replace("'", "'\\''") + "'"


class Case:
    """one CBMC run: a unit with its choices fixed"""
    def __init__(self, unit, fix):
        self.unit, self.fix = unit, fix
        self.name = unit.name + ("" if fix is None else "[" + ",".join(map(str, fix)) + "]")


def cflags(u, fix, native):
    f = [f"-I{REPO}/include", f"-I{VERIF}/vp/include", f"-I{VERIF}/units", "-D_GNU_SOURCE"]
    if not u.dfcc:
        f += ["-include", f"{VERIF}/vp/include/vp.h"]
    else:
        f += ["-DVP_DFCC"]
    if u.small:
        f.append(f"-DMIDORIDB_VERIF_SMALL={u.small}")
    f += [f"-D{d}" for d in u.defs]
    if not native:
        f.append("-DVP_CBMC")
    if fix is not None and not native:
        f.append("-DVP_FIX=" + ",".join(f"{x}" for x in fix))
    return [q(x) for x in f]


class Builder:
    def __init__(self, tmp):
        self.tmp = tmp
        self.cache = {}
        self.lock = threading.Lock()
        self.genlock = threading.Lock()
        self.gendir = None
        self.genmsg = ""
        self.exes = {}
        self.n = 0

    def gen(self):
        """the lexer and parser, generated from /repo's .l and .y"""
        with self.genlock:
            if self.gendir is None:
                d = os.path.join(self.tmp, "gen")
                os.makedirs(d)
                P = f"{REPO}/src/parser"
                rc, o, e, _ = sh(["flex", f"--header-file={d}/midorisql.yy.h", "-o", f"{d}/midorisql.yy.c", f"{P}/midorisql.l"], 60)
                rc2, o2, e2, _ = sh(["bison", "-d", "-o", f"{d}/midorisql.tab.c", f"{P}/midorisql.y"], 60)
                self.gendir = d if rc == 0 and rc2 == 0 else False
                self.genmsg = e + e2
            return self.gendir or None

    def tmp_for(self, u, chunk):
        d = os.path.join(self.tmp, f"r_{u.name}_{chunk}")
        os.makedirs(d, exist_ok=True)
        return d

    def obj(self, src, flags, cc="goto-cc"):
        key = (src, tuple(flags), cc)
        with self.lock:
            ent = self.cache.get(key)
            if ent is None:
                ent = self.cache[key] = [threading.Lock(), None]
                self.n += 1
                ent.append(os.path.join(self.tmp, f"o{self.n}.gb"))
        with ent[0]:
            if ent[1] is None:
                rc, o, e, _ = sh([cc, *flags, "-c", q(src), "-o", ent[2]], 120)
                ent[1] = (rc == 0, (o + e)[-4000:])
        return ent[1][0], ent[2], ent[1][1]


BUILD_ERR, OK, FAIL, UNDEC = "build", "ok", "fail", "undecided"


def goto_binary(b, case, d):
    u = case.unit
    fl = cflags(u, case.fix, False)
    nofix = [x for x in fl if "VP_FIX=" not in x]
    objs = []
    for s in u.srcs:
        ok, o, msg = b.obj(f"{REPO}/src/{s}", nofix)
        if not ok:
            return None, f"{s}: {msg}"
        objs.append(o)
    lib = [] if u.dfcc else [f"{VERIF}/vp/vp_cbmc.c"]
    for s in [f"{VERIF}/units/{u.harness}"] + lib + [f"{VERIF}/vp/{x}" for x in u.stubs]:
        flags = fl + ["-DVP_IMPL"] if s.endswith("vp_cbmc.c") else nofix
        ok, o, msg = b.obj(s, flags)
        if not ok:
            return None, f"{s}: {msg}"
        objs.append(o)
    a = os.path.join(d, "a.gb")
    rc, o, e, _ = sh(["goto-cc", "--function", u.entry, *objs, "-o", a], 120)
    if rc != 0:
        return None, (o + e)[-4000:]
    cmds = []
    if u.remove:
        cmds.append(["goto-instrument", *[f"--remove-function-body {x}" for x in u.remove]])
    for x in u.instrument:
        cmds.append(["goto-instrument", *x.split()])
    if u.dfcc:
        c = ["goto-instrument", "--dfcc", u.entry]
        if u.enforce:
            c += ["--enforce-contract-rec" if u.rec else "--enforce-contract", u.enforce]
        for r in u.replace:
            c += ["--replace-call-with-contract", r]
        if u.loops:
            fns = {}
            rc, o, e, _ = sh(["goto-instrument", "--show-symbol-table", a], 120)
            syms = re.findall(r"^Symbol\.*: (\S+)", o, re.M)
            for _, fn, lc in u.loops:
                lc = dict(lc, symbol_map=";".join(symbol(syms, fn, x) for x in lc["symbol_map"].split(";")))
                fns.setdefault(fn, []).append(lc)
            lf = os.path.join(d, "loops.json")
            json.dump({"sources": sorted({f"{REPO}/src/{x[0]}" for x in u.loops}), "functions": [fns]}, open(lf, "w"))
            c += ["--apply-loop-contracts", "--loop-contracts-file", lf]
        cmds.append(c)
    cmds.append(["goto-instrument", "--drop-unused-functions"])
    for i, c in enumerate(cmds):
        n = os.path.join(d, f"i{i}.gb")
        rc, o, e, _ = sh([*c, a, n], 300)
        if rc != 0:
            return None, " ".join(c) + ": " + (o + e)[-4000:]
        a = n
    return a, ""


def symbol(syms, fn, entry):
    """NAME,fn::NAME -> NAME and the symbol NAME has within fn, in whichever block it is declared (NAME#k: the k-th of that name)"""
    name, full = entry.split(",")
    if "::" not in full or full in syms:
        return entry
    k = int(full.split("#")[1]) if "#" in full else 0
    base = full.split("::")[-1].split("#")[0]
    hits = sorted({x for x in syms if re.fullmatch(re.escape(fn) + r"::(\d+::)*" + re.escape(base), x)})
    return f"{name.split('#')[0]},{hits[min(k, len(hits) - 1)]}" if hits else entry


RES = re.compile(r"^\[(\S+)\] (?:file \S+ )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")


def parse(out):
    """CBMC's result lines; nothing unless its own count of obligations and its verdict agree with them"""
    res, file = [], "?"
    for ln in out.splitlines():
        m = RES.match(ln)
        if m:
            res.append(dict(property=m[1], description=m[3], status=m[4], sourceLocation=dict(file=file, line=m[2] or "?")))
        elif " function " in ln and not ln.startswith("["):
            file = ln.split(" function ")[0]
    m = re.search(r"^\*\* (\d+) of (\d+) failed", out, re.M)
    ended = "VERIFICATION SUCCESSFUL" in out or "VERIFICATION FAILED" in out
    if not m or not ended or int(m[2]) != len(res) or int(m[1]) != sum(p["status"] != "SUCCESS" for p in res):
        return None, out[-600:]
    return res, ""


def cbmc_cmd(u, gb, unwind, objbits, extra=()):
    c = ["cbmc", gb, "--no-malloc-may-fail", "--unwind", str(unwind), "--unwinding-assertions",
         *([] if u.dfcc else ["--max-field-sensitivity-array-size", str(u.fsize)]), "--object-bits", str(objbits)]
    if u.solver:
        c += u.solver.split()
    for k, v in (u.unwindset or {}).items():
        c += ["--unwindset", f"{k}:{v}"]
    return c + list(u.cbmc) + list(extra)


def is_unwind(p):
    return ".unwind." in p["property"] or "unwinding assertion" in p["description"] or "recursion unwinding" in p["description"]


def is_cover(p):
    return p["description"].startswith("VPCOVER")


def run_case(b, case, tier):
    u = case.unit
    r = dict(case=case.name, unit=u.name, fix=case.fix, status=None, total=0, discharged=0, failed=[], notes=[],
             solver_s=0.0, cover=None, unwind=u.unwind)
    d = tempfile.mkdtemp(dir=b.tmp)
    gb, msg = goto_binary(b, case, d)
    if gb is None:
        r["status"] = BUILD_ERR
        r["notes"].append("cannot be built for the verifier: " + msg)
        return r
    r["gb"] = gb
    unwind, objbits = u.unwind, u.objbits
    tries = 0
    while True:
        left = DEADLINE - time.time()
        to = min(u.timeout * (3 if tier == "thorough" else 1), max(5, left))
        rc, out, err, secs = sh(cbmc_cmd(u, gb, unwind, objbits), to)
        r["solver_s"] += secs
        r["cmd"] = " ".join(cbmc_cmd(u, "<unit>", unwind, objbits))
        r["objbits"] = objbits
        res, msgs = parse(out)
        if rc is not None and res is None and "too many addressed objects" in out + err and objbits < 12:
            objbits += 2
            continue
        if rc is None or res is None:
            r["status"] = UNDEC
            r["notes"].append("verifier gave no verdict: " + ("timeout" if rc is None else (msgs + err)[-600:]))
            return r
        cov = [p for p in res if is_cover(p)]
        real = [p for p in res if not is_cover(p)]
        bad = [p for p in real if p["status"] != "SUCCESS"]
        r["total"] = len(real)
        r["discharged"] = len(real) - len(bad)
        r["cover"] = None if not cov else all(p["status"] == "FAILURE" for p in cov)
        r["unwind"] = unwind
        hard = [p for p in bad if p["status"] == "FAILURE" and not is_unwind(p)]
        nobody = [p for p in hard if "no-body" in p["property"] or "no body for" in p["description"]]
        hard = [p for p in hard if p not in nobody]
        # the code uses a replaced function in a way its stub does not cover: nothing this run says about the rest counts
        model = [p for p in hard if p["description"].startswith("VP model.")]
        hard = [p for p in hard if p not in model]
        if model:
            r["notes"].append("outside a stub's contract: " + ", ".join(p["description"] for p in model[:3]))
            nobody = nobody + model
        if nobody:
            r["notes"].append("callee without a body: " + ", ".join(p["description"] for p in nobody))
        if not bad:
            r["status"] = OK
            return r
        if not hard:
            unw = [p for p in bad if is_unwind(p)]
            if unw and tries < 2 and not nobody:
                tries += 1
                unwind *= 2
                continue
            r["status"] = UNDEC
            r["notes"].append("not discharged: " + "; ".join(p["property"] + " " + p["description"] for p in bad[:5]))
            return r
        r["status"] = FAIL
        r["nobody"] = bool(nobody)
        hard.sort(key=lambda p: (not p["description"].startswith("VP "), p["property"]))
        r["failed"] = [dict(property=p["property"], description=p["description"],
                            loc="{}:{}".format(os.path.basename(p.get("sourceLocation", {}).get("file", "?")),
                                               p.get("sourceLocation", {}).get("line", "?"))) for p in hard]
        return r


def trace_inputs(u, gb, unwind, objbits, prop):
    rc, out, err, _ = sh(cbmc_cmd(u, gb, unwind, objbits, ["--json-ui", "--trace", "--property", prop]), 200)
    try:
        js = json.loads(out)
    except Exception:
        return None, None
    for x in js:
        if "result" in x:
            for p in x["result"]:
                if p["property"] == prop and "trace" in p:
                    vals = []
                    for s in p["trace"]:
                        if s.get("stepType") == "assignment" and s.get("lhs", "").startswith("vp_in_value"):
                            v = s.get("value", {})
                            if s.get("sourceLocation", {}).get("function") in ("vp_input", "vp_choice"):
                                bits = v.get("binary")
                                vals.append(int(bits, 2) if bits else int(re.sub(r"[^0-9-]", "", v.get("data", "0"))))
                    return vals, p["trace"]
    return None, None


def native_build(b, u):
    """the harness and the real sources, gcc + ASan + UBSan; every object is compiled once per run of the driver"""
    with b.lock:
        ent = b.exes.setdefault(u.name, [threading.Lock(), None])
    with ent[0]:
        if ent[1] is None:
            ent[1] = native_build_(b, u)
        return ent[1]


def native_build_(b, u):
    san = ["-g", "-O1", "-w", "-std=gnu11", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
           "-fno-sanitize=alignment,shift", "-fno-sanitize-recover=all"]
    fl = cflags(u, None, True) + san
    srcs = []
    for x in u.srcs + u.native_srcs:
        if x == "@all":
            g = b.gen()
            if g is None:
                return None, "flex/bison failed: " + b.genmsg
            fl = fl + [q(f"-I{g}")]
            for root, _, fs in sorted(os.walk(f"{REPO}/src")):
                srcs += [os.path.join(root, f) for f in sorted(fs) if f.endswith(".c") and "/main" not in root]
            srcs += [f"{g}/midorisql.tab.c", f"{g}/midorisql.yy.c"]
        else:
            srcs.append(f"{REPO}/src/{x}")
    srcs = [x for x in dict.fromkeys(srcs) if os.path.relpath(x, f"{REPO}/src") not in u.native_skip]
    jobs = [(f"{VERIF}/units/{u.harness}", fl)] + [(x, fl) for x in srcs] + [(f"{VERIF}/vp/{x}", fl) for x in u.native_stubs]
    jobs.append((f"{VERIF}/vp/vp_native.c", [f"-I{VERIF}/vp/include", f"-DVP_ENTRY={u.entry}", f"-DVP_BATCH={u.batch}"] + san[:5] + [san[5]]))
    with cf.ThreadPoolExecutor(4) as ex:
        done = list(ex.map(lambda j: b.obj(j[0], j[1], "gcc"), jobs))
    for (src, _), (ok, o, msg) in zip(jobs, done):
        if not ok:
            return None, f"{src}: {msg[-2000:]}"
    exe = os.path.join(b.tmp, "x_" + u.name)
    rc, out, err, _ = sh(["gcc", "-fsanitize=address,undefined", *[o for _, o, _ in done], "-lpthread", "-lm", "-o", exe], 180, mem=False)
    return (exe, "") if rc == 0 else (None, err[-3000:])


ENV = "env ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:exitcode=98 UBSAN_OPTIONS=halt_on_error=1:exitcode=98 TZ=UTC "


def native_replay(exe, inputs, d):
    f = os.path.join(d, "inputs")
    open(f, "w").write("\n".join(map(str, inputs)) + "\n")
    rc, out, err, _ = sh([ENV + exe, "replay", f], 60, mem=False)
    return rc == 1, (out + err)[-3000:]


def native_search(exe, seed, chunk, runs, secs, d):
    f = os.path.join(d, f"found{chunk}")
    rc, out, err, _ = sh([ENV + exe, "search", str(seed * 1000000 + chunk), "8", str(runs), str(int(secs)), f], secs + 90, mem=False)
    text = (out + err)
    if rc == 1 and os.path.exists(f):
        return [int(x) for x in open(f).read().split()], text[-6000:], 0, 0
    m = re.search(r"SEARCH-NONE runs=(\d+) discards=(\d+)", text)
    return None, text[-1500:], int(m.group(1)) if m else 0, int(m.group(2)) if m else 0


def run_chunk(b, u, chunk, seed, tier):
    """bounded run-time check of the unit's contract on the natively compiled code"""
    r = dict(case=f"{u.name}<run {chunk}>", unit=u.name, fix=None, status=None, total=0, discharged=0, failed=[], notes=[],
             solver_s=0.0, cover=None, unwind=0, executions=0, discards=0, run=True)
    exe, msg = native_build(b, u)
    if not exe:
        r["status"] = BUILD_ERR
        r["notes"].append("cannot be built natively: " + msg)
        return r
    k = 8 if tier == "thorough" else 1
    inputs, out, n, disc = native_search(exe, seed, chunk, max(1, u.run * k // 8), min(u.run_secs * k, max(5, DEADLINE - time.time())), b.tmp_for(u, chunk))
    r["executions"], r["discards"] = n, disc
    if inputs is not None:
        r["status"] = FAIL
        m = re.search(r"SEARCH-FOUND: (.*) \(run", out)
        r["failed"] = [dict(property="run", description="VP " + (m.group(1) if m else "?"), loc="")]
        r["inputs"], r["out"] = inputs, out
    else:
        r["status"] = OK
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit")
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    units = [u for u in registry.units(a.tier) if a.prop in u.props and (not a.unit or u.name == a.unit)]
    if not units:
        print("no unit for", a.prop)
        return 2
    tmp = tempfile.mkdtemp(prefix=f"vp-{a.prop}-")
    try:
        return decide(a, seed, t0, units, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(a, seed, t0, units, tmp):
    b = Builder(tmp)
    cases = [Case(u, f) for u in units if u.kind != "run" for f in u.cases(a.tier)]
    cases.sort(key=lambda c: -c.unit.weight)
    jobs = [(run_chunk, (b, u, k, seed, a.tier)) for u in units if u.run for k in range(8)]
    jobs += [(run_case, (b, c, a.tier)) for c in cases]
    results = []
    with cf.ThreadPoolExecutor(CPUS) as ex:
        for r in ex.map(lambda j: j[0](*j[1]), jobs):
            results.append(r)
            if a.verbose:
                print(f"  {r['case']}: {r['status']} {r['discharged']}/{r['total']} {r['solver_s']:.1f}s runs={r.get('executions')}/{r.get('discards')} cover={r['cover']} "
                      f"{[f['description'] for f in r['failed']][:4]} {r['notes'][:2]}", flush=True)
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    byname = {u.name: u for u in units}
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    violations, notes, knownhit = [], [], {}

    # failing units: one native build per unit; every failing case gets its counterexample replayed until one reproduces
    def triage(u, rs):
        d = tempfile.mkdtemp(dir=tmp)
        exe, msg = (None, "no native form (modular unit)") if not u.native else native_build(b, u)
        log = [] if exe else ["native build: " + msg]
        found = None
        for r in rs:
            if r["status"] == FAIL and r.get("run"):
                return (r, r["failed"][0], r["inputs"], r["out"]), log
        tried = 0
        if exe:
            for r in rs:
                if r["status"] != FAIL:
                    continue
                seen = set()
                for f in r["failed"]:
                    kind = f["description"] if f["description"].startswith("VP ") else f["property"].split(".")[0]
                    if kind in seen or tried >= 6 or time.time() > DEADLINE - 60:
                        continue
                    seen.add(kind)
                    tried += 1
                    inputs, _ = trace_inputs(u, r["gb"], r["unwind"], r["objbits"], f["property"])
                    if inputs is None:
                        log.append(f"{f['property']}: no counterexample trace")
                        continue
                    bad, out = native_replay(exe, inputs, d)
                    log.append(f"{f['property']} {f['description']}: replay of {len(inputs)} inputs: {out.strip()[-400:]}")
                    if bad:
                        found = (r, f, inputs, out)
                        break
                if found:
                    break
            if not found:
                with cf.ThreadPoolExecutor(8) as ex:
                    hits = list(ex.map(lambda k: native_search(exe, seed, 100 + k, 10**9, min(u.search, max(1, DEADLINE - time.time())),
                                                               b.tmp_for(u, 100 + k)), range(8)))
                inputs, out = next(((i, o) for i, o, _, _ in hits if i is not None), (None, hits[0][1]))
                log.append("search: " + out.strip()[-400:])
                if inputs is not None:
                    r = rs[0]
                    f = r["failed"][0] if r["failed"] else dict(property="-", description="found by the search", loc="")
                    found = (r, f, inputs, out)
        return found, log

    for u in units:
        rs = [r for r in results if r["unit"] == u.name]
        fails = [r for r in rs if r["status"] == FAIL]
        undec = [r for r in rs if r["status"] in (UNDEC, BUILD_ERR)]
        # known findings: specific unit + obligation (+ case)
        for r in fails:
            keep = []
            for f in r["failed"]:
                k = next((k for k in known if k["property"] == a.prop and k["unit"] == u.name
                          and re.fullmatch(k["obligation"], f["description"])
                          and (k.get("case") is None or k["case"] == r["fix"])), None)
                if k:
                    knownhit[k["what"]] = k
                else:
                    keep.append(f)
            r["failed"] = keep
        fails = [r for r in fails if r["failed"]]
        if not fails and not undec:
            continue
        for r in undec:
            notes.append(f"{r['case']}: {r['status']}: {'; '.join(r['notes'])}")
        found, log = triage(u, fails if fails else undec)
        notes += [f"{u.name}: {x}" for x in log]
        if found:
            r, f, inputs, out = found
            name = f"{a.prop}-{u.name}"
            path = os.path.join(VERIF, "replays", name + ".txt")
            with open(path, "w") as fh:
                fh.write(f"property {a.prop}\nunit {r['case']} (units/{u.harness}, entry {u.entry})\n"
                         f"failed obligation: {f['property']} {f['description']} at {f['loc']}\n"
                         f"on the real code: {out.strip()}\n"
                         f"to replay: python3 {VERIF}/vp/replay.py {u.name} {path}\ninputs:\n" + "\n".join(map(str, inputs)) + "\n")
            violations.append((path, "", f["description"]))
        elif fails:
            hard = [r for r in fails if not r.get("nobody")]
            if not hard:
                notes.append(f"{u.name}: obligations fail only with an unmodelled callee; not counted as a violation")
                continue
            if u.soft:
                notes.append(f"{u.name}: NOT RE-PROVED ({hard[0]['failed'][0]['description']}); bounded units decide")
                continue
            path = os.path.join(VERIF, "replays", f"{a.prop}-{u.name}.txt")
            with open(path, "w") as fh:
                fh.write(f"property {a.prop}\nunit {hard[0]['case']} (units/{u.harness})\n")
                for r in hard:
                    for f in r["failed"]:
                        fh.write(f"failed obligation: {r['case']}: {f['property']} {f['description']} at {f['loc']}\n")
                fh.write("no failing input reproduced on the real code\n" + "\n".join(log) + "\n")
            violations.append((path, " no-failing-input-found", hard[0]["failed"][0]["description"]))

    vac = [r["case"] for r in results if r["status"] == OK and r["cover"] is False]
    proof = [r for r in results if byname[r["unit"]].kind == "proof"]
    bounded = [r for r in results if byname[r["unit"]].kind != "proof"]
    level, assumptions = registry.PROPS[a.prop]["level"], registry.PROPS[a.prop].get("assumptions", [])
    tot = sum(r["total"] for r in results)
    dis = sum(r["discharged"] for r in results)
    cov = {
        "obligations": tot if level != "proof" else sum(r["total"] for r in proof),
        "discharged": dis if level != "proof" else sum(r["discharged"] for r in proof),
        "checker_cmd": next((r["cmd"] for r in results if "cmd" in r), "cbmc"),
        "trusted_base": registry.TRUSTED,
        "backend": "CBMC 6.11.0 (SAT back end unless a unit names another)",
        "solver_seconds": round(sum(r["solver_s"] for r in results), 1),
        "units": [{
            "unit": u.name, "kind": u.kind, "bound": u.bound, "functions_under_contract": u.functions,
            "cases": len([r for r in results if r["unit"] == u.name]),
            "obligations": sum(r["total"] for r in results if r["unit"] == u.name),
            "discharged": sum(r["discharged"] for r in results if r["unit"] == u.name),
            "solver_seconds": round(sum(r["solver_s"] for r in results if r["unit"] == u.name), 1),
            "executions": sum(r.get("executions", 0) for r in results if r["unit"] == u.name),
            "executions_discarded_by_precondition": sum(r.get("discards", 0) for r in results if r["unit"] == u.name),
            "reachability_checked": all(r["cover"] for r in results if r["unit"] == u.name),
        } for u in units],
        "proved_obligations": sum(r["discharged"] for r in proof),
        "runtime_checked_executions": sum(r.get("executions", 0) for r in results),
        "bounded_obligations": sum(r["discharged"] for r in bounded),
        "functions_under_contract": sorted({f for u in units for f in u.functions}),
        "undecided": notes,
        "vacuous": vac,
        "explanation": registry.PROPS[a.prop]["explanation"],
    }
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions + sorted({x for u in units for x in u.assumes}), "wall_s": round(time.time() - t0, 1),
          "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    for n in notes + [f"vacuous: {v}" for v in vac]:
        print("note:", n[:600])
    for w in knownhit:
        print(f"KNOWN-FINDING: property={a.prop} {w}")
    print(f"{a.prop}: {dis}/{tot} obligations discharged in {len([r for r in results if not r.get('run')])} verifier runs, "
          f"{cov['runtime_checked_executions']} run-time checked executions "
          f"({len(units)} units), {ev['wall_s']} s")
    for path, suffix, d in violations:
        print("  failed:", d)
    if violations:
        # a violation with a failing input speaks first
        violations.sort(key=lambda v: v[1])
        for path, suffix, d in violations:
            print(f"VIOLATION property={a.prop} replay={path}{suffix}")
        return 1
    if sum(r["total"] for r in results) == 0:
        print("note: no obligation was generated")
    return 0


if __name__ == "__main__":
    sys.exit(main())
