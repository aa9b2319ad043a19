"""Which units decide which property."""
import itertools

TRUSTED = [
    "CBMC 6.11.0 (goto-cc, goto-instrument, cbmc, its C library models, MiniSat)",
    "the harness text in /verif/units and the support code in /verif/vp",
    "goto-cc compiles the same source text gcc compiles; optimiser bugs of gcc are out of scope",
]

PROPS = {}
_UNITS = []


def loop(src, fn, idx, inv, assigns, decreases, local, globs=""):
    """a loop contract for the idx-th loop of fn: the invariant is over fn's own variables (named by their scope)"""
    m = [f"{x.split('::')[-1]},{fn}::{x}" for x in local.split()] + [f"{g},{g}" for g in globs.split()]
    return (src, fn, {"loop_id": str(idx), "invariants": inv, "decreases": decreases, "assigns": assigns, "symbol_map": ";".join(m)})


class Unit:
    def __init__(self, name, props, harness, functions, **k):
        self.name, self.props, self.harness, self.functions = name, props if isinstance(props, list) else [props], harness, functions
        self.kind = k.pop("kind", "bounded")
        self.bound = k.pop("bound", "")
        self.entry = k.pop("entry", "harness")
        self.srcs = k.pop("srcs", [])
        self.native_srcs = k.pop("native_srcs", [])
        self.stubs = k.pop("stubs", [])
        self.native_stubs = k.pop("native_stubs", [])
        self.small = k.pop("small", None)
        self.defs = k.pop("defs", [])
        self.unwind = k.pop("unwind", 20)
        self.unwindset = k.pop("unwindset", None)
        self.fsize = k.pop("fsize", 256)
        self.objbits = k.pop("objbits", 8)
        self.solver = k.pop("solver", None)
        self.cbmc = k.pop("cbmc", [])
        self.timeout = k.pop("timeout", 200)
        self.fixes = k.pop("fixes", None)
        self.fixes_thorough = k.pop("fixes_thorough", None)
        self.weight = k.pop("weight", 1)
        self.native = k.pop("native", True)
        self.search = k.pop("search", 15)
        self.dfcc = k.pop("dfcc", False)
        self.enforce = k.pop("enforce", None)
        self.rec = k.pop("rec", False)
        self.replace = k.pop("replace", [])
        self.loops = k.pop("loops", [])
        self.remove = k.pop("remove", [])
        self.instrument = k.pop("instrument", [])
        self.assumes = k.pop("assumes", [])
        self.run = k.pop("run", 0)  # native executions of the contract (quick tier)
        self.run_secs = k.pop("run_secs", 25)
        self.batch = k.pop("batch", 32)
        self.native_skip = k.pop("native_skip", [])
        self.soft = k.pop("soft", False)
        self.tiers = k.pop("tiers", ["quick", "thorough"])
        assert not k, k

    def cases(self, tier):
        f = self.fixes_thorough if tier == "thorough" and self.fixes_thorough else self.fixes
        return [None] if f is None else list(f)


def unit(*a, **k):
    u = Unit(*a, **k)
    _UNITS.append(u)
    return u


TECH = "contract-based deductive verification with CBMC"
BOUNDED = ("Contracts (pre/postconditions, frame, memory ownership) over the real functions, discharged by CBMC for all data values within "
           "stated structural bounds; the same contract is also run on full-size structures natively (labelled run-time check, never counted as proved).")


def prop(pid, level="other", explanation=BOUNDED, assumptions=(), technique=TECH, note=None):
    PROPS[pid] = dict(level=level, explanation=explanation, assumptions=list(assumptions), technique=technique, note=note or explanation)


def units(tier):
    return [u for u in _UNITS if tier in u.tiers]
