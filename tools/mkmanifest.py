#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the registry of units and properties.jsonl"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vp")
import registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
    "C24": "The scanner and parser are tables and drivers generated by flex and bison; their meaning is in the .l/.y rules, for which no contract verifier is installed, and the generated automata (thousands of table-driven transitions over unbounded input) are beyond CBMC with contracts. Every statement-level run-time check goes through them, but nothing is claimed about them.",
    "C25": "MidoriDB takes no lock while executing statements (database_lock/table_lock have no callers and the database mutex is never initialised), so the property does not hold by design; thread interleavings are also outside sequential function contracts.",
}
checks = []
na = [dict(property=k, reason=v) for k, v in NA.items()]
for p in props:
    i = p["id"]
    if i in NA:
        continue
    if i not in registry.PROPS:
        na.append(dict(property=i, reason="not yet claimed: its units are still being written"))
        continue
    us = [u for u in registry.units("thorough") if i in u.props]
    assert us, i
    pr = registry.PROPS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 vp/run.py {i} --tier quick", thorough_cmd=f"python3 vp/run.py {i} --tier thorough",
                       technique=pr["technique"], level=pr["level"], level_note=pr["note"]))
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^verification hook"], capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd="python3 vp/setup.py",
         hooks=dict(guard="MIDORIDB_VERIF_SMALL", enable="-DMIDORIDB_VERIF_SMALL=<page bytes> on the goto-cc / gcc command line of the bounded units (vp/run.py); proof and full-size units leave it off",
                    source_commits=hooks),
         checks=checks, not_applicable=na,
         notes="Contract-based deductive verification with CBMC (goto-cc/goto-instrument --dfcc/cbmc) of /repo's own sources; see DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
