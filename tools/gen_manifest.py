#!/usr/bin/env python3
"""writes MANIFEST.json from the property list, the plans and the reasons below"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import plans
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = "solver-based checking: symbolic execution of the real code's LLVM IR (own executor, Z3 bit-vectors) over "
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i not in plans.CLAIMED:
        na.append({"property": i, "reason": plans.NOT_APPLICABLE.get(i, "no check yet")})
        continue
    what, note = plans.CLAIMED[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH + what, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 -c 'import lcv; print(lcv.engine())'", "checks": checks, "not_applicable": na,
     "notes": "Bounded symbolic execution; bounds per job in each evidence file (coverage.jobs); everything outside them is outside the claim. No hooks in /repo: the seams are compiler-level (rt/lc_shim.h). known_findings.json lists recorded and repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
