#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py (what is claimed) and properties.jsonl (what exists)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
T = "model checking of the implementation: exhaustive enumeration within stated bounds, every execution compared with a reference model"
NOTE = {
 "S01": "Every expression tree of the stated depth over the operator alphabet and operand kinds, at every point of the value grid; oracle: long-double reference interpreter. Trusts the reference, the value grid and the tolerance.",
 "S02": "As S01, for DevalF; oracle: analytic derivative of the reference tree with conditioning-aware tolerance.",
 "S03": "As S01, for PreComp/DevalR/PreCompCache, with sharing patterns, wide and deep expressions.",
 "S04": "As S01, for SymDiff to second and third order, re-evaluated at every other grid point.",
 "S05": "All operation histories up to the bound over several worlds of expressions sharing sub-expressions; every query compared with the value a fresh computation gives.",
 "S06": "All histories of redefinitions, self-assignments and queries up to the bound, and loops up to 40/60 steps, against a composed-formula model.",
 "S07": "All histories of handle operations (assign, copy, move, alias, swap) and queries up to the bound against a store model.",
}
TECH = {
 "S05": "explicit-state exploration of the real library: all operation histories up to a depth, reference model compared at every query",
 "S06": "explicit-state exploration of the real library: all redefinition/query histories up to a depth against a formula model",
 "S07": "explicit-state exploration of the real library: all handle-operation histories up to a depth against a store model",
}
sys.path.insert(0, os.path.join(V, "tools"))
try:
    from notes import NOTE as N2, TECH as T2; NOTE.update(N2); TECH.update(T2)
except ImportError: pass
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in CHECKS:
        checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p, evidence_file="evidence/%s.json" % p, technique=TECH.get(p, T), level="model_checking", level_note=NOTE[p]))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[dict(property=p, reason="see DESIGN.md") for p in props if p not in CHECKS],
         notes="Each check rebuilds library and harness from /repo's working tree into the ignored folder build/, enumerates its bounded space and rewrites its evidence file. No hooks are needed in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks")
