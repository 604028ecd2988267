#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the contract modules present."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(H, "properties.jsonl"))]
NA = {}
checks, na = [], []
NOTE = ("contracts (contracts/%s.py) on the real functions, executed symbolically from /repo's current source for all "
        "inputs (symbolic sizes, loop rule, no bound); obligations discharged by an exact algebraic normaliser with z3; "
        "floating point treated as exact arithmetic; NumPy/SciPy/... contracts assumed (qverify/npmodel.py, "
        "libmodel.py); each contract is also replayed on the real code with sampled inputs")
EXTRA = json.load(open(os.path.join(H, "tools", "level_notes.json"))) if os.path.exists(
    os.path.join(H, "tools", "level_notes.json")) else {}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "contracts", i.lower() + ".py")) and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s quick" % i,
                       "thorough_cmd": "python3-vt check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "contract-based deductive verification (symbolic execution of the real source, z3)",
                       "level": "proof", "level_note": NOTE % i.lower() + EXTRA.get(i, "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "contracts not written yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3, numpy'", "checks": checks, "not_applicable": na},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
