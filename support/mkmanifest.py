#!/usr/bin/env python3
"""Writes MANIFEST.json from engine/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "engine"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("Every obligation of the listed contracts is discharged by z3 for all inputs, with loops cut by invariants; obligations are generated "
        "from the LLVM IR of /repo's current source on every run. Trusted: clang/mem2reg, the obligation generator, z3, contracts of GMP, libc and libffi; "
        "recursive calls are assumed to meet the evaluator's contract (partial correctness). %s")
checks, na = [], []
for i in ids:
    P = props.PROPS.get(i)
    if P is None:
        na.append({"property": i, "reason": props.NOT_APPLICABLE[i]})
        continue
    checks.append({"property": i, "quick_cmd": "/opt/veriftools/pyvenv/bin/python3 check.py %s" % i,
                   "thorough_cmd": "/opt/veriftools/pyvenv/bin/python3 check.py %s --thorough" % i,
                   "technique": P.get("technique", "contracts on the real C functions, discharged by a deductive verifier over their LLVM IR (z3)"),
                   "level": P["level"], "level_note": NOTE % P.get("note", "")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks: /repo carries no instrumentation; its commits are fixes only (known-findings.txt)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
