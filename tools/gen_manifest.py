#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import jobs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    s = jobs.PROPS.get(i)
    if not s or not s["jobs"]:
        na.append({"property": i, "reason": s["na"] if s and "na" in s else "no check built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": "bounded symbolic execution of the compiled crate (LLVM IR) with z3; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Holds for every value within the bounds in evidence (coverage.bounds), nothing is claimed beyond them. Outside: " + (s["outside"] or "larger sizes") + ".",
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the harness crate uses the public API only. known_findings.txt lists the recorded defects and the repairs.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
