#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/*/harness.json and the not-applicable list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
na = json.load(open(f"{V}/tools/not_applicable.json"))
notes = json.load(open(f"{V}/tools/level_notes.json"))
checks, nal = [], []
for p in props:
    i = p["id"]
    f = f"{V}/harness/{i}/harness.json"
    if os.path.exists(f) and i not in na:
        json.load(open(f))
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} -tier quick",
            "thorough_cmd": f"./check.sh {i} -tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the real code's SSA with SMT solving (z3/cvc5) of every branch and assertion, bounded; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": notes.get(i, notes["default"]),
        })
    else:
        nal.append({"property": i, "reason": na.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: harnesses and schedule points are added by a go -overlay built from /repo's current tree on every run", "source_commits": []},
     "checks": checks, "not_applicable": nal,
     "notes": "One engine (gosym) decides every claimed property; see DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
