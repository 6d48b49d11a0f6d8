#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, harness/entries.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = json.load(open(os.path.join(V, "harness", "entries.json")))
NA = {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if t.get(p, {}).get("quick"):
        checks.append({
            "property": p,
            "quick_cmd": "python3 bin/check.py %s quick" % p,
            "thorough_cmd": "python3 bin/check.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "symbolic execution of the LLVM IR compiled from the real code, every branch and assertion decided by z3",
            "level": "model_checking",
            "level_note": t[p].get("note", "Exhaustive within the bounds listed per harness in the evidence; trusts the engine in sx/, z3, rustc and the environment model in stub/."),
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check yet")})
json.dump({"version": 1, "setup_cmd": "python3 bin/check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Counterexamples are replayed on natively compiled code before they are reported. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
