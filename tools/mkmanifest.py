#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan of the checks and the list of properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
import plan
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.CHECKS:
        c = plan.CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 driver/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 driver/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "property-based testing: generated inputs against a reference model, with shrinking and replay"),
            "level": "exploration",
            "level_note": c.get("note", "Held on every generated case of the run; no claim beyond the cases generated. Trusts the "
                                "reference model of /verif/harness, the compiler and yaml-cpp."),
        })
    else:
        na.append({"property": i, "reason": plan.NOT_APPLICABLE.get(i, "not claimed yet: its check is under construction")})
m = {"version": 1,
     "setup_cmd": "python3 driver/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds the programs it needs from /repo's working tree; no hooks are needed in /repo."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
