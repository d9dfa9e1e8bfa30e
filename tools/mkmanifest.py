#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has checks/<id>.py."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "checks.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and i in notes:
        n = notes[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check %s" % i,
                       "thorough_cmd": "python3 bin/check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": "the specification and conformance check for it are not built yet"})
m = {"version": 1, "setup_cmd": "python3 bin/setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in specs/, drivers in drivers/, one script per property in checks/. "
              "See DESIGN.md; known_findings.txt lists defects found and fixed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
