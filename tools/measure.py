#!/usr/bin/env python3
"""Copies the figures of the last quick runs from evidence/ to measured.json, for DESIGN.md. Runs that reported a
violation (say, on a seeded change) or another tier are refused: run the checks on the unchanged tree first."""
import glob, json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
out, bad = {}, []
for p in json.load(open(os.path.join(V, "tools", "design_table.json"))):
    f = os.path.join(V, "evidence", p + ".json")
    d = json.load(open(f)) if os.path.exists(f) else {}
    if d.get("violations") != 0 or d.get("tier") != "quick":
        bad.append(p)
        continue
    c = d["coverage"]
    out[p] = {"wall_s": round(d["wall_s"])}
    for k in ("states", "transitions", "spec_transitions_emitted", "spec_transitions_replayed", "answers_compared", "traces_validated_against_impl", "events_validated",
              "configurations", "schedules_run", "programs_cut_at_limit"):
        if c.get(k):
            out[p][k] = c[k]
if bad:
    sys.exit("no clean quick run: " + " ".join(bad))
json.dump(out, open(os.path.join(V, "tools", "measured.json"), "w"), indent=1)
