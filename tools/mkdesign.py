#!/usr/bin/env python3
"""Refreshes the property table between the markers of DESIGN.md from design_table.json."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
t = json.load(open(os.path.join(V, "tools", "design_table.json")))
m = json.load(open(os.path.join(V, "tools", "measured.json")))


def figures(x):
    n = ["%d s" % x["wall_s"]]
    if "states" in x:
        n.append("%d model states" % x["states"])
    if "spec_transitions_emitted" in x:
        n.append("%d of %d model transitions replayed" % (x["spec_transitions_replayed"], x["spec_transitions_emitted"]))
    if "events_validated" in x:
        n.append("%d recorded events validated" % x["events_validated"])
    if "schedules_run" in x:
        n.append("%d schedules, %d programs cut at the limit" % (x["schedules_run"], x.get("programs_cut_at_limit", 0)))
    return ", ".join(n)


rows = "\n".join("| %s | %s |" % (k, " | ".join(v[:3] + [figures(m[k])] + v[3:])) for k, v in t.items())
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
block = "<!-- table -->\n| id | specified / generated | oracle | bounds (quick) | measured (quick, unchanged tree) | beyond unit tests |\n|----|----|----|----|----|----|\n" + rows + "\n<!-- /table -->"
if "<!-- table -->" in s:
    s = re.sub(r"<!-- table -->.*?<!-- /table -->", lambda m: block, s, flags=re.S)
else:
    s = re.sub(r"\| id \|.*DESIGN_TABLE", lambda m: block, s, flags=re.S)
open(p, "w").write(s)
