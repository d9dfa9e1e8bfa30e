#!/usr/bin/env python3
"""Refreshes the table of planted changes in DESIGN.md. Argument: a log with one line per change,
"<id> <property> exit <code> ...", from running that property's check on the changed tree."""
import json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
got = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (P\d+) exit (\d+)", l)
    if m:
        got[m[1]] = m[3]
rows = []
for i in os.listdir(os.path.join(V, "seeded")):
    d = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    said = {"1": "caught", "0": "missed"}.get(got.get(i), "not decided (exit %s)" % got.get(i))
    rows.append((d["property"], i, d["needs"], said))
block = "<!-- seeds -->\n| property | change | needs | its check |\n|----|----|----|----|\n" + \
    "\n".join("| %s |" % " | ".join(r) for r in sorted(rows)) + "\n<!-- /seeds -->"
p = os.path.join(V, "DESIGN.md")
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda m: block, open(p).read(), flags=re.S)
open(p, "w").write(s)
