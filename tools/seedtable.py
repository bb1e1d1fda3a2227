#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (documentation
only; no check runs this)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, E = "<!-- seeds -->", "<!-- /seeds -->"
MISSED = set(sys.argv[1:])
rows = ["| bug | what it breaks | needs | own check |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", i, "meta.json")))
    c = lambda s: str(s).replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s %s |" % (i, c(m["what_it_breaks"]), c(m["needs"]), m["property"],
                                             "missed" if i in MISSED else "caught"))
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
t = B + "\n" + "\n".join(rows) + "\n" + E
s = s.replace("SEEDTABLE", t) if B not in s else s[:s.index(B)] + t + s[s.index(E) + len(E):]
open(p, "w").write(s)
