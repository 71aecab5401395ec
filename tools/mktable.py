#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (section 8) from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property = catching check | what it breaks | needs |", "|---|---|---|---|"]
sd = os.path.join(here, "seeded")
cl = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|").strip()
for n in sorted(os.listdir(sd), key=lambda s: (int(re.sub(r"\D", "", s) or 0), s)):
    p = os.path.join(sd, n, "meta.json")
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append("| %s | %s | %s | %s |" % (n, m["property"], cl(m["what_it_breaks"]), cl(m["needs"])))
f = os.path.join(here, "DESIGN.md")
t = open(f).read()
a, b = "<!-- table -->", "<!-- /table -->"
if "@@TABLE@@" in t:
    t = t.replace("@@TABLE@@", a + "\n" + b)
i, j = t.index(a) + len(a), t.index(b)
open(f, "w").write(t[:i] + "\n" + "\n".join(rows) + "\n" + t[j:])
print(len(rows) - 2, "bugs")
