#!/usr/bin/env python3
"""Rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json (run by hand)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
missed_first = set(open(os.path.join(V, "tools", "missed-first.txt")).read().split())
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s%s |" % (i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m["property"], ", after strengthening" if i in missed_first else ""))
t = "\n".join(["| change | what it breaks | needs | caught by |", "|---|---|---|---|"] + rows)
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeded -->\n", "\n<!-- /seeded -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + t + s[j:])
print(len(rows))
