#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, "seeded")
rows = ["| bug | property | what it breaks | needs |", "|---|---|---|---|"]
for b in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, b, "meta.json")))
    c = lambda t: t.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], c(m["what_it_breaks"]), c(m["needs"])))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
new, n = re.subn(r"\| bug \| property .*?\n\n", lambda _: "\n".join(rows) + "\n\n", s, flags=re.S)
assert n == 1
open(p, "w").write(new)
