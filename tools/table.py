#!/usr/bin/env python3
"""Rewrites the last section of DESIGN.md from seeded/*/meta.json and seeded-results.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(H + "/tools/seeded-results.json"))
rows = []
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, i)))
    c = res.get(i, {}).get("caught", {})
    by = ", ".join("%s (%ds)" % (k, v[2]) for k, v in sorted(c.items()) if v[0]) or "**none**"
    miss = m["property"] in c and not c[m["property"]][0]
    rows.append("| %s | %s | %s | %s%s |" % (i, m["what_it_breaks"], m["needs"], by, " (missed by its own)" if miss and by != "**none**" else ""))
d = open(H + "/DESIGN.md").read()
k = "## Planted changes and what catches them"
d = d[:d.index(k)] + k + """

Every change below builds, passes the stable tests, and has a demonstration that fails with it and passes
without it (`tools/seeded.py validate`). Detection is by the quick tier with seed 1 (`tools/seeded.py checks`);
the time is that of the whole check, build included.

| change | breaks | needs | caught by |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(H + "/DESIGN.md", "w").write(d)
