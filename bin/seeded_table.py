#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded_results.json (by hand, after bin/trybugs.sh)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(V, "seeded_results.json")))
rows = ["| bug | breaks | needs | engine A | engine B |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    d = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    r = res.get(i, {"a": "?", "b": "?"})
    rows.append("| %s | %s | %s | %s | %s |" % (i, d["what_it_breaks"], d["needs"], r["a"], r["b"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
