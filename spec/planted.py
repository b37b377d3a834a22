#!/usr/bin/env python3
"""Writes the section "Planted bugs" of DESIGN.md from the folders of seeded/
and spec/planted.json (which harness reported each, from a sweep of all).
Used by hand; no check reads any of it."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/spec/planted.json"))
rows = {}
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    r = res["caught"].get(i, "not run yet")
    first = res["missed_first"].get(i)
    t = f"* `{i}`: {m['what_it_breaks'].rstrip('.')} *(needs {m['needs'].rstrip('.')})*: {r}"
    if first:
        t += f". First missed; {first}"
    rows.setdefault(m["property"], []).append(t + ".")
n = sum(map(len, rows.values()))
out = [f"{n} planted bugs, each by the property it was written for; after the colon the harness (and case) of that property's check",
       "that reports it first, and the assertion that fails there. They were written from the statements and the code; where one was",
       "missed at first, the check was strengthened as noted.\n"]
for p in sorted(rows):
    out += rows[p] + [""]
d = open(V + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- planted end -->\n"
d = d[: d.index(a) + len(a)] + "\n" + "\n".join(out) + d[d.index(b):]
open(V + "/DESIGN.md", "w").write(d)
