#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from spec/*.py."""
import json
import os
import sys

D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(D)
sys.path.insert(0, D)
import common  # noqa: E402
import apps  # noqa: E402
import cache  # noqa: E402
import rest  # noqa: E402
import runtime  # noqa: E402

props, checks, manifest, na = [], {}, [], []
for p in cache.PROPS + apps.PROPS + runtime.PROPS + rest.PROPS:
    props.append({
        "id": p["id"],
        "title": p["title"],
        "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {
            "files": p["files"],
            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
            **({"observe_at": p["observe"]} if "observe" in p else {}),
            "hook_needed": None,
        },
    })
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    c = {"group": p["group"], "bounds": p["bounds"], "harnesses": p["harnesses"]}
    if "assume" in p:
        c["assumptions"] = p["assume"]
    checks[p["id"]] = c
    manifest.append({
        "property": p["id"],
        "quick_cmd": f"python3 run_check.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run_check.py {p['id']}",
        "technique": "symbolic execution of the LLVM IR compiled from /repo, decided by Z3, counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Every path within the stated bounds, every assertion decided for all values on it. Bounds: "
        + p["bounds"] + " " + common.TRUST,
    })

ids = [p["id"] for p in props]
assert len(set(ids)) == len(ids)
for p in props:
    assert len(p["title"]) <= 80, p["title"]
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(V + "/checks.json", "w") as f:
    json.dump({"assumptions": common.ASSUME, "groups": common.GROUPS, "checks": checks}, f, indent=1)
    f.write("\n")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 run_check.py --setup", "checks": manifest,
               "not_applicable": na, "notes": common.NOTES}, f, indent=1)
    f.write("\n")

# The generated part of DESIGN.md.
from how import HOW  # noqa: E402
out = []
for p in cache.PROPS + apps.PROPS + runtime.PROPS + rest.PROPS:
    out.append(f"### {p['id']}: {p['title']}\n")
    if "na" in p:
        out.append(f"Not applicable: {p['na']}\n")
        continue
    out.append(f"*Decided by* {HOW[p['id']]}\n")
    q = ", ".join(f"`{h['name']}/{h['case']}`" for h in p["harnesses"] if "tier" not in h)
    t = ", ".join(f"`{h['name']}/{h['case']}`" for h in p["harnesses"] if "tier" in h)
    out.append(f"*Over* {p['quant']}. *Bounds:* {p['bounds']} *Quick:* {q}." + (f" *Thorough, in addition:* {t}." if t else "") + "\n")
    if "assume" in p:
        out.append("*Assumed:* " + "; ".join(p["assume"]) + ".\n")
    out.append(f"*Beyond tests:* {p['why']}\n")
d = open(V + "/DESIGN.md").read()
a, b = "<!-- generated from spec/ -->\n", "<!-- end -->\n"
if a in d:
    d = d[: d.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + d[d.index(b):]
    open(V + "/DESIGN.md", "w").write(d)
