#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design, the checks and the planted bugs. Costs are those of the last runs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + "/tools/design/"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
claimed = {c["property"] for c in man["checks"]}
oracles = json.load(open(D + "oracles.json"))
costs = json.load(open(D + "costs.json")) if os.path.exists(D + "costs.json") else {}
for f in glob.glob(V + "/evidence/*.json"):
    e = json.load(open(f))
    costs[e["property"]] = [len(e["coverage"]["harnesses"]), e["coverage"]["obligations"], round(e["wall_s"]),
                            round(e["coverage"].get("solver_time_s") or 0)]
json.dump(costs, open(D + "costs.json", "w"), indent=0, sort_keys=True)
out = [open(D + "head.md").read(), "\n## Properties\n"]
for p in props:
    i = p["id"]
    out.append("\n### %s %s\n" % (i, p["title"]))
    if i not in claimed:
        out.append("\nNot applicable: %s.\n" % next(n["reason"] for n in man["not_applicable"] if n["property"] == i))
        continue
    c = json.load(open(V + "/kani/props/%s/check.json" % i.lower()))
    o = oracles.get(i, ["", ""])
    out.append("\n* Files encoded: %s\n" % ", ".join("`%s`" % f for f in p["anchors"]["files"]))
    out.append("* Oracle: %s\n* Beyond tests: %s\n" % tuple(o))
    out.append("* Bounds: %s.\n" % "; ".join(c["bounds"]))
    if c.get("assumptions"):
        out.append("* Assumed: %s.\n" % "; ".join(c["assumptions"]))
    if c.get("trusted"):
        out.append("* Trusted: %s.\n" % "; ".join(c["trusted"]))
    if i in costs:
        out.append("* Cost: %d harnesses, %d solver checks, about %d s on 8 cores.\n" % tuple(costs[i][:3]))
out.append("\n## Planted bugs\n\nEach is a patch with a demonstration in `seeded/`. All are caught by the check of their property unless noted.\n\n| bug | property | needs | breaks |\n|---|---|---|---|\n")
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    out.append("| %s | %s | %s | %s |\n" % (f.split("/")[-2], m["property"], m["needs"], m["what_it_breaks"]))
out.append("\n" + open(D + "tail.md").read())
open(V + "/DESIGN.md", "w").write("".join(out))
