#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present in kani/props and the reasons below."""
import glob, json, os
V = __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json"))
checks = []
for p in props:
    f = V + "/kani/props/%s/check.json" % p["id"].lower()
    if os.path.exists(f):
        c = json.load(open(f))
        if c.get("draft"):
            continue
        d = {"property": p["id"], "quick_cmd": "python3 /verif/run.py %s --tier quick" % p["id"],
             "evidence_file": "/verif/evidence/%s.json" % p["id"],
             "technique": "bounded model checking of the real Rust functions with Kani/CBMC (SAT and SMT solvers), counterexamples replayed natively",
             "level": c.get("level", "model_checking"),
             "level_note": c.get("level_note") or "Exhaustive within these bounds: " + "; ".join(c["bounds"])}
        if c.get("thorough"):
            d["thorough_cmd"] = "python3 /verif/run.py %s --tier thorough" % p["id"]
        checks.append(d)
done = {c["property"] for c in checks}
na = [{"property": p["id"], "reason": NA.get(p["id"], "no check in this state of the framework")} for p in props if p["id"] not in done]
m = {"version": 1, "setup_cmd": "python3 /verif/run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Checks rebuild their encoding from /repo on every run; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
