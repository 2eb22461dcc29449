#!/usr/bin/env python3
"""Development aid: dev.py CXX [timeout] [harness ...] runs harnesses with a short timeout."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
prop = sys.argv[1].lower(); to = int(sys.argv[2]) if len(sys.argv) > 2 else 60
hs = sys.argv[3:]
run.touch_sources(); run.clean_goto(prop)
jp = "/tmp/dev-%s.json" % prop
if os.path.exists(jp): os.unlink(jp)
code, out = run.kani(prop, 8, to, jp, harnesses=hs)
open("/tmp/dev-%s.log" % prop, "w").write(out)
if not os.path.exists(jp):
    L = out.splitlines()
    errs = [i for i, l in enumerate(L) if l.startswith("error")]
    for i in errs[:12]:
        print("\n".join(L[i:i + 9]))
    sys.exit(2)
res, _ = run.parse_results(jp)
for h, r in sorted(res.items(), key=lambda x: x[0]):
    p = r.get("props") or {}
    print("%-40s %-10s %7.1fs checks=%s sat=%s unsat=%s" % (h, r["status"], r["ms"]/1000, p.get("total_properties"), p.get("satisfied"), p.get("unsatisfiable")))
    for c in run.failed_checks(r)[:8]:
        print("      ", c.get("description"), c.get("location"))
