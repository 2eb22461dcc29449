#!/usr/bin/env python3
"""Development aid: bugs.py [id...] applies each planted bug to /repo, runs the check of its property, undoes it."""
import json, os, subprocess, sys, time
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
for i in ids:
    d = "/verif/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    assert subprocess.run("git status --porcelain", shell=True, cwd="/repo", capture_output=True, text=True).stdout == ""
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd="/repo", check=True)
    t = time.time()
    try:
        r = subprocess.run(["python3", "/verif/run.py", m["property"]], capture_output=True, text=True)
    finally:
        subprocess.run(["git", "checkout", "--", "."], cwd="/repo")
    last = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "counterexample", "OK", "NO-ANSWER", "INCOMPLETE"))]
    print(i, m["property"], "exit", r.returncode, "%.0fs" % (time.time() - t), " | ".join(last[:3]), flush=True)
