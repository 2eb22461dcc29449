#!/usr/bin/env python3
"""Development aid: seed.py SPEC.py... writes /verif/seeded/<id>/ from a spec and confirms it.

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (Rust source of a
program over the crates of the partial workspace) or DEMO_SH (a whole script)."""
import json, os, subprocess, sys
REPO = "/repo"
SH = '''#!/bin/bash
# Builds the program beside this script against the sources in /repo and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp -r /opt/vp/partial/Cargo.toml /opt/vp/partial/Cargo.lock /opt/vp/partial/ethportal-api /opt/vp/partial/portal-bridge \\
    /opt/vp/partial/trin-metrics /opt/vp/partial/trin-validation "$d/"
mkdir -p "$d/demo/src"
cp "$here/demo.rs" "$d/demo/src/main.rs"
cat > "$d/demo/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ethportal-api = { path = "../ethportal-api" }
portal-bridge = { path = "../portal-bridge" }
trin-metrics = { path = "../trin-metrics" }
trin-validation = { path = "../trin-validation" }
serde_json.workspace = true
prometheus_exporter.workspace = true
X
sed -i 's/members = \\[/members = ["demo", /' "$d/Cargo.toml"
cd "$d"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.87.0
cargo run -q --offline -p demo
'''
def sh(c, t=600):
    r = subprocess.run(c, shell=True, cwd=REPO, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    assert sh("git status --porcelain")[1] == "", "repo not clean"
    d = "/verif/seeded/" + g["ID"]
    os.makedirs(d, exist_ok=True)
    if "DEMO" in g:
        open(d + "/demo.rs", "w").write(g["DEMO"])
    open(d + "/demo.sh", "w").write(g.get("DEMO_SH", SH))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    try:
        for f, old, new in g["EDITS"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=REPO, capture_output=True, text=True).stdout)
        b, bo = sh("bash /opt/vp/build.sh", 1800)
        t, to = sh("bash /opt/vp/test.sh /tmp/seed-test.json", 1800)
        bad, bado = sh("bash %s/demo.sh" % d)
    finally:
        sh("git checkout -- .")
    good, goodo = sh("bash %s/demo.sh" % d)
    print(g["ID"], g["PROPERTY"], "build", b, "| tests", to.strip().splitlines()[-1], "| demo patched", bad, "clean", good)
    if good: print(goodo[-1500:])
    if b: print(bo[-1500:])
