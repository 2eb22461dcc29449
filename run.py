#!/usr/bin/env python3
"""Runs the solver-based check of one property.

  run.py CXX [--tier quick|thorough]   check a property (exit 0 holds, 1 violated, 2 no answer)
  run.py --setup                       build everything once so that checks only rebuild what changed
  run.py --replay FILE                 replay a recorded counterexample natively

The encoding is made by Kani from the files of /repo as they are now; see DESIGN.md.
"""
import glob
import json
import os
import re
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
KANI = os.path.join(VERIF, "kani")
TARGET = os.path.join(KANI, "target")
NATIVE = os.path.join(KANI, "native")
WORK = os.path.join(VERIF, "work")
EVID = os.path.join(VERIF, "evidence")
NATIVE_TOOLCHAIN = "1.87.0"
ANALYZER = os.path.expanduser("~/.kani/kani-0.68.0/bin/goto-analyzer")
EXIT_ASSUME = 77
LIMIT = 780  # seconds for one check, all included

T0 = time.time()


def left():
    return LIMIT - (time.time() - T0)


def sh(cmd, env=None, timeout=None, cwd=KANI):
    """Runs a command in its own process group; returns (code, output); code None on timeout."""
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode(errors="replace")
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def config(prop):
    with open(os.path.join(KANI, "props", prop.lower(), "check.json")) as f:
        return json.load(f)


def touch_sources():
    """Crates that include files of /repo are always rebuilt, whatever the file times say."""
    for f in glob.glob(os.path.join(KANI, "props", "*", "src", "lib.rs")) + \
            glob.glob(os.path.join(KANI, "real", "*", "lib.rs")):
        os.utime(f)


def clean_goto(pkg):
    """Old encodings of a crate are removed; they pile up otherwise."""
    d = os.path.join(TARGET, "kani", "x86_64-unknown-linux-gnu", "debug", "build", pkg)
    if os.path.isdir(d):
        for root, _, files in os.walk(d):
            for f in files:
                if f.endswith((".out", ".json")):
                    os.unlink(os.path.join(root, f))


def count_harnesses(pkg):
    n = 0
    for f in glob.glob(os.path.join(KANI, "props", pkg, "src", "*.rs")):
        with open(f) as h:
            n += len(re.findall(r"^\s*\[\d+[^\]]*\] fn \w+\(\)", h.read(), re.M))
    return max(1, n)


def kani(pkg, jobs, htimeout, json_path, harnesses=(), solver=None, playback=False, features=(), total=None,
         unwind=None):
    cmd = ["cargo", "kani", "--lib", "-p", pkg, "--target-dir", TARGET,
           "-Z", "unstable-options", "-Z", "stubbing", "--no-assertion-reach-checks",
           "--harness-timeout", "%ds" % int(htimeout)]
    if playback:
        cmd += ["-Z", "concrete-playback", "--concrete-playback=print"]
    else:
        cmd += ["-j", str(jobs), "--output-format", "terse", "--export-json", json_path]
    for h in harnesses:
        cmd += ["--harness", h]
    if harnesses:
        cmd += ["--exact"]
    if solver:
        cmd += ["--solver", solver]
    if features:
        cmd += ["--features", ",".join(features)]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    cfg = os.path.join(KANI, "props", pkg, "check.json")
    extra = json.load(open(cfg)).get("cbmc_args") if os.path.exists(cfg) else None
    if extra:
        cmd += ["--cbmc-args"] + extra
    # one solver process must not take the memory of the others
    cap = 8000000 if jobs > 1 else 20000000
    return sh(["bash", "-c", "ulimit -v %d; exec \"$@\"" % cap, "x"] + cmd, timeout=total)


def parse_results(json_path):
    with open(json_path) as f:
        d = json.load(f)
    res = {}
    for r in d["verification_results"]["results"]:
        res[r["harness_id"]] = {"status": r["status"], "ms": r["duration_ms"], "checks": r.get("checks", [])}
    for r in d["property_details"]:
        res.setdefault(r["harness_id"], {}).update(props=r["property_details"])
    for r in d["cbmc"]:
        res.setdefault(r["harness_id"], {}).update(cbmc=r.get("cbmc_stats") or {})
    for r in d["error_details"]:
        res.setdefault(r["harness_id"], {}).update(error=r)
    for r in d["harness_metadata"]:
        res.setdefault(r["pretty_name"], {}).update(goto=r["goto_file"])
    return res, d


def encoded_functions(res):
    """Functions of /repo that the encodings of the harnesses contain (from the goto programs)."""
    funs = {}
    for r in res.values():
        out = r.get("goto", "").replace(".symtab.out", ".out")
        if not os.path.exists(out):
            continue
        code, txt = sh([ANALYZER, "--reachable-functions", out], timeout=60)
        names = {}
        try:
            with open(out.replace(".out", ".pretty_name_map.json")) as f:
                names = json.load(f)
        except (OSError, ValueError):
            pass
        for m in re.finditer(r"^(\S*?/repo/\S+?\.rs) (\S+) (\d+) (\d+)$", txt or "", re.M):
            f = m.group(1)[m.group(1).index("/repo/"):]
            funs.setdefault(f, set()).add((names.get(m.group(2)) or m.group(2)) + ":" + m.group(3))
    return funs


FAIL = ("Failure", "FAILURE", "failure")


def failed_checks(r):
    out = []
    for c in r.get("checks", []):
        if str(c.get("status", "")).upper() == "FAILURE":
            out.append(c)
    return out


def unreached_musts(r):
    return [c["description"].strip('"') for c in r.get("checks", [])
            if "MUST:" in (c.get("description") or "") and str(c.get("status")).upper() != "SATISFIED"]


def listed_finding(prop, cfg, h, r):
    """The text of the recorded finding that this harness shows, if that is all that fails in it."""
    k = cfg.get("known", {}).get(h)
    if not k or r["status"] not in FAIL or not failed_checks(r):
        return None
    if any(k["check"] != (c.get("description") or "").strip('"') for c in failed_checks(r)):
        return None
    line = "KNOWN-FINDING: property=%s %s" % (prop, k["finding"])
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        return line if line in f.read().splitlines() else None


def is_unwind(c):
    return "unwinding assertion" in (c.get("description") or "") or ".unwind." in str(c.get("property") or c.get("id") or "")


def parse_playback(txt):
    """[(check description, [bytes,...])] for every counterexample Kani printed."""
    out = []
    for blk in txt.split("Concrete playback unit test for")[1:]:
        m = re.search(r"/// Check for `(.*?)`: (.*)", blk)
        kind, desc = (m.group(1), m.group(2).strip()) if m else ("?", "")
        if kind == "cover":
            continue
        body = blk.split("let concrete_vals", 1)
        if len(body) < 2:
            continue
        body = body[1].split("];", 1)[0]
        vals = [bytes(int(x) for x in v.split(",") if x.strip()) for v in re.findall(r"vec!\[([\d,\s]*)\],", body)]
        out.append((desc, vals))
    return out


def native_build(pkg, release=False):
    cmd = ["cargo", "build", "-q", "-p", pkg, "--bin", pkg, "--target-dir", NATIVE]
    if release:
        cmd.append("--release")
    code, out = sh(cmd, env={"RUSTUP_TOOLCHAIN": NATIVE_TOOLCHAIN}, timeout=max(60, left()))
    if code != 0:
        return None, out
    return os.path.join(NATIVE, "release" if release else "debug", pkg), out


def native_run(exe, harness, valfile, abstract_hash, runs=None, search=None):
    env = {"RUST_BACKTRACE": "0"}
    if runs:
        env["VP_RANDOM"] = str(runs)
    if search:
        env["VP_SEARCH"] = str(search)
    if abstract_hash:
        env["VP_HASH"] = "abstract"
    return sh(["bash", "-c", "ulimit -v 16000000; exec \"$@\"", "x", exe, harness, valfile], env=env, timeout=30, cwd="/tmp")


def replay(rec):
    """Runs a recorded counterexample against the natively compiled code. True if it fails there."""
    pkg = rec["property"].lower()
    log = []
    if "impossible" in rec:
        exe, out = native_build(pkg)
        code, out = native_run(exe, rec["harness"], "/dev/null", False, runs=200000) if exe else (2, out)
        return code == 1, [out[-3000:]]
    exe, out = native_build(pkg)
    if exe is None:
        return None, ["native build failed:\n" + out[-3000:]]
    for mode in (False, True):
        if mode and not rec.get("uses_hash"):
            break
        code, out = native_run(exe, rec["harness"], rec["values_file"], mode)
        label = "recorded digests" if mode else "real digests" if rec.get("uses_hash") else "native"
        log.append("[%s] exit %s\n%s" % (label, code, out[-2000:]))
        if code is None:
            if rec.get("unwinding"):
                return True, log
            continue
        if code not in (0, EXIT_ASSUME, 78):
            return True, log
    return False, log


def check(prop, tier):
    cfg = config(prop)
    pkg = prop.lower()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    work = os.path.join(WORK, prop)
    os.makedirs(work, exist_ok=True)
    for f in glob.glob(os.path.join(work, "*")):
        os.unlink(f)
    jp = os.path.join(work, "kani.json")
    feats = ["thorough"] if tier == "thorough" and cfg.get("thorough") else []
    touch_sources()
    clean_goto(pkg)
    limit = LIMIT if tier == "quick" else 6 * 3600
    global T0
    jobs = cfg.get("jobs", 8)
    htimeout = 3 * 3600
    if tier == "quick":
        rounds = -(-count_harnesses(pkg) // jobs)
        htimeout = max(20, min(cfg.get("timeout", 300), cfg.get("budget", 560) / rounds))
    code, out = kani(pkg, cfg.get("jobs", 8), htimeout, jp, features=feats, total=max(30, limit - 10))
    with open(os.path.join(work, "kani.log"), "w") as f:
        f.write(out)
    if not os.path.exists(jp):
        errs = [l for l in out.splitlines() if l.startswith("error")]
        print("NO-ANSWER property=%s the encoding could not be built or the run did not finish: %s" %
              (prop, "; ".join(errs[:3]) or "exit %s" % code))
        print("\n".join(out.splitlines()[-40:]))
        return 2
    res, raw = parse_results(jp)
    notes = []
    findings = {}
    for h in list(res):
        line = listed_finding(prop, cfg, h, res[h])
        if line:
            findings[h] = line
            notes.append(line)
            del res[h]

    undecided = [h for h, r in res.items() if r["status"] in FAIL and not failed_checks(r)]
    # A loop bound that the changed code exceeds is raised before anything is concluded.
    unw = [h for h, r in res.items() if r["status"] in FAIL and failed_checks(r)
           and all(is_unwind(c) or str(c.get("status")).upper() == "UNDETERMINED" for c in failed_checks(r))]
    # Situations that are part of the property ("MUST:") and that the solver shows to be impossible.
    impossible = {h: m for h, m in ((h, unreached_musts(r)) for h, r in res.items() if r["status"] not in FAIL) if m}
    vacuous = [h for h, r in res.items() if r["status"] not in FAIL and h not in impossible and
               (((r.get("props") or {}).get("unsatisfiable") or 0) or not ((r.get("props") or {}).get("satisfied") or 0))]
    failing = [h for h, r in res.items() if r["status"] in FAIL and failed_checks(r)]

    violations = []
    unconfirmed = []
    for h, musts in impossible.items():
        exe, out = native_build(pkg)
        code, out = native_run(exe, h, "/dev/null", False, runs=cfg.get("random_runs", 200000)) if exe else (2, out)
        never = re.findall(r"never reached in \d+ random runs: (.*)", out or "")
        bad = [m for m in musts if m in never]
        rf = os.path.join(work, "replay-%s.json" % h)
        with open(rf, "w") as f:
            json.dump({"property": prop, "harness": h, "impossible": musts, "confirmed": bad, "native": [out[-2000:]]}, f, indent=1)
        if bad:
            violations.append({"harness": h, "check": "cannot happen: " + bad[0], "replay": rf, "log": [out[-2000:]]})
        else:
            unconfirmed.append(h)
    failing.sort(key=lambda h: res[h]["ms"])

    def confirm(h, solver=None, unwind=None):
        """Replays the counterexamples of a harness; True once one of them fails natively as well."""
        if violations or left() < 40:
            return bool(violations)
        code, out = kani(pkg, 1, min(left() - 20, 500), None, harnesses=[h], playback=True, features=feats,
                         total=left() - 15, solver=solver, unwind=unwind)
        with open(os.path.join(work, "playback-%s.log" % h), "w") as f:
            f.write(out)
        cands = parse_playback(out)
        for i, (desc, vals) in enumerate(cands[:12]):
            if left() < 15:
                break
            vf = os.path.join(work, "values-%s-%d.txt" % (h.replace("::", "_"), i))
            with open(vf, "w") as f:
                f.write("# %s %s: %s\n" % (prop, h, desc))
                for v in vals:
                    f.write(v.hex() + "\n")
            rec = {"property": prop, "harness": h, "check": desc, "values_file": vf,
                   "unwinding": "unwinding" in desc, "uses_hash": bool(cfg.get("uses_hash"))}
            good, log = replay(rec)
            rec["native"] = log
            rf = os.path.join(work, "replay-%s-%d.json" % (h.replace("::", "_"), i))
            with open(rf, "w") as f:
                json.dump(rec, f, indent=1)
            if good:
                violations.append({"harness": h, "check": desc, "replay": rf, "log": log})
                return True
        return False

    unconfirmed += [h for h in failing if not confirm(h)]

    # What the solver left open is at least searched with concrete choices against the real code.
    for h in (undecided + unconfirmed if not violations else []):
        exe, out = native_build(pkg)
        if exe is None or violations or left() < 30:
            break
        code, out = native_run(exe, h, "/dev/null", False, search=max(3, min(15, int(60 / len(undecided + unconfirmed)))))
        vals = re.findall(r"^value (\w*)$", out or "", re.M)
        if code == 1 and vals:
            vf = os.path.join(work, "values-%s-search.txt" % h)
            with open(vf, "w") as f:
                f.write("# %s %s: concrete search\n%s\n" % (prop, h, "\n".join(vals)))
            rec = {"property": prop, "harness": h, "check": "found by the concrete search", "values_file": vf,
                   "uses_hash": bool(cfg.get("uses_hash"))}
            good, log = replay(rec)
            rec["native"] = log
            rf = os.path.join(work, "replay-%s-search.json" % h)
            with open(rf, "w") as f:
                json.dump(rec, f, indent=1)
            if good:
                violations.append({"harness": h, "check": rec["check"], "replay": rf, "log": log})

    # Harnesses the solver did not decide get another solver.
    for solver in cfg.get("fallback_solvers", ["z3", "kissat"]):
        if not undecided or violations or left() < 60:
            break
        jp2 = os.path.join(work, "kani-%s.json" % solver)
        kani(pkg, cfg.get("jobs", 8), max(30, left() / 2), jp2, harnesses=undecided, solver=solver, features=feats,
             total=left() - 10)
        if os.path.exists(jp2):
            r2, _ = parse_results(jp2)
            for h in undecided:
                if h in r2 and not (r2[h]["status"] in FAIL and not failed_checks(r2[h])):
                    res[h] = r2[h]
                    notes.append("%s decided with %s" % (h, solver))
                    if r2[h]["status"] in FAIL and not confirm(h, solver=solver):
                        unconfirmed.append(h)
        undecided = [h for h, r in res.items() if r["status"] in FAIL and not failed_checks(r)]

    still_unwinding = [h for h in unw if h in unconfirmed]
    for h in list(still_unwinding):
        for u in cfg.get("raise_unwind", [40, 120]):
            if left() < 60 or violations:
                break
            jp2 = os.path.join(work, "kani-unwind.json")
            kani(pkg, 1, left() - 30, jp2, harnesses=[h], unwind=u, features=feats, total=left() - 15)
            if os.path.exists(jp2):
                r2, _ = parse_results(jp2)
                if h in r2 and r2[h]["status"] not in FAIL:
                    res[h] = r2[h]
                    unconfirmed.remove(h)
                    notes.append("%s decided with loop bound %d" % (h, u))
                    break
                if h in r2 and failed_checks(r2[h]) and not all(is_unwind(c) for c in failed_checks(r2[h])):
                    res[h] = r2[h]
                    if confirm(h, unwind=u):
                        unconfirmed.remove(h)
                    break
                os.unlink(jp2)

    funs = encoded_functions(res)
    known_files = set()
    total = sum(((r.get("props") or {}).get("total_properties") or 0) for r in res.values())
    passed = sum(((r.get("props") or {}).get("passed") or 0) for r in res.values())
    cov = {
        "explanation": "bounded model checking of the real functions listed under functions_encoded; "
                       "every check below is a solver query over all values within the bounds",
        "obligations": total,
        "discharged": passed + sum(((r.get("props") or {}).get("satisfied") or 0) for r in res.values()),
        "checker_cmd": "python3 /verif/run.py %s --tier %s" % (prop, tier),
        "trusted_base": cfg.get("trusted", []) + ["Kani 0.68.0, CBMC 6.11, the SAT/SMT solver", "kani/shims/nd"],
        "harnesses": {h: {"result": r["status"], "checks": ((r.get("props") or {}).get("total_properties") or 0),
                          "failed": ((r.get("props") or {}).get("failed") or 0),
                          "witnesses_reached": ((r.get("props") or {}).get("satisfied") or 0),
                          "seconds": round(r["ms"] / 1000, 2),
                          "solver_s": r.get("cbmc", {}).get("runtime_solver_s"),
                          "vccs_to_solver": r.get("cbmc", {}).get("vccs_remaining"),
                          "program_steps": r.get("cbmc", {}).get("size_program_expression")} for h, r in res.items()},
        "queries_discharged": sum(r.get("cbmc", {}).get("vccs_remaining") or 0 for r in res.values()),
        "solver_time_s": round(sum(r.get("cbmc", {}).get("runtime_decision_procedure_s") or 0 for r in res.values()), 3),
        "functions_encoded": {f: sorted(n) for f, n in sorted(funs.items())},
        "bounds": cfg.get("bounds", []),
        "notes": notes,
        "known_findings": sorted(findings.values()),
        "not_decided": sorted(set(unconfirmed + undecided + vacuous)),
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": cfg.get("level", "model_checking"), "coverage": cov,
          "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - T0, 2),
          "violations": [{"harness": v["harness"], "check": v["check"], "replay": v["replay"]} for v in violations]}
    if ev["level"] == "model_checking":
        cov["states"] = sum(r.get("cbmc", {}).get("size_program_expression") or 0 for r in res.values())
        cov["transitions"] = sum(r.get("cbmc", {}).get("vccs_generated") or 0 for r in res.values())
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if violations:
        for v in violations:
            print("counterexample in harness %s, failing check: %s" % (v["harness"], v["check"]))
            print("\n".join(v["log"]))
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    open_ = []
    for h in unconfirmed:
        open_.append((h, "counterexample did not reproduce natively: %s" %
                      [c.get("description") for c in failed_checks(res[h])][:6]))
    open_ += [(h, "not decided within the time limit") for h in undecided]
    open_ += [(h, "a reachability witness is unreachable") for h in vacuous]
    decided = len(res) - len({h for h, _ in open_})
    for line in findings.values():
        print(line)
    word = "NO-ANSWER" if 2 * decided < len(res) else "INCOMPLETE"
    for h, why in open_:
        print("%s property=%s harness=%s %s" % (word, prop, h, why))
    if word == "NO-ANSWER":
        return 2
    print("OK property=%s tier=%s harnesses=%d decided=%d checks=%d wall=%.0fs" %
          (prop, tier, len(res), decided, total, time.time() - T0))
    return 0


def setup():
    props = sorted(os.path.basename(os.path.dirname(f)) for f in glob.glob(os.path.join(KANI, "props", "*", "check.json")))
    # one at a time: building several at once would unify the features of the crates they share, and one
    # crate that does not build must not keep the others from being built
    for p in props:
        c, _ = sh(["cargo", "kani", "--lib", "--only-codegen", "-Z", "unstable-options", "-Z", "stubbing", "--no-assertion-reach-checks", "--target-dir", TARGET, "-p", p])
        n, _ = sh(["cargo", "build", "--bins", "--target-dir", NATIVE, "-p", p], env={"RUSTUP_TOOLCHAIN": NATIVE_TOOLCHAIN})
        print(p, c, n)
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        return setup()
    if a and a[0] == "--replay":
        with open(a[1]) as f:
            rec = json.load(f)
        good, log = replay(rec)
        print("\n".join(log))
        print("REPRODUCED" if good else "NOT REPRODUCED")
        return 1 if good else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier == "thorough":
        global LIMIT
        LIMIT = 6 * 3600
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
