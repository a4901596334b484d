#!/usr/bin/env python3
"""Decide one property:  check.py Zxx [--tier quick|thorough]

Builds the symbolic executor, the harness bitcode of /repo's working tree and
the native replayer; explores every harness entry of the property; replays
each counterexample and a sample of the explored paths natively.
exit 0 held, 1 violated (VIOLATION line), 2 no answer (error of the check).
"""
import json, os, subprocess, sys, time, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from plan import PLAN, ASSUME
B = os.path.join(V, "build")

def build():
    jobs = [subprocess.Popen([os.path.join(V, "build.sh"), w], stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for w in ("engine", "ir", "native")]
    ok = True
    for j in jobs:
        out = j.communicate()[0].decode(errors="replace")
        if j.returncode != 0:
            sys.stderr.write(out[-4000:])
            ok = False
    return ok

def write_replay(path, entry, params, rec):
    with open(path, "w") as f:
        f.write("entry\t%s\n" % entry)
        for p in params:
            f.write("param\t%d\n" % p)
        for n, w, v in rec["inputs"]:
            f.write("input\t%s\t%s\n" % (n, v))
        for e in rec["events"]:
            f.write("event\t%s\n" % e)
        for s in rec["sched"]:
            f.write("sched\t%d\n" % s)

def native(path):
    d = tempfile.mkdtemp(prefix="zr-")
    try:
        p = subprocess.run([os.path.join(B, "native/native/zr"), path], env={"ZR_SCRATCH": d, "PATH": "/usr/bin:/bin"}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -99, "", "timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)

def head(msg):
    # the harness's own message, without what the engine appended
    i = msg.find(" (panic at")
    return msg if i < 0 else msg[:i]

def reproduced(rec, rc, out):
    """The native run shows the violation the engine reported."""
    m = head(rec["msg"])
    last = out.strip().split("\n")[-1] if out.strip() else ""
    if rc == 10:
        got = last[len("VIOLATION "):]
        if got == m:
            return True
        if m.startswith("panic at") and got.startswith("panic"):
            return True
        if m.startswith("deadlock") and got.startswith("deadlock"):
            return True
        # a panic or another assertion of the same property, natively confirmed
        return got
    if rc in (-6, -11, -4) or rc == -14:
        # abort (allocation failure, stack overflow) or alarm
        return True
    return False

def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = PLAN[prop]
    if "--no-build" not in args and not build():
        print("ERROR %s: build failed" % prop)
        return 2
    t_build = time.time() - t0
    known = []
    kf = os.path.join(V, "known-findings.jsonl")
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k["property"] == prop:
                    known.append(k)
    out = os.path.join(B, "out-" + prop)
    shutil.rmtree(out, ignore_errors=True)
    rdir = os.path.join(V, "evidence", "replay-" + prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    tot = dict.fromkeys("paths paths_ok paths_infeasible violations inconclusive forks queries q_sat q_unsat q_unknown q_table asserts assert_queries solver_us instructions fs_ops".split(), 0)
    funcs, samples, runs = set(), [], []
    violations, errors, findings = [], [], []
    validated = 0
    for i, r in enumerate(plan["runs"]):
        entry = r["entry"]
        if tier not in r.get("tiers", ("quick", "thorough")):
            continue
        params = r.get(tier, r.get("quick", []))
        od = os.path.join(out, str(i))
        os.makedirs(od)
        limit = r.get("time", {}).get(tier, 400 if tier == "quick" else 3000)
        cmd = [os.path.join(B, "engine/release/zsym"), "--ir", os.path.join(B, "fin.ll"), "--entry", entry, "--out", od, "--time", str(limit),
                   "--max-viol", str(4 + 4 * sum(k["entry"] == entry for k in known))]
        if params:
            cmd += ["--param", ",".join(map(str, params))]
        cmd += [str(x) for x in r.get("args", [])]
        ts = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            s = json.load(open(od + "/summary.json"))
            recs = [json.loads(l) for l in open(od + "/records.jsonl") if l.strip()]
        except Exception as e:
            errors.append("%s %s: engine failed (%s) %s" % (entry, params, p.returncode, p.stderr.decode(errors="replace")[-400:]))
            continue
        for k in tot:
            tot[k] += s.get(k, 0)
        funcs.update(s["functions"])
        runs.append({"entry": entry, "params": params, "bounds": r["bounds"], "paths": s["paths"], "instructions": s["instructions"], "queries": s["queries"], "asserts": s["asserts"], "solver_s": round(s["solver_us"] / 1e6, 2), "wall_s": round(time.time() - ts, 2), "timeout": s["timeout"]})
        reached = set()
        oks = []
        bad = []
        for x in recs:
            reached.update(x.get("reach", []))
            if x["kind"] == "reach":
                reached.add(x.get("msg"))
            if x["kind"] == "ok":
                oks.append(x)
            elif x["kind"] == "violation":
                bad.append(x)
            elif x["kind"] == "inconclusive":
                errors.append("%s %s: inconclusive: %s %s" % (entry, params, x["msg"], " < ".join(x.get("backtrace", [])[:3])))
        if s["timeout"]:
            errors.append("%s %s: exploration ran out of time" % (entry, params))
        # counterexamples against the real code
        seen = set()
        for n, x in enumerate(bad):
            m = head(x["msg"])
            if (m, len(seen)) in seen:
                continue
            f = os.path.join(rdir, "%s-%d-%d.replay" % (entry, i, n))
            write_replay(f, entry, params, x)
            rc, so, se = native(f)
            res = reproduced(x, rc, so)
            if res is False:
                errors.append("%s: counterexample does not reproduce natively (%s): %s [%s]" % (entry, x["msg"], so.strip()[-200:], f))
                continue
            what = m if res is True else res
            k = [k for k in known if k["entry"] == entry and k["message"] == what]
            if k:
                findings.append(k[0]["what"])
                continue
            violations.append((f, what, x))
        # explored paths against the real code
        def one(a):
            n, x = a
            f = os.path.join(od, "ok-%d.replay" % n)
            write_replay(f, entry, params, x)
            rc, so, se = native(f)
            obs = [l.split(" ") for l in so.split("\n") if l.startswith("OBS ")]
            got = [[" ".join(o[1:-1]), o[-1]] for o in obs]
            if rc != 0 or got != x["obs"]:
                return "%s: explored path and native run differ (exit %s, %s) [%s]" % (entry, rc, so.strip()[-200:] if rc else "observations", f)
            return None
        with ThreadPoolExecutor(8) as ex:
            for e in ex.map(one, enumerate(oks)):
                if e is None:
                    validated += 1
                else:
                    errors.append(e)
        for l in r.get("reach", []):
            if l not in reached and not bad:
                errors.append("%s: vacuous: never reached '%s'" % (entry, l))
        if oks and len(samples) < 12:
            samples.append({"entry": entry, "inputs": {n: v for n, w, v in oks[0]["inputs"][:24]}, "events": oks[0]["events"][:8], "steps": oks[0]["steps"]})
        if violations and "--all" not in args:
            break
    own = sorted(f for f in funcs if re.search(r"zarr|zh\b|_ZN2zh", f))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no completed path"}],
            "paths_completed": tot["paths_ok"], "instructions_executed_symbolically": tot["instructions"],
            "solver_queries": tot["queries"], "solver_sat": tot["q_sat"], "solver_unsat": tot["q_unsat"], "solver_unknown": tot["q_unknown"], "branches_decided_by_truth_table": tot["q_table"],
            "solver_s": round(tot["solver_us"] / 1e6, 2), "assertions_checked": tot["asserts"], "assertions_decided_by_solver": tot["assert_queries"],
            "file_system_calls": tot["fs_ops"], "runs": runs,
            "functions_encoded": len(funcs), "functions_encoded_zarr": own[:400],
            "outside": plan.get("outside", ""), "build_s": round(t_build, 1),
            "rule": "each state is one completed path of the real code's LLVM bitcode under a path condition; every branch whose both sides are satisfiable is a transition",
        },
        "assumptions": ASSUME + plan.get("assume", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for f in sorted(set(findings)):
        print("KNOWN-FINDING: property=%s %s" % (prop, f))
    for e in errors[:20]:
        print("ERROR %s: %s" % (prop, e))
    done = set()
    for f, m, x in violations:
        if m in done:
            continue
        done.add(m)
        print("VIOLATION property=%s replay=%s" % (prop, f))
        print("  %s" % x["msg"])
        print("  inputs: %s %s" % (", ".join("%s=%s" % (n, v) for n, w, v in x["inputs"][:40]), " ".join(x["events"])))
    print("%s %s: %d paths, %d queries, %.1f s solver, %d replayed, %.0f s" % (prop, tier, tot["paths"], tot["queries"], tot["solver_us"] / 1e6, validated, time.time() - t0))
    if not os.environ.get("ZKEEP"):
        shutil.rmtree(out, ignore_errors=True)
    if violations:
        return 1
    return 2 if errors else 0

if __name__ == "__main__":
    sys.exit(main())
