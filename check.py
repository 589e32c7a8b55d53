#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of revdotcom/fstalign by symbolic execution of /repo's current sources.
   check.py --replay FILE: run a recorded counterexample against the native build.
   check.py --thorough PROPERTY: the deeper tier.
   check.py --prebuild: build everything.   check.py --list"""
import concurrent.futures as cf, json, os, resource, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vlib"))
import build
from props import PROPS, HARNESS

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
EVID = os.path.join(HERE, "evidence")
W = int(os.environ.get("SYMX_WORKERS", str(os.cpu_count() or 4)))
NSAMP = 24


def log(*a):
    print(*a, flush=True)


def known_findings():
    """list of (property, kind, job, message, text): findings recorded and not repaired"""
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            if line.strip():
                out.append(json.loads(line))
    return out


def build_h(h, need=("sym", "nat")):
    d = HARNESS[h]
    r = {}
    if "sym" in need:
        r["sym"] = build.build_sym(os.path.join(HERE, "harness", d["file"]), d["src"], d.get("lib", ("libc.cpp",)), d.get("extra", ()))
    if "nat" in need:
        r["nat"] = build.build_nat(os.path.join(HERE, "harness", d["file"]), d["src"], d.get("extra", ()), natsrc=d.get("natlib", ()), natlibs=d.get("natlibs", ()))
    return r


def run_native(nat, params, values, tmp, timeout=60):
    """run the native (ASan) build on concrete inputs; returns (kind, text)"""
    f = os.path.join(tmp, "in.%d" % os.getpid() + str(time.time_ns()))
    with open(f, "w") as o:
        for k, v in params.items():
            o.write("param %s %d\n" % (k, v))
        for k, v in values:
            o.write("%s %d\n" % (k, v))
    sd = tempfile.mkdtemp(dir=tmp)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:allocator_may_return_null=1", LC_ALL="C.UTF-8")
    try:
        p = subprocess.run([nat, "--tmpdir", sd, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=sd)
    except subprocess.TimeoutExpired:
        return "hang", "no termination within %d s" % timeout
    finally:
        os.unlink(f)
        shutil.rmtree(sd, ignore_errors=True)
    out = p.stdout.decode("latin1")
    err = p.stderr.decode("latin1")
    last = [l for l in out.splitlines() if l.startswith(("OK obs=", "ASSERT-FAILED", "ASSUME-FALSE"))]
    if p.returncode == 0 and last:
        return "ok", last[-1][7:]
    if p.returncode == 10:
        return "assert", last[-1][14:] if last else ""
    if p.returncode == 20:
        return "assume", ""
    if p.returncode in (50, 51):
        return "desync", err[-300:]
    head = [l for l in err.splitlines() if "ERROR: AddressSanitizer" in l or "terminate called" in l or "what():" in l or "Assertion" in l]
    return "crash", "exit status %d: %s" % (p.returncode, "; ".join(head)[:400] or err[-300:])


def fmt_values(vals):
    out = {}
    for k, v in vals:
        out.setdefault(k, []).append(v)
    return out


def replay(path):
    d = json.load(open(path))
    nat = build_h(d["harness"], ("nat",))["nat"]
    tmp = tempfile.mkdtemp(prefix="symx-")
    try:
        k, t = run_native(nat, d["params"], d["values"], tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    log("replay of %s on the current tree: %s %s" % (path, k, t))
    return 0 if k == "ok" else 1


def check(pid):
    t0 = time.time()
    P = PROPS[pid]
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    evf = os.path.join(EVID, pid + ".json")
    jobs = [j for j in P["jobs"] if TIER in j.get("tiers", ("quick", "thorough"))]
    hs = sorted({j["h"] for j in jobs})
    tmp = tempfile.mkdtemp(prefix="symx-")
    kf = [k for k in known_findings() if k["property"] == pid and k.get("status") == "open"]
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            a = ex.submit(build.engine_tools)
            a.result()
            B = dict(zip(hs, ex.map(build_h, hs)))
        tb = time.time() - t0
        tot = dict(paths=0, branch_events=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, solver_s=0.0, assertions=0, assertions_symbolic=0, value_splits=0)
        funcs = {}
        runs, samples, problems, known, viol = [], [], [], [], None
        validated = 0
        budget = P.get("budget", {}).get(TIER, 420 if TIER == "quick" else 3000)
        for ji, j in enumerate(jobs):
            params = dict(j.get("params", {}))
            params.update(j.get(TIER, {}))
            left = budget - (time.time() - t0)
            tl = min(j.get("time", {}).get(TIER, 300 if TIER == "quick" else 1500), max(left, 20 if not j.get("deep") else 0))
            if j.get("deep") and tl < 5:
                continue
            of, vf, sf = (os.path.join(tmp, "%s%d" % (x, ji)) for x in "ovs")
            sd = os.path.join(tmp, "d%d" % ji)
            os.makedirs(sd)
            cmd = [B[j["h"]]["sym"], "--workers", str(W), "--time", "%.1f" % tl, "--path-time", str(j.get("path_time", 30)), "--out", of, "--violation", vf, "--samples", sf, "--nsamples", str(NSAMP), "--tmpdir", sd]
            if j.get("deep"):
                cmd += ["--order", "random"]
            for k, v in params.items():
                cmd += ["--param", "%s=%d" % (k, v)]
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=sd, env=dict(os.environ, VERIF_SEED=str(SEED)))
            if not os.path.exists(of):
                problems.append("%s: engine ended with status %d: %s" % (j["name"], p.returncode, p.stderr.decode("latin1")[-400:]))
                break
            R = json.load(open(of))
            cov = R.pop("coverage")
            nb = nc = 0
            for c in cov:
                hit, rest = c.split(":", 1)
                fl, ln, fn = rest.split(":", 2)
                x = funcs.setdefault(os.path.basename(fl) + ":" + fn, [0, 0])
                x[1] = max(x[1], 1)
                if hit != "0":
                    x[0] += 1
            for k in tot:
                tot[k] += R[k]
            run = dict(job=j["name"], harness=j["h"], what=j.get("what", ""), bounds=params, verdict=R["verdict"], paths=R["paths"], pruned_by_assume=R["assume_pruned"], queries=R["queries"], unsat=R["unsat"], sat=R["sat"],
                       assertions_checked=R["assertions"], symbolic_assertions=R["assertions_symbolic"], solver_s=R["solver_s"], wall_s=R["wall_s"], unexplored=R["pending"], covers=R["covers"], split_by_native_calls=R["native_split"])
            runs.append(run)
            log("%s %-12s %-12s paths=%d queries=%d solver=%.1fs wall=%.1fs unexplored=%d" % (pid, j["name"], R["verdict"], R["paths"], R["queries"], R["solver_s"], R["wall_s"], R["pending"]))
            if R["verdict"] in ("violation", "hang"):
                V = json.load(open(vf)) if os.path.exists(vf) else {"values": []}
                k, t = run_native(B[j["h"]]["nat"], params, V["values"], tmp, timeout=90)
                log("  engine: %s\n  inputs: %s\n  native replay: %s %s" % (R["message"], json.dumps(fmt_values(V["values"])), k, t))
                if k in ("assert", "crash", "hang"):
                    rp = os.path.join(EVID, "replay", "%s-%s.json" % (pid, j["name"]))
                    with open(rp, "w") as o:
                        json.dump(dict(property=pid, harness=j["h"], job=j["name"], params=params, values=V["values"], message=R["message"], native=[k, t], rerun="python3 check.py --replay " + rp), o, indent=1)
                    viol = (rp, R["message"])
                else:
                    problems.append("%s: counterexample not reproduced natively (%s %s): %s" % (j["name"], k, t, R["message"]))
                break
            if R["verdict"] == "inconclusive":
                problems.append("%s: inconclusive: %s" % (j["name"], R["message"]))
                break
            if R["unknown"]:
                problems.append("%s: solver gave up on %d queries" % (j["name"], R["unknown"]))
            if R["verdict"] == "timeout" and not j.get("deep"):
                log("  note: time limit reached before all paths were explored")
            for c in j.get("covers", []):
                if c not in R["covers"] and not (R["verdict"] == "timeout"):
                    problems.append("%s: vacuous: '%s' was never reached" % (j["name"], c))
            for k in kf:
                if k.get("witness") in R["covers"]:
                    known.append(k["text"])
            # the engine's paths, replayed on the native build, must observe the same values
            S = [json.loads(l) for l in open(sf)] if os.path.exists(sf) else []
            with cf.ThreadPoolExecutor(W) as ex:
                rs = list(ex.map(lambda s: run_native(B[j["h"]]["nat"], params, s["values"], tmp), S))
            for s, (k, t) in zip(S, rs):
                if k == "ok" and t == s["obs"]:
                    validated += 1
                else:
                    problems.append("%s: engine and native build disagree on %s: engine obs=%s, native %s %s" % (j["name"], json.dumps(fmt_values(s["values"])), s["obs"], k, t))
            samples += [dict(job=j["name"], inputs=fmt_values(s["values"]), native=t) for s, (k, t) in list(zip(S, rs))[-3:]]
        exhaustive = not problems and not viol and all(r["verdict"] == "complete" for r in runs)
        enc = sorted(k for k, v in funcs.items() if v[0])
        ev = dict(property=pid, tier=TIER, seed=SEED, level="model_checking", wall_s=round(time.time() - t0, 1), violations=1 if viol else 0,
                  assumptions=P.get("assumptions", []) + ["inputs outside the stated bounds are not covered", "log messages have an empty body in the symbolic build", "clang -O1 IR of the current sources; every sampled path is compared with the g++ -O1 ASan build"],
                  coverage=dict(states=tot["paths"], transitions=tot["branch_events"], traces_validated_against_impl=validated, samples=samples[:12], exhaustive=exhaustive,
                                bounds=[dict(job=r["job"], what=r["what"], parameters=r["bounds"], verdict=r["verdict"]) for r in runs], queries_discharged=tot["queries"] + tot["cache_hits"], queries_unsat=tot["unsat"], queries_sat=tot["sat"], queries_unknown=tot["unknown"],
                                solver_time_s=round(tot["solver_s"], 2), assertions_checked=tot["assertions"], assertions_over_symbolic_values=tot["assertions_symbolic"], functions_encoded=enc, runs=runs, build_s=round(tb, 1), problems=problems, known_findings=known))
        with open(evf, "w") as o:
            json.dump(ev, o, indent=1)
        for k in sorted(set(known)):
            log("KNOWN-FINDING: property=%s %s" % (pid, k))
        if viol:
            log("VIOLATION property=%s replay=%s" % (pid, viol[0]))
            return 1
        if problems:
            for x in problems:
                log("PROBLEM: " + x)
            return 2
        log("%s held on everything explored: %d paths, %d queries, %d paths replayed natively, %.1f s%s" % (pid, tot["paths"], tot["queries"] + tot["cache_hits"], validated, time.time() - t0, "" if exhaustive else " (not exhaustive: time-limited jobs)"))
        return 0
    except build.BuildError as e:
        log("BUILD ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(a):
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--list":
        for p in PROPS:
            print(p, [j["name"] for j in PROPS[p]["jobs"]])
        return 0
    if a and a[0] == "--prebuild":
        build.engine_tools()
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(build_h, HARNESS))
        return 0
    if len(a) == 2 and a[0] == "--thorough" and a[1] in PROPS:
        global TIER
        TIER = "thorough"
        return check(a[1])
    if len(a) == 1 and a[0] in PROPS:
        return check(a[0])
    print(__doc__)
    return 3


sys.exit(main(sys.argv[1:]))
