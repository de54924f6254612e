#!/usr/bin/env python3
"""Decide one property of osmio: check.py PROPERTY [--tier quick|thorough]

Builds the symbolic-execution engine and the harness (against /repo's current tree), runs the
property's entry functions symbolically, replays every counterexample against the natively
compiled harness, validates sampled paths the same way, and writes evidence/<id>.json.
exit 0: held on everything explored; exit 1: VIOLATION line(s); exit 2: machinery failure.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props  # noqa: E402

REPO = os.environ.get("VF_REPO", "/repo")
WORK = os.environ.get("VF_WORK", V + "/work")
ENG = V + "/engine/target/release/vfengine"


def fail(msg):
    print("MACHINERY FAILURE: " + msg)
    sys.exit(2)


def cargo_env(**kw):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update(kw)
    return e


def build_engine():
    return subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=V + "/engine", env=cargo_env(CARGO_TARGET_DIR=V + "/engine/target"),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build_harness():
    return subprocess.run(["bash", V + "/harness/build.sh"], cwd=V + "/harness", env=cargo_env(VF_TARGET=WORK + "/harness", VF_REPO=REPO),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build():
    os.makedirs(WORK, exist_ok=True)
    with open(WORK + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(build_engine), ex.submit(build_harness)
            a, b = a.result(), b.result()
        if a.returncode:
            fail("engine build:\n" + a.stdout[-3000:])
        if b.returncode:
            fail("harness build against the current tree:\n" + b.stdout[-3000:])
        bcs = glob.glob(WORK + "/harness/release/deps/vfharness-*cgu.0.rcgu.bc")
        if not bcs:
            fail("no bitcode produced")
        bc = max(bcs, key=os.path.getmtime)
        for o in bcs:
            if o != bc:
                os.unlink(o)
        dis = sorted(glob.glob(os.path.expanduser("~/.rustup/toolchains/stable-*/lib/rustlib/*/bin/llvm-dis")))
        if not dis:
            fail("llvm-dis not found")
        tmp = tempfile.mkdtemp(prefix="run-", dir=WORK)
        ll = tmp + "/h.ll"
        r = subprocess.run([dis[0], bc, "-o", ll], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            fail("llvm-dis: " + r.stdout[-2000:])
        exe = tmp + "/vfharness"
        shutil.copy2(WORK + "/harness/release/vfharness", exe)
        eng = tmp + "/vfengine"
        shutil.copy2(ENG, eng)
    return tmp, ll, exe, eng


def replay(exe, entry, path, tier, timeout):
    """run the natively compiled harness on concrete inputs"""
    with tempfile.TemporaryDirectory(prefix="vfreplay-") as d:
        e = dict(os.environ)
        e.update(VF_TIER_N=str(tier), RUST_BACKTRACE="0", TMPDIR=d)
        def lim():
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        try:
            r = subprocess.run([exe, entry, path], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim)
        except subprocess.TimeoutExpired as x:
            return {"rc": None, "out": (x.stdout or b"").decode("utf-8", "replace"), "err": "timeout", "hang": True}
        return {"rc": r.returncode, "out": r.stdout.decode("utf-8", "replace"), "err": r.stderr.decode("utf-8", "replace"), "hang": False}


def known_for(prop):
    out = []
    try:
        for l in open(V + "/known_findings.jsonl"):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get("property") == prop and k.get("status") == "known":
                    out.append(k)
    except FileNotFoundError:
        pass
    return out


def matches(k, v):
    return (k.get("entry") in (None, v["entry"]) and re.fullmatch(k["vkind"], v["vkind"]) and re.fullmatch(k["id"], v["id"])
            and re.search(k.get("inputs", ""), "\n".join(v["inputs"])))


def reproduced(v, r):
    """does the native run show the same failure?"""
    if v["vkind"] == "check":
        return ("VF-FAIL %s\n" % v["id"]) in r["out"]
    if v["vkind"] == "hang":
        return r["hang"] or "memory allocation of" in r["err"] or "capacity overflow" in r["err"]
    # panic, abort, invalid memory access
    return r["rc"] is not None and r["rc"] not in (0, 1, 71, 72)


def demangle(names):
    try:
        r = subprocess.run(["llvm-cxxfilt"], input="\n".join(names), stdout=subprocess.PIPE, text=True, timeout=60)
        if r.returncode == 0:
            return r.stdout.split("\n")
    except Exception:
        pass
    return names


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[prop]
    n = 1 if tier == "thorough" else 0
    entries = list(P["entries"]) + (list(P.get("thorough_entries", [])) if n else [])
    budget = P.get("time_thorough", 700) if n else P.get("time", 300)
    tmp, ll, exe, eng = build()
    tb = time.time() - t0
    try:
        run(prop, P, tier, n, seed, entries, budget, tmp, ll, exe, eng, t0, tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, P, tier, n, seed, entries, budget, tmp, ll, exe, eng, t0, tb):
    log = tmp + "/log"
    cmd = [eng, ll, "--out", log, "--jobs", str(os.cpu_count() or 8), "--time", str(budget), "--tier", str(n), "--seed", str(seed),
           "--samples", str(40 if n else 12)]
    if not known_for(prop):
        # one confirmed counterexample decides; nothing else can be told apart from it
        cmd += ["--grace", "45"]
    for e in entries:
        cmd += ["--entry", e]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    ev = []
    try:
        for l in open(log, errors="replace"):
            try:
                ev.append(json.loads(l))
            except ValueError:
                pass
    except FileNotFoundError:
        pass
    summ = next((x for x in ev if x["kind"] == "summary"), None)
    if summ is None:
        fail("engine gave no summary: " + r.stderr[-2000:])
    viol = [x for x in ev if x["kind"] == "violation"]
    incm = [x for x in ev if x["kind"] == "incomplete"]
    errs = [x for x in ev if x["kind"] == "error"]
    reach = {(x["entry"], x["label"]) for x in ev if x["kind"] == "reach"}
    samples = [x for x in ev if x["kind"] == "sample"]

    # ---- sampled paths against the native build
    def do_sample(i):
        s = samples[i]
        p = "%s/s%d" % (tmp, i)
        with open(p, "w") as f:
            f.write("\n".join(s["inputs"]) + "\n")
        q = replay(exe, s["entry"], p, n, 120)
        obs = re.findall(r"^VF-OBS ([0-9a-f]*)$", q["out"], re.M)
        if s["end"] == "ok":
            ok = "VF-END ok" in q["out"] and obs == s["obs"]
        else:
            ok = q["rc"] not in (0, None) and obs == s["obs"]
        return ok, s, q

    # ---- counterexamples against the native build
    rdir = "%s/replay/%s" % (WORK, prop)
    os.makedirs(rdir, exist_ok=True)

    def do_viol(i):
        v = viol[i]
        h = hashlib.sha1(("%s %s %s" % (v["entry"], v["vkind"], v["id"])).encode()).hexdigest()[:10]
        p = "%s/%s-%d.txt" % (rdir, h, i)
        with open(p, "w") as f:
            f.write("\n".join(v["inputs"]) + "\n")
        q = replay(exe, v["entry"], p, n, P.get("hang_timeout", 20) if v["vkind"] == "hang" else 120)
        return reproduced(v, q), v, p, q

    # a handful of counterexamples per distinct failure is enough
    per = {}
    keep = []
    known = known_for(prop)
    for v in viol:
        kk = next((j for j, k in enumerate(known) if matches(k, v)), None)
        key = (v["entry"], v["vkind"], v["id"], kk)
        per[key] = per.get(key, 0) + 1
        if per[key] <= 4:
            keep.append(v)
    viol = keep
    with ThreadPoolExecutor(8) as ex:
        sres = list(ex.map(do_sample, range(len(samples))))
        vres = list(ex.map(do_viol, range(len(viol))))
    bad = [(s, q) for ok, s, q in sres if not ok]
    confirmed = [(v, p, q) for ok, v, p, q in vres if ok]
    unconfirmed = [(v, p, q) for ok, v, p, q in vres if not ok]

    hit = set()
    new = []
    for v, p, q in confirmed:
        kk = next((j for j, k in enumerate(known) if matches(k, v)), None)
        if kk is None:
            new.append((v, p, q))
        else:
            hit.add(kk)
    for j in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[j]["what"]))
    seen = set()
    for v, p, q in new:
        key = (v["entry"], v["vkind"], v["id"])
        if key in seen:
            os.unlink(p)
            continue
        seen.add(key)
        with open(p + ".info", "w") as f:
            json.dump({"property": prop, "entry": v["entry"], "kind": v["vkind"], "id": v["id"], "detail": v["detail"], "where": v.get("bt", ""),
                       "replay_cmd": "VF_TIER_N=%d %s/harness/release/vfharness %s %s" % (n, WORK, v["entry"], p),
                       "native_rc": q["rc"], "native_out": q["out"][-2000:], "native_err": q["err"][-2000:]}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  %s %s %s %s" % (v["entry"], v["vkind"], v["id"], v["detail"]))
    for v, p, q in unconfirmed:
        print("unconfirmed counterexample (not reported): %s %s %s, native rc %s" % (v["entry"], v["vkind"], v["id"], q["rc"]))

    missing = [(e, l) for e in entries for l in P.get("reach", {}).get(e, []) if (e, l) not in reach]
    reasons = {}
    for x in incm:
        k = "%s: %s" % (x["entry"], x["reason"])
        reasons[k] = reasons.get(k, 0) + 1
    fns = demangle(summ["functions"])
    repo_fns = sorted({re.sub(r"::h[0-9a-f]{16}$", "", f) for f in fns if "osmio" in f})
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": summ["paths_ok"] + summ["paths_panic_ok"] + summ["paths_violation"] + summ["paths_incomplete"],
            "transitions": summ["branches_forked_or_decided"] + summ["branches_dom"] + summ["forks"],
            "traces_validated_against_impl": sum(1 for x in sres if x[0]),
            "samples": [{"entry": s["entry"], "inputs": s["inputs"][:24], "observed": [o[:200] for o in s["obs"][:4]]} for ok, s, q in sres[:6]] or
                       [{"note": "no complete path was sampled"}],
            "method": "symbolic execution of the LLVM IR rustc produced from /repo's current tree; z3 decides every assertion and branch",
            "entries": summ["entries"],
            "bounds": P["bounds"],
            "outside_bounds": P.get("outside", ""),
            "complete": not incm and not errs,
            "undecided": [{"reason": k, "count": c} for k, c in sorted(reasons.items())][:40],
            "paths_complete": summ["paths_ok"], "paths_cut_by_assumption": summ["paths_assume"], "paths_expected_panic": summ["paths_panic_ok"],
            "assertions_evaluated": summ["checks_total"], "assertions_constant_true": summ["checks_const"], "assertions_proved_by_solver": summ["checks_solver"],
            "solver_queries": summ["queries"], "unsat": summ["q_unsat"], "sat": summ["q_sat"], "unknown": summ["q_unknown"],
            "solver_s": round(summ["solver_s"], 2), "slowest_query_s": round(summ["solver_max_s"], 2),
            "real_arithmetic_queries": summ["lira"], "floating_point_theory_queries": summ["fpa"],
            "branches_decided_by_exact_domains": summ["branches_dom"],
            "ir_instructions": summ["instrs"], "max_symbolic_variables": summ["max_vars"],
            "functions_executed": len(fns), "repo_functions_encoded": repo_fns[:120],
            "counterexamples_found": len(viol), "counterexamples_reproduced": len(confirmed),
            "counterexamples_not_reproduced": len(unconfirmed),
            "known_findings_seen": len(hit),
            "build_s": round(tb, 1),
        },
        "assumptions": props.ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(seen),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % prop, "w") as f:
        json.dump(evid, f, indent=1)
    print("%s %s: %d paths, %d assertions, %d queries (%.1f s), %d traces validated, %d violations%s; %.0f s" % (
        prop, tier, evid["coverage"]["states"], summ["checks_total"], summ["queries"], summ["solver_s"], evid["coverage"]["traces_validated_against_impl"],
        len(seen), "" if evid["coverage"]["complete"] else ", INCOMPLETE: " + "; ".join("%s x%d" % x for x in sorted(reasons.items())[:6]), time.time() - t0))
    if seen:
        sys.exit(1)
    if errs or summ["crashed"]:
        fail("engine: %d crashed, %s\n%s" % (summ["crashed"], json.dumps(errs[:3])[:1500], r.stderr[-1500:]))
    if bad:
        s, q = bad[0]
        fail("native run disagrees with the symbolic path: %s %s engine %s native rc %s %s %s" % (s["entry"], s["inputs"], s["obs"], q["rc"], q["out"][-500:], q["err"][-500:]))
    if missing and not incm and not unconfirmed:
        fail("vacuous: never reached %s" % missing)
    if missing:
        print("note: not reached %s" % missing)


if __name__ == "__main__":
    main()
