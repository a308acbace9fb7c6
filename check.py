#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [quick|thorough]

1. builds the symbolic executor (symex/) and the harness crate (harness/)
   against /repo's working tree; the harness build yields the optimised LLVM IR
   of the real code plus a native binary made from that same IR;
2. runs the executor on the property's entries (spec.py);
3. replays a sample of the explored paths natively and compares what they
   observed (validates the executor on this very build);
4. replays every counterexample natively; prints VIOLATION only for those that
   reproduce; a counterexample that does not reproduce, an unfinished
   exploration or an unreached cover point is an error (exit 2).
"""
import fcntl, json, os, subprocess, sys, tempfile, time, shutil, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import spec

BUILD = os.path.join(HERE, ".build")
THREADS = int(os.environ.get("SYMEX_THREADS", str(min(8, os.cpu_count() or 8))))


def err(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTUP_TOOLCHAIN"] = "stable"
    # IR files and binaries left behind by runs that were killed
    for d in os.listdir(BUILD):
        p = os.path.join(BUILD, d)
        if d.startswith("run") and time.time() - os.path.getmtime(p) > 7200:
            shutil.rmtree(p, ignore_errors=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e1 = dict(env, CARGO_TARGET_DIR=os.path.join(BUILD, "symex"))
        p1 = subprocess.Popen(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(HERE, "symex"), env=e1, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        p2 = run(["bash", os.path.join(HERE, "harness", "build.sh"), os.path.join(BUILD, "harness")], env=env)
        o1 = p1.communicate()[0]
        if p1.returncode:
            err("building symex failed\n" + o1[-4000:])
        if p2.returncode:
            err("building the harness against /repo failed\n" + p2.stdout[-6000:])
        ll = os.path.join(BUILD, "harness", "harness.ll")
        exe = os.path.join(BUILD, "harness", "harness.bin")
        # private copies, so that a concurrent check cannot swap them
        tmp = tempfile.mkdtemp(prefix="run", dir=BUILD)
        shutil.copy(ll, tmp)
        shutil.copy(exe, tmp)
    return os.path.join(BUILD, "symex", "release", "symex"), os.path.join(tmp, "harness.ll"), os.path.join(tmp, "harness.bin"), tmp


def native(exe, entry, inp_hex, d):
    """-> (end, observed, detail)"""
    f = tempfile.NamedTemporaryFile(dir=d, delete=False)
    f.write(bytes.fromhex(inp_hex)); f.close()
    out = f.name + ".out"
    env = {"HARNESS_INPUT": f.name, "HARNESS_OUT": out, "RUST_BACKTRACE": "0"}
    try:
        p = subprocess.run([exe, entry], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60)
        rc = p.returncode
        se = p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        rc, se = "timeout", ""
    obs, what = [], ""
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            if l.startswith("o "): obs.append(int(l[2:]))
            elif l.startswith("assert "): what = l[7:].strip()
            elif l.startswith("assume"): what = "assume"
        os.unlink(out)
    os.unlink(f.name)
    if rc == 0: end = "ok"
    elif rc == 3: end = "assert"
    elif rc == 4: end = "assume"
    elif rc == "timeout": end = "timeout"
    else:
        end = "panic"
        what = " ".join(se.split())[:400]
    return end, obs, what


def main():
    prop = sys.argv[1]
    if prop == "--build-only":
        shutil.rmtree(build()[3])
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = spec.PROPS[prop]
    entries = list(P["entries"])
    if tier == "thorough":
        entries += P.get("deep", [])
    symex, ll, exe, tmp = build()
    t_build = time.time() - t0
    try:
        rc = decide(prop, tier, seed, P, entries, symex, ll, exe, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, seed, P, entries, symex, ll, exe, tmp, t0, t_build):
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == prop and not k.get("fixed")]
    out = os.path.join(tmp, "report.json")
    limit = 500 if tier == "quick" else 3000
    cmd = [symex, ll, "--threads", str(THREADS), "--out", out, "--samples", "60" if tier == "quick" else "300", "--time", str(limit)]
    for e in entries:
        s = e["entry"]
        if e.get("panic_ok"): s += ":panic-ok"
        cmd += ["--entry", s]
    r = run(cmd)
    print(r.stdout[-12000:])
    if not os.path.exists(out):
        err("the executor did not finish: rc %s" % r.returncode)
    rep = json.load(open(out))
    bad = []       # reasons for an error exit
    viols, knownhit = [], {}
    validated = 0
    pool = cf.ThreadPoolExecutor(THREADS)
    samples = []
    for e, s in zip(rep["entries"], entries):
        n = e["entry"]
        if not e["complete"]:
            bad.append("%s: exploration not complete: %s %s %s %s" % (n, e["stop"], e["engine"][:3], e["limit"][:3], e["inconclusive"][:3]))
        # validation of the executor against the native build
        futs = [(x, pool.submit(native, exe, n, x["input"], tmp)) for x in e["samples"]]
        for x, f in futs:
            end, obs, what = f.result()
            if end != x["end"] or obs != x["observed"]:
                bad.append("%s: native run disagrees with the executor on input %s: %s %s (%s) vs %s %s" % (n, x["input"], end, obs[:6], what, x["end"], x["observed"][:6]))
            else:
                validated += 1
        for x in e["samples"][:2]:
            samples.append({"entry": n, "input": x["input"][:400], "observed": x["observed"][:16], "end": x["end"]})
        for v in e["violations"]:
            end, obs, what = native(exe, n, v["input"], tmp)
            rec = dict(v, entry=n, native_end=end, native_detail=what)
            rep_ok = (v["kind"] == "assert" and end == "assert" and what == v["id"]) or (v["kind"] in ("panic", "memory") and end in ("panic", "timeout"))
            # an earlier assertion or a panic is a failure of the property as well
            if not rep_ok and end in ("assert", "panic"): rep_ok = True
            if not rep_ok:
                bad.append("%s: counterexample for %s (input %s) does not reproduce natively: %s %s" % (n, v["id"], v["input"], end, what))
                continue
            k = next((k for k in known if k["entry"] == n and v["id"].startswith(k["id"]) and k.get("stack", "") in " ".join(v["stack"])), None)
            if k: knownhit[k["what"]] = k
            else: viols.append(rec)
        missing = [c for c in s.get("covers", []) if c not in e["covers"]]
        if missing and not e["violations"]:
            bad.append("%s: cover points not reached: %s" % (n, missing))
        if s.get("min_asserts", 1) and not e["asserts"] and not e["violations"]:
            bad.append("%s: no assertion was reached" % n)
    tot = lambda k: sum(e[k] for e in rep["entries"])
    fns = sorted({f for e in rep["entries"] for f in e["functions"] if "s2protocol" in f})
    nassert = sum(v[0] for e in rep["entries"] for v in e["asserts"].values())
    nsolver = sum(v[1] for e in rep["entries"] for v in e["asserts"].values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("branches"),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "technique": "path-complete symbolic execution of the compiled code (LLVM IR) with an SMT solver",
            "functions_encoded": fns, "functions_encoded_count": len(fns),
            "entries": [{k: e[k] for k in ("entry", "complete", "paths", "ok", "infeasible", "panics", "instrs", "branches", "queries", "cache_hits", "sat", "unsat", "unknown", "solver_s", "max_query_s", "wall_s", "covers", "asserts")} for e in rep["entries"]],
            "bounds": [{"entry": s["entry"], "bounds": s.get("bounds", "")} for s in entries],
            "outside": P.get("outside", ""),
            "instructions": tot("instrs"), "queries": tot("queries"), "solver_seconds": round(tot("solver_s"), 3),
            "assertions_checked": nassert, "assertions_decided_by_solver": nsolver,
            "exhaustive_within_bounds": all(e["complete"] for e in rep["entries"]),
            "build_s": round(t_build, 1),
        },
        "assumptions": spec.ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w, k in knownhit.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if viols:
        rd = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(viols):
            p = os.path.join(rd, "%s-%d.json" % (prop, i))
            with open(p, "w") as f:
                json.dump({"property": prop, "entry": v["entry"], "failed": v["id"], "kind": v["kind"], "input_hex": v["input"], "native": v["native_end"] + " " + v["native_detail"], "stack": v["stack"],
                           "replay": "python3 /verif/replay.py %s" % p}, f, indent=1)
            print("counterexample: entry %s, %s %s, input %s; native run: %s %s" % (v["entry"], v["kind"], v["id"], v["input"], v["native_end"], v["native_detail"]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        for b in bad: print("note: " + b)
        return 1
    if bad:
        for b in bad: print("ERROR: " + b)
        return 2
    print("property=%s held: %d paths, %d branches, %d assertions (%d by the solver), %d queries, %.1f s solver, %d native traces agree, %.1f s" % (prop, tot("paths"), tot("branches"), nassert, nsolver, tot("queries"), tot("solver_s"), validated, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
