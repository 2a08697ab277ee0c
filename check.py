#!/usr/bin/env python3
"""Decide one property of /repo's current tree: build, execute symbolically, replay, report.

usage: check.py PROPERTY [quick|thorough]      (also: check.py --build)
exit 0: holds on everything explored; 1: VIOLATION line printed; 2: the check itself failed
"""
import json, os, subprocess, sys, time, threading, shutil, glob, hashlib, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
BUILD = os.path.join(HERE, "build")
REPO = "/repo"
TARGET = "riscv64gc-unknown-linux-gnu"
ENGINE = os.path.join(HERE, "engine/target/release/llsym")
NPROC = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    pass


def run(cmd, what, env=None, cwd=None, timeout=840):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER"):
            e.pop(k)
    e["CARGO_NET_OFFLINE"] = "true"
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise CheckError("%s failed (exit %d):\n%s" % (what, p.returncode, p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


def build_engine():
    run(["cargo", "+stable", "build", "-q", "--release", "--offline"], "building the symbolic executor", cwd=os.path.join(HERE, "engine"))


def build_ir():
    src = os.path.join(BUILD, "rust-src")
    stamp = os.path.join(src, ".stamp")
    want = hashlib.sha256(open(os.path.join(HERE, "mkstd.py"), "rb").read()).hexdigest()
    if not (os.path.exists(stamp) and open(stamp).read() == want):
        shutil.rmtree(src, ignore_errors=True)
        shutil.rmtree(os.path.join(BUILD, "sym"), ignore_errors=True)
        run([sys.executable, os.path.join(HERE, "mkstd.py"), src], "preparing the standard library source")
        open(stamp, "w").write(want)
    env = {
        "__CARGO_TESTS_ONLY_SRC_ROOT": os.path.join(src, "library"),
        "RUSTFLAGS": "--cap-lints allow --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp",
        "CARGO_TARGET_DIR": os.path.join(BUILD, "sym"),
    }
    run(["cargo", "+nightly", "build", "-q", "--offline", "--release", "-Zbuild-std=std,panic_abort", "-Zbuild-std-features=", "--target", TARGET],
        "compiling /repo to LLVM IR", env=env, cwd=os.path.join(HERE, "ws/sym"))


def ir_file():
    c = glob.glob(os.path.join(BUILD, "sym", TARGET, "release/build/hsym/*/out/hsym-*.ll")) + glob.glob(os.path.join(BUILD, "sym", TARGET, "release/deps/hsym-*.ll"))
    if not c:
        raise CheckError("no IR module was produced")
    return max(c, key=os.path.getmtime)


def build_native():
    env = {"RUSTFLAGS": "--cap-lints allow", "CARGO_TARGET_DIR": os.path.join(BUILD, "nat")}
    run(["cargo", "+nightly", "build", "-q", "--offline"], "building the native replayer", env=env, cwd=os.path.join(HERE, "ws/nat"))


def build_all():
    os.makedirs(BUILD, exist_ok=True)
    # cargo decides by mtime whether sources changed; the working tree may have been rewritten with
    # older mtimes, so a changed content hash forces a rebuild of llamapun
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(open(p, "rb").read())
    stamp = os.path.join(BUILD, "src.sha")
    cur = h.hexdigest()
    if not (os.path.exists(stamp) and open(stamp).read() == cur):
        for pat in ("sym/*/release/.fingerprint/llamapun*", "nat/debug/.fingerprint/llamapun*", "sym/*/release/build/llamapun/*", "nat/debug/build/llamapun/*",
                    "sym/*/release/build/hsym/*", "nat/debug/build/hnat/*"):
            for d in glob.glob(os.path.join(BUILD, pat)):
                shutil.rmtree(d, ignore_errors=True)
    errs = []

    def guard(f):
        def g():
            try:
                f()
            except CheckError as e:
                errs.append(str(e))
            except Exception as e:  # noqa
                errs.append("%s: %r" % (f.__name__, e))
        return g
    ts = [threading.Thread(target=guard(f)) for f in (build_engine, build_ir, build_native)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise CheckError("\n".join(errs))
    open(stamp, "w").write(cur)


def native(spec, data, timeout=20):
    """one run of the real code: (exit code or 'timeout', stdout, stderr)"""
    d = tempfile.mkdtemp(prefix="llp-replay-")
    try:
        inp = os.path.join(d, "input")
        open(inp, "wb").write(bytes(data))
        scratch = os.path.join(d, "w")
        os.mkdir(scratch)
        try:
            p = subprocess.run([os.path.join(BUILD, "nat/debug/hnat"), spec, inp, scratch], cwd=scratch, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return "timeout", "", ""
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "--build":
        build_all()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import props
    P = props.PROPS[prop]
    t0 = time.time()
    build_all()
    t_build = time.time() - t0
    runs = list(P["quick"]) if tier == "quick" else list(P["quick"]) + list(P.get("thorough", []))
    specs = [r["spec"] for r in runs]
    budget = float(os.environ.get("VERIF_BUDGET", 520 if tier == "quick" else 6 * 3600))
    out = os.path.join(BUILD, "out.%s.json" % prop)
    left = budget
    results = []
    # one invocation: the module is parsed once, each entry has the whole limit to itself
    cmd = [ENGINE, ir_file(), "--out", out, "--jobs", str(NPROC), "--limit", str(max(60.0, budget / max(1, len(specs)) * 3)), "--seed", str(seed),
           "--max-steps", str(P.get("max_steps", 60_000_000))]
    for s in specs:
        cmd += ["--entry", s]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 240 if tier == "quick" else None)
    if p.returncode != 0:
        raise CheckError("symbolic execution failed (exit %d):\n%s" % (p.returncode, p.stderr.decode(errors="replace")[-4000:]))
    results = [json.loads(l) for l in open(out)]
    if [r["entry"] for r in results] != specs:
        raise CheckError("symbolic execution did not report every entry")

    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    known = {k["id"]: k for k in known if k["property"] == prop and k["status"] == "known"}
    rdir = os.path.join(BUILD, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    problems, violations, seen_known = [], [], {}
    validated = 0
    samples_out = []
    for r, cfg in zip(results, runs):
        if r.get("missing"):
            problems.append("%s: no such entry in the module" % r["entry"])
            continue
        c = r["counts"]
        # counterexamples: only what the real code reproduces is a violation
        for i, v in enumerate(r["violations"]):
            rc, so, se = native(r["entry"], v["input"], timeout=60 if v["kind"] == "hang" else 20)
            if v["kind"] == "assert":
                ok = rc == 10 and any(l.startswith("CHECK-FAIL") for l in so.splitlines())
            elif v["kind"] == "panic":
                ok = rc == 101 or (isinstance(rc, int) and rc < 0)
            elif v["kind"] == "hang":
                ok = rc == "timeout" or (isinstance(rc, int) and rc < 0)
            else:
                ok = isinstance(rc, int) and (rc < 0 or rc == 101)
            kid = v["msg"][1:v["msg"].index("]")] if v["msg"].startswith("[") and "]" in v["msg"] else None
            what = "%s %s: %s" % (r["entry"], v["kind"], v["msg"])
            if not ok:
                problems.append("counterexample does not reproduce natively: %s input=%s native exit=%s stdout=%s" % (what, v["input"], rc, so[-600:]))
                continue
            if kid in known:
                seen_known.setdefault(kid, what)
                continue
            path = os.path.join(rdir, "%d.json" % (len(violations) + 1))
            json.dump({"property": prop, "entry": r["entry"], "kind": v["kind"], "message": v["msg"], "input": v["input"], "paths": v["count"],
                       "native_exit": rc, "native_stdout": so[-3000:], "native_stderr": se[-3000:],
                       "how": "write the input bytes to a file F, make an empty directory D, run build/nat/debug/hnat '%s' F D" % r["entry"]},
                      open(path, "w"), indent=1)
            violations.append((path, what))
        # traces: sampled paths must behave the same in the native build
        for s in r["samples"][: cfg.get("validate", 10)]:
            rc, so, se = native(r["entry"], s["input"])
            got = " ".join(l[2:] for l in so.splitlines() if l.startswith("E "))
            if rc != 0 or got.split() != s["trace"].split():
                problems.append("path does not replay: %s input=%s symbolic=[%s] native exit=%s [%s] %s" % (r["entry"], s["input"], s["trace"][:800], rc, got[:800], se[-400:]))
            else:
                validated += 1
        if r["samples"]:
            samples_out.append({"entry": r["entry"], "input": r["samples"][0]["input"], "trace": r["samples"][0]["trace"][:400]})
        if c.get("incomplete"):
            problems_inc = "%s was not explored completely within the time limit" % r["entry"]
            print("NOTE: " + problems_inc)
            cfg["_incomplete"] = True
    # vacuity: the interesting situations must have been reached
    reached = {}
    for r in results:
        for k, n in r.get("labels", {}).items():
            reached[k] = reached.get(k, 0) + n
    for cfg in runs:
        pass
    for want in P.get("reach", []):
        if want not in reached:
            problems.append("vacuous: no path reached '%s'" % want)
    tot = lambda k: sum(r.get("counts", {}).get(k, 0) for r in results)  # noqa
    repo_functions = sorted({f for r in results for f in r.get("repo_functions", [])})
    cov = {
        "states": tot("paths"),
        "transitions": tot("forks"),
        "traces_validated_against_impl": validated,
        "samples": samples_out[:8],
        "exhaustive": not any(c.get("_incomplete") for c in runs) and not problems,
        "input_valuations_decided": sum(r.get("valuations", 0) for r in results),
        "instructions_executed": tot("steps"),
        "paths_cut_by_assumptions": tot("assumed_out"),
        "checks_discharged_concretely": tot("checks_concrete"),
        "checks_discharged_symbolically": tot("checks_symbolic"),
        "solver": {"z3_queries": tot("z3_queries"), "sat": tot("z3_sat"), "unsat": tot("z3_unsat"), "seconds": round(tot("z3_us") / 1e6, 3),
                   "one_variable_decisions": tot("unary_decisions"), "of_those_cross_checked_with_z3": tot("audits")},
        "entries": [{"entry": r["entry"], "bounds": cfg.get("bounds", ""), "paths": r.get("counts", {}).get("paths"), "valuations": r.get("valuations"),
                     "wall_s": r.get("wall_s"), "labels": r.get("labels"), "complete": not cfg.get("_incomplete", False)} for r, cfg in zip(results, runs)],
        "repo_functions_encoded": repo_functions,
        "functions_encoded_total": max([r.get("functions", 0) for r in results] or [0]),
        "bounds": P.get("bounds", ""),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    cov["build_s"] = round(t_build, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in sorted(known):
        if k in seen_known:
            print("KNOWN-FINDING: property=%s [%s] %s" % (prop, k, known[k]["what"]))
    print("%s %s: %d paths, %d valuations, %d symbolic + %d concrete checks, %d z3 queries (%.1f s), %d traces validated, build %.0f s, total %.0f s" % (
        prop, tier, cov["states"], cov["input_valuations_decided"], cov["checks_discharged_symbolically"], cov["checks_discharged_concretely"],
        cov["solver"]["z3_queries"], cov["solver"]["seconds"], validated, t_build, time.time() - t0))
    for path, what in violations[:20]:
        print("  " + what)
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][0]))
        return 1
    if problems:
        for x in problems[:20]:
            print("ERROR " + x)
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR " + str(e))
        sys.exit(2)
