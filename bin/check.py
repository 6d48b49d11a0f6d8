#!/usr/bin/env python3
"""check.py <property> <quick|thorough>   decide one property
   check.py --setup                       build everything once
   check.py --replay <file>               run one recorded counterexample natively
See DESIGN.md."""
import concurrent.futures, fcntl, glob, json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(V, ".build")
HARNESS = os.path.join(V, "harness")
ENTRIES = os.path.join(HARNESS, "entries.json")
KNOWN = os.path.join(V, "known_findings.txt")
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings")
    for k in ("RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC"):
        e.pop(k, None)
    return e


def run(cmd, cwd, e, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def fatal(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build_engine():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(B, "sx")
    rc, out = run(["cargo", "build", "--release", "--offline", "--quiet"], os.path.join(V, "sx"), e)
    if rc:
        raise RuntimeError("engine build failed:\n" + out[-4000:])
    return os.path.join(B, "sx", "release", "sx")


def build_ir(feature):
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(B, "ir")
    e["RUSTC_WRAPPER"] = os.path.join(HARNESS, "rustcw")
    for f in glob.glob(os.path.join(B, "ir", "release", "deps", "pah*.ll")):
        os.remove(f)
    # the final crate is always recompiled, so that the IR is always the current source's
    rc, out = run(["cargo", "rustc", "--release", "--offline", "--quiet", "--lib", "--crate-type", "cdylib", "--features", feature, "--",
                   "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "code-model=large"], HARNESS, e)
    ll = os.path.join(B, "ir", "release", "deps", "pah.ll")
    if rc == 0 and not os.path.exists(ll):
        os.utime(os.path.join(HARNESS, "src", "lib.rs"))
        rc, out = run(["cargo", "rustc", "--release", "--offline", "--quiet", "--lib", "--crate-type", "cdylib", "--features", feature, "--",
                       "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "code-model=large"], HARNESS, e)
    if rc or not os.path.exists(ll):
        raise RuntimeError("the code under test does not build with the harness:\n" + out[-6000:])
    return ll


def build_native(feature):
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(B, "native")
    e["RUSTC_WRAPPER"] = os.path.join(HARNESS, "rustcw")
    rc, out = run(["cargo", "rustc", "--profile", "replay", "--offline", "--quiet", "--lib", "--crate-type", "cdylib", "--features", "native," + feature], HARNESS, e)
    so = os.path.join(B, "native", "replay", "libpah.so")
    if rc or not os.path.exists(so):
        raise RuntimeError("native replay build failed:\n" + out[-6000:])
    return so


def build(feature, rundir):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(build_engine), ex.submit(build_ir, feature), ex.submit(build_native, feature)]
            try:
                r = [f.result() for f in fs]
            except (RuntimeError, subprocess.TimeoutExpired) as x:
                fatal(str(x))
        out = []
        for f in r:
            d = os.path.join(rundir, os.path.basename(f))
            shutil.copy2(f, d)
            out.append(d)
        return out


def replay(so, entry, values, timeout=60):
    """-> (kind, detail): ok | check | assume | panic | hang"""
    code = "import ctypes,sys\nl=ctypes.CDLL(sys.argv[1])\ngetattr(l,sys.argv[2])()\nsys.stdout.flush()\n"
    e = env()
    e["SX_VALUES"] = ",".join(str(v) for v in values)
    e["RUST_BACKTRACE"] = "0"
    if len(e["SX_VALUES"]) > 100000:  # too long for an environment variable
        with tempfile.NamedTemporaryFile("w", suffix=".values") as f:
            f.write(e["SX_VALUES"])
            f.flush()
            e["SX_VALUES"] = "@" + f.name
            return replay_with(so, entry, e, code, timeout)
    return replay_with(so, entry, e, code, timeout)


def replay_with(so, entry, e, code, timeout):
    try:
        p = subprocess.run([sys.executable, "-c", code, so, entry], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd="/tmp")
    except subprocess.TimeoutExpired:
        return "hang", "no end within %d s" % timeout
    err = p.stderr.decode("utf8", "replace")
    if p.returncode == 0:
        return "ok", err
    if p.returncode == 77:
        return "assume", err
    if p.returncode == 99:
        return "check", err
    if p.returncode < 0:
        return "panic", err
    return "exit %d" % p.returncode, err


def known_findings(prop):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("{"):
                j = json.loads(l)
                if j.get("property") == prop and j.get("status") == "open":
                    r.append(j)
    return r


def main():
    table = json.load(open(ENTRIES))
    if sys.argv[1] == "--setup":
        d = os.path.join(B, "setup")
        os.makedirs(d, exist_ok=True)
        build("c01", d)
        shutil.rmtree(d)
        return 0
    if sys.argv[1] == "--replay":
        j = json.load(open(sys.argv[2]))
        d = os.path.join(B, "replay.%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        try:
            _, _, so = build(j["feature"], d)
            kind, detail = replay(so, j["entry"], j["values"])
        finally:
            shutil.rmtree(d)
        print(kind)
        print(detail)
        return 0 if kind == "ok" else 1
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    feature = prop.lower()
    spec = table[prop]
    entries = list(spec["quick"]) + (list(spec.get("thorough", [])) if tier == "thorough" else [])
    if tier == "thorough":
        entries = [x for x in entries if not x.get("quick_only")]
    only = os.environ.get("SX_ONLY")
    if only:
        entries = [x for x in entries if x["entry"] in only.split(",")]
    rundir = os.path.join(B, "run.%s.%d" % (prop, os.getpid()))
    os.makedirs(rundir, exist_ok=True)
    try:
        return decide(prop, tier, feature, spec, entries, rundir)
    finally:
        shutil.rmtree(rundir, ignore_errors=True)


def decide(prop, tier, feature, spec, entries, rundir):
    sx, ll, so = build(feature, rundir)
    log("built")
    budget = 840 if tier == "quick" else 6 * 3600
    results, problems, violations, validated = [], [], [], 0
    samples = []
    for k in known_findings(prop):
        kind, _ = replay(so, k["entry"], k["values"])
        if kind not in ("ok", "assume"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
    for x in entries:
        left = budget - (time.time() - T0)
        secs = int(min(x.get("secs", 300), left - 20))
        if secs < 5:
            problems.append("%s: no time left" % x["entry"])
            break
        js = os.path.join(rundir, x["entry"] + ".json")
        p = subprocess.run([sx, "--ll", ll, "--entry", x["entry"], "--json", js, "--secs", str(secs), "--workers", str(os.cpu_count() or 8), "--steps", str(x.get("steps", 300_000_000)), "--src", REPO + "/src/"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env())
        if not os.path.exists(js):
            problems.append("%s: engine ended with %d: %s" % (x["entry"], p.returncode, p.stdout[-1500:]))
            continue
        r = json.load(open(js))
        r["bounds"] = x.get("bounds", "")
        results.append(r)
        log(x["entry"], "paths", r["paths"], "queries", r["queries"], "secs", r["seconds"], "violations", len(r["violations"]), r["errors"][:2], r["missing_covers"])
        confirmed = False
        for v in r["violations"]:
            kind, detail = replay(so, x["entry"], v["values"])
            if kind in ("ok", "assume"):
                problems.append("%s: the counterexample for '%s' does not reproduce natively (%s) values=%s trace=%s" % (x["entry"], v["message"], kind, v["values"], v["trace"][:6]))
                continue
            if not confirmed:
                violations.append((x["entry"], v, kind, detail))
            confirmed = True
        if confirmed:
            break
        if r["violations"]:
            continue
        if r["errors"] or not r["complete"]:
            problems.append("%s: incomplete: %s" % (x["entry"], r["errors"]))
        if r["missing_covers"]:
            problems.append("%s: required situations never reached: %s" % (x["entry"], r["missing_covers"]))
        # the same paths through the natively compiled code
        pick = r["samples"][: (12 if tier == "quick" else 40)]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for s, (kind, detail) in zip(pick, ex.map(lambda s: replay(so, x["entry"], s["values"]), pick)):
                cov = ",".join(l[len("SX-COVER: "):] for l in detail.split("\n") if l.startswith("SX-COVER: "))
                if kind != "ok" or cov != s["covers"]:
                    problems.append("%s: native run disagrees with the symbolic path (%s, covers %s vs %s) values=%s" % (x["entry"], kind, cov, s["covers"], s["values"]))
                else:
                    validated += 1
        for s in pick[:2]:
            samples.append({"entry": x["entry"], "inputs": ["%s=%s" % p for p in list(zip(s["tags"], s["values"]))[:40]], "reached": s["covers"]})
    for e, v, kind, detail in violations[:1]:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        path = os.path.join(V, "replays", "%s-%s.json" % (prop, e))
        json.dump({"property": prop, "feature": feature, "entry": e, "message": v["message"], "values": v["values"], "tags": v["tags"], "trace": v["trace"], "native": kind, "native_stderr": detail[-2000:],
                   "how": "python3 /verif/bin/check.py --replay " + path}, open(path, "w"), indent=1)
        print("%s: %s" % (e, v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    fns = {}
    for r in results:
        for f, n in r["functions"].items():
            fns[f] = max(fns.get(f, 0), n)
    tot = lambda k: sum(r[k] for r in results)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "explanation": "Symbolic execution of the LLVM IR that rustc emits for the current source of /repo together with the harness; every branch on symbolic data and every nondeterministic event (delay, short read or write, hash order, choice of case) is decided by z3; a run counts only when every path within the bounds was completed.",
            "states": tot("paths") + tot("pruned") + tot("forks"), "transitions": tot("instructions"),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "exhaustive": bool(results) and all(r["complete"] for r in results) and not problems and not violations,
            "paths_completed": tot("paths"), "paths_infeasible": tot("pruned"), "forks": tot("forks"),
            "solver": results[0]["z3"] if results else "", "queries_discharged": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "query_cache_hits": tot("cache_hits"),
            "solver_seconds": round(tot("solver_seconds"), 3), "assertions_checked": tot("assertions"), "assertions_on_symbolic_values": tot("symbolic_assertions"),
            "functions_encoded": dict(sorted(fns.items())),
            "harnesses": [{"entry": r["entry"], "bounds": r["bounds"], "complete": r["complete"], "paths": r["paths"], "longest_path_instructions": r["longest_path"], "queries": r["queries"], "solver_seconds": r["solver_seconds"], "max_symbols": r["max_symbols"], "seconds": r["seconds"], "reached": r["covers"]} for r in results],
            "outside": spec.get("outside", ""),
            "problems": problems,
        },
        "assumptions": spec.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - T0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    if violations:
        return 1
    if problems:
        for p in problems:
            print("ERROR: " + p)
        return 2
    print("OK property=%s tier=%s harnesses=%d paths=%d queries=%d solver_s=%.2f native_traces=%d wall_s=%.1f" % (prop, tier, len(results), tot("paths"), tot("queries"), tot("solver_seconds"), validated, time.time() - T0))
    return 0


COMMON = [
    "environment model in /verif/stub: async-std's files, standard streams, processes and timers are replaced by a virtual world; channels, futures, serde, peg and petgraph are the real crates",
    "std::collections::HashMap/HashSet are replaced by an insertion-ordered map whose iteration order is permuted by the harness; sound for code that does not depend on hash values",
    "single-threaded cooperative scheduling, as in the program (one block_on over joined futures)",
    "memory allocation never fails; the engine (/verif/sx) and z3 are trusted, and spot-checked by replaying sampled paths natively",
]

if __name__ == "__main__":
    sys.exit(main())
