#!/usr/bin/env python3
"""Driver of the checks.

  check.py PID [--tier quick|thorough]   run the check of a property
  check.py --setup                       build everything that does not depend on /repo's sources
  check.py --entry NAME [symex options]  run one harness, verbosely (development)
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(ROOT, "target")
SYMEX = T + "/engine/release/symex"
HOST = "x86_64-unknown-linux-gnu"
REPLAY = T + "/native/" + HOST + "/debug/replay"
sys.path.insert(0, ROOT)
from props import PROPS

TRUSTED = [
    "rustc 1.101-nightly front end and LLVM IR emission (opt-level 1, overflow checks and debug assertions on)",
    "/verif/engine (IR semantics, memory model), whose every reported counterexample is replayed natively",
    "Z3 (verdicts)",
    "stand-ins of the unavailable packages under /verif/standins (snips-nlu-parsers, snips-nlu-utils, snips-nlu-ontology, crfsuite, regex, zip, csv, ...)",
]


class Fail(Exception):
    pass


def env(**kw):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith("CARGO_") and k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "RUSTDOCFLAGS")}
    if "CARGO_HOME" in os.environ:
        e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    e.update(CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="nightly", CARGO_TERM_COLOR="never")
    e.update(kw)
    return e


def run(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        tail = "\n".join([l for l in p.stdout.splitlines() if not l.startswith("{")][-60:])
        raise Fail("%s failed (%d):\n%s" % (what, p.returncode, tail))
    return p.stdout


def newer(dst, srcs):
    return os.path.exists(dst) and all(os.path.getmtime(dst) >= os.path.getmtime(s) for s in srcs)


def bootstrap():
    os.makedirs(T, exist_ok=True)
    stamp = T + "/rustsrc.stamp"
    tool = ROOT + "/tools/mkstd.py"
    key = open(tool).read()
    if not (os.path.exists(stamp) and open(stamp).read() == key and os.path.isdir(T + "/rustsrc/library")):
        run([sys.executable, tool, T + "/rustsrc"], "copy of rust-src", env=env())
        run([sys.executable, tool, T + "/rustsrc-native", "--native"], "copy of rust-src", env=env())
        # cargo takes the standard library for immutable
        for d in ("/ir", "/native"):
            shutil.rmtree(T + d, ignore_errors=True)
        open(stamp, "w").write(key)
    run(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", T + "/engine"], "build of the executor",
        cwd=ROOT + "/engine", env=env())


def fresh(target):
    """cargo judges by times, and takes the packages of a directory source for immutable: what was built
    from contents that are no longer there is removed"""
    groups = [
        ("repo", ["snips-nlu-lib", "snips-nlu-ffi", "harness"], ["/repo/src/**/*.rs", "/repo/ffi/src/**/*.rs", "/repo/platforms/python/ffi/src/**/*.rs", "/repo/Cargo.toml", ROOT + "/harness/**/*.rs"]),
        ("standins", os.listdir(ROOT + "/standins"), [ROOT + "/standins/**/*"]),
    ]
    for name, packages, patterns in groups:
        d = hashlib.sha256()
        for f in sorted({f for p in patterns for f in glob.glob(p, recursive=True)}):
            if os.path.isfile(f):
                d.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
        stamp = T + "/%s.%s.stamp" % (name, os.path.basename(target))
        if os.path.exists(stamp) and open(stamp).read() == d.hexdigest():
            continue
        for p in packages:
            for d2 in glob.glob(target + "/*/debug/build/" + p) + glob.glob(target + "/*/debug/.fingerprint/" + p + "-*"):
                shutil.rmtree(d2)
        open(stamp, "w").write(d.hexdigest())


def modules_of(entries):
    """the modules (features) of the harness crate that have the harnesses"""
    found = []
    for m, body in re.findall(r'^    "(\w+)" \w+ \{(.*?)^    \}', open(ROOT + "/harness/src/lib.rs").read(), re.M | re.S):
        if any(e in re.findall(r"\w+", body) for e in entries):
            found.append(m)
    return found


def cargo(args, entries, **kw):
    """cargo build of the harness crate; where that fails, of the modules of the harnesses only: what
    /repo's current sources no longer offer to one module does not matter to the others"""
    p = subprocess.run(["cargo", "build"] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       cwd=ROOT + "/harness", **kw)
    if p.returncode != 0 and entries:
        p = subprocess.run(["cargo", "build", "--no-default-features", "--features", ",".join(modules_of(entries))] + args,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=ROOT + "/harness", **kw)
    return p


def build_ir(entries=()):
    """compile /repo's current sources and the harnesses to LLVM IR; returns the modules"""
    fresh(T + "/ir")
    e = env(__CARGO_TESTS_ONLY_SRC_ROOT=T + "/rustsrc/library",
            RUSTFLAGS="--cfg snips_nlu_verif --emit=llvm-ir -Cpanic=abort -Ccodegen-units=1 -Cno-vectorize-loops "
                      "-Cno-vectorize-slp -Copt-level=1 -Coverflow-checks=on -Cdebuginfo=line-tables-only -Zinline-mir=no -Awarnings")
    p = cargo(["--lib", "--locked", "--offline", "-Zbuild-std=std,panic_abort",
               "--target", "riscv64gc-unknown-linux-gnu", "--target-dir", T + "/ir",
               "--message-format=json-render-diagnostics"], entries, env=e)
    if p.returncode != 0:
        raise Fail("the code does not compile:\n" + "\n".join(p.stderr.splitlines()[-60:]))
    lls = []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-artifact":
            continue
        for d in {os.path.dirname(f) for f in m["filenames"]}:
            if "/riscv64gc-unknown-linux-gnu/" in d:
                for f in glob.glob(d + "/*.ll"):
                    if f not in lls:
                        lls.append(f)
    path = T + "/modules.%d" % os.getpid()
    open(path, "w").write("\n".join(lls) + "\n")
    return path


def build_native(entries=()):
    fresh(T + "/native")
    p = cargo(["--locked", "--offline", "-Zbuild-std=std,panic_unwind", "--target", HOST,
               "--target-dir", T + "/native"], entries,
              env=env(__CARGO_TESTS_ONLY_SRC_ROOT=T + "/rustsrc-native/library",
                      RUSTFLAGS="--cfg snips_nlu_verif -Awarnings"))
    if p.returncode != 0:
        raise Fail("native build failed:\n" + "\n".join(p.stderr.splitlines()[-60:]))


class Lock:
    def __enter__(self):
        os.makedirs(T, exist_ok=True)
        self.f = open(T + "/lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def symex(entry, mods, out, opts, verbose=False):
    shutil.rmtree(out, ignore_errors=True)
    cmd = [SYMEX, "--entry", entry, "--ir", mods, "--out", out] + opts
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=None if verbose else subprocess.PIPE, text=True,
                         start_new_session=True)
    late = []
    try:
        err = p.communicate(timeout=int(opts[opts.index("--timeout") + 1]) + 60)[1]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        err = p.communicate()[1]
        late = ["ended by force after its time limit"]
    r = {"entry": entry, "wall_s": round(time.time() - t, 2), "rc": p.returncode, "stderr": err or ""}
    tot = dict(paths=0, killed=0, forks=0, blocks=0, q_branch=0, q_assert=0, q_other=0, q_sat=0, q_unsat=0,
               q_unknown=0, q_cached=0, q_cubes=0, solver_us=0)
    asserts, covers, expects, inc, samples, viol, funcs, lines, mx = {}, set(), set(), set(), [], [], set(), {}, 0
    for f in sorted(glob.glob(out + "/result.*.json")):
        d = json.load(open(f))
        for k in tot:
            tot[k] += d[k]
        mx = max(mx, d["max_q_us"])
        for k, v in d["asserts"].items():
            a = asserts.setdefault(k, [0, 0, 0])
            for i in range(3):
                a[i] += v[i]
        covers |= set(d["covers"])
        expects |= set(d["expects"])
        inc |= set(d["incomplete"])
        samples += d["samples"]
        viol += d["violations"]
        funcs |= set(d["functions"])
        for k, v in d["lines"].items():
            lines.setdefault(k, set()).update(v)
    crashes = [open(f).read().strip() for f in glob.glob(out + "/crash.*")]
    r.update(tot, max_query_us=mx, asserts=asserts, covers=covers, expects=expects, incomplete=sorted(inc) + late,
             samples=samples[:8], violations=viol, functions=funcs, lines=lines, crashes=crashes)
    try:
        r["solver"] = open(out + "/solver").read().strip()
    except OSError:
        r["solver"] = "?"
    return r


def known_findings():
    p = ROOT + "/known_findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def write_values(path, values):
    open(path, "w").write("".join("%s %d\n" % (n, v) for n, v in values))


def replay(entry, values_file, deep, attempts=200):
    e = env(VERIF_DEEP="1" if deep else "0")
    tmp = T + "/tmp"
    os.makedirs(tmp, exist_ok=True)
    e["TMPDIR"] = tmp
    try:
        p = subprocess.run([REPLAY, entry, values_file, str(attempts)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=120, env=e)
    except subprocess.TimeoutExpired:
        return False, "replay timed out"
    if p.returncode in (10,) or p.returncode < 0:
        return True, p.stdout.strip() or "killed by signal %d" % -p.returncode
    return False, p.stdout.strip() + p.stderr[-500:]


def matches(f, pid, entry, v):
    if f.get("property") != pid or f.get("harness") != entry or f.get("label") != v["label"]:
        return False
    vals = {n: x for n, x in v["values"]}
    return all(vals.get(n) == x for n, x in f.get("values", {}).items())


def check(pid, tier):
    t0 = time.time()
    P = PROPS[pid]
    deep = tier == "thorough"
    with Lock():
        bootstrap()
        mods = build_ir([h["entry"] for h in P["harnesses"]])
    try:
        return _check(pid, tier, P, deep, mods, t0)
    finally:
        os.unlink(mods)


def _check(pid, tier, P, deep, mods, t0):
    build_s = time.time() - t0
    known = known_findings()
    results, problems, reported, found_known = [], [], [], []
    native_built = False
    replayed = 0
    budget = 3000 if deep else 800
    for h in P["harnesses"]:
        entry = h["entry"]
        if deep and h.get("quick_only"):
            continue
        if not deep and h.get("deep_only"):
            continue
        out = T + "/run/%s.%d" % (entry, os.getpid())
        left = max(20, budget - (time.time() - t0))
        tmo = min(h.get("deep_timeout", 2400) if deep else h.get("timeout", 300), left)
        opts = ["--workers", "8", "--timeout", str(int(tmo)), "--max-violations", "6",
                "--query-limit", str(h.get("query_limit", 60000000))] + (["--deep"] if deep else [])
        r = symex(entry, mods, out, opts)
        shutil.rmtree(out, ignore_errors=True)
        results.append((h, r))
        seen = set()
        for v in r["violations"]:
            k = [f for f in known if matches(f, pid, entry, v)]
            if k:
                found_known.append(k[0]["what"])
                continue
            if v["label"] in seen:
                continue
            if not native_built:
                with Lock():
                    build_native([h["entry"] for h in P["harnesses"]])
                native_built = True
            d = T + "/violations"
            os.makedirs(d, exist_ok=True)
            path = "%s/%s-%s-%d.values" % (d, pid, entry, len(reported))
            write_values(path, v["values"])
            ok, msg = replay(entry, path, deep)
            replayed += 1
            if ok:
                seen.add(v["label"])
                reported.append((path, entry, v, msg))
            else:
                problems.append("%s: counterexample to \"%s\" was not reproduced natively: %s %s" % (entry, v["label"], msg, v["values"]))
        if r["crashes"] or r["rc"] != 0:
            problems.append("%s: executor failed: %s %s" % (entry, r["crashes"], r["stderr"][-2000:]))
        if not r["violations"]:
            if r["incomplete"] or r["q_unknown"]:
                problems.append("%s: not decided: %s (%d unknown)" % (entry, r["incomplete"][:4], r["q_unknown"]))
            missing = r["expects"] - r["covers"]
            if missing:
                problems.append("%s: situations never reached: %s" % (entry, sorted(missing)))
            if r["paths"] == 0 or not r["asserts"]:
                problems.append("%s: nothing was checked" % entry)
        if reported:
            break
    for w in sorted(set(found_known)):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    tot = lambda k: sum(r[k] for _, r in results)
    funcs = sorted(set().union(*[r["functions"] for _, r in results]))
    obligations = sum(a[0] for _, r in results for a in r["asserts"].values())
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": P.get("level", "model_checking"),
        "coverage": {
            "states": tot("blocks"),
            "transitions": tot("forks") + tot("paths"),
            "traces_validated_against_impl": replayed,
            "samples": [s for _, r in results for s in r["samples"]][:8] or
                       [{"harness": r["entry"], "assertions": dict(list(r["asserts"].items())[:6])} for _, r in results][:3],
            "explanation": "Path-complete symbolic execution of the LLVM IR rustc emits for /repo's current sources; every branch whose "
                           "condition depends on a symbolic input is decided by the solver, every assertion (and every panic, overflow, "
                           "out-of-bounds access on the way) is discharged for all values of the path. states = basic blocks executed, "
                           "transitions = solver-decided forks plus completed paths.",
            "functions_encoded": funcs,
            "bounds": {h["entry"]: h["bounds"] for h, _ in results},
            "outside_the_bounds": P.get("outside", ""),
            "queries": {"branch": tot("q_branch"), "assertion": tot("q_assert"), "other": tot("q_other"), "sat": tot("q_sat"),
                        "unsat": tot("q_unsat"), "unknown": tot("q_unknown"), "answered_from_cache": tot("q_cached"), "split_on_all_values": tot("q_cubes")},
            "solver_time_s": round(tot("solver_us") / 1e6, 2),
            "solver": results[0][1]["solver"] if results else "?",
            "paths": tot("paths"), "paths_outside_assumptions": tot("killed"),
            "assertions_evaluated": obligations,
            "assertions_by_solver": sum(a[1] for _, r in results for a in r["asserts"].values()),
            "per_harness": [{k: r[k] for k in ("entry", "wall_s", "paths", "forks", "q_sat", "q_unsat", "q_cached", "solver_us", "max_query_us")}
                            | {"assertions": r["asserts"], "situations_reached": sorted(r["covers"])} for _, r in results],
            "source_lines_executed": {k[len("/repo/"):]: len(v) for k, v in
                                      sorted(merge_lines([r["lines"] for _, r in results]).items())},
            "build_s": round(build_s, 2), "problems": problems, "known_findings_met": sorted(set(found_known)),
            "trusted_base": TRUSTED,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    json.dump(ev, open(ROOT + "/evidence/%s.json" % pid, "w"), indent=1)
    for path, entry, v, msg in reported:
        print("  %s: \"%s\" fails: %s" % (entry, v["label"], msg))
        print("  inputs: %s" % ", ".join("%s=%d" % (n, x) for n, x in v["values"]))
        for t in v["trace"][:8]:
            print("    at %s" % t)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if reported:
        return 1
    if problems:
        for p in problems:
            print("UNDECIDED %s: %s" % (pid, p))
        return 2
    print("%s holds within bounds: %d harnesses, %d paths, %d assertions, %d queries, solver %.1f s, %.1f s in all" %
          (pid, len(results), tot("paths"), obligations, tot("q_sat") + tot("q_unsat"), tot("solver_us") / 1e6, time.time() - t0))
    return 0


def merge_lines(ls):
    m = {}
    for l in ls:
        for k, v in l.items():
            m.setdefault(k, set()).update(v)
    return m


def dev(entry, opts):
    with Lock():
        bootstrap()
        mods = build_ir([entry])
    out = T + "/run/dev.%s.%d" % (entry, os.getpid())
    r = symex(entry, mods, out, opts, verbose=True)
    os.unlink(mods)
    shutil.rmtree(out, ignore_errors=True)
    print({k: r[k] for k in ("wall_s", "paths", "killed", "forks", "blocks", "q_sat", "q_unsat", "q_unknown", "q_cached", "q_cubes", "solver_us", "max_query_us")})
    for k, v in r["asserts"].items():
        print("  assert %s %s" % (v, k))
    print("  covers", sorted(r["covers"]), "MISSING" if r["expects"] - r["covers"] else "", sorted(r["expects"] - r["covers"]))
    for i in r["incomplete"]:
        print("  INCOMPLETE", i)
    for i in r["crashes"]:
        print("  CRASH", i)
    for i, v in enumerate(r["violations"]):
        print("  VIOLATION", v["label"], v["values"], v["order"])
        for t in v["trace"][:12]:
            print("      ", t)
        if "--replay" in sys.argv:
            build_native([entry])
            write_values("/tmp/dev.values", v["values"])
            print("   replay:", replay(entry, "/tmp/dev.values", "--deep" in opts))


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "--setup":
            with Lock():
                bootstrap()
                os.unlink(build_ir())
                build_native()
            return 0
        if a[0] == "--entry":
            return dev(a[1], [x for x in a[2:] if x != "--replay"])
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[0], tier)
    except Fail as e:
        print(str(e))
        return 2


sys.exit(main() or 0)
