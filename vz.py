"""Driver: regenerates the encoding from /repo, runs the symbolic executor, replays
counterexamples natively, writes evidence.  See DESIGN.md."""
import json, os, re, shutil, subprocess, sys, time, hashlib, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
JOBS = int(os.environ.get("VZ_JOBS", str(min(8, os.cpu_count() or 1))))


class CheckError(Exception):
    pass


def env(target, flags="", toolchain=TOOLCHAIN, **kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_INCREMENTAL", "RUSTC_BOOTSTRAP"):
            del e[k]
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = target
    e["RUSTFLAGS"] = flags
    e.update(kw)
    return e


def run(cmd, cwd=None, env=None, timeout=None, what=""):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise CheckError("%s failed (%d):\n%s" % (what or cmd[0], p.returncode, p.stdout[-6000:]))
    return p.stdout


def rust_bin(name):
    base = os.path.expanduser("~/.rustup/toolchains/%s/lib/rustlib/x86_64-unknown-linux-gnu/bin" % TOOLCHAIN)
    return os.path.join(base, name)


def build_symex():
    t = os.path.join(BUILD, "symex")
    run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "symex"), env=env(t), what="building the symbolic executor")
    return os.path.join(t, "release", "symex")


SYMFLAGS = "-Awarnings -C no-vectorize-loops -C no-vectorize-slp --cfg vz_verif"


def build_ir(crate, entries, tag):
    """Compile the harness crate + /repo's crate to one LLVM module and keep what the entries reach."""
    t = os.path.join(BUILD, "ir-" + crate)
    cdir = os.path.join(VERIF, crate)
    dep = os.path.join(t, "sym", "deps")
    name = crate_name(cdir)
    if os.path.isdir(dep):
        for f in os.listdir(dep):
            if f.startswith(name + "-") and f.endswith(".bc"):
                os.unlink(os.path.join(dep, f))
    # force regeneration of the final module
    os.utime(os.path.join(cdir, "src", "lib.rs"))
    run(["cargo", "rustc", "-q", "--offline", "--profile", "sym", "--lib", "--crate-type", "staticlib", "--", "--emit=llvm-bc"],
        cwd=cdir, env=env(t, SYMFLAGS), what="compiling /repo and the harness to LLVM IR")
    bcs = [f for f in os.listdir(dep) if f.startswith(name + "-") and f.endswith(".bc")]
    if len(bcs) != 1:
        raise CheckError("expected one bitcode module, got %r" % bcs)
    ll = os.path.join(t, tag + ".ll")
    run([rust_bin("opt"), "-strip-debug", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries),
         os.path.join(dep, bcs[0]), "-S", "-o", ll], what="opt")
    _ir[crate] = ll
    return ll


def crate_name(cdir):
    for l in open(os.path.join(cdir, "Cargo.toml")):
        m = re.match(r'name = "(\w+)"', l)
        if m:
            return m.group(1)


_native = {}
_ir = {}
ATOMIC = re.compile(r"^\s+(%\S+ = )?(load atomic|store atomic|atomicrmw|cmpxchg) ", re.M)


def threaded(crate):
    return os.path.exists(os.path.join(VERIF, crate, "sched.c"))


def build_scheduled(crate):
    """The module that was encoded, compiled to machine code with a scheduling point before every atomic access."""
    if crate not in _ir:
        src = open(os.path.join(VERIF, crate, "src", "lib.rs")).read()
        build_ir(crate, re.findall(r"^    \w+::(h_\w+),", src, re.M), "native")
    t = open(_ir[crate]).read()
    t = ATOMIC.sub(lambda m: "\n  call void @vz_sched()\n" + m.group(0).lstrip("\n"), t)
    t = re.sub(r"@(syscall|pthread_key_create|pthread_key_delete|pthread_setspecific|pthread_getspecific|__cxa_thread_atexit_impl)\b", r"@vz_\1", t)
    t += "\ndeclare void @vz_sched()\n"
    d = os.path.join(BUILD, "native-" + crate)
    os.makedirs(d, exist_ok=True)
    ll, o, exe = (os.path.join(d, x) for x in ("sched.ll", "sched.o", "replay"))
    open(ll, "w").write(t)
    run([rust_bin("llc"), "-O1", "-filetype=obj", "-relocation-model=pic", ll, "-o", o], what="llc")
    run(["gcc", "-O1", "-g", "-rdynamic", "-o", exe, os.path.join(VERIF, crate, "sched.c"), o, "-lpthread", "-ldl", "-lm", "-lgcc_s"], what="linking the scheduled replay")
    return exe


def build_native(crate, kind):
    if threaded(crate):
        kind = "scheduled " + _ir.get(crate, "")
    if (crate, kind) in _native:
        return _native[(crate, kind)]
    if threaded(crate):
        _native[(crate, kind)] = build_scheduled(crate)
        return _native[(crate, kind)]
    cdir = os.path.join(VERIF, crate)
    t = os.path.join(BUILD, "native-" + crate + ("-asan" if kind == "asan" else ""))
    cmd = ["cargo", "build", "--offline", "--bin", "replay", "--features", "native"]
    fl = "--cfg vz_verif"
    if kind == "dev":
        e = env(t, fl)
        sub = "debug"
    elif kind == "release":
        cmd.append("--release")
        e = env(t, fl)
        sub = "release"
    else:
        e = env(t, fl + " -Zsanitizer=address", toolchain="nightly-x86_64-unknown-linux-gnu")
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/debug"
    run(cmd, cwd=cdir, env=e, what="native replay build (%s)" % kind)
    p = os.path.join(t, sub, "replay")
    _native[(crate, kind)] = p
    return p


MIRI_SEEDS = 128


def replay_once(crate, kind, entry, params, vals, tmo=20, preempt=2):
    p = build_native(crate, kind)
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0"
    e["RUST_BACKTRACE"] = "0"
    cmd = [p, entry, ",".join(map(str, params)), ",".join(map(str, vals)), str(preempt)]
    if threaded(crate) and kind == "asan":
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--undef-value-errors=no"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo, env=e)
    except subprocess.TimeoutExpired:
        return ("hang", "did not finish within %d s" % tmo)
    out = r.stdout.decode("utf8", "replace")
    if r.returncode == 0 and "HELD" in out:
        return ("held", "")
    if r.returncode == 10:
        return ("failed", out.strip().splitlines()[-1])
    if r.returncode in (11, 12, 13):
        return ("invalid", out.strip())
    return ("crash", "exit %d: %s" % (r.returncode, out.strip()[-1500:]))


def miri(crate, entry, params, vals):
    """Data races do not show natively on this machine: Miri runs the real code under many schedules."""
    e = dict(os.environ)
    e["MIRIFLAGS"] = "-Zmiri-many-seeds=0..%d -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.1" % MIRI_SEEDS
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", os.path.join(VERIF, crate, "Cargo.toml"), "--target-dir", os.path.join(BUILD, "miri"),
           "--features", "native", "--bin", "mirirun", "--", entry, ",".join(map(str, params)), ",".join(map(str, vals))]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240, env=e)
    except subprocess.TimeoutExpired:
        return ("held", "Miri did not finish")
    out = r.stdout.decode("utf8", "replace")
    for l in out.splitlines():
        if "Data race detected" in l:
            return ("failed", l.strip())
    return ("held", "no data race in %d schedules under Miri (exit %d): %s" % (MIRI_SEEDS, r.returncode, out.strip()[-400:]))


def replay(crate, entry, params, viol, preempt=2):
    """Returns (confirmed, details)."""
    vals = [v for _, v in viol["inputs"]]
    res = {}
    if viol["kind"] == "race":
        res["miri"] = miri(crate, entry, params, vals)
        return res["miri"][0] == "failed", res
    kinds = ["dev", "release"]
    if viol["kind"] in ("memory", "ub", "fatal", "alloc"):
        kinds.append("asan")
    if viol["kind"] in ("budget", "alloc"):
        kinds = ["release", "dev"]
    if threaded(crate):
        kinds = ["asan"] if viol["kind"] in ("memory", "ub") else ["scheduled"]
    ok = False
    for k in kinds:
        try:
            res[k] = replay_once(crate, k, entry, params, vals, preempt=preempt)
        except CheckError as ex:
            res[k] = ("error", str(ex)[-500:])
        if res[k][0] in ("failed", "crash", "hang"):
            ok = True
            if viol["kind"] not in ("memory",):
                break
    return ok, res


def demangle(names):
    try:
        p = subprocess.run([shutil.which("llvm-cxxfilt") or shutil.which("c++filt") or "c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True, timeout=60)
        return p.stdout.splitlines()
    except Exception:
        return names


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if isinstance(f, dict)]


def symex(bin_, ll, entry, params, tier, budget, opts):
    out = os.path.join(BUILD, "out-%s-%d.json" % (entry, os.getpid()))
    cmd = [bin_, "--ll", ll, "--entry", entry, "--out", out, "--jobs", str(JOBS), "--time", str(int(budget)),
           "--max-instr", str(opts.get("max_instr", 3_000_000)), "--max-viol", "1", "--preempt", str(opts.get("preempt", 2)),
           "--race", "1" if opts.get("race", True) else "0", "--params", ",".join(map(str, params))]
    t0 = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0 or not os.path.exists(out):
        raise CheckError("symex %s failed (%d):\n%s" % (entry, p.returncode, p.stdout[-3000:]))
    reps = json.load(open(out))
    os.unlink(out)
    tot = {"wall": time.time() - t0, "complete": all(r["complete"] for r in reps), "functions": set(), "covers": {}, "samples": [], "violations": []}
    for k in ("paths_ok", "paths_assume", "paths_viol", "forks", "instrs", "checks", "queries", "cached", "sat", "unsat", "solver_s"):
        tot[k] = sum(r[k] for r in reps)
    for r in reps:
        tot["functions"].update(r["functions"])
        for k, v in r["covers"].items():
            tot["covers"][k] = tot["covers"].get(k, 0) + v
        tot["samples"] += r["samples"][:2]
        tot["violations"] += r["violations"]
    tot["max_path"] = max(r["max_path"] for r in reps)
    tot["log"] = p.stdout[-2000:]
    return tot


def check(pid, spec, tier, seed):
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    budget = float(os.environ.get("VZ_BUDGET", "780" if tier == "quick" else "7200"))
    sx = build_symex()
    known = [k for k in load_known() if k["property"] == pid]
    results = []
    viols = []
    unconfirmed = []
    bycrate = {}
    for h in spec["harnesses"]:
        bycrate.setdefault(h.get("crate", "harness"), []).append(h)
    for crate, hs in bycrate.items():
        ll = build_ir(crate, [h["entry"] for h in hs], pid)
        for h in hs:
            ps = h.get(tier, h.get("quick", [[]]))
            for params in ps:
                left = budget - (time.time() - t0)
                if left < 5:
                    raise CheckError("time budget exhausted before %s %r" % (h["entry"], params))
                r = symex(sx, ll, h["entry"], params, tier, left, h)
                r["entry"], r["params"], r["crate"], r["preempt"] = h["entry"], params, crate, h.get("preempt", 2)
                r["bound"] = h["bound"] % tuple(params) if "%" in h["bound"] else h["bound"]
                results.append(r)
                print("%s %s%r: paths=%d assume-pruned=%d checks=%d queries=%d solver=%.1fs wall=%.1fs%s" % (
                    pid, h["entry"], params, r["paths_ok"], r["paths_assume"], r["checks"], r["queries"], r["solver_s"], r["wall"],
                    "" if r["complete"] else " INCOMPLETE"), flush=True)
                if r["violations"] and r["violations"][0]["kind"] == "race":
                    v = r["violations"][0]
                    ok, det = replay(crate, h["entry"], params, v)
                    if not ok:
                        # the optimiser may read ahead of a check; the schedules are decided all the same
                        print("unconfirmed: %s: %s: %s" % (h["entry"], v["msg"], det["miri"][1][:200]), flush=True)
                        h = dict(h, race=False)
                        unconfirmed.append({"entry": h["entry"], "what": v["msg"], "inputs": [x for _, x in v["inputs"]]})
                        r2 = symex(sx, ll, h["entry"], params, tier, max(5, budget - (time.time() - t0)), h)
                        for k in ("entry", "params", "crate", "preempt", "bound"):
                            r2[k] = r[k]
                        r = results[-1] = r2
                if r["violations"]:
                    viols.append((h, params, r["violations"][0]))
                    break
                if not r["complete"]:
                    raise CheckError("%s %r: exploration incomplete within %d s\n%s" % (h["entry"], params, left, r["log"]))
                for c in h.get("covers", []):
                    if not r["covers"].get(str(c)):
                        raise CheckError("%s %r: vacuous: cover point %s not reached" % (h["entry"], params, c))
                if r["paths_ok"] == 0:
                    raise CheckError("%s %r: vacuous: no path reached the end" % (h["entry"], params))
            if viols:
                break
        if viols:
            break
    rc = 0
    lines = []
    validated = 0
    if viols:
        h, params, v = viols[0]
        crate = h.get("crate", "harness")
        if v["kind"] == "fatal":
            raise CheckError("%s: the executor could not continue: %s\n%s" % (h["entry"], v["msg"], "\n".join(v["stack"][:12])))
        ok, det = replay(crate, h["entry"], params, v, h.get("preempt", 2))
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        vals = [x for _, x in v["inputs"]]
        rp = os.path.join(d, "%s-%s.json" % (pid, h["entry"]))
        json.dump({"property": pid, "entry": h["entry"], "crate": crate, "params": params, "preempt": h.get("preempt", 2), "inputs": v["inputs"], "kind": v["kind"], "message": v["msg"],
                   "stack": demangle(v["stack"]), "native": det,
                   "how": "python3 %s/vz.py replay %s" % (VERIF, rp)}, open(rp, "w"), indent=1)
        print("counterexample in %s: %s: %s" % (h["entry"], v["kind"], v["msg"]))
        print("  inputs: %s" % vals)
        for k, x in det.items():
            print("  native replay (%s): %s %s" % (k, x[0], x[1].splitlines()[-1] if x[1] else ""))
        if not ok:
            raise CheckError("the counterexample does not reproduce natively: encoding error, no verdict")
        rc = 1
        lines.append("VIOLATION property=%s replay=%s" % (pid, rp))
    else:
        # validate the encoding against the implementation: replay sampled path models natively
        samples = []
        for r in results:
            for s in r["samples"][:3]:
                samples.append((r, s))
        if os.environ.get("VZ_NOVALIDATE") != "1":
            for r, s in samples[: (24 if tier == "quick" else 200)]:
                got = replay_once(r["crate"], "dev", r["entry"], r["params"], [x for _, x in s], preempt=r["preempt"])
                if got[0] != "held":
                    raise CheckError("path model of %s does not replay natively: %r (inputs %r)" % (r["entry"], got, s))
                validated += 1
    fs = set()
    for r in results:
        fs |= r["functions"]
    names = [n for n in demangle(sorted(fs))]
    mine = sorted({re.sub(r"::h[0-9a-f]{16}$", "", n) for n in names if "vinezombie" in n})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "other"),
        "coverage": {
            "explanation": spec.get("explanation", "Symbolic execution of the LLVM IR compiled on this run from /repo's source; each harness ran to completion: every feasible path within the bounds was followed, and each assertion, arithmetic overflow, panic, and memory access on it was decided by z3 for all values of the symbolic inputs."),
            "engine": "symex (in /verif/symex) over LLVM IR, z3 %s" % z3_version(),
            "harnesses": [{"entry": r["entry"], "bound": r["bound"], "complete": r["complete"], "paths": r["paths_ok"], "paths_cut_by_assumption": r["paths_assume"],
                           "forks": r["forks"], "instructions": r["instrs"], "longest_path": r["max_path"], "assertion_evaluations": r["checks"],
                           "solver_queries": r["queries"], "answered_from_cache": r["cached"], "sat": r["sat"], "unsat": r["unsat"],
                           "solver_s": round(r["solver_s"], 2), "wall_s": round(r["wall"], 2), "reach_points": r["covers"]} for r in results],
            "functions_encoded": len(fs), "functions_of_vinezombie": mine[:400],
            "queries_discharged": sum(r["queries"] for r in results), "solver_s": round(sum(r["solver_s"] for r in results), 2),
            "paths": sum(r["paths_ok"] for r in results),
            "path_models_replayed_natively": validated,
            "samples": [{"entry": r["entry"], "params": r["params"], "inputs": [x for _, x in s]} for r in results for s in r["samples"][:2]][:12],
            "races_not_confirmed": unconfirmed,
            "outside_the_claim": spec.get("outside", []),
        },
        "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k in known:
        if k.get("status") == "open":
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for l in lines:
        print(l)
    return rc


def z3_version():
    try:
        return subprocess.run(["z3", "--version"], stdout=subprocess.PIPE, text=True).stdout.split()[2]
    except Exception:
        return "?"


COMMON_ASSUMPTIONS = [
    "The encoding is rustc's LLVM IR of the harness, the crate and the standard library at opt-level 1 with overflow checks and debug assertions, x86-64; LLVM poison flags and llvm.assume are not used as facts.",
    "Allocation succeeds; heap, stack and global objects are separate and every access is bounds- and lifetime-checked.",
    "Inputs beyond the stated bounds are outside the claim.",
]


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        j = json.load(open(sys.argv[2]))
        ok, det = replay(j["crate"], j["entry"], j["params"], {"kind": j["kind"], "inputs": j["inputs"]}, j.get("preempt", 2))
        print(json.dumps(det, indent=1))
        sys.exit(1 if ok else 0)
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        os.makedirs(BUILD, exist_ok=True)
        build_symex()
        sys.exit(0)
    from specs import SPECS
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        sys.exit(check(pid, SPECS[pid], tier, seed))
    except CheckError as ex:
        print("ERROR: %s" % ex)
        sys.exit(2)


if __name__ == "__main__":
    main()
