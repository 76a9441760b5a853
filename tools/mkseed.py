"""dev: confirm a planted bug in a scratch copy and save it.
usage: mkseed.py SPEC.py ...   where SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (rust main.rs), FEATURES"""
import sys, os, subprocess, shutil, json
SC = "/tmp/seedrepo"
def sh(cmd, cwd=None, ok=True, tmo=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=tmo)
    return p.returncode, p.stdout
def fresh():
    if not os.path.isdir(SC):
        shutil.copytree("/repo", SC, symlinks=True)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=SC)
DEMO = '''#!/bin/bash
# Builds main.rs, which lies beside this script, against the crate in the current directory and runs it.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d /tmp/vzdemo.XXXXXX)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
vinezombie = { path = "$R", default-features = false, features = [@FEATURES@] }
@DEPS@
[workspace]
E
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cd "$T"
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true PATH="/root/.cargo/bin:$PATH"
cargo build --offline -q 2>&1 || { rm -f Cargo.lock; cargo build --offline -q || exit 3; }
timeout 60 "$T/target/debug/demo"
rc=$?
echo "demo exit: $rc"
[ $rc -eq 0 ] && exit 0
exit 1
'''
base = {t["name"] if isinstance(t, dict) else t for t in (lambda j: j if isinstance(j, list) else j.get("passed") or j.get("stable") or j)(json.load(open("/opt/vp/BASELINE.json")))} if False else None
for spec in sys.argv[1:]:
    g = {"FEATURES": ["client", "base64"], "DEPS": ""}
    exec(open(spec).read(), g)
    fresh()
    d = "/verif/seeded/" + g["ID"]
    os.makedirs(d, exist_ok=True)
    open(d + "/main.rs", "w").write(g["MAIN"].lstrip())
    feats = ", ".join('"%s"' % f for f in g["FEATURES"])
    open(d + "/demo.sh", "w").write(DEMO.replace("@FEATURES@", feats).replace("@DEPS@", g["DEPS"]))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    bad = []
    rc, o = sh("bash %s/demo.sh" % d, cwd=SC)
    if rc != 0: bad.append("demo fails on clean tree:\n" + o[-3000:])
    for f, old, new in g["EDITS"]:
        p = os.path.join(SC, f); s = open(p).read()
        if s.count(old) != 1: bad.append("edit does not apply: %s (%d)" % (f, s.count(old))); break
        open(p, "w").write(s.replace(old, new))
    rc, diff = sh("git diff", cwd=SC)
    open(d + "/patch.diff", "w").write(diff)
    if not bad:
        rc, o = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/seed-test.log 2>&1; python3 /opt/vp/results.py /tmp/seed-res.json cargo:/tmp/seed-test.log", cwd=SC)
        try:
            r = json.load(open("/tmp/seed-res.json")); b = json.load(open("/opt/vp/BASELINE.json"))
            def passed(j):
                for k in ("passed", "stable", "pass", "tests"):
                    if k in j: return set(j[k])
                return set(j)
            miss = passed(b) - passed(r)
            if miss: bad.append("tests broken: %r" % sorted(miss)[:5])
        except Exception as e:
            bad.append("results: %r %s" % (e, o[-1000:]))
        rc, o = sh("cargo check -q --offline --no-default-features --features client 2>&1", cwd=SC)
        if rc: bad.append("check: " + o[-1500:])
        rc, o = sh("bash %s/demo.sh" % d, cwd=SC)
        if rc == 0: bad.append("demo passes with the bug")
        elif "demo exit" not in o: bad.append("demo did not build with the bug: " + o[-1500:])
    print(g["ID"], g["PROP"], "OK" if not bad else "BAD " + "\n".join(bad), flush=True)
    if bad: shutil.rmtree(d)
sh("git checkout -q -- .", cwd=SC)
