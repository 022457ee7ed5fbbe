#!/usr/bin/env python3
"""Helpers to write and confirm planted bugs (seeded/<id>/).

  seed.py verify <id> [--check]   confirm in a scratch copy: applies, builds, stable tests pass, demo passes without and fails with it
  seed.py checks [id...]          run each bug's property check against a scratch copy with the bug applied
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
DEMO = """#!/bin/bash
# Appends demo.rs (a test module) to %(file)s in a scratch copy of the repository and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp -r "$repo/src" "$repo/Cargo.toml" "$repo/Cargo.lock" "$repo/openjp2-rs" "$d/" || exit 2
mkdir -p "$d/target" "$d/work"
if [ -d "$repo/target/debug" ]; then cp -a "$repo/target/debug" "$d/target/"; fi
rm -rf "$d"/target/debug/incremental "$d"/target/debug/.fingerprint/laya-* "$d"/target/debug/.fingerprint/openjp2-*
cat "$here/demo.rs" >> "$d/%(file)s"
cd "$d"
DEMO_DIR="$d/work" CARGO_TARGET_DIR="$d/target" timeout 250 cargo test %(cargo)s --offline --locked -p %(crate)s --lib seeded_demo -- --test-threads 1 > "$d/log" 2>&1
rc=$?
tail -30 "$d/log"
grep -q "^running [1-9]" "$d/log" || exit 3
exit $rc
"""

def sh(cmd, cwd, env=ENV, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def copy_repo():
    d = tempfile.mkdtemp(prefix="seed")
    r = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", "/repo", r])
    return d, r

def mk(id, prop, edits, crate, file, demo, needs, breaks, cargo=""):
    s = os.path.join(SEED, id)
    os.makedirs(s, exist_ok=True)
    d = tempfile.mkdtemp(prefix="seed")
    try:
        r = os.path.join(d, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        for f, old, new in edits:
            p = os.path.join(r, f)
            t = open(p).read()
            assert t.count(old) == 1, (id, f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(s, "patch.diff"), "w").write(sh(["git", "diff"], r).stdout)
    finally:
        shutil.rmtree(d)
    open(os.path.join(s, "demo.rs"), "w").write("\n" + demo.strip() + "\n")
    open(os.path.join(s, "demo.sh"), "w").write(DEMO % dict(file=file, crate=crate, cargo=cargo))
    os.chmod(os.path.join(s, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(s, "meta.json"), "w"), indent=1)

def run_tests(r):
    sh(["bash", "-c", "rm -rf target/debug/.fingerprint/laya-* target/debug/.fingerprint/openjp2-*"], r)
    o = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--locked", "--", "--test-threads", "8"], r)
    n = sum(1 for l in o.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok"))
    bad = [l for l in o.stdout.splitlines() if l.startswith("test ") and "FAILED" in l]
    return o.returncode, n, bad, o.stdout[-1500:]

def verify(id):
    s = os.path.join(SEED, id)
    d, r = copy_repo()
    try:
        a = sh(["bash", os.path.join(s, "demo.sh")], r)
        print(id, "demo on clean tree:", a.returncode)
        if a.returncode: print(a.stdout[-600:])
        o = sh(["git", "apply", os.path.join(s, "patch.diff")], r)
        if o.returncode: print("APPLY FAILED", o.stdout); return False
        rc, n, bad, tail = run_tests(r)
        print(id, "tests with patch: rc", rc, "ok", n, bad)
        if rc: print(tail[-500:])
        b = sh(["bash", os.path.join(s, "demo.sh")], r)
        print(id, "demo with patch:", b.returncode)
        if b.returncode == 3: print(b.stdout[-600:])
        return a.returncode == 0 and rc == 0 and b.returncode not in (0, 2, 3)
    finally:
        shutil.rmtree(d)

def checks(ids, props=None):
    for id in ids:
        s = os.path.join(SEED, id)
        prop = json.load(open(os.path.join(s, "meta.json")))["property"]
        d = tempfile.mkdtemp(prefix="seed")
        try:
            r = os.path.join(d, "repo")
            subprocess.check_call(["git", "clone", "-q", "/repo", r])
            sh(["git", "apply", os.path.join(s, "patch.diff")], r)
            env = dict(os.environ, VERIF_REPO=r)
            for p in (props or [prop]):
                o = sh(["python3", os.path.join(V, "check.py"), p], V, env)
                l = [x[:260] for x in o.stdout.splitlines() if x.startswith(("  [", "VIOL", "OK"))]
                print("%s %s %s\n    %s" % ("CAUGHT" if o.returncode == 1 else "missed", id, p, "\n    ".join(l[:3])), flush=True)
        finally:
            shutil.rmtree(d)

if __name__ == "__main__":
    if sys.argv[1] == "verify":
        ok = [verify(i) for i in sys.argv[2:]]
        print(dict(zip(sys.argv[2:], ok)))
    else:
        checks(sys.argv[2:] or sorted(os.listdir(SEED)))
