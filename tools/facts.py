"""Extract facts from /repo's current source with the compiler front end.

Builds the fact driver when needed, runs it as RUSTC_WORKSPACE_WRAPPER under
`cargo +nightly check` and returns the parsed facts.  Results are cached by a
hash of the sources and of the driver, so that a changed tree is always
re-analysed.
"""
import hashlib, json, os, shutil, subprocess, sys, fcntl, pickle, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
DRV = os.path.join(VERIF, "driver")


class FactError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e.pop("RUSTC_WRAPPER", None)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


def _run(cmd, env, cwd, timeout=700):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "node_modules") and not d.startswith("target")]
        for f in files:
            if f.endswith((".rs", ".toml", ".lock")):
                out.append(os.path.join(root, f))
    return out


def driver_sources():
    out = []
    for root, dirs, files in os.walk(DRV):
        dirs[:] = [d for d in dirs if d != "target"]
        for f in files:
            if f.endswith((".rs", ".toml", ".lock")):
                out.append(os.path.join(root, f))
    return out


def build_driver():
    os.makedirs(WORK, exist_ok=True)
    h = _hash_files(driver_sources())
    binp = os.path.join(WORK, "driver", h, "factdriver")
    if os.path.exists(binp):
        return binp, h
    env = _env()
    env["CARGO_TARGET_DIR"] = os.path.join(WORK, "driver-target")
    rc, out = _run(["cargo", "+nightly", "build", "--release", "--offline", "--locked"], env, DRV)
    if rc != 0:
        raise FactError("driver build failed:\n" + out[-4000:])
    os.makedirs(os.path.dirname(binp), exist_ok=True)
    shutil.copy2(os.path.join(WORK, "driver-target", "release", "factdriver"), binp + ".tmp")
    os.replace(binp + ".tmp", binp)
    return binp, h


CRATES = ["laya.lib.json", "openjp2.lib.json"]


def extract(mode="debug"):
    """mode: debug | release (debug assertions off)."""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        binp, dh = build_driver()
        rh = _hash_files(repo_sources())
        outd = os.path.join(WORK, "facts", rh + "-" + dh[:8] + "-" + mode)
        if all(os.path.exists(os.path.join(outd, c)) for c in CRATES):
            return outd
        # keep the cache small
        base = os.path.join(WORK, "facts")
        if os.path.isdir(base):
            old = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base))
            for _, d in old[:-6]:
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        tmp = outd + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env = _env()
        rc, sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], env, "/")
        sysroot = sysroot.strip()
        if rc != 0:
            raise FactError("no nightly toolchain: " + sysroot)
        tgt = os.path.join(WORK, "target")
        env["CARGO_TARGET_DIR"] = tgt
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        env["RUSTC_WORKSPACE_WRAPPER"] = binp
        env["FACTS_OUT"] = tmp
        if mode == "release":
            env["FACTS_RELEASE"] = "1"
        # cargo's freshness cache would skip the wrapper: forget the members
        for pat in ("debug/.fingerprint", "debug/build", "debug/deps", "debug/incremental"):
            fp = os.path.join(tgt, pat)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(("laya", "openjp2", "liblaya", "libopenjp2")):
                        x = os.path.join(fp, d)
                        shutil.rmtree(x, ignore_errors=True) if os.path.isdir(x) else os.unlink(x)
        rc, out = _run(["cargo", "+nightly", "check", "--offline", "--locked", "--workspace",
                        "--manifest-path", os.path.join(REPO, "Cargo.toml")], env, "/")
        with open(os.path.join(WORK, "check.log"), "w") as lf:
            lf.write(out)
        if rc != 0:
            raise FactError("cargo check failed:\n" + out[-6000:])
        miss = [c for c in CRATES if not os.path.exists(os.path.join(tmp, c))]
        if miss:
            raise FactError("facts missing for %s (got %s)\n%s" % (miss, os.listdir(tmp), out[-3000:]))
        shutil.rmtree(outd, ignore_errors=True)
        os.replace(tmp, outd)
        return outd
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def load(crate, mode="debug"):
    d = extract(mode)
    with open(os.path.join(d, crate + ".lib.json"), encoding="utf8") as f:
        return json.load(f)


if __name__ == "__main__":
    t = time.time()
    print(extract(sys.argv[1] if len(sys.argv) > 1 else "debug"), round(time.time() - t, 1), "s")
