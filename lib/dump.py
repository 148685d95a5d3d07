"""Obtain the MIR dump (JSON) of a crate's current source through the rustc driver."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
REPO = os.environ.get("GFWX_REPO", "/repo")

CONFIGS = {
    "default": [],
    "noparallel": ["--no-default-features"],
    "rayon": ["--no-default-features", "--features", "rayon"],
}


class DumpError(Exception):
    pass


def _sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def _env():
    e = dict(os.environ)
    e["LD_LIBRARY_PATH"] = _sysroot() + "/lib"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def driver():
    """Build the driver if needed; return its path."""
    src = os.path.join(VERIF, "driver")
    exe = os.path.join(BUILD, "driver", "release", "mirdump")
    h = hashlib.sha256()
    for f in ("src/main.rs", "Cargo.toml"):
        h.update(open(os.path.join(src, f), "rb").read())
    stamp = os.path.join(BUILD, "driver.stamp")
    with Lock("driver"):
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            return exe
        r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "driver")],
                           cwd=src, env=_env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise DumpError("driver does not build:\n" + r.stderr[-4000:])
        open(stamp, "w").write(h.hexdigest())
    return exe


def _run(manifest, crate, tdir, out, feats):
    env = _env()
    env["RUSTC_WORKSPACE_WRAPPER"] = driver()
    env["MIRDUMP_OUT"] = out
    env["MIRDUMP_CRATE"] = crate
    env["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
    env["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
    env["CARGO_INCREMENTAL"] = "0"
    # cargo's freshness cache would skip the wrapper
    for d in glob.glob(os.path.join(tdir, "debug", ".fingerprint", crate + "-*")) + [os.path.join(tdir, "debug", "build", crate)]:
        shutil.rmtree(d, ignore_errors=True)
    if os.path.exists(out):
        os.unlink(out)
    cmd = ["cargo", "+nightly", "check", "--lib", "--offline", "--manifest-path", manifest, "--target-dir", tdir] + feats
    r = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise DumpError("cannot analyse %s:\n%s" % (manifest, r.stderr[-4000:]))
    with open(out) as f:
        return json.load(f)


def repo_dump(config="default"):
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock):
        for c in ("/opt/vp/Cargo.lock.saved", os.path.join(VERIF, "lib", "Cargo.lock.repo")):
            if os.path.exists(c):
                shutil.copyfile(c, lock)
                break
    name = "repo-" + config
    if REPO != "/repo":
        name += "-" + hashlib.sha256(REPO.encode()).hexdigest()[:8]
    with Lock(name):
        return _run(os.path.join(REPO, "Cargo.toml"), "gfwx", os.path.join(BUILD, "target-" + name),
                    os.path.join(BUILD, name + ".json"), CONFIGS[config])


def spec_dump():
    m = os.path.join(VERIF, "spec", "Cargo.toml")
    h = hashlib.sha256()
    for root, _, files in sorted(os.walk(os.path.join(VERIF, "spec"))):
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                h.update(open(os.path.join(root, f), "rb").read())
    h.update(open(driver(), "rb").read())
    out = os.path.join(BUILD, "spec.json")
    stamp = os.path.join(BUILD, "spec.stamp")
    with Lock("spec"):
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            return json.load(open(out))
        d = _run(m, "gfwxspec", os.path.join(BUILD, "target-spec"), out, [])
        open(stamp, "w").write(h.hexdigest())
        return d


if __name__ == "__main__":
    t = time.time()
    d = repo_dump(sys.argv[1] if len(sys.argv) > 1 else "default")
    print(len(d["bodies"]), "bodies", round(time.time() - t, 1), "s")
