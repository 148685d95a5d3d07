#!/usr/bin/env python3
"""Plant the bugs of tools/seeds/*.py: apply each to /repo, build, run the stable tests, run its demonstration with and
without it; keep those that pass as /verif/seeded/<id>/.  Always undoes the change.   mkseed.py [ID..] [--no-tests]"""
import glob, importlib.util, json, os, subprocess, sys, shutil

V = "/verif"
REPO = "/repo"
PRELUDE = open(V + "/tools/seeds/prelude.rs").read()
DEMO = r'''#!/bin/bash
# run with cwd = the crate: builds a scratch program against it and runs it
here=$(cd "$(dirname "$0")" && pwd)
crate=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
gfwx = { path = "$crate"%(features)s }
[workspace]
EOF
[ -f "$crate/Cargo.lock" ] && cp "$crate/Cargo.lock" "$work/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" CARGO_TERM_COLOR=never RUSTC_WRAPPER=
cd "$work" || exit 3
%(run)s
'''
RUN = 'cargo build --release --offline --quiet 2> "$work/log" || { cat "$work/log"; exit 3; }\ntimeout 200 "$work/target/release/demo"'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def base_ok(out):
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable") or base.get("passed") or base.get("tests"))
    got = json.load(open(out))
    passed = set(got.get("passed") or [k for k, v in got.items() if v == "passed"])
    return sorted(stable - passed)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    seeds = []
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        sp = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        seeds += m.SEEDS
    for s in seeds:
        if args and s["id"] not in args:
            continue
        assert not sh("git -C %s status --porcelain" % REPO).stdout.strip(), "dirty"
        d = "%s/seeded/%s" % (V, s["id"])
        if not args and os.path.exists(d + "/patch.diff"):
            continue
        tmp = "/tmp/seedtmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + "/main.rs", "w").write(PRELUDE + s["demo"] if s.get("prelude", True) else s["demo"])
        open(tmp + "/demo.sh", "w").write(DEMO % {"run": s.get("run", RUN), "features": s.get("features", "")})
        os.chmod(tmp + "/demo.sh", 0o755)
        r = sh("bash %s/demo.sh" % tmp, cwd=REPO)
        if r.returncode != 0:
            print(s["id"], "REJECT demo fails unpatched:", r.stdout[-1500:])
            continue
        try:
            for f, old, new in s["edits"]:
                t = open(REPO + "/" + f).read()
                if t.count(old) != 1:
                    raise SystemExit("%s: %d matches of %r" % (s["id"], t.count(old), old))
                open(REPO + "/" + f, "w").write(t.replace(old, new))
            diff = sh("git -C %s diff" % REPO).stdout
            r = sh("bash /opt/vp/build.sh")
            if r.returncode:
                print(s["id"], "REJECT build:", r.stdout[-2500:])
                continue
            r = sh("bash %s/demo.sh" % tmp, cwd=REPO)
            if r.returncode == 0 or r.returncode == 3:
                print(s["id"], "REJECT demo does not fail when patched", r.returncode, r.stdout[-1500:])
                continue
            why = r.stdout.strip().splitlines()[-1:] or ["exit %d" % r.returncode]
            sh("bash /opt/vp/test.sh /tmp/seedtmp/out.json")
            bad = base_ok("/tmp/seedtmp/out.json")
            if bad:
                print(s["id"], "REJECT tests fail:", len(bad), bad[:4])
                continue
        finally:
            sh("git -C %s checkout -q -- ." % REPO)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        for f in ("main.rs", "demo.sh"):
            shutil.copy(tmp + "/" + f, d + "/" + f)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["id"], "KEPT", why)
        sys.stdout.flush()
    sh("bash /opt/vp/build.sh")


main()
