#!/usr/bin/env python3
"""refac.py [ID..]: apply each behaviour-preserving edit of tools/refactors/*.py to a scratch copy of /repo, build it, optionally run
the tests (TEST=1), then decide every obligation and structural rule on it. Anything but quiet is a false alarm."""
import glob, importlib.util, os, shutil, subprocess, sys, time
V = "/verif"
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
S = os.environ.get("SCRATCH", "/tmp/rf")
os.environ["GFWX_REPO"] = S
sys.path[:0] = [V + "/lib", V + "/tools"]


def load():
    out = {}
    for f in sorted(glob.glob(V + "/tools/refactors/*.py")):
        sp = importlib.util.spec_from_file_location("x", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for i, ed in m.REFACTORS:
            assert i not in out, i
            out[i] = ed
    return out


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    import dump, history, mir, props, runner, rules
    R = load()
    ids = sys.argv[1:] or list(R)
    if not os.path.isdir(S):
        subprocess.check_call(["cp", "-a", "/repo", S])
    spec = mir.Program(dump.spec_dump())
    import canon
    os.environ["GFWX_REPO"] = "/repo"
    dump.REPO = "/repo"
    base = mir.Program(dump.repo_dump("default"))
    os.environ["GFWX_REPO"] = S
    dump.REPO = S
    bc = canon.closures(base)
    bad, bres = 0, None
    for i in ids:
        sh("git checkout -q -- . && git clean -fdq src", cwd=S)
        sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=S)
        for f, a, b in R[i]:
            p = "%s/src/%s" % (S, f)
            s = open(p).read()
            assert s.count(a) == 1, (i, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        if os.environ.get("TEST"):
            r = sh("cargo test --offline --all 2>&1 | tail -400", cwd=S)
            if "test result: FAILED" in r.stdout or "error: could not compile" in r.stdout or "error[" in r.stdout:
                print("%s NOT PRESERVING / NOT BUILDING\n%s" % (i, r.stdout[-2500:]))
                continue
        t0 = time.time()
        try:
            p = mir.Program(dump.repo_dump("default"))
        except BaseException as x:
            print(i, "BUILD", str(x)[-1500:])
            continue
        p.map_fields(spec)
        jobs = [runner.Job(f, "default", 400, 40.0, 1) for f in props.ALL]
        if not os.environ.get("NOSAFE"):
            jobs += [runner.Job(f, "default", 400, 15.0, 1, "safety") for f in dict.fromkeys(props.SAFETY["C12"] + props.SAFETY["C13"] + props.SAFETY["C15"])]
        jobs += [runner.Job(h, "default", 400, 20.0, 1, "history") for h in history.HIST]
        cc = canon.closures(p)

        def same(j):
            if j.kind != "history":
                return j.fn in cc and cc[j.fn] == bc.get(j.fn)
            k = j.fn.split()[0].split("::")[0]
            k = "processing::image" if k == "Image" else k
            ns = {n for n in set(cc) | set(bc) if k in n}
            return all(cc.get(n) == bc.get(n) for n in ns)
        if bres is None:
            bres = {(r["kind"], r["fn"]): r for r in runner.run(jobs, {"spec": spec, "default": base})}
        skipped = [bres[j.kind, j.fn] for j in jobs if same(j)]
        jobs = [j for j in jobs if not same(j)]
        heavy = {f: k for k, f in enumerate([props.CIMG, props.DIMG, *props.INV, *props.CUB, *props.LIN, *props.BLOCK, *props.STAGE])}
        jobs.sort(key=lambda j: heavy.get(j.fn, 99))
        dumps = {"spec": spec, "default": p}
        res = runner.run(jobs, dumps) + skipped
        n = {}
        msgs = []
        for r in res:
            n[r["status"]] = n.get(r["status"], 0) + 1
            if r["status"] == "differ" or r["status"] == "missing" and r["fn"] not in props.OPTIONAL and r["kind"] == "value":
                msgs.append("   ALARM %s %s %s %s\n      %s\n      %s" % (r["kind"], r["fn"], r["status"], r.get("key"), str(r.get("detail"))[:700], str(r.get("loc"))[:700]))
            elif r["status"] == "undecided":
                msgs.append("   undecided %s %s %s %s" % (r["kind"], r["fn"], str(r.get("why"))[:200], r.get("passes")))
        for pid in ("C13", "C14", "C15", "C21", "C12"):
            if pid == "C13" and os.environ.get("NOSAFE"):
                continue
            if pid in ("C13", "C14"):
                rules.witnesses = lambda *a: None
            rr = rules.run(pid, dumps, ["default"], [r for r in res if r["fn"] in props.OBLIGATIONS.get(pid, ()) or r["fn"] in props.SAFETY.get(pid, ())])
            for v in rr.violations:
                msgs.append("   ALARM rule %s %s" % (pid, v["message"]))
        al = sum("ALARM" in m for m in msgs)
        bad += al
        print("%-28s %s %s %.0fs" % (i, "ALARM" if al else "quiet", n, time.time() - t0))
        for m in msgs:
            print(m)
        sys.stdout.flush()
    print("alarms:", bad)


main()
