#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property of /repo's current source statically."""
import json, os, sys, time

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))

LEVEL_TV, LEVEL_OTHER = "translation_validation", "other"


def known_findings(pid):
    out = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        if l.startswith("known: property=%s " % pid):
            out.append(l.split(" ", 2)[2].strip())
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import dump, history, mir, props, runner, rules
    thorough = tier == "thorough"
    configs = rules.CONFIGS_OF.get(pid, ["default"]) if not thorough else list(dump.CONFIGS)
    violations, notes = [], []

    spec = mir.Program(dump.spec_dump())
    dumps = {"spec": spec}
    for c in configs:
        p = mir.Program(dump.repo_dump(c))
        p.map_fields(spec)
        dumps[c] = p

    # ---- value-graph obligations
    obl = list(dict.fromkeys(props.OBLIGATIONS.get(pid, ())))
    jobs = [runner.Job(f, c, 4000 if thorough else 400, 200.0 if thorough else 40.0, seed) for c in configs for f in obl]
    jobs += [runner.Job(f, c, 4000 if thorough else 400, 200.0 if thorough else 30.0, seed, "safety")
             for c in configs for f in dict.fromkeys(props.SAFETY.get(pid, ()))]
    jobs += [runner.Job(h, c, 4000 if thorough else 400, 100.0 if thorough else 20.0, seed, "history")
             for c in configs for h in history.OBLIGATIONS.get(pid, ())]
    heavy = {f: i for i, f in enumerate([props.CIMG, props.DIMG, *props.INV, *props.CUB, *props.LIN, *props.BLOCK, *props.STAGE])}
    jobs.sort(key=lambda j: heavy.get(j.fn, 99))
    res = runner.run(jobs, dumps)
    for r in res:
        if r["status"] == "missing":
            if r["fn"] not in props.OPTIONAL and r["kind"] == "value":
                violations.append({"rule": "value-graph", "key": "missing:" + r["fn"], "construct": r["fn"],
                                   "message": "public function %s is gone" % r["fn"]})
        elif r["status"] == "differ":
            loc = r.get("loc") or {}
            at = loc.get("at")
            hist = r["kind"] == "history"
            body = dumps[r["config"]].bodies[history.HIST[r["fn"]][-1][0] if hist else r["fn"]]
            span = body.raw.get("span") or ["?", 0]
            safe = r["kind"] == "safety"
            violations.append({
                "rule": "access-safety" if safe else "call-history" if hist else "value-graph",
                "key": "%s:%s%s" % (r["fn"], "safety:" if safe else "", r["key"]), "construct": r["fn"], "config": r["config"],
                "file": at[0] if at else span[0], "line": at[1] if at else span[1],
                "message": ("%s: %s where the reference stays in range (or rejects the input)" % (r["fn"], (r.get("detail") or {}).get("repo")))
                if safe else "the call sequence %s yields another %s than the reference" % (r["fn"], r["key"]) if hist else "%s computes another %s than the reference" % (r["fn"], r["key"]),
                "repo": loc.get("repo"), "reference": loc.get("spec"), "witness": r.get("detail")})

    # ---- structural rules
    rr = rules.run(pid, dumps, configs, res)
    violations += rr.violations

    known = known_findings(pid)
    fresh = []
    for v in violations:
        if v["key"] in known:
            print("KNOWN-FINDING: property=%s %s %s" % (pid, v["key"], v["message"]))
        else:
            fresh.append(v)

    wall = round(time.time() - t0, 1)
    stat = {}
    for r in res:
        stat[r["status"]] = stat.get(r["status"], 0) + 1
    samples = []
    for r in res[:400]:
        samples.append({k: r[k] for k in ("fn", "kind", "config", "status", "valid", "samples", "terms", "key", "why", "voids") if k in r})
    cov = {
        "explanation": rules.EXPLAIN,
        "rule": "value graph of every listed function (MIR, resolved callees, private callees inlined, loops summarised) "
                "equals the reference's: identical normal forms, else not distinguished by random interpretation",
        "configurations": configs,
        "programs": len(res),
        "disagreements_checked": sum(1 for r in res if r["status"] in ("agree", "differ")),
        "obligations": len(res) + rr.obligations,
        "discharged": stat.get("proved", 0) + rr.discharged,
        "proved_by_normal_form": stat.get("proved", 0),
        "not_distinguished": stat.get("agree", 0),
        "undecided": stat.get("undecided", 0),
        "absent_private": stat.get("missing", 0),
        "evaluations": sum(r.get("valid", 0) for r in res),
        "functions_analysed": len({f for r in res for f in r.get("stats", {}).get("functions", ())}),
        "calls_resolved": sum(r.get("stats", {}).get("calls", 0) for r in res),
        "loops_summarised": sum(r.get("stats", {}).get("loops", 0) for r in res),
        "accesses_tracked": sum(r.get("stats", {}).get("accesses", 0) for r in res),
        "basic_blocks": sum(r.get("stats", {}).get("blocks", 0) for r in res),
        "structural": rr.report,
        "samples": samples,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": rules.LEVEL.get(pid, LEVEL_TV), "coverage": cov,
          "assumptions": rules.ASSUMPTIONS, "wall_s": wall, "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print("%s %s: %d obligations, %s, structural %d/%d, %.1fs" % (
        pid, tier, len(res), ", ".join("%s %d" % x for x in sorted(stat.items())), rr.discharged, rr.obligations, wall))
    for r in res:
        if r["status"] == "undecided":
            print("  undecided: %s [%s] %s" % (r["fn"], r["config"], r.get("why", "")))
    if fresh:
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".json")
        with open(path, "w") as f:
            json.dump(fresh, f, indent=1, default=str)
        for v in fresh:
            print("  %s %s:%s %s: %s" % (v["rule"], v.get("file", "?"), v.get("line", "?"), v["construct"], v["message"]))
            if v.get("witness"):
                print("    witness: %s" % str(v["witness"])[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as x:
        import traceback
        traceback.print_exc()
        print("error: %s" % x)
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
