"""Value-graph obligations: analyse a function of /repo and its reference, compare, with fallbacks."""
import os, pickle, resource, select, signal, sys, threading, time, traceback

sys.setrecursionlimit(400000)
STACK = 1 << 30
UNROLL = 9


def bigstack(f, *a):
    out = []

    def g():
        try:
            out.append(f(*a))
        except BaseException as x:
            out.append(x)
    threading.stack_size(STACK)
    t = threading.Thread(target=g)
    t.start()
    t.join()
    if isinstance(out[0], BaseException):
        raise out[0]
    return out[0]


def pool(jobs, work, nproc=None, timeout=300, cb=None):
    """run work(job) for every job in forked children; returns {job index: result or ('error', text)}"""
    nproc = nproc or min(8, os.cpu_count() or 1)
    res, running, queue = {}, {}, list(enumerate(jobs))
    queue.reverse()
    while queue or running:
        while queue and len(running) < nproc:
            i, job = queue.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
                    try:
                        v = bigstack(work, job)
                    except MemoryError:
                        v = ("error", "out of memory")
                    except BaseException as x:
                        v = ("error", "%s: %s" % (type(x).__name__, str(x)[:300]))
                        if os.environ.get("VERIF_DEBUG"):
                            traceback.print_exception(x)
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(v, f)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            running[r] = (i, pid, time.time(), [])
        ready, _, _ = select.select(list(running), [], [], 1.0)
        now = time.time()
        for r in list(running):
            i, pid, t0, buf = running[r]
            if r in ready:
                d = os.read(r, 1 << 20)
                if d:
                    buf.append(d)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                try:
                    res[i] = pickle.loads(b"".join(buf))
                except Exception:
                    res[i] = ("error", "analysis process died")
                if cb:
                    cb(i, res[i])
            elif now - t0 > timeout:
                os.kill(pid, signal.SIGKILL)
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                res[i] = ("error", "time limit")
                if cb:
                    cb(i, res[i])
    return res


def sig(b):
    """signature with type parameters numbered, so that `impl Trait` and `W: Trait` read alike"""
    names = {}

    def go(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "param":
                return ("param", names.setdefault(t[1], len(names)))
            return tuple(go(x) for x in t)
        return t
    return str([go(t) for t in b.ltys[:b.argc + 1]]).replace("gfwxspec", "gfwx")


class Job:
    def __init__(self, fn, config, n, limit, seed, kind="value"):
        self.fn, self.config, self.n, self.limit, self.seed, self.kind = fn, config, n, limit, seed, kind


def usable_anchors(spec, repo, names):
    out = set()
    for n in names:
        a, b = spec.bodies.get(n), repo.bodies.get(n)
        if a is not None and b is not None:
            if sig(a) == sig(b):
                out.add(n)
        elif a is None and b is None:
            out.add(n)      # trait methods without body
    return out


def analyse(prog, name, anchors, track=False, unroll=0):
    import absint
    absint.origin.side("spec" if prog.is_spec else "repo")
    e = absint.Eng(prog, anchors)
    e.unroll = unroll
    e.track = track
    return e, e.analyse(prog.bodies[name])


def decide(spec, repo, job):
    """-> dict describing the verdict for one function under one configuration"""
    import anchors, compare, hints, terms
    from terms import Unsupported
    t0 = time.time()
    r = {"fn": job.fn, "config": job.config, "kind": job.kind, "status": None, "passes": []}
    if job.kind == "history":
        return decide_history(spec, repo, job, r)
    if job.fn not in repo.bodies:
        r["status"] = "missing"
        return r
    import props
    if job.fn in props.OPTIONAL and sig(spec.bodies[job.fn]) != sig(repo.bodies[job.fn]):
        r["status"] = "missing"
        r["why"] = "private function with another signature: judged within its callers"
        return r
    hard = usable_anchors(spec, repo, anchors.HARD)
    soft = usable_anchors(spec, repo, anchors.SOFT)
    private = soft - anchors.SOFTPUB
    stages, tried = [(hard | soft, 0)], []
    last, need = None, job.n
    blocked, optional = None, False
    while stages:
        A, unroll = stages.pop(0)
        if (A, unroll) in tried:
            continue
        tried.append((A, unroll))
        try:
            es, so = analyse(spec, job.fn, A, job.kind == "safety", unroll)
            er, ro = analyse(repo, job.fn, A, job.kind == "safety", unroll)
        except (Unsupported, RecursionError, MemoryError) as x:
            r["passes"].append("not analysable: %s %s" % (type(x).__name__, str(x)[:200]))
            if optional:
                break
            blocked = "%s: %s" % (type(x).__name__, str(x)[:200])
            continue
        known = not (er.unknown - es.unknown)
        if job.kind == "safety":
            c = compare.compare_safety(so, ro, known=known, inv=hints.inv(job.fn), hints=hints.for_fn(job.fn), n=need,
                                       limit=job.limit, seed=job.seed, cap=hints.CAPS.get(job.fn, 48), entry=job.fn in props.ENTRY)
        else:
            def cmp(pre=(), view=(lambda o: o, hints.inv(job.fn))):
                return compare.compare(view[0](so), view[0](ro), known=known, hints=hints.for_fn(job.fn), pre=pre, inv=view[1],
                                       n=need, limit=job.limit, seed=job.seed, cap=hints.CAPS.get(job.fn, 48))
            c = cmp()
            if c.status == "differ":
                # element accesses of the reference out of range are panics too: such samples do not count
                try:
                    _, st = analyse(spec, job.fn, A, True, unroll)
                    pre = [st[k] for k in ("panic-free", "in-bounds", "memory-safe") if st[k] is not terms.TRUE]
                    c = cmp(pre) if pre else c
                except (Unsupported, RecursionError, MemoryError):
                    pass
            if c.status == "differ" and hints.view(job.fn):
                c = cmp(view=hints.view(job.fn))
        r["passes"].append("%s (%d/%d samples)" % (c.status, c.valid, c.samples))
        if not unroll and c.status != "proved" and (c.status == "differ" and job.fn in called(er) ^ called(es)
                                                    or any(str(u).startswith("recursion ") for u in er.unknown - es.unknown)):
            # one side recurses where the other loops: unroll the recursion
            stages.append((A, UNROLL))
            need, blocked = max(need, 25 * c.samples), "recursion against iteration"
            continue
        if c.status == "undecided" and last is not None:
            if optional:
                break
            blocked = "finer form undecided: %s" % (c.detail or c.key)
            continue
        last, blocked, kept, last_graphs = c, None, (es, er), (so, ro)
        if c.status != "differ":
            break
        need = max(need, 25 * c.samples)
        used = called(er) ^ called(es)
        rest = A - (used & soft)
        stages = [(x, unroll) for x in (rest, rest - private) if x != A and (x, unroll) not in tried]
        if not stages and used & hard and len(tried) < 5:
            stages = [(A - used, unroll)]
        both = (called(er) & called(es) & hard) - {job.fn}
        if not stages and not unroll and both and len(tried) < 5:
            # the same functions called with other arguments, or not always: look inside them, where that can be done
            stages, optional = [(A - both, unroll)], True
    if last is None or blocked:
        # (blocked: a difference under anchors whose inlined form cannot be judged)
        r["status"], r["why"] = "undecided", ("difference under anchors, " if last is not None else "") + str(blocked)
        return finish(r, None, None, t0)
    es, er = kept
    if last.status == "agree" and job.kind == "value" and job.fn in hints.LONG and not (called(er) ^ called(es)) & soft:
        try:
            c = far(spec, job, tried[-1], last_graphs, known)
            r["passes"].append("long runs: %s" % c.status)
            if c.status == "differ":
                last = c
        except (Unsupported, RecursionError, MemoryError) as x:
            r["passes"].append("long runs: not analysable: %s" % str(x)[:100])
    if last.status == "agree" and job.kind == "value":
        new = fresh_constants(last_graphs)
        big = hints.enlarged(job.fn, new, job.seed)
        if big:
            try:
                c = far(spec, job, tried[-1], last_graphs, known, [g for _, g in big], 2500000, max(20.0, min(BIGTIME, 170 - time.time() + t0)))
                r["passes"].append("sizes and values near %s: %s (%d/%d, %ds%s)" % (", ".join(map(str, new)), c.status, c.valid, c.samples, c.time, "".join(", %s %d" % x for x in c.voids.items())))
                if c.status == "differ":
                    last = c
            except (Unsupported, RecursionError, MemoryError) as x:
                r["passes"].append("enlarged: not analysable: %s" % str(x)[:100])
    r["status"] = last.status
    if last.status == "differ":
        import history
        new = history.reshaped(spec, repo)
        if new and any(history.mentions(t, new) for f in er.stats["functions"] if f in repo.bodies for t in repo.bodies[f].ltys):
            r["status"], r["why"] = "undecided", "fields of %s changed: left to call histories and callers" % ", ".join(sorted(new))
            return finish(r, None, None, t0)
    if job.kind == "value":
        import terms as T
        memo = {}
        r["allocs"] = [{"size": T.show(t, 3)[:120], "at": at, "tainted": tainted(t, repo.bodies[job.fn], memo)} for t, at in er.allocs]
    return finish(r, last, (es, er), t0)


BIGTIME = 120.0
FIXED = {16385}  # constants of the repaired tree that the reference does not have


def fresh_constants(graphs):
    """constants only the graph under test has: what they are compared with may need larger samples than usual"""
    import compare
    a, b = (set(compare.pool_of(list(o.values()))[0]) for o in graphs)
    out = sorted({abs(c) for c in b - a if 16 < abs(c) <= 1 << 17} - FIXED)
    return [c for c in out if c - 1 not in out][:6]


def far(spec, job, stage, graphs, known, samples=None, fuel=1 << 40, limit=None):
    """samples on which loops run long"""
    import compare, hints, terms
    so, ro = graphs
    start, t0 = 0, time.time()
    for pre in (False, True):
        conds = []
        if pre:
            _, st = analyse(spec, job.fn, stage[0], True, stage[1])
            conds = [st[k] for k in ("panic-free", "in-bounds", "memory-safe") if st[k] is not terms.TRUE]
        c = compare.compare(so, ro, known=known, hints=hints.for_fn(job.fn), pre=conds, inv=hints.inv(job.fn), long=samples or hints.LONG[job.fn],
                            n=0, limit=job.limit, seed=job.seed, longfuel=fuel, longlimit=limit and limit - (time.time() - t0), start=start)
        start = c.samples
        if c.status != "differ":
            break
    return c


def decide_history(spec, repo, job, r):
    """results and effects of a call sequence from the constructor on"""
    import absint, compare, hints, history
    from terms import Unsupported
    t0 = time.time()
    script = history.HIST[job.fn]
    if any(n not in repo.bodies or sig(spec.bodies[n]) != sig(repo.bodies[n]) for n, _ in script):
        r["status"], r["why"] = "missing", "a function of the sequence is gone"
        return r
    try:
        es = absint.Eng(spec, set())
        absint.origin.side("spec")
        so = es.history(script)
        er = absint.Eng(repo, set())
        absint.origin.side("repo")
        ro = er.history(script)
    except (Unsupported, RecursionError, MemoryError) as x:
        r["status"], r["why"] = "undecided", "%s: %s" % (type(x).__name__, str(x)[:200])
        return finish(r, None, None, t0)
    h = "history:" + job.fn
    c = compare.compare(so, ro, known=not (er.unknown - es.unknown), hints=hints.for_fn(h), inv=hints.inv(h), n=job.n, limit=job.limit, seed=job.seed)
    r["status"] = c.status
    r["passes"].append("%s (%d/%d samples)" % (c.status, c.valid, c.samples))
    return finish(r, c, (es, er), t0)


def tainted(t, b, memo):
    """does a value read from the input enter t (other than under a bound by something that does not)"""
    import terms as T
    roots = set()
    for k in range(b.argc):
        ty, n = b.ltys[k + 1], "a%d" % k
        while ty[0] == "ref":
            ty, n = ty[2], "*" + n
        if ty == ("slice", ("int", 8, False)):
            roots.add(n)

    def go(t):
        x = memo.get(t)
        if x is not None:
            return x
        memo[t] = False
        if t.op == "uf" and t.args[0].split("::")[0] != "header":
            v = True
        elif t.op == "sel" and t.args[0].op == "sym" and t.args[0].args[0] in roots:
            v = True
        elif t.op == "ln":
            v = False
        elif t.op == "dd" and t.args[0].op == "lt" and {t.args[1], t.args[2]} <= set(t.args[0].args[1:]):
            v = go(t.args[1]) and go(t.args[2])
        else:
            v = any(go(c) for c in T.subterms(t))
        memo[t] = v
        return v
    return go(t)


def called(e):
    return set(e.stats.get("anchors", ()))


def finish(r, c, es, t0):
    if c is not None:
        r["samples"], r["valid"], r["terms"] = c.samples, c.valid, c.terms
        r["key"] = c.key
        r["voids"] = getattr(c, "voids", {})
        if c.status == "differ":
            r["detail"] = c.detail
            r["loc"] = c.loc
    if es is not None:
        s = es[1].stats
        r["stats"] = {"functions": sorted(s["functions"]), "calls": s["calls"], "loops": s["loops"], "blocks": s["blocks"], "accesses": s["accesses"],
                      "unknown": sorted(str(x) for x in es[1].unknown)[:10]}
    r["time"] = round(time.time() - t0, 2)
    return r


def run(jobs, dumps):
    """dumps: {'spec': Program, config: Program}"""
    def work(job):
        return decide(dumps["spec"], dumps[job.config], job)
    res = pool(jobs, work)
    out = []
    for i, j in enumerate(jobs):
        v = res[i]
        if isinstance(v, tuple) and v and v[0] == "error":
            v = {"fn": j.fn, "config": j.config, "kind": j.kind, "status": "undecided", "why": v[1], "passes": []}
        out.append(v)
    return out
