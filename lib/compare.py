"""Equality of two value graphs: identical normal forms, or refutation by random interpretation."""
import time
import terms as T
from terms import Term, mk
import absint
import interp
from interp import Ev, Void, sh, hh


def pool_of(ts):
    out, seen = set(), set()
    work = list(ts)
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "c":
            v = T.sval(t) if t.ty != 1 else t.args[0]
            out.add(v)
        elif t.op == "poly":
            c = t.args[0]
            if c >> (t.ty - 1):
                c -= 1 << t.ty
            out.add(c)
            out.add(-c)
        work.extend(T.subterms(t))
    return sorted(v for v in out if abs(v) > 2 and abs(v) < (1 << 34)), seen


def initial_of(key):
    if key == "panic-free":
        return T.TRUE
    return mk("sym", ("*" + key[len("memory "):],), None)


def pairs(spec, repo):
    ks = sorted(set(spec) | set(repo), key=lambda k: (k != "panic-free", k))
    return [(k, spec.get(k) if k in spec else initial_of(k), repo.get(k) if k in repo else initial_of(k)) for k in ks]


def differing(a, b):
    """smallest pair of differing subterms reached by a parallel walk"""
    while True:
        if a is b:
            return None
        ca, cb = T.subterms(a), T.subterms(b)
        if a.op != b.op or len(ca) != len(cb):
            return a, b
        d = [(x, y) for x, y in zip(ca, cb) if x is not y]
        if len(d) != 1 or not shape_eq(a, b):
            if len(d) > 1 and shape_eq(a, b):
                # prefer the first difference
                a, b = d[0]
                continue
            return a, b
        a, b = d[0]


def shape_eq(a, b):
    def enc(x):
        if isinstance(x, Term):
            return None
        if isinstance(x, tuple):
            return tuple(enc(y) for y in x)
        return x
    return enc(a.args) == enc(b.args)


def where(t, side="repo", limit=4000):
    """nearest known source position of a term"""
    work, seen = [t], set()
    i = 0
    while i < len(work) and i < limit:
        x = work[i]
        i += 1
        o = absint.origin.of(x, side)
        if o is not None:
            return o
        for c in T.subterms(x):
            if c not in seen:
                seen.add(c)
                work.append(c)
    return None


class Result:
    def __init__(self):
        self.status = None      # proved | agree | differ | undecided
        self.samples = self.valid = 0
        self.key = self.detail = None
        self.terms = 0
        self.time = 0.0
        self.loc = None


EXTRA = 2.0     # cheap graphs get up to ten times the samples


class Diverges(Exception):
    pass


def eval_repo(f, mk, budget):
    """evaluate part of the graph under test; a loop that runs far beyond what the reference needed is looked at
    once more with a much larger bound"""
    try:
        return f(mk(None))
    except Void as x:
        if str(x) != "loop" or budget[0] <= 0:
            raise
    budget[0] -= 1
    try:
        return f(mk(30000))
    except Void as x:
        if str(x) == "loop":
            raise Diverges()
        raise


def compare_safety(spec, repo, hints=None, n=300, seed=1, limit=20.0, cap=48, entry=False, known=True, inv=lambda ev: True):
    """reference panic-free and in bounds => so is the code under test; safe entry points never access out of bounds"""
    r = Result()
    t0 = time.time()
    K = ("panic-free", "in-bounds", "memory-safe")
    pool, seen = pool_of(list(spec.values()) + list(repo.values()))
    r.terms = len(seen)
    if all(repo[k] is T.TRUE for k in K):
        r.status = "proved"
        return r
    if not known:
        r.status, r.detail = "undecided", "uses operations the analysis does not model"
        return r
    voids, i, ok = {}, 0, 0
    budget = [2]
    while i < n and time.time() - t0 < limit:
        i += 1
        hs = hints(interp, seed * 1000003 + i) if callable(hints) else hints

        def mkev(c):
            return Ev(hh(seed, 78, i), hs, pool, cap=c or cap, fuel=2000000 if not c else 30000000)
        try:
            ev = mkev(None)
            if not inv(ev):
                voids["invariant"] = voids.get("invariant", 0) + 1
                continue
            sv = all(ev.ev(spec[k]) for k in K)
            if not sv and not entry:
                voids["reference panics"] = voids.get("reference panics", 0) + 1
                continue
            bad = None

            def go(e):
                for k in K:
                    if not e.ev(repo[k]):
                        return k
                return None
            if sv:
                bad = eval_repo(go, lambda c: ev if c is None else mkev(c), budget)
            elif not ev.ev(repo["memory-safe"]):
                bad = "memory-safe"
            ok += sv
            r.valid += 1
            if bad:
                r.status, r.key = "differ", bad
                r.detail = {"spec": "in range" if sv else "rejects the input", "sample": i, "inputs": inputs(ev, (repo[bad],)),
                            "repo": {"memory-safe": "unchecked access out of range", "in-bounds": "index out of range (panic)", "panic-free": "panics"}[bad]}
                break
        except Void as x:
            voids[str(x)] = voids.get(str(x), 0) + 1
        except Diverges:
            r.status, r.key = "differ", "termination"
            r.detail = {"spec": "terminates", "repo": "a loop exceeds 30000 iterations", "sample": i}
            break
        except RecursionError:
            voids["recursion"] = voids.get("recursion", 0) + 1
    r.samples, r.voids, r.time = i, voids, time.time() - t0
    r.accepted = ok
    if r.status is None:
        r.status = "agree" if r.valid else "undecided"
        r.key = "in range"
    return r


def boundaries(seen):
    """comparisons between integers that no loop variable enters: samples are steered onto their boundaries"""
    out = []
    for t in seen:
        if t.op == "lt" and not T.bvlevels(t):
            out.append((t.args[1], t.args[2], t.args[0]))
        elif t.op == "eq0" and not T.bvlevels(t):
            out.append((t.args[0], None, True))
    out.sort(key=lambda p: p[0].id if hasattr(p[0], "id") else 0)
    return out


def steer(mkev, hs, cmps, i):
    """move one scalar input so that a comparison's two sides (nearly) meet"""
    k = hh(i, 0x51ee)
    a, b, sg = cmps[k % len(cmps)]

    def gap(h):
        e = mkev(h)
        e.trace = {}
        x = e.ev(a)
        y = e.ev(b) if b is not None else 0
        return interp._sx((x - y) & ((1 << a.ty) - 1), a.ty), e.seen
    hs = dict(hs or {})
    d, seen = gap(hs)
    names = sorted(n for n, (w, v) in seen.items() if n and "#" not in n and w > 1)
    if not names:
        return hs
    n = names[(k >> 20) % len(names)]
    want = ((k >> 40) % 3) - 1
    for _ in range(4):
        w, v = seen[n]
        hs[n] = (v + 1) & ((1 << w) - 1)
        d1, _s = gap(hs)
        hs[n] = v
        s = d1 - d
        if s == 0 or d == want:
            break
        v2 = v - (d - want) // s if (d - want) % s == 0 or (k >> 44) & 1 else v + (want - d) // s
        hs[n] = v2 & ((1 << w) - 1)
        d, seen2 = gap(hs)
        if n not in seen2:
            break
        seen = seen2
    return hs


def compare(spec, repo, hints=None, n=300, seed=1, limit=20.0, cap=48, minvalid=0, known=True, pre=(), inv=lambda ev: True, long=(), longfuel=1 << 40, longlimit=None, start=0):
    """long: samples that make loops run long; pre: further conditions a sample must meet (the reference's indexing in range); inv: invariant of private state"""
    r = Result()
    t0 = time.time()
    ps = pairs(spec, repo)
    diff = [(k, a, b) for k, a, b in ps if a is not b]
    pool, seen = pool_of([x for _, a, b in ps for x in (a, b)])
    r.terms = len(seen)
    if not diff:
        r.status = "proved"
        return r
    if not known:
        r.status = "undecided"
        r.key = diff[0][0]
        r.detail = "uses operations the analysis does not model"
        return r
    sp = spec.get("panic-free", T.TRUE)
    rp = repo.get("panic-free", T.TRUE)
    cmps = boundaries(seen)
    i = 0
    voids = {}
    budget = [2]
    todo = list(long)[::-1]
    while True:
        more = (i < n and time.time() - t0 < limit) or (i < 10 * n and time.time() - t0 < EXTRA)
        if not more and (not todo or longlimit and time.time() - t0 > longlimit):
            break
        i += 1
        hs = hints(interp, seed * 1000003 + i) if callable(hints) else hints
        far = None
        if not more:
            hs, far = todo.pop()(), 1 << 20
            if i < start:
                continue
        try:
            if cmps and i % 3 == 0 and not far:
                hs = steer(lambda h: Ev(hh(seed, 77, i), h, pool, cap=cap, fuel=200000), hs, cmps, i)
        except (Void, RecursionError):
            pass

        def mkev(c):
            if far:
                return Ev(hh(seed, 77, i), hs, (), cap=far, fuel=longfuel)
            return Ev(hh(seed, 77, i), hs, pool, cap=c or cap, fuel=2000000 if not c else 30000000)
        ev = mkev(None)
        try:
            if not inv(ev):
                voids["invariant"] = voids.get("invariant", 0) + 1
                continue
            if not ev.ev(sp) or not all(ev.ev(x) for x in pre):
                voids["panic"] = voids.get("panic", 0) + 1
                continue
            ref = {k: ev.evb(a) for k, a, b in diff if k != "panic-free"}
            if sp is not rp and not eval_repo(lambda e: e.ev(rp), lambda c: ev if c is None else mkev(c), budget):
                r.status, r.key = "differ", "panic-free"
                r.detail = {"spec": "no panic", "repo": "reaches a panic", "sample": i, "inputs": inputs(ev, (sp, rp))}
                r.loc = loc(sp, rp)
                break
            bad = None
            for k, a, b in diff:
                if k == "panic-free":
                    continue
                va, vb = ref[k], eval_repo(lambda e: e.evb(b), lambda c: ev if c is None else mkev(c), budget)
                if not ev.same(va, vb):
                    bad = (k, a, b, va, vb)
                    break
            r.valid += 1
            if bad:
                k, a, b, va, vb = bad
                r.status, r.key = "differ", k
                r.detail = {"spec": show(ev, va), "repo": show(ev, vb), "sample": i, "inputs": inputs(ev, (a, b))}
                r.loc = loc(a, b)
                break
        except Void as x:
            voids[str(x)] = voids.get(str(x), 0) + 1
        except Diverges:
            r.status, r.key = "differ", "termination"
            r.detail = {"spec": "terminates", "repo": "a loop exceeds 30000 iterations", "sample": i}
            r.loc = loc(diff[0][1], diff[0][2])
            break
        except RecursionError:
            voids["recursion"] = voids.get("recursion", 0) + 1
    r.samples = i
    r.voids = voids
    r.time = time.time() - t0
    if r.status is None:
        r.status = "agree" if r.valid > minvalid else "undecided"
        r.key = diff[0][0]
        r.loc = loc(diff[0][1], diff[0][2])
    return r


def loc(a, b):
    d = differing(a, b)
    if d is None:
        return None
    x, y = d
    return {"spec": T.show(x, 4)[:400], "repo": T.show(y, 4)[:400], "at": where(y) or where(b), "spec_at": where(x, "spec")}


def show(ev, v, d=4):
    t = type(v)
    if t is tuple:
        if v[0] == "I":
            w = v[1]
            return str(v[2] - (1 << w) if w < 65 and v[2] >> (w - 1) and w > 8 else v[2])
        return str(v[1])
    if t is interp.Tok:
        return "<%s %x>" % (v.prov[-30:], v.h & 0xffff)
    if d == 0:
        return "…"
    if t is interp.Agg:
        return "%s(%s)" % (v.tag if isinstance(v.tag, str) else v.tag[1].split("::")[-1] + "#%d" % v.tag[2], ", ".join(show(ev, x, d - 1) for x in v.f))
    if t in (interp.Arr, interp.Slab):
        b, ov = ev.flat(v)
        es = [(k, x) for k, x in sorted(ov.items(), key=str) if not ev.same(ev.child(b, k), x)]
        return "%s{%s%s}" % (show(ev, b, d - 1), ", ".join("%s:%s" % (k[1], show(ev, x, d - 1)) for k, x in es[:40]), " …%d" % len(es) if len(es) > 40 else "")
    if t is interp.Fill:
        return "[%s;..]" % show(ev, v.v, d - 1)
    if t is interp.Sl:
        if v.kind == "s":
            return "[%s]+%d" % (", ".join(show(ev, ev.child(v.c, ("i", v.off + j)), d - 1) for j in range(min(v.ln, 24))), v.ln)
        return "&%s@%d" % (show(ev, v.c, d - 1), v.off)
    return t.__name__


def inputs(ev, ts):
    """values the sample gave to scalar inputs"""
    _, seen = pool_of(ts)
    out = {}
    for t in seen:
        if t.op == "sym" and t.ty is not None or t.op == "sel" and t.ty is not None and t.args[0].op == "sym" and not T.bvlevels(t):
            try:
                out[T.show(t, 3)] = ev.ev(t)
            except Void:
                pass
        if t.op == "ln" and not T.bvlevels(t):
            try:
                out[T.show(t, 3)] = ev.ev(t)
            except Void:
                pass
        if len(out) > 40:
            break
    return out
