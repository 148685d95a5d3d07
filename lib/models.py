"""Meaning of library functions in the value graph: slices, vectors, options and results,
iterators (as index-driven sequences), byte streams, integer methods."""
from terms import *
import terms as T
import absint as A
from absint import conj, State, Z, c64, tup, width, is_ptrty, pointee_unsized, P, BACK, Diverges, hasref

OPT, RES, CF = "std::option::Option", "std::result::Result", "std::ops::ControlFlow"
ORD = "std::cmp::Ordering"
STR = mk("str", (), None)
IOERR = mk("ioerr", (), None)
INT = {"i8": (8, True), "u8": (8, False), "i16": (16, True), "u16": (16, False), "i32": (32, True), "u32": (32, False),
       "i64": (64, True), "u64": (64, False), "isize": (64, True), "usize": (64, False), "i128": (128, True), "u128": (128, False)}


def Some(x):
    return agg(("v", OPT, 1), x)


NONE = agg(("v", OPT, 0))


def Ok(x):
    return agg(("v", RES, 0), x)


def Err(x):
    return agg(("v", RES, 1), x)


def variant(e, v, adt, i, ty=None):
    """condition that enum value v is variant i (adt by name)"""
    t = ty if ty is not None and ty[0] == "adt" else ("adt", adt)
    n = {OPT: 2, RES: 2, CF: 2}.get(t[1], 2)

    def f(x):
        if x.op == "agg" and isinstance(x.args[0], tuple):
            return TRUE if x.args[0][2] == i else FALSE
        if x is UNINIT or x.op == "undef":
            return FALSE
        d = mk("discr", (x, tuple(range(n)), t[1].split("::")[-1]), 64)
        return T.eq(d, c64(i))
    return lift(f, v, force=True)


def payload(e, v, i, ty=None, k=0):
    return sel(v, (("vf", i, k),), width(ty))


def opt_ty(ty):
    return ty[2] if ty is not None and ty[0] == "adt" and ty[1] == OPT and len(ty) > 2 else None


def res_ty(ty, i):
    return ty[2 + i] if ty is not None and ty[0] == "adt" and ty[1] == RES and len(ty) > 2 + i else None


def branch(e, st, c, ft, ff):
    """run two continuations under a condition and merge"""
    if c is TRUE:
        return ft(st)
    if c is FALSE:
        return ff(st)
    a, b = st.copy(And(st.g, c)), st.copy(And(st.g, Not(c)))
    va = vb = None
    da = db = False
    try:
        va = ft(a)
    except Diverges:
        da = True
    try:
        vb = ff(b)
    except Diverges:
        db = True
    if da and db:
        raise Diverges("both branches")
    if da or db:
        s, v, ok = (b, vb, Not(c)) if da else (a, va, c)
        st.mem = s.mem
        st.mem[P] = And(e.content(st, P), ok)
        return v
    ks = a.mem.keys() | b.mem.keys()
    mem = {}
    for k in ks:
        x, y = a.mem.get(k), b.mem.get(k)
        if x is None or y is None:
            if k[0] in ("L", "T"):
                mem[k] = x if x is not None else y
                continue
            x = e.initial(k) if x is None else x
            y = e.initial(k) if y is None else y
        mem[k] = x if x is y else e.merge(c, x, y)
    st.mem = mem
    if va is UNIT and vb is UNIT:
        return UNIT
    va, vb = e.con(va, c), e.con(vb, Not(c))
    return e.merge(c, va, vb)


def panic_unless(e, st, c):
    if c is not TRUE:
        st.mem[P] = And(e.content(st, P), c)


def const(v):
    return lambda st: v


# ------------------------------------------------------------------ slices
def strip(e, st, v, ty):
    """follow references until a slice / Vec / array is reached: (slice value, element type)"""
    while True:
        if ty[0] in ("ref", "ptr"):
            p = ty[2]
            if p[0] in ("slice", "str"):
                return v, p[1] if p[0] == "slice" else None
            if p[0] == "array":
                def f(x):
                    if x.op == "ref":
                        return mk("sref", (x.args[0], x.args[1], Z, c64(p[2])), None)
                    if x.op == "sref":
                        return x
                    r, q = e.opq(x)
                    return mk("sref", (r, q, Z, c64(p[2])), None)
                return lift(f, v, force=True), p[1]
            if p[0] == "adt" and p[1] == "std::vec::Vec":
                return vecslice(e, st, v), p[2]
            if p[0] in ("ref", "ptr"):
                v = e.rd(st, e.deref(v, ty), None)
                ty = p
                continue
        return None, None


def vecslice(e, st, v):
    """&[T] of a &Vec<T>"""
    def f(x):
        (c, root, path, sl), = e.deref(x, ("ref", True, ("adt", "std::vec::Vec")))
        ln = sel(e.content(st, root), path + (("f", 1),), 64)
        return mk("sref", (root, path + (("f", 0),), Z, ln), None)
    return lift(f, v, force=True)


def srefof(e, v, ty=None):
    """view any slice pointer as an sref"""
    def f(x):
        if x.op == "sref" or x is UNINIT or x.op == "undef":
            return x
        r, p = e.opq(x)
        return mk("sref", (r, p, Z, mk("ln", (x,), 64)), None)
    return lift(f, v, force=True)


def sub_slice(v, a, n):
    """v[a .. a+n]"""
    def f(x, a, n):
        if x.op != "sref":
            return x
        return mk("sref", (x.args[0], x.args[1], add(x.args[2], a), n), None)
    if v.op == "sref":
        return mk("sref", (v.args[0], v.args[1], add(v.args[2], a), n), None)
    return lift(lambda x: f(x, a, n), v, force=True)


def elem_ref(v, i):
    def f(x):
        if x.op != "sref":
            return x
        return mk("ref", (x.args[0], x.args[1] + (("i", add(x.args[2], i)),)), None)
    return lift(f, v, force=True)


def slen(e, v):
    return e.lenof(v)


def umin(a, b):
    return minmax(a, b, False, False)


def satsub(a, b):
    return ite(lt(a, b, False), Z, sub(a, b))


# ------------------------------------------------------------------ iterators
REG = {}


def it(tag, *a):
    return agg("it:" + tag, *a)


def isit(v):
    return v.op == "agg" and isinstance(v.args[0], str) and v.args[0].startswith("it:")


def kind(v):
    return v.args[0][3:].split("|", 1)[0]


def tagty(v):
    return REG[v.args[0].split("|", 1)[1]]


def tytag(k, ty):
    r = repr(ty)
    REG[r] = ty
    return k + "|" + r


def mkiter(e, st, v, ty):
    """iterator value of something iterable held by value"""
    if isit(v):
        if kind(v) == "rincl":
            w = ty[2] if ty and ty[0] == "adt" and len(ty) > 2 and ty[2][0] == "int" else None
            if w is None:
                return None
            return it("range.s" if w[2] else "range.u", v.args[1], add(v.args[2], C(w[1], 1)))
        return v
    if ty is None:
        return None
    if ty[0] == "adt":
        n = ty[1]
        if n in ("std::ops::Range", "core::ops::Range", "std::ops::range::Range") and len(ty) > 2 and ty[2][0] == "int":
            a, b = sel(v, (("f", 0),), ty[2][1]), sel(v, (("f", 1),), ty[2][1])
            return it("range.s" if ty[2][2] else "range.u", a, b)
        if n.endswith("RangeFrom") and len(ty) > 2 and ty[2][0] == "int":
            return it("from", sel(v, (("f", 0),), ty[2][1]))
        if n == "std::vec::Vec":
            return it("vec", sel(v, (("f", 0),), None), Z, sel(v, (("f", 1),), 64))
        if n == OPT:
            return it("opt", v)
        b = e.impl("std::iter::Iterator", ty, "next")
        if b is not None:
            return it(tytag("adt", ty), v)
        b = e.impl("std::iter::IntoIterator", ty, "into_iter")
        if b is not None:
            return None
        return it(tytag("opq", ty), v)
    if ty[0] == "ref":
        p = ty[2]
        if p[0] in ("slice",) or p[0] == "array" or (p[0] == "adt" and p[1] == "std::vec::Vec"):
            s, _ = strip(e, st, v, ty)
            s = srefof(e, s)
            return it("slice", s, Z, slen(e, s))
        if ty[1]:
            # &mut I
            return it(tytag("by", p), v)
    if ty[0] == "array":
        return it("vec", v, Z, c64(ty[2]))
    if ty[0] in ("param", "other"):
        return it(tytag("opq", ty), v)
    return None


def nx(e, st, v):
    """(cond, keep, elem, it', st')"""
    k = kind(v)
    a = v.args[1:]
    if k == "slice":
        s, p, n = a
        return lt(p, n, False), TRUE, elem_ref(s, p), it("slice", s, add(p, c64(1)), n), st
    if k in ("range.s", "range.u"):
        s, n = a
        return lt(s, n, k == "range.s"), TRUE, s, it(k, add(s, C(s.ty, 1)), n), st
    if k == "from":
        return TRUE, TRUE, a[0], it("from", add(a[0], C(a[0].ty, 1))), st
    if k == "vec":
        c, p, n = a
        return lt(p, n, False), TRUE, sel(c, (("i", p),), None), it("vec", c, add(p, c64(1)), n), st
    if k == "chunks":
        s, size, p = a
        n = slen(e, s)
        return lt(p, n, False), TRUE, sub_slice(s, p, umin(size, sub(n, p))), it("chunks", s, size, add(p, size)), st
    if k == "chunksx":
        s, size, p, n = a
        return lt(p, n, False), TRUE, sub_slice(s, p, size), it("chunksx", s, size, add(p, size), n), st
    if k == "windows":
        s, size, p = a
        return Not(lt(slen(e, s), add(p, size), False)), TRUE, sub_slice(s, p, size), it("windows", s, size, add(p, c64(1))), st
    if k == "enum":
        i, n = a
        c, keep, x, i2, s2 = nx(e, st, i)
        return c, keep, tup(n, x), it("enum", i2, ite(keep, add(n, c64(1)), n) if keep is not TRUE else add(n, c64(1))), s2
    if k == "zip":
        c1, k1, x, i1, s1 = nx(e, st, a[0])
        c2, k2, y, i2, s2 = nx(e, s1, a[1])
        if k1 is not TRUE or k2 is not TRUE:
            raise Unsupported("zip of a filter")
        return And(c1, c2), TRUE, tup(x, y), it("zip", i1, i2), s2
    if k == "map":
        i, f = a
        fty, _, ety, dty = tagty(v)
        c, keep, x, i2, s2 = nx(e, st, i)
        s2 = s2.copy()
        root = None
        if c is FALSE:
            return c, keep, x, v, s2
        y, f2 = callmut(e, s2, f, fty, [x], [ety], dty, And(c, keep))
        return c, keep, y, mk("agg", (v.args[0], i2, f2), None), s2
    if k in ("filter", "skipwhile", "takewhile"):
        i, f = a
        fty, ety = tagty(v)
        c, keep, x, i2, s2 = nx(e, st, i)
        s2 = s2.copy()
        r = e.tmproot(x, s2)
        b, f2 = callmut(e, s2, f, fty, [mk("ref", (r, ()), None)], [("ref", False, ety) if ety else None], ("bool",), And(c, keep))
        s2.mem.pop(r, None)
        if k == "takewhile":
            return And(c, b), keep, x, mk("agg", (v.args[0], i2, f2), None), s2
        return c, And(keep, b), x, mk("agg", (v.args[0], i2, f2), None), s2
    if k == "filtermap":
        i, f = a
        fty, _, ety, dty = tagty(v)
        c, keep, x, i2, s2 = nx(e, st, i)
        s2 = s2.copy()
        y, f2 = callmut(e, s2, f, fty, [x], [ety], dty, And(c, keep))
        some = variant(e, y, OPT, 1)
        return c, And(keep, some), e.con(payload(e, y, 1, opt_ty(dty)), some), mk("agg", (v.args[0], i2, f2), None), s2
    if k == "step":
        i, n = a
        c, keep, x, i2, s2 = nx(e, st, i)
        return c, keep, x, it("step", adv(e, i, n), n), s2
    if k == "rev":
        i = a[0]
        c, x, i2 = back(e, i, st)
        return c, TRUE, x, it("rev", i2), st
    if k == "take":
        i, n = a
        c, keep, x, i2, s2 = nx(e, st, i)
        return And(Not(T.eq(n, Z)), c), keep, x, it("take", i2, ite(keep, sub(n, c64(1)), n) if keep is not TRUE else sub(n, c64(1))), s2
    if k in ("copied", "cloned"):
        c, keep, x, i2, s2 = nx(e, st, a[0])
        ety = tagty(v)
        return c, keep, e.rd(s2, e.deref(x, ("ref", False, ety)), width(ety)), mk("agg", (v.args[0], i2), None), s2
    if k == "chain":
        c1, k1, x, i1, s1 = nx(e, st, a[0])
        c2, k2, y, i2, s2 = nx(e, st, a[1])
        if s1 is not st or s2 is not st or k1 is not TRUE or k2 is not TRUE:
            raise Unsupported("chain with effects")
        return Or(c1, c2), TRUE, e.merge(c1, x, y), it("chain", e.merge(c1, i1, a[0]), e.merge(c1, a[1], i2)), st
    if k == "opt":
        s = variant(e, a[0], OPT, 1)
        return s, TRUE, e.con(payload(e, a[0], 1), s), it("opt", NONE), st
    if k == "once":
        return Not(a[1]), TRUE, a[0], it("once", a[0], TRUE), st
    if k == "repeat":
        return TRUE, TRUE, a[0], v, st
    if k == "ovl":
        s, step, j = a
        n = slen(e, s)
        m = lambda q: umin(step, satsub(n, mul(q, step)))
        j2 = scale(j, 2)
        q = [add(j2, c64(x)) for x in range(3)]
        el = tup(sub_slice(s, mul(q[0], step), step), *[sub_slice(s, mul(x, step), m(x)) for x in q[1:]])
        return lt(mul(q[1], step), n, False), TRUE, el, it("ovl", s, step, add(j, c64(1))), st
    if k == "dovl":
        s, step, j = a
        n = slen(e, s)
        m = lambda q: umin(step, satsub(n, mul(q, step)))
        j2 = scale(j, 2)
        q = [add(j2, c64(x)) for x in range(5)]
        first = T.eq(j, Z)
        pl = sub_slice(s, ite(first, Z, mul(sub(j2, c64(2)), step)), ite(first, Z, step))
        el = tup(pl, sub_slice(s, mul(q[0], step), step), *[sub_slice(s, mul(x, step), m(x)) for x in (q[1], q[2], q[4])])
        return lt(mul(q[1], step), n, False), TRUE, el, it("dovl", s, step, add(j, c64(1))), st
    if k == "adt":
        ty = tagty(v)
        b = e.impl("std::iter::Iterator", ty, "next")
        s2 = st.copy()
        r = e.tmproot(a[0], s2)
        env = {n: t for n, t in zip([g for g in b.generics if not g.startswith("'")], [x for x in ty[2:] if x[0] != "const"])}
        o = e.run_fn(b, [mk("ref", (r, ()), None)], s2, env)
        c = variant(e, o, OPT, 1)
        x = payload(e, e.con(o, c), 1)
        n = e.con(s2.mem.pop(r), c)
        return c, TRUE, x, mk("agg", (v.args[0], n), None), s2
    if k == "by":
        ty = tagty(v)
        s2 = st.copy()
        pl = e.deref(a[0], ("ref", True, ty))
        inner = e.rd(s2, pl, None)
        i0 = mkiter(e, s2, inner, ty)
        if i0 is None:
            raise Unsupported("iterator by reference")
        c, keep, x, i2, s3 = nx(e, s2, i0)
        s3 = s3.copy() if s3 is s2 else s3
        e.wr(s3, pl, unit_iter(i2, ty, inner))
        return c, keep, x, v, s3
    if k == "opq":
        nm = "next:"
        e.vocab.add(nm)
        c = truth(mk("uf", (nm, ("some",), (a[0],)), "bool"))
        return c, TRUE, mk("uf", (nm, ("item",), (a[0],)), None), mk("agg", (v.args[0], mk("uf", (nm, ("upd",), (a[0],)), None)), None), st
    raise Unsupported("iterator " + k)


def unit_iter(i2, ty, orig):
    """store back a converted iterator in its original representation"""
    if isit(orig):
        return i2
    k = kind(i2)
    if k in ("range.s", "range.u"):
        return tup(i2.args[1], i2.args[2])
    if k == "from":
        return tup(i2.args[1])
    if k == "adt" or k == "opq":
        return i2.args[1]
    return i2


def adv(e, v, n):
    """skip n elements (random access sequences)"""
    k = kind(v)
    a = v.args[1:]
    if k == "slice":
        return it("slice", a[0], add(a[1], n), a[2])
    if k in ("range.s", "range.u"):
        return it(k, add(a[0], T.cast(n, a[0].ty, False)), a[1])
    if k == "from":
        return it(k, add(a[0], T.cast(n, a[0].ty, False)))
    if k == "vec":
        return it("vec", a[0], add(a[1], n), a[2])
    if k in ("chunks", "chunksx"):
        return it(k, a[0], a[1], add(a[2], mul(a[1], n)), *a[3:])
    if k == "windows":
        return it(k, a[0], a[1], add(a[2], n))
    if k == "enum":
        return it("enum", adv(e, a[0], n), add(a[1], n))
    if k == "zip":
        return it("zip", adv(e, a[0], n), adv(e, a[1], n))
    if k in ("map", "copied", "cloned"):
        return mk("agg", (v.args[0], adv(e, a[0], n)) + a[1:], None)
    if k == "step":
        return it("step", adv(e, a[0], mul(n, a[1])), a[1])
    if k == "rev":
        i = a[0]
        if kind(i) in ("slice", "vec"):
            return it("rev", it(kind(i), i.args[1], i.args[2], satsub(i.args[3], n)))
        if kind(i) in ("range.s", "range.u"):
            return it("rev", it(kind(i), i.args[1], sub(i.args[2], T.cast(n, i.args[2].ty, False))))
    if k == "take":
        return it("take", adv(e, a[0], n), satsub(a[1], n))
    if k in ("ovl", "dovl"):
        return it(k, a[0], a[1], add(a[2], n))
    raise Unsupported("advance " + k)


def itlen(e, v):
    k = kind(v)
    a = v.args[1:]
    if k in ("slice", "vec"):
        return satsub(a[2], a[1]) if a[1] is not Z else a[2]
    if k in ("range.s", "range.u"):
        d = ite(lt(a[0], a[1], k == "range.s"), sub(a[1], a[0]), C(a[0].ty, 0))
        return T.cast(d, 64, False)
    if k in ("enum", "map", "copied", "cloned"):
        return itlen(e, a[0])
    if k == "zip":
        return umin(itlen(e, a[0]), itlen(e, a[1]))
    if k == "take":
        return umin(itlen(e, a[0]), a[1])
    if k == "rev":
        return itlen(e, a[0])
    if k == "chunks":
        n = satsub(slen(e, a[0]), a[2])
        return binop("udiv", sub(add(n, a[1]), c64(1)), a[1])
    if k == "chunksx":
        return binop("udiv", satsub(a[3], a[2]), a[1])
    if k == "step":
        n = itlen(e, a[0])
        return binop("udiv", sub(add(n, a[1]), c64(1)), a[1])
    raise Unsupported("length of iterator " + k)


def at(e, v, j, st):
    """element j counted from the current front"""
    c, keep, x, _, s2 = nx(e, st, adv(e, v, j))
    if s2 is not st or keep is not TRUE:
        raise Unsupported("reverse of an effectful iterator")
    return x


def back(e, v, st):
    """(cond, last element, iterator without it)"""
    k = kind(v)
    a = v.args[1:]
    if k in ("slice", "vec"):
        s, p, n = a
        n1 = sub(n, c64(1))
        x = elem_ref(s, n1) if k == "slice" else sel(s, (("i", n1),), None)
        return lt(p, n, False), x, it(k, s, p, n1)
    if k in ("range.s", "range.u"):
        n1 = sub(a[1], C(a[1].ty, 1))
        return lt(a[0], a[1], k == "range.s"), n1, it(k, a[0], n1)
    if k == "enum":
        n = itlen(e, a[0])
        c, x, i2 = back(e, a[0], st)
        return c, tup(add(a[1], sub(n, c64(1))), x), it("enum", i2, a[1])
    if k in ("copied", "cloned"):
        c, x, i2 = back(e, a[0], st)
        ety = tagty(v)
        return c, e.rd(st, e.deref(x, ("ref", False, ety)), width(ety)), mk("agg", (v.args[0], i2), None)
    if k == "map":
        raise Unsupported("reverse of map")
    n = itlen(e, v)
    return Not(T.eq(n, Z)), at(e, v, sub(n, c64(1)), st), it("take", v, sub(n, c64(1)))


def callmut(e, st, f, fty, args, atys, dty, cond):
    """call a closure value, executed only under cond; returns (value, closure')"""
    if f.op == "agg" or f.op == "ref" or hasref(f):
        r = e.tmproot(f, st)
    else:
        r = e.tmproot(f, st)
    fr = mk("ref", (r, ()), None)

    def go(s):
        t = fty
        if t is not None and t[0] == "closure":
            return e.callclosure_ref(s, fr, t, args)
        return e.callval(s, f, t, args, atys, dty)
    # effects only matter under cond; the caller uses the state only there
    v = go(st)
    return v, st.mem.pop(r)


def drive(e, st, v, sink, where=None):
    """sequential loop over an iterator; sink(st, elem) -> None or (stop condition)
    state is mutated; returns condition that the loop was stopped early by the sink"""
    root = e.tmproot(v, st)
    stop = e.tmproot(FALSE, st)
    keep_roots = (root, stop)

    def body(s):
        i = e.content(s, root)
        c, keep, x, i2, s2 = nx(e, s, i)
        outs = {}
        if c is not TRUE:
            f = s.copy(And(s.g, Not(c)))
            outs["done"] = f
        if c is FALSE:
            return outs
        g = s2.copy(And(s.g, c))
        g.mem[root] = e.con(i2, c)
        x = e.con(x, c)

        def run(s):
            b = sink(s, x)
            return FALSE if b is None else b
        b = branch(e, g, keep, run, lambda s: FALSE)
        if b is FALSE:
            outs[BACK] = g
        else:
            t = g.copy(And(g.g, b))
            t.mem[stop] = TRUE
            if t.g is not FALSE:
                outs["stop"] = t
            u = g.copy(And(g.g, Not(b)))
            if u.g is not FALSE:
                outs[BACK] = u
        return outs
    outs = e.summarize(st, body, where or e.where)
    ss = [x for k, x in outs.items()]
    if not ss:
        raise Diverges("endless iterator")
    r = e.join(ss)
    st.mem = r.mem
    b = st.mem.pop(stop, FALSE)
    v2 = st.mem.pop(root, None)
    return b, v2


def collect(e, st, v, parallel=False):
    root = e.tmproot(tup(mk("fill", (UNINIT,), None), Z), st)

    def sink(s, x):
        c = e.content(s, root)
        n = sel(c, (("f", 1),), 64)
        c = store(c, (("f", 0), ("i", n)), x)
        c = store(c, (("f", 1),), add(n, c64(1)))
        s.mem[root] = c
    drive(e, st, v, sink)
    r = st.mem.pop(root)
    if parallel:
        c, n = sel(r, (("f", 0),), None), sel(r, (("f", 1),), 64)
        r = tup(mk("perm", (c, n), None), n)
    return r


def next_value(e, st, itref, ity):
    """Iterator::next on a place"""
    pl = e.deref(itref, ("ref", True, ity))
    cur = e.rd(st, pl, None)
    i = mkiter(e, st, cur, ity)
    if i is None:
        return None
    k = kind(i)
    if k == "adt":
        b = e.impl("std::iter::Iterator", ity, "next")
        c, keep, x, i2, s2 = nx(e, st, i)
    else:
        c, keep, x, i2, s2 = nx(e, st, i)
    if keep is not TRUE:
        # search for the next element that is kept
        hold = e.tmproot(UNINIT, st)

        def sink(s, y):
            s.mem[hold] = y
            return TRUE
        b, v2 = drive(e, st, i, sink)
        x = st.mem.pop(hold)
        e.wr(st, pl, unit_iter(v2, ity, cur))
        return e.merge(b, Some(x), NONE)
    f = State(And(st.g, Not(c)), dict(st.mem))
    t = s2.copy(And(st.g, c))
    e.wr(t, pl, unit_iter(e.con(i2, c), ity, cur))
    if c is TRUE:
        st.mem = t.mem
        return Some(x)
    if c is FALSE:
        return NONE
    mem = {}
    for kx in t.mem.keys() | f.mem.keys():
        p, q = t.mem.get(kx), f.mem.get(kx)
        if p is None or q is None:
            if kx[0] in ("L", "T"):
                mem[kx] = p if p is not None else q
                continue
            p = e.initial(kx) if p is None else p
            q = e.initial(kx) if q is None else q
        mem[kx] = p if p is q else e.merge(c, p, q)
    st.mem = mem
    return e.merge(c, Some(e.con(x, c)), NONE)


# ------------------------------------------------------------------ overrides of local code
def override(e, st, name, args, atys, dty):
    if name.endswith("OverlappingChunksIterator::from_slice") and name.startswith("processing::"):
        s = args[0]
        while s.op == "ref":
            s = e.rd(st, [(TRUE, s.args[0], s.args[1], None)], None)
        s = srefof(e, s)
        return it("dovl" if "DoubleOverlapping" in name else "ovl", s, args[1], Z)
    return None


def override_next(e, st, args, atys):
    """next() of an iterator that from_slice made, called directly"""
    if not atys or atys[0][0] != "ref" or args[0].op not in ("ref", "dd"):
        return None
    cur = e.rd(st, e.deref(args[0], atys[0]), None)
    leaves = [x for _, x in T.ddleaves(cur)] if cur.op == "dd" else [cur]
    if not all(isit(x) and kind(x) in ("ovl", "dovl") for x in leaves):
        return None
    return next_value(e, st, args[0], atys[0][2])


# ------------------------------------------------------------------ byte streams
def le_bytes(v, n, big=False):
    bs = [T.trunc(binop("udiv", v, C(v.ty, 1 << (8 * i))) if i else v, 8) for i in range(n)]
    return bs[::-1] if big else bs


def from_bytes(bs, w, big=False):
    if big:
        bs = bs[::-1]
    r = C(w, 0)
    for i, b in enumerate(bs):
        r = add(r, scale(T.cast(b, w, False), 1 << (8 * i)))
    return r


def streamplace(e, st, v, ty):
    """the innermost place holding a byte slice behind (possibly several) references: (places, slice type) or None"""
    while ty is not None and ty[0] == "ref":
        p = ty[2]
        if p[0] == "ref" and p[2][0] == "slice" and p[2][1] == ("int", 8, False):
            pl = e.deref(v, ty)
            return pl, p
        if p[0] == "ref":
            v = e.rd(st, e.deref(v, ty), None)
            ty = p
            continue
        return None
    return None


def read_bytes(e, st, selfv, sty, n):
    """n bytes of a reader: (ok condition, [bytes])"""
    sp = streamplace(e, st, selfv, sty)
    if sp is not None:
        pl, pty = sp
        s = srefof(e, e.rd(st, pl, None))
        ln = slen(e, s)
        ok = Not(lt(ln, c64(n), False))
        bs = [e.rd(st, e.deref(elem_ref(s, c64(i)), ("ref", False, pty[2][1])), 8) for i in range(n)]
        k = ite(ok, c64(n), ln)
        e.wr(st, pl, sub_slice(s, k, sub(ln, k)))
        return ok, bs
    e.vocab.add("io.read")
    sn = (e.snap(st, selfv), c64(n))
    e.havoc_arg(st, selfv, sty, "io.read", sn, (0,))
    ok = truth(mk("uf", ("io.read", ("ok",), sn), "bool"))
    return ok, [mk("uf", ("io.read", ("b", i), sn), 8) for i in range(n)]


def write_bytes(e, st, selfv, sty, bs):
    sp = streamplace(e, st, selfv, sty)
    if sp is not None:
        pl, pty = sp
        s = srefof(e, e.rd(st, pl, None))
        ln = slen(e, s)
        n = len(bs)
        ok = Not(lt(ln, c64(n), False))
        for i, b in enumerate(bs):
            q = e.deref(elem_ref(s, c64(i)), ("ref", True, pty[2][1]))
            c = lt(c64(i), ln, False) if i else Not(T.eq(ln, Z))
            old = e.rd(st, q, 8)
            e.wr(st, q, ite(Or(c, ok), b, old))
        k = ite(ok, c64(n), ln)
        e.wr(st, pl, sub_slice(s, k, sub(ln, k)))
        return ok
    e.vocab.add("io.write")
    sn = (e.snap(st, selfv), tup(*bs))
    e.havoc_arg(st, selfv, sty, "io.write", sn, (0,))
    return truth(mk("uf", ("io.write", ("ok",), sn), "bool"))


# ------------------------------------------------------------------ the table
def call(e, st, decl, res, trait, ga, args, atys, dty):
    try:
        return call1(e, st, decl, res, trait, ga, args, atys, dty)
    except Diverges:
        raise


def deref_all(e, st, v, ty):
    while ty[0] == "ref":
        v = e.rd(st, e.deref(v, ty), width(ty[2]))
        ty = ty[2]
    return v, ty


def cmpvals(e, st, a, b, ty):
    """(lt, eq) of two values of a type, or None"""
    if ty[0] == "int":
        return lt(a, b, ty[2]), T.eq(a, b)
    if ty[0] == "bool":
        return And(Not(a), b), T.eq(a, b)
    if ty[0] == "tuple":
        l, q = FALSE, TRUE
        for i, t in enumerate(ty[1:]):
            r = cmpvals(e, st, sel(a, (("f", i),), width(t)), sel(b, (("f", i),), width(t)), t)
            if r is None:
                return None
            l = Or(l, And(q, r[0]))
            q = And(q, r[1])
        return l, q
    return None


def gop(op, a, b):
    return truth(mk("gop", (op, a, b), "bool"))


def enum_derived_eq(e, st, a, b, ty):
    ad = e.prog.adts.get(ty[1]) if ty[0] == "adt" else None
    if ad and ad["enum"] and all(not v["f"] for v in ad["v"]):
        x, y = e.discr(a, ty, 64), e.discr(b, ty, 64)
        return T.eq(x, y)
    return None


def eqvals(e, st, a, b, ty):
    r = cmpvals(e, st, a, b, ty)
    if r is not None:
        return r[1]
    if ty[0] == "adt":
        r = enum_derived_eq(e, st, a, b, ty)
        if r is not None:
            return r
        if ty[1] == OPT and len(ty) > 2:
            sa, sb = variant(e, a, OPT, 1), variant(e, b, OPT, 1)
            q = eqvals(e, st, payload(e, a, 1, ty[2]), payload(e, b, 1, ty[2]), ty[2])
            return Or(And(Not(sa), Not(sb)), And(sa, sb, q))
    if a is b:
        return TRUE
    return truth(mk("cmpeq", tuple(sorted((e.snap(st, a), e.snap(st, b)), key=lambda t: structhash(t))), "bool"))


def range_bounds(e, st, r, rty, n):
    """(start, end, ok) of a range used as a slice index"""
    nm = rty[1].split("::")[-1] if rty[0] == "adt" else ""
    f = lambda k: sel(r, (("f", k),), 64)
    if nm == "Range":
        a, b = f(0), f(1)
        return a, b, And(Not(lt(b, a, False)), Not(lt(n, b, False)))
    if nm == "RangeFrom":
        a = f(0)
        return a, n, Not(lt(n, a, False))
    if nm == "RangeTo":
        b = f(0)
        return Z, b, Not(lt(n, b, False))
    if nm == "RangeFull":
        return Z, n, TRUE
    if nm == "RangeInclusive" and isit(r):
        a, b = r.args[1], add(r.args[2], c64(1))
        return a, b, And(Not(lt(b, a, False)), Not(lt(n, b, False)))
    if nm == "RangeToInclusive":
        b = add(f(0), c64(1))
        return Z, b, Not(lt(n, b, False))
    return None


def chunk_access(e, st, name, args, atys):
    """the contract stated by the debug assertions of ImageChunkMut::get_unchecked(_mut):
    inside the buffer, inside the channel, and in the block's own zone (or, for reads, where nobody writes)"""
    v, ty = args[0], atys[0]
    while ty[2][0] == "ref":
        v = e.rd(st, e.deref(v, ty), None)
        ty = ty[2]
    adt = e.prog.adts.get(ty[2][1]) if ty[2][0] == "adt" else None
    if adt is None:
        raise Unsupported("chunk layout")
    pl = e.deref(v, ty)
    names = [x["n"] for x in adt["v"][0]["f"]]

    def f(n, *more):
        if n not in names:
            raise Unsupported("chunk field " + n)
        k = e.prog.fidx(ty[2][1], 0, names.index(n))
        p = (("f", k),) + tuple(("f", x) for x in more)
        return e.rd(st, [(c, r, q + p, None) for c, r, q, _ in pl], 64)
    y, x = args[1], args[2]
    x0, x1, y0, y1, step = f("x_range", 0), f("x_range", 1), f("y_range", 0), f("y_range", 1), f("step")
    start, size, width, ln = f("channel_start"), f("channel_size"), f("image_width"), f("data_len")
    idx = add(start, add(T.mul(y, width), x))
    own = And(And(Not(lt(x, x0, False)), lt(x, x1, False)), And(Not(lt(y, y0, False)), lt(y, y1, False)))
    xs = ite(T.eq(T.binop("and", y, step), Z), T.scale(step, 2), step)
    wr = Or(And(T.eq(y, y0), T.eq(x, x0)),
            And(T.eq(T.binop("urem", y, step), Z), T.eq(T.binop("urem", add(x, sub(xs, step)), xs), Z)))
    zone = And(own, wr) if name.endswith("_mut") else Or(own, Not(wr))
    c = conj(conj(lt(idx, ln, False), lt(idx, add(start, size), False)), zone)
    e.inrange(st, c, False)


def index(e, st, v, vty, i, ity, unchecked=False):
    """element or sub-slice reference"""
    s, ety = strip(e, st, v, vty)
    if s is None:
        return None
    s = srefof(e, s)
    if ity[0] == "int":
        if e.track:
            e.inrange(st, lt(i, slen(e, s), False), not unchecked)
        return elem_ref(s, i)
    if ity[0] == "adt":
        n = slen(e, s)
        b = range_bounds(e, st, i, ity, n)
        if b is None:
            return None
        lo, hi, ok = b
        if unchecked:
            e.inrange(st, ok, False)
        else:
            panic_unless(e, st, ok)
        return sub_slice(s, lo, sub(hi, lo))
    return None


def fty_of(atys, i):
    return atys[i] if i < len(atys) else None


def closure_ret(e, fty):
    """result type of a function value type (best effort)"""
    t = fty
    while t is not None and t[0] == "ref":
        t = t[2]
    if t is None:
        return None
    if t[0] == "closure":
        b = e.prog.bodies.get(t[1])
        if b is not None:
            env = dict(t[3]) if len(t) > 3 else {}
            return e.rty(b.ltys[0], env)
    if t[0] == "fndef":
        b = e.prog.bodies.get(t[1])
        if b is not None:
            return b.ltys[0]
    return None


def closure_arg(e, fty, k=0):
    t = fty
    while t is not None and t[0] == "ref":
        t = t[2]
    if t is None:
        return None
    if t[0] == "closure":
        b = e.prog.bodies.get(t[1])
        if b is not None and len(b.ltys) > 2 + k:
            return e.rty(b.ltys[2 + k], dict(t[3]) if len(t) > 3 else {})
    if t[0] == "fndef":
        b = e.prog.bodies.get(t[1])
        if b is not None and len(b.ltys) > 1 + k:
            return b.ltys[1 + k]
    return None


def apply(e, st, f, fty, xs, dty=None):
    return callmut(e, st, f, fty, xs, [closure_arg(e, fty, k) for k in range(len(xs))], dty or closure_ret(e, fty), TRUE)[0]


ITER_TRAITS = ("std::iter::Iterator", "rayon::iter::ParallelIterator", "std::iter::DoubleEndedIterator",
               "rayon::iter::IndexedParallelIterator", "std::iter::ExactSizeIterator")


def call1(e, st, decl, res, trait, ga, args, atys, dty):
    nm = decl.rsplit("::", 1)
    m = nm[-1]
    own = nm[0] if len(nm) > 1 else ""
    a0 = args[0] if args else None
    t0 = atys[0] if atys else None

    # ---- iterators
    if own in ITER_TRAITS or trait in ITER_TRAITS:
        r = iter_method(e, st, m, args, atys, dty, own.startswith("rayon"), ga)
        return r
    if own == "rayon::iter::ParallelBridge" or decl in ("rayon::iter::IntoParallelIterator::into_par_iter",):
        i = mkiter(e, st, a0, t0)
        return None if i is None else it("par", i)
    if decl == "std::iter::IntoIterator::into_iter":
        if isit(a0) and kind(a0) != "rincl":
            return a0
        if t0[0] == "adt" and (t0[1].endswith("::Range") or e.impl("std::iter::Iterator", t0, "next")):
            return a0
        return mkiter(e, st, a0, t0)
    if decl in ("std::iter::zip", "core::iter::zip"):
        i, j = mkiter(e, st, a0, t0), mkiter(e, st, args[1], atys[1])
        return None if i is None or j is None else it("zip", i, j)
    if decl in ("std::iter::once", "core::iter::once"):
        return it("once", a0, FALSE)
    if decl in ("std::iter::repeat", "core::iter::repeat"):
        return it("repeat", a0)
    if decl == "std::slice::from_ref" or decl == "core::slice::from_ref":
        return None

    # ---- slices
    if own in ("core::slice::<impl [T]>", "std::slice::<impl [T]>", "alloc::slice::<impl [T]>"):
        r = slice_method(e, st, m, args, atys, dty)
        return r
    if decl in ("core::slice::<impl [u8]>::to_vec",):
        return None
    if decl in ("std::slice::from_raw_parts_mut", "std::slice::from_raw_parts", "core::slice::from_raw_parts", "core::slice::from_raw_parts_mut"):
        def f(x):
            if x.op == "ref":
                r, p = x.args
            else:
                r, p = e.opq(x, True)
            if p and p[-1][0] == "i":
                return mk("sref", (r, p[:-1], p[-1][1], args[1]), None)
            raise Unsupported("raw parts")
        return lift(f, a0, force=True)
    if own.endswith("::<impl *mut T>") or own.endswith("::<impl *const T>"):
        if m in ("add", "offset", "wrapping_add"):
            return e.ptradd(a0, args[1])
        if m in ("sub",):
            return e.ptradd(a0, neg(args[1]))
        if m in ("read",):
            return e.rd(st, e.deref(a0, t0), width(t0[2]))
        if m in ("write",):
            e.wr(st, e.deref(a0, t0), args[1])
            return UNIT
        if m in ("cast", "cast_const", "cast_mut"):
            return a0
        return None
    if decl in ("std::ops::Index::index", "std::ops::IndexMut::index_mut"):
        return index(e, st, a0, t0, args[1], atys[1])
    if decl in ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut",
                "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut",
                "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice"):
        s, _ = strip(e, st, a0, t0)
        return s
    # ---- Vec
    if own == "std::vec::Vec" or own == "alloc::vec::Vec":
        return vec_method(e, st, m, args, atys, dty)
    if decl == "std::boxed::Box::new_uninit":
        return tup(mk("ref", (e.tmproot(UNINIT, st), ()), None))
    if decl in ("std::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::box_assume_init_into_vec_unsafe"):
        c = e.rd(st, [(TRUE, a0.args[1].args[0], (("f", 1), ("f", 0)), None)], None) if a0.op == "agg" and a0.args[1].op == "ref" else None
        if c is None or c.op != "agg" or c.args[0] != "array":
            return None
        r = e.tmproot(mk("fill", (UNINIT,), None), st)
        for i, x in enumerate(c.args[1:]):
            e.wr(st, [(TRUE, r, (("i", c64(i)),), None)], x)
        return tup(e.content(st, r), c64(len(c.args) - 1))
    if decl in ("std::vec::from_elem", "alloc::vec::from_elem"):
        e.allocs.append((args[1], e.where))
        return tup(mk("fill", (a0,), None), args[1])
    if decl == "std::default::Default::default":
        if dty[0] == "adt" and dty[1] == "std::vec::Vec":
            return tup(mk("fill", (UNINIT,), None), Z)
        if dty[0] == "int":
            return C(dty[1], 0)
        if dty[0] == "bool":
            return FALSE
        if dty[0] == "adt" and dty[1] == OPT:
            return NONE
        if dty[0] == "ref" and dty[2][0] == "slice":
            return mk("sref", (("T", "empty"), (), Z, Z), None)
        if dty[0] == "array" and dty[1][0] == "int":
            return mk("fill", (C(dty[1][1], 0),), None)
        return None
    # ---- mem
    if decl in ("std::mem::size_of", "core::mem::size_of"):
        t = ga[0]
        if t[0] == "int":
            return c64(t[1] // 8)
        if t[0] == "bool":
            return c64(1)
        return None
    if decl in ("std::mem::swap", "core::mem::swap"):
        p, q = e.deref(a0, t0), e.deref(args[1], atys[1])
        w = width(t0[2])
        x, y = e.rd(st, p, w), e.rd(st, q, w)
        e.wr(st, p, y)
        e.wr(st, q, x)
        return UNIT
    if decl in ("std::mem::replace", "core::mem::replace"):
        p = e.deref(a0, t0)
        x = e.rd(st, p, width(t0[2]))
        e.wr(st, p, args[1])
        return x
    if decl in ("std::mem::take", "core::mem::take"):
        p = e.deref(a0, t0)
        x = e.rd(st, p, width(t0[2]))
        d = call1(e, st, "std::default::Default::default", "", None, (), [], [], t0[2])
        if d is None:
            return None
        e.wr(st, p, d)
        return x
    if decl in ("std::mem::drop", "core::mem::drop", "std::mem::forget"):
        return UNIT
    if decl in ("std::hint::must_use", "core::hint::must_use", "std::hint::black_box", "std::convert::identity"):
        return a0
    # ---- clone / convert / compare
    if decl == "std::clone::Clone::clone":
        return e.rd(st, e.deref(a0, t0), width(t0[2]))
    if decl in ("std::borrow::ToOwned::to_owned",):
        if dty[0] == "adt" and dty[1] == "std::string::String":
            return STR
        if t0[2][0] == "slice":
            s = srefof(e, a0)
            return vec_of(e, st, s)
        return e.rd(st, e.deref(a0, t0), width(t0[2]))
    if decl in ("std::convert::Into::into", "std::convert::From::from"):
        return convert(e, st, a0, t0, dty, m)
    if decl in ("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into"):
        if t0[0] == "int" and dty[0] == "adt" and dty[1] == RES and dty[2][0] == "int":
            d = dty[2]
            v = T.cast(a0, d[1], t0[2])
            W = max(d[1], t0[1]) * 2
            ok = T.eq(T.cast(v, W, d[2]), T.cast(a0, W, t0[2]))
            return e.merge(ok, Ok(v), Err(mk("tryfrom", (), None)))
        return None
    if own in ("std::cmp::PartialEq", "std::cmp::PartialOrd", "std::cmp::Ord", "std::cmp::Eq"):
        return compare(e, st, m, args, atys, dty)
    if own in ("std::cmp", "core::cmp") and m in ("min", "max"):
        return compare(e, st, m, args, atys, dty)
    if decl == "std::ops::Not::not":
        v, t = deref_all(e, st, a0, t0)
        return Not(v) if t[0] == "bool" else (sub(C(v.ty, -1), v) if t[0] == "int" else None)
    if own.startswith("std::ops::") and m in ARITH:
        return arith(e, st, m, args, atys, dty)
    # ---- Option / Result
    if own == "std::option::Option":
        return option_method(e, st, m, args, atys, dty)
    if own == "std::result::Result":
        return result_method(e, st, m, args, atys, dty)
    if decl == "std::ops::Try::branch":
        if t0[0] == "adt" and t0[1] in (RES, OPT):
            gi = 0 if t0[1] == RES else 1
            ok = variant(e, a0, t0[1], gi)
            good = agg(("v", CF, 0), e.con(payload(e, a0, gi, t0[2] if len(t0) > 2 else None), ok))
            bad = agg(("v", CF, 1), e.con(Err(payload(e, a0, 1)), Not(ok)) if t0[1] == RES else NONE)
            return e.merge(ok, good, bad)
        return None
    if decl == "std::ops::FromResidual::from_residual":
        if dty[0] == "adt" and dty[1] == RES:
            src = res_ty(t0, 1)
            er = payload(e, a0, 1)
            return Err(convert_err(e, st, er, src, res_ty(dty, 1)))
        if dty[0] == "adt" and dty[1] == OPT:
            return NONE
        return None
    if decl == "std::ops::Try::from_output":
        return Ok(a0) if dty[1] == RES else Some(a0)
    # ---- closures
    if decl in ("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once"):
        f, ft = a0, t0
        while ft[0] == "ref" and ft[2][0] == "ref":
            f = e.rd(st, e.deref(f, ft), None)
            ft = ft[2]
        n = len(atys[1]) - 1 if atys[1][0] == "tuple" else len(args[1].args) - 1
        xs = [sel(args[1], (("f", i),), width(atys[1][1 + i]) if atys[1][0] == "tuple" else None) for i in range(n)]
        xt = list(atys[1][1:]) if atys[1][0] == "tuple" else [None] * n
        if ft[0] == "ref" and ft[2][0] == "closure":
            return e.callclosure_ref(st, f, ft[2], xs)
        if ft[0] == "closure":
            return e.callclosure(st, f, ft, xs)
        return e.callval(st, f, ft, xs, xt, dty)
    # ---- numbers
    if own.startswith("core::num::<impl ") or own.startswith("std::num::<impl "):
        ty = own[own.index("<impl ") + 6:-1]
        if ty in INT:
            return int_method(e, st, m, args, atys, dty, *INT[ty])
    if decl == "num_traits::WrappingMul::wrapping_mul" or decl == "num_traits::ops::wrapping::WrappingMul::wrapping_mul":
        x, t = deref_all(e, st, a0, t0)
        y, _ = deref_all(e, st, args[1], atys[1])
        if t[0] == "int":
            return mul(x, y)
        return None
    if decl in ("num_traits::NumCast::from", "num_traits::cast::NumCast::from"):
        d = opt_ty(dty)
        if d is not None and d[0] == "int" and t0[0] == "int":
            return numcast(e, a0, t0, d)
        return e.uf(st, "num_traits::NumCast::from", [a0], atys, dty)
    if decl in ("num_traits::ToPrimitive::to_u8", "num_traits::cast::ToPrimitive::to_u8"):
        v, t = deref_all(e, st, a0, t0)
        if t[0] == "int":
            return numcast(e, v, t, ("int", 8, False))
        b = e.impl("num_traits::ToPrimitive", t, "to_u64") or e.impl("_num_traits::ToPrimitive", t, "to_u64")
        if b is not None:
            o = e.run_fn(b, [a0], st, {})
            c = variant(e, o, OPT, 1)
            return branch(e, st, c, lambda s: numcast(e, e.con(payload(e, o, 1, ("int", 64, False)), c), ("int", 64, False), ("int", 8, False)), const(NONE))
        return None
    if decl.startswith("num_traits::") and m.startswith("to_") and m[3:] in INT:
        v, t = deref_all(e, st, a0, t0)
        if t[0] == "int":
            return numcast(e, v, t, ("int",) + INT[m[3:]])
        b = e.impl("num_traits::ToPrimitive", t, "to_u64")
        if b is not None:
            o = e.run_fn(b, [a0], st, {})
            c = variant(e, o, OPT, 1)
            return branch(e, st, c, lambda s: numcast(e, e.con(payload(e, o, 1, ("int", 64, False)), c), ("int", 64, False), ("int",) + INT[m[3:]]), const(NONE))
        return None
    if decl.startswith("num_traits::") and m.startswith("from_") and m[5:] in INT and t0 is not None and t0[0] == "int":
        d = opt_ty(dty)
        b = e.impl("num_traits::FromPrimitive", d, "from_u64") if d is not None else None
        if b is not None:
            return e.run_fn(b, [T.cast(a0, 64, t0[2])], st, {})
        return None
    # ---- strings and formatting
    if dty is not None and dty[0] == "adt" and (dty[1] in ("std::string::String", "std::fmt::Arguments") or dty[1].startswith("core::fmt") or dty[1].startswith("std::fmt::")):
        return STR
    if own in ("std::string::ToString", "std::fmt", "alloc::fmt") and dty[0] == "adt" and dty[1] == "std::string::String":
        return STR
    if decl.endswith("fmt::format"):
        return STR
    # ---- byte streams
    if own in ("byteorder::ReadBytesExt", "byteorder::io::ReadBytesExt"):
        n = {"read_u8": 1, "read_i8": 1, "read_u16": 2, "read_i16": 2, "read_u24": 3, "read_u32": 4, "read_i32": 4, "read_u64": 8}.get(m)
        if n is None:
            return None
        big = any("BigEndian" in str(g) for g in ga)
        w = res_ty(dty, 0)[1]
        ok, bs = read_bytes(e, st, a0, t0, n)
        return e.merge(ok, Ok(from_bytes(bs, w, big)), Err(IOERR))
    if own in ("byteorder::WriteBytesExt", "byteorder::io::WriteBytesExt"):
        n = {"write_u8": 1, "write_i8": 1, "write_u16": 2, "write_i16": 2, "write_u24": 3, "write_u32": 4, "write_i32": 4, "write_u64": 8}.get(m)
        if n is None:
            return None
        big = any("BigEndian" in str(g) for g in ga)
        if m == "write_u24":
            panic_unless(e, st, lt(args[1], C(32, 1 << 24), False))
        ok = write_bytes(e, st, a0, t0, le_bytes(args[1], n, big))
        return e.merge(ok, Ok(UNIT), Err(IOERR))
    if decl in ("std::io::Write::write_all",):
        s = srefof(e, args[1])
        n = slen(e, s)
        if isc(n) and n.args[0] <= 16:
            bs = [e.rd(st, e.deref(elem_ref(s, c64(i)), None), 8) for i in range(n.args[0])]
            ok = write_bytes(e, st, a0, t0, bs)
            return e.merge(ok, Ok(UNIT), Err(IOERR))
        return None
    if decl in ("std::io::Read::read_exact",):
        s = srefof(e, args[1])
        n = slen(e, s)
        if isc(n) and n.args[0] <= 16:
            ok, bs = read_bytes(e, st, a0, t0, n.args[0])
            for i, b in enumerate(bs):
                q = e.deref(elem_ref(s, c64(i)), None)
                e.wr(st, q, ite(ok, b, e.rd(st, q, 8)))
            return e.merge(ok, Ok(UNIT), Err(IOERR))
        return None
    if own in ("byteorder::ByteOrder",):
        big = "BigEndian" in str(ga)
        n = {"read_u16": 2, "read_u32": 4, "read_u64": 8}.get(m)
        if n:
            s = srefof(e, a0)
            panic_unless(e, st, Not(lt(slen(e, s), c64(n), False)))
            bs = [e.rd(st, e.deref(elem_ref(s, c64(i)), None), 8) for i in range(n)]
            return from_bytes(bs, 8 * n, big)
        n = {"write_u16": 2, "write_u32": 4, "write_u64": 8}.get(m)
        if n:
            s = srefof(e, a0)
            panic_unless(e, st, Not(lt(slen(e, s), c64(n), False)))
            for i, b in enumerate(le_bytes(args[1], n, big)):
                e.wr(st, e.deref(elem_ref(s, c64(i)), None), b)
            return UNIT
        return None
    if decl in ("std::io::Read::by_ref", "std::io::Write::by_ref"):
        return a0
    if decl.startswith("std::io::Error::") or (dty is not None and dty[0] == "adt" and dty[1] == "std::io::Error"):
        return IOERR
    if decl.startswith("core::panicking::") or decl.startswith("std::rt::begin_panic") or decl.startswith("std::panicking"):
        raise Diverges(decl)
    if own == "core::bool::<impl bool>" and m in ("then", "then_some"):
        if m == "then_some":
            return e.merge(a0, Some(args[1]), NONE)
        return branch(e, st, a0, lambda s: Some(apply(e, s, args[1], atys[1], [])), const(NONE))
    return None


ARITH = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr", "neg": "Neg"}
for _k in list(ARITH):
    ARITH[_k + "_assign"] = ARITH[_k]


def arith(e, st, m, args, atys, dty):
    if m.endswith("_assign"):
        x, t = deref_all(e, st, args[0], atys[0])
        y, _ = deref_all(e, st, args[1], atys[1])
        if t[0] != "int":
            return None
        e.wr(st, e.deref(args[0], atys[0]), e.binary(ARITH[m], x, y, t, t))
        return UNIT
    x, t = deref_all(e, st, args[0], atys[0])
    if t[0] not in ("int", "bool"):
        return None
    if m == "neg":
        return neg(x)
    y, _ = deref_all(e, st, args[1], atys[1])
    return e.binary(ARITH[m], x, y, t, t)


def numcast(e, v, sty, dty):
    r = T.cast(v, dty[1], sty[2])
    W = max(dty[1], sty[1]) * 2
    ok = T.eq(T.cast(r, W, dty[2]), T.cast(v, W, sty[2]))
    return e.merge(ok, Some(r), NONE)


def convert(e, st, v, sty, dty, m):
    if sty == dty:
        return v
    if sty[0] == "int" and dty[0] == "int":
        return T.cast(v, dty[1], sty[2])
    if sty[0] == "bool" and dty[0] == "int":
        return ite(v, C(dty[1], 1), C(dty[1], 0))
    if dty[0] == "adt" and dty[1] in ("std::string::String", "std::io::Error") or dty[0] == "other":
        return STR if dty[1] != "std::io::Error" else IOERR
    if dty[0] == "adt":
        b = e.impl("std::convert::From", dty, "from")
        if b is not None:
            return e.run_fn(b, [v], st, {})
        if dty[1] == OPT:
            return Some(v)
    w = width(dty)
    e.vocab.add("convert::into")
    return e.ufval("convert::into", ("ret",), (e.snap(st, v),), dty)


def convert_err(e, st, er, src, dst):
    if src == dst or dst is None:
        return er
    if dst[0] == "adt":
        cands = [b for n, b in e.prog.bodies.items() if n.startswith("<%s as std::convert::From" % dst[1]) and n.endswith("::from")]
        for b in cands:
            if len(b.ltys) > 1 and (b.ltys[1] == src or len(cands) == 1):
                return e.run_fn(b, [er], st, {})
    e.vocab.add("convert::err")
    return mk("uf", ("convert::err", (str(dst[1]),), (e.snap(st, er),)), None)


def compare(e, st, m, args, atys, dty):
    if m in ("min", "max") and atys[0][0] != "ref":
        t = atys[0]
        if t[0] != "int":
            return None
        return minmax(args[0], args[1], t[2], m == "max")
    if m == "clamp" and atys[0][0] == "int":
        sg = atys[0][2]
        x, lo, hi = args
        panic_unless(e, st, Not(lt(hi, lo, sg)))
        return ite(lt(x, lo, sg), lo, ite(lt(hi, x, sg), hi, x))
    x, tx = deref_all(e, st, args[0], atys[0])
    y, ty = deref_all(e, st, args[1], atys[1]) if len(args) > 1 else (None, None)
    if m in ("eq", "ne"):
        if tx[0] == "param" or (tx[0] == "adt" and tx[1] == "std::vec::Vec") or tx[0] == "slice":
            x, y = e.snap(st, x), e.snap(st, y)
            e.vocab.add("eq")
            r = truth(mk("cmpeq", tuple(sorted((x, y), key=structhash)), "bool"))
        else:
            b = e.impl("std::cmp::PartialEq", tx, "eq") if tx[0] == "adt" else None
            ad = e.prog.adts.get(tx[1]) if tx[0] == "adt" else None
            if b is not None and not (ad and ad["enum"] and all(not v["f"] for v in ad["v"])):
                r1, r2 = e.tmproot(x, st), e.tmproot(y, st)
                r = e.run_fn(b, [mk("ref", (r1, ()), None), mk("ref", (r2, ()), None)], st, {})
            else:
                r = eqvals(e, st, x, y, tx)
        return r if m == "eq" else Not(r)
    if m in ("lt", "le", "gt", "ge"):
        c = cmpvals(e, st, x, y, tx)
        if c is None:
            if tx[0] == "param":
                l = lambda p, q: gop("Lt", p, q)
                return {"lt": lambda: l(x, y), "gt": lambda: l(y, x), "le": lambda: gop("Le", x, y), "ge": lambda: gop("Le", y, x)}[m]()
            return None
        l, q = c
        return {"lt": l, "le": Or(l, q), "gt": And(Not(l), Not(q)), "ge": Not(l)}[m]
    if m in ("cmp", "partial_cmp"):
        c = cmpvals(e, st, x, y, tx)
        if c is None:
            return None
        l, q = c
        o = lambda i: agg(("v", ORD, i))
        r = e.merge(l, o(0), e.merge(q, o(1), o(2)))
        return r if m == "cmp" else Some(r)
    return None


def vec_of(e, st, s):
    """owned copy of a slice"""
    def f(x):
        cont = sel(e.content(st, x.args[0]), x.args[1], None)
        if x.args[2] is Z:
            return tup(cont, x.args[3])
        lev = 1 + finlev(cont)
        b = mk("bv", (lev, "K"), 64)
        return tup(mk("comp", (lev, sel(cont, (("i", add(x.args[2], b)),), None)), None), x.args[3])
    if s.op == "sref":
        return f(s)
    raise Unsupported("copy of a conditional slice")


def vec_method(e, st, m, args, atys, dty):
    a0 = args[0] if args else None
    if m == "with_capacity":
        e.allocs.append((args[0], e.where))
    if m in ("new", "with_capacity"):
        return tup(mk("fill", (UNINIT,), None), Z)
    t0 = atys[0]
    if t0[0] != "ref":
        return None
    pl = e.deref(a0, t0)
    pf = lambda k: [(c, r, p + (("f", k),), s) for c, r, p, s in pl]
    n = e.rd(st, pf(1), 64)
    ety = t0[2][2] if t0[2][0] == "adt" and len(t0[2]) > 2 else None
    if m == "len":
        return n
    if m == "is_empty":
        return T.eq(n, Z)
    if m == "push":
        e.wr(st, [(c, r, p + (("f", 0), ("i", n)), s) for c, r, p, s in pl], args[1])
        e.wr(st, pf(1), add(n, c64(1)))
        return UNIT
    if m == "pop":
        k = sub(n, c64(1))
        x = e.rd(st, [(c, r, p + (("f", 0), ("i", k)), s) for c, r, p, s in pl], width(ety))
        z = T.eq(n, Z)
        e.wr(st, pf(1), ite(z, Z, k))
        return e.merge(z, NONE, Some(x))
    if m == "clear":
        e.wr(st, pf(1), Z)
        return UNIT
    if m in ("reserve", "reserve_exact", "resize"):
        e.allocs.append((args[1], e.where))
    if m in ("reserve", "shrink_to_fit", "reserve_exact"):
        return UNIT
    if m == "capacity":
        return None
    if m == "truncate":
        e.wr(st, pf(1), umin(n, args[1]))
        return UNIT
    if m in ("as_slice", "as_mut_slice"):
        return vecslice(e, st, a0)
    if m == "resize" and True:
        cont = e.rd(st, pf(0), None)
        k = args[1]
        nw = mk("rng", (cont, n, satsub(k, n), mk("fill", (args[2],), None), width(ety)), None)
        e.wr(st, pf(0), nw)
        e.wr(st, pf(1), k)
        return UNIT
    if m in ("extend_from_slice",):
        s = srefof(e, args[1])
        if s.op != "sref":
            return None
        cont = e.rd(st, pf(0), None)
        src = vec_of(e, st, s)
        if n is Z and cont.op == "fill":
            e.wr(st, pf(0), src.args[1])
        else:
            e.wr(st, pf(0), mk("rng", (cont, n, s.args[3], src.args[1], width(ety)), None))
        e.wr(st, pf(1), add(n, s.args[3]))
        return UNIT
    return slice_method(e, st, m, [vecslice(e, st, a0)] + list(args[1:]), [("ref", True, ("slice", ety))] + list(atys[1:]), dty)


def slice_method(e, st, m, args, atys, dty):
    v = args[0]
    t0 = atys[0]
    s, ety = strip(e, st, v, t0)
    if s is None:
        return None
    if m == "len":
        return slen(e, s)
    if m == "is_empty":
        return T.eq(slen(e, s), Z)
    s = srefof(e, s)
    n = slen(e, s)
    if m in ("iter", "iter_mut"):
        return it("slice", s, Z, n)
    if m in ("get_unchecked", "get_unchecked_mut"):
        return index(e, st, v, t0, args[1], atys[1], True)
    if m in ("get", "get_mut"):
        if atys[1][0] == "int":
            c = lt(args[1], n, False)
            return e.merge(c, Some(elem_ref(s, e.con(args[1], c))), NONE)
        b = range_bounds(e, st, args[1], atys[1], n)
        if b is None:
            return None
        return e.merge(b[2], Some(sub_slice(s, b[0], sub(b[1], b[0]))), NONE)
    if m in ("first", "first_mut"):
        return e.merge(T.eq(n, Z), NONE, Some(elem_ref(s, Z)))
    if m in ("last", "last_mut"):
        return e.merge(T.eq(n, Z), NONE, Some(elem_ref(s, sub(n, c64(1)))))
    if m in ("split_at", "split_at_mut"):
        k = args[1]
        panic_unless(e, st, Not(lt(n, k, False)))
        return tup(sub_slice(s, Z, k), sub_slice(s, k, sub(n, k)))
    if m in ("split_at_checked", "split_at_mut_checked"):
        k = args[1]
        return e.merge(lt(n, k, False), NONE, Some(tup(sub_slice(s, Z, k), sub_slice(s, k, sub(n, k)))))
    if m in ("split_first", "split_first_mut"):
        return e.merge(T.eq(n, Z), NONE, Some(tup(elem_ref(s, Z), sub_slice(s, c64(1), sub(n, c64(1))))))
    if m in ("split_last", "split_last_mut"):
        k = sub(n, c64(1))
        return e.merge(T.eq(n, Z), NONE, Some(tup(elem_ref(s, k), sub_slice(s, Z, k))))
    if m in ("chunks", "chunks_mut"):
        panic_unless(e, st, Not(T.eq(args[1], Z)))
        return it("chunks", s, args[1], Z)
    if m in ("chunks_exact", "chunks_exact_mut"):
        panic_unless(e, st, Not(T.eq(args[1], Z)))
        return it("chunksx", s, args[1], Z, sub(n, binop("urem", n, args[1])))
    if m == "windows":
        return it("windows", s, args[1], Z)
    if m == "contains" and ety is not None and ety[0] in ("int", "bool"):
        y = e.rd(st, e.deref(args[1], atys[1]), width(ety))

        def sink(s2, x):
            return T.eq(e.rd(s2, e.deref(x, ("ref", False, ety)), width(ety)), y)
        b, _ = drive(e, st, it("slice", s, Z, n), sink)
        return b
    if m in ("as_mut_ptr", "as_ptr"):
        return elem_ref(s, Z)
    if m == "swap":
        p, q = e.deref(elem_ref(s, args[1]), None), e.deref(elem_ref(s, args[2]), None)
        w = width(ety)
        x, y = e.rd(st, p, w), e.rd(st, q, w)
        e.wr(st, p, y)
        e.wr(st, q, x)
        return UNIT
    if m == "fill":
        def sink(s2, x):
            e.wr(s2, e.deref(x, None), args[1])
        drive(e, st, it("slice", s, Z, n), sink)
        return UNIT
    if m == "copy_within" and s.op == "sref":
        b = range_bounds(e, st, args[1], atys[1], n)
        if b is None:
            return None
        lo, hi, ok = b
        ln = sub(hi, lo)
        panic_unless(e, st, And(ok, Not(lt(sub(n, ln), args[2], False))))
        cont = sel(e.content(st, s.args[0]), s.args[1], None)
        lev = 1 + finlev(cont)
        bv = mk("bv", (lev, "K"), 64)
        srcc = mk("comp", (lev, sel(cont, (("i", add(add(s.args[2], lo), bv)),), width(ety))), None)
        e.wr(st, [(TRUE, s.args[0], s.args[1], None)], mk("rng", (cont, add(s.args[2], args[2]), ln, srcc, width(ety)), None))
        return UNIT
    if m in ("copy_from_slice", "clone_from_slice") and s.op == "sref":
        src = srefof(e, args[1])
        if src.op != "sref":
            return None
        panic_unless(e, st, T.eq(n, slen(e, src)))
        srcc = sel(e.content(st, src.args[0]), src.args[1], None)
        lev = 1 + finlev(srcc)
        bv = mk("bv", (lev, "K"), 64)
        val = mk("comp", (lev, sel(srcc, (("i", add(src.args[2], bv)),), width(ety))), None)
        cont = sel(e.content(st, s.args[0]), s.args[1], None)
        e.wr(st, [(TRUE, s.args[0], s.args[1], None)], mk("rng", (cont, s.args[2], n, val, width(ety)), None))
        return UNIT
    if m in ("to_vec", "into_vec"):
        return vec_of(e, st, s)
    return None


def option_method(e, st, m, args, atys, dty):
    v = args[0]
    t0 = atys[0]
    if t0[0] == "ref":
        inner = e.rd(st, e.deref(v, t0), None)
        some = variant(e, inner, OPT, 1)
        if m == "is_some":
            return some
        if m == "is_none":
            return Not(some)
        if m in ("as_ref", "as_mut"):
            pl = e.deref(v, t0)
            if len(pl) == 1:
                return e.merge(some, Some(mk("ref", (pl[0][1], pl[0][2] + (("vf", 1, 0),)), None)), NONE)
        if m == "take":
            e.wr(st, e.deref(v, t0), NONE)
            return inner
        return None
    pt = opt_ty(t0)
    some = variant(e, v, OPT, 1)
    pay = e.con(payload(e, v, 1, pt), some)
    f, ft = (args[-1], atys[-1]) if len(args) > 1 else (None, None)
    if m in ("unwrap", "expect"):
        panic_unless(e, st, some)
        return pay
    if m == "unwrap_unchecked":
        return pay
    if m == "unwrap_or":
        return e.merge(some, pay, args[1])
    if m == "unwrap_or_default":
        d = call1(e, st, "std::default::Default::default", "", None, (), [], [], dty)
        return None if d is None else e.merge(some, pay, d)
    if m == "unwrap_or_else":
        return branch(e, st, some, const(pay), lambda s: apply(e, s, f, ft, [], dty))
    if m == "map":
        return branch(e, st, some, lambda s: Some(apply(e, s, f, ft, [pay])), const(NONE))
    if m == "and_then":
        return branch(e, st, some, lambda s: apply(e, s, f, ft, [pay], dty), const(NONE))
    if m == "map_or":
        return branch(e, st, some, lambda s: apply(e, s, f, ft, [pay], dty), const(args[1]))
    if m == "map_or_else":
        return branch(e, st, some, lambda s: apply(e, s, f, ft, [pay], dty), lambda s: apply(e, s, args[1], atys[1], [], dty))
    if m in ("is_some_and",):
        return branch(e, st, some, lambda s: apply(e, s, f, ft, [pay], dty), const(FALSE))
    if m in ("is_none_or",):
        return branch(e, st, some, lambda s: apply(e, s, f, ft, [pay], dty), const(TRUE))
    if m == "ok_or":
        return e.merge(some, Ok(pay), Err(args[1]))
    if m == "ok_or_else":
        return branch(e, st, some, const(Ok(pay)), lambda s: Err(apply(e, s, f, ft, [])))
    if m == "filter":
        def g(s):
            r = e.tmproot(pay, s)
            b = apply(e, s, f, ft, [mk("ref", (r, ()), None)], ("bool",))
            s.mem.pop(r, None)
            return e.merge(b, Some(pay), NONE)
        return branch(e, st, some, g, const(NONE))
    if m == "or":
        return e.merge(some, v, args[1])
    if m == "or_else":
        return branch(e, st, some, const(v), lambda s: apply(e, s, f, ft, [], dty))
    if m == "and":
        return e.merge(some, args[1], NONE)
    if m in ("copied", "cloned") and pt is not None and pt[0] == "ref":
        return e.merge(some, Some(e.rd(st, e.deref(pay, pt), width(pt[2]))), NONE)
    if m == "is_some":
        return some
    if m == "is_none":
        return Not(some)
    if m in ("into_iter",):
        return it("opt", v)
    return None


def result_method(e, st, m, args, atys, dty):
    v = args[0]
    t0 = atys[0]
    if t0[0] == "ref":
        inner = e.rd(st, e.deref(v, t0), None)
        ok = variant(e, inner, RES, 0)
        if m == "is_ok":
            return ok
        if m == "is_err":
            return Not(ok)
        if m in ("as_ref", "as_mut"):
            pl = e.deref(v, t0)
            if len(pl) == 1:
                return e.merge(ok, Ok(mk("ref", (pl[0][1], pl[0][2] + (("vf", 0, 0),)), None)), Err(mk("ref", (pl[0][1], pl[0][2] + (("vf", 1, 0),)), None)))
        return None
    ok = variant(e, v, RES, 0)
    pay = e.con(payload(e, v, 0, res_ty(t0, 0)), ok)
    if res_ty(t0, 0) == ("tuple",):
        pay = UNIT
    er = e.con(payload(e, v, 1, res_ty(t0, 1)), Not(ok))
    f, ft = (args[-1], atys[-1]) if len(args) > 1 else (None, None)
    if m in ("unwrap", "expect"):
        panic_unless(e, st, ok)
        return pay
    if m in ("unwrap_err", "expect_err"):
        panic_unless(e, st, Not(ok))
        return er
    if m == "unwrap_or":
        return e.merge(ok, pay, args[1])
    if m == "unwrap_or_default":
        d = call1(e, st, "std::default::Default::default", "", None, (), [], [], dty)
        return None if d is None else e.merge(ok, pay, d)
    if m == "unwrap_or_else":
        return branch(e, st, ok, const(pay), lambda s: apply(e, s, f, ft, [er], dty))
    if m == "map":
        return branch(e, st, ok, lambda s: Ok(apply(e, s, f, ft, [pay])), const(Err(er)))
    if m == "map_err":
        return branch(e, st, ok, const(Ok(pay)), lambda s: Err(callerr(e, s, f, ft, er, t0, dty)))
    if m == "map_or":
        return branch(e, st, ok, lambda s: apply(e, s, f, ft, [pay], dty), const(args[1]))
    if m == "map_or_else":
        return branch(e, st, ok, lambda s: apply(e, s, f, ft, [pay], dty), lambda s: apply(e, s, args[1], atys[1], [er], dty))
    if m == "and_then":
        return branch(e, st, ok, lambda s: apply(e, s, f, ft, [pay], dty), const(Err(er)))
    if m == "and":
        return e.merge(ok, args[1], Err(er))
    if m == "or":
        return e.merge(ok, v, args[1])
    if m == "or_else":
        return branch(e, st, ok, const(Ok(pay)), lambda s: apply(e, s, f, ft, [er], dty))
    if m == "ok":
        return e.merge(ok, Some(pay), NONE)
    if m == "err":
        return e.merge(ok, NONE, Some(er))
    if m == "is_ok":
        return ok
    if m == "is_err":
        return Not(ok)
    return None


def callerr(e, st, f, ft, er, t0, dty):
    """apply an error mapping: closure or tuple constructor"""
    if f.op == "fnv" and ft is not None and ft[0] == "fndef" or (f.op == "fnv"):
        raw = f.args[0] if f.op == "fnv" else ft[1]
        r = ctor(e, raw, [er])
        if r is not None:
            return r
    return apply(e, st, f, ft, [er], res_ty(dty, 1))


def ctor(e, path, args):
    """tuple constructor used as a function"""
    adt, _, v = path.rpartition("::")
    a = e.prog.adts.get(adt)
    if a and a["enum"]:
        for i, x in enumerate(a["v"]):
            if x["n"] == v:
                return agg(("v", adt, i), *args)
    if path in (OPT + "::Some", "core::option::Option::Some"):
        return Some(args[0])
    if path in (RES + "::Ok", "core::result::Result::Ok"):
        return Ok(args[0])
    if path in (RES + "::Err", "core::result::Result::Err"):
        return Err(args[0])
    a = e.prog.adts.get(path)
    if a and not a["enum"]:
        return tup(*args)
    return None


def int_method(e, st, m, args, atys, dty, w, sg):
    x = args[0]
    y = args[1] if len(args) > 1 else None
    if m in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul"):
        return {"add": add, "sub": sub, "mul": mul}[m.split("_")[1]](x, y)
    if m in ("wrapping_add_signed", "wrapping_add_unsigned"):
        return add(x, y)
    if m == "wrapping_neg":
        return neg(x)
    if m in ("wrapping_div", "wrapping_rem", "rem_euclid", "div_euclid"):
        panic_unless(e, st, Not(T.eq(y, C(w, 0))))
        if m.endswith("euclid") and sg:
            return None
        return binop(("s" if sg else "u") + ("div" if "div" in m else "rem"), x, y)
    if m in ("wrapping_shl", "wrapping_shr"):
        y = T.cast(y, w, False)
        return binop("shl" if m.endswith("shl") else ("ashr" if sg else "lshr"), x, y)
    if m in ("wrapping_abs", "abs", "unsigned_abs"):
        return ite(lt(x, C(w, 0), True), neg(x), x)
    if m == "abs_diff" and not sg:
        return ite(lt(x, y, False), sub(y, x), sub(x, y))
    if m in ("checked_add", "checked_sub", "checked_mul"):
        k = m.split("_")[1]
        r = {"add": add, "sub": sub, "mul": mul}[k](x, y)
        return e.merge(e.overflow(k, x, y, sg), NONE, Some(r))
    if m in ("overflowing_add", "overflowing_sub", "overflowing_mul"):
        k = m.split("_")[1]
        r = {"add": add, "sub": sub, "mul": mul}[k](x, y)
        return tup(r, e.overflow(k, x, y, sg))
    if m in ("saturating_add", "saturating_sub", "saturating_mul"):
        k = m.split("_")[1]
        r = {"add": add, "sub": sub, "mul": mul}[k](x, y)
        o = e.overflow(k, x, y, sg)
        if not sg:
            return ite(o, C(w, 0) if k == "sub" else C(w, -1), r)
        mx, mn = C(w, (1 << (w - 1)) - 1), C(w, 1 << (w - 1))
        if k == "add":
            return ite(o, ite(lt(x, C(w, 0), True), mn, mx), r)
        if k == "sub":
            return ite(o, ite(lt(x, C(w, 0), True), mn, mx), r)
        return ite(o, ite(T.eq(lt(x, C(w, 0), True), lt(y, C(w, 0), True)), mx, mn), r)
    if m in ("checked_div", "checked_rem"):
        z = T.eq(y, C(w, 0))
        if sg:
            z = Or(z, And(T.eq(x, C(w, 1 << (w - 1))), T.eq(y, C(w, -1))))
        return e.merge(z, NONE, Some(binop(("s" if sg else "u") + m[8:], x, y)))
    if m in ("checked_shl", "checked_shr"):
        o = lt(y, C(y.ty, w), False)
        return e.merge(o, Some(binop("shl" if m.endswith("shl") else ("ashr" if sg else "lshr"), x, T.cast(y, w, False))), NONE)
    if m in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
        return agg("array", *le_bytes(x, w // 8, m == "to_be_bytes"))
    if m in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
        bs = [sel(x, (("i", c64(i)),), 8) for i in range(w // 8)]
        return from_bytes(bs, w, m == "from_be_bytes")
    if m in ("signum",):
        return ite(lt(x, C(w, 0), True), C(w, -1), ite(T.eq(x, C(w, 0)), C(w, 0), C(w, 1)))
    if m == "is_negative":
        return lt(x, C(w, 0), True)
    if m == "is_positive":
        return lt(C(w, 0), x, True)
    if m == "div_ceil" and not sg:
        panic_unless(e, st, Not(T.eq(y, C(w, 0))))
        q = binop("udiv", x, y)
        return ite(T.eq(binop("urem", x, y), C(w, 0)), q, add(q, C(w, 1)))
    if m == "is_multiple_of" and not sg:
        return ite(T.eq(y, C(w, 0)), T.eq(x, C(w, 0)), T.eq(binop("urem", x, y), C(w, 0)))
    if m == "is_power_of_two":
        return None
    if m == "pow":
        if isc(y) and y.args[0] < 8:
            r = C(w, 1)
            for _ in range(y.args[0]):
                r = mul(r, x)
            return r
        if isc(x) and x.args[0] == 2:
            return pow2k(T.cast(y, 64, False), w)
        return None
    if m in ("min", "max"):
        return minmax(x, y, sg, m == "max")
    if m in ("leading_zeros", "trailing_zeros", "count_ones", "leading_ones", "trailing_ones", "swap_bytes", "reverse_bits"):
        if dty[0] == "int":
            return mk("bitfn", (m, x), dty[1])
    if m in ("rotate_left", "rotate_right"):
        return None
    return None


def iter_method(e, st, m, args, atys, dty, par, ga):
    a0, t0 = args[0], atys[0]
    if m == "next":
        if t0[0] != "ref":
            return None
        return next_value(e, st, a0, t0[2])
    if m in ("by_ref",):
        return a0
    unpar = False
    if isit(a0) and kind(a0) == "par":
        par, unpar = True, True
        a0 = a0.args[1]
        i = a0
    else:
        if t0[0] == "ref" and m in ("nth", "next_back", "any", "all", "position", "size_hint", "len", "find"):
            ity = t0[2]
            pl = e.deref(a0, t0)
            cur = e.rd(st, pl, None)
            i = mkiter(e, st, cur, ity)
            if i is None:
                return None
            if m in ("nth", "next_back"):
                if m == "nth":
                    i2 = adv(e, i, args[1])
                    c, keep, x, i3, s2 = nx(e, st, i2)
                    if s2 is not st or keep is not TRUE:
                        return None
                else:
                    c, x, i3 = back(e, i, st)
                    i2 = i
                e.wr(st, pl, unit_iter(e.merge(c, i3, i2), ity, cur))
                return e.merge(c, Some(e.con(x, c)), NONE)
            if m == "len":
                return itlen(e, i)
            if m == "size_hint":
                return None
            v, i2 = consume(e, st, m, i, args, atys, dty, ity)
            e.wr(st, pl, unit_iter(i2, ity, cur))
            return v
        i = mkiter(e, st, a0, t0)
    if i is None:
        return None
    wrap = (lambda x: it("par", x)) if unpar else (lambda x: x)
    f, ft = (args[1], atys[1]) if len(args) > 1 else (None, None)
    if m == "map":
        return wrap(it(tytag("map", (ft, None, closure_arg(e, ft), closure_ret(e, ft))), i, f))
    if m == "filter":
        ety = closure_arg(e, ft)
        return wrap(it(tytag("filter", (ft, ety[2] if ety is not None and ety[0] == "ref" else None)), i, f))
    if m == "take_while":
        ety = closure_arg(e, ft)
        return it(tytag("takewhile", (ft, ety[2] if ety is not None and ety[0] == "ref" else None)), i, f)
    if m == "filter_map":
        return wrap(it(tytag("filtermap", (ft, None, closure_arg(e, ft), closure_ret(e, ft))), i, f))
    if m == "enumerate":
        return wrap(it("enum", i, Z))
    if m == "zip":
        j = mkiter(e, st, args[1], atys[1])
        if j is not None and kind(j) == "par":
            j = j.args[1]
        return None if j is None else wrap(it("zip", i, j))
    if m == "chain":
        j = mkiter(e, st, args[1], atys[1])
        return None if j is None else it("chain", i, j)
    if m == "step_by":
        panic_unless(e, st, Not(T.eq(args[1], Z)))
        return wrap(it("step", i, args[1]))
    if m == "skip":
        return wrap(adv(e, i, args[1]))
    if m == "take":
        if kind(i) in ("slice", "vec"):
            p, n = i.args[2], i.args[3]
            return wrap(it(kind(i), i.args[1], p, umin(n, add(p, args[1]))))
        return wrap(it("take", i, args[1]))
    if m == "rev":
        return wrap(it("rev", i))
    if m in ("copied", "cloned"):
        ety = elemty(e, t0) or (dty[2] if dty is not None and dty[0] == "adt" and len(dty) > 2 else None)
        t = itemty(e, t0)
        return wrap(it(tytag(m, t), i))
    if m in ("peekable", "fuse", "into_iter", "into_par_iter"):
        if m == "peekable":
            return None
        return wrap(i)
    if m == "len":
        return itlen(e, i)
    r = consume(e, st, m, i, args, atys, dty, t0, par)
    return None if r is None else r[0]


def elemty(e, t):
    return None


def itemty(e, t):
    """pointee type of the items of an iterator over references (best effort)"""
    if t is None:
        return None
    if t[0] == "adt":
        if t[1] in ("std::slice::Iter", "core::slice::Iter", "std::slice::IterMut", "core::slice::IterMut"):
            for x in t[2:]:
                if x[0] != "const":
                    return x
        for x in t[2:]:
            if x[0] == "adt":
                r = itemty(e, x)
                if r is not None:
                    return r
    return None


def consume(e, st, m, i, args, atys, dty, t0, par=False):
    f, ft = (args[1], atys[1]) if len(args) > 1 else (None, None)

    def with_closure(fn):
        """run fn(call) with the closure held in a root so that captured state survives iterations"""
        r = e.tmproot(f, st)

        def call_(s, xs, d=None):
            t = ft
            if t is not None and t[0] == "closure":
                return e.callclosure_ref(s, mk("ref", (r, ()), None), t, xs)
            return e.callval(s, e.content(s, r), t, xs, [closure_arg(e, t, k) for k in range(len(xs))], d or closure_ret(e, t))
        v = fn(call_)
        st.mem.pop(r, None)
        return v
    if m == "for_each":
        def go(call_):
            def sink(s, x):
                call_(s, [x])
            return drive(e, st, i, sink)
        b, i2 = with_closure(go)
        return UNIT, i2
    if m == "collect":
        if dty[0] == "adt" and dty[1] == "std::vec::Vec":
            return collect(e, st, i, par), None
        if dty[0] == "adt" and dty[1] in (RES, OPT) and len(dty) > 2 and dty[2][0] == "adt" and dty[2][1] == "std::vec::Vec" and not par:
            gi = 0 if dty[1] == RES else 1
            root = e.tmproot(tup(mk("fill", (UNINIT,), None), Z), st)
            er = e.tmproot(UNINIT, st)

            def sink(s, x):
                ok = variant(e, x, dty[1], gi)
                c = e.content(s, root)
                n = sel(c, (("f", 1),), 64)
                c2 = store(store(c, (("f", 0), ("i", n)), e.con(payload(e, x, gi), ok)), (("f", 1),), add(n, c64(1)))
                s.mem[root] = e.merge(ok, c2, c)
                if gi == 0:
                    s.mem[er] = e.con(payload(e, x, 1), Not(ok))
                return Not(ok)
            b, _ = drive(e, st, i, sink)
            v, x = st.mem.pop(root), st.mem.pop(er)
            if gi == 0:
                return e.merge(b, Err(x), Ok(v)), None
            return e.merge(b, NONE, Some(v)), None
        return None
    if m in ("sum", "product") and dty[0] == "int":
        acc = e.tmproot(C(dty[1], 0 if m == "sum" else 1), st)

        def sink(s, x):
            if x.op in ("ref", "sref") or x.ty is None:
                x = e.rd(s, e.deref(x, ("ref", False, dty)), dty[1])
            o = e.content(s, acc)
            s.mem[acc] = add(o, x) if m == "sum" else mul(o, x)
        _, i2 = drive(e, st, i, sink)
        return st.mem.pop(acc), i2
    if m == "count":
        acc = e.tmproot(Z, st)

        def sink(s, x):
            s.mem[acc] = add(e.content(s, acc), c64(1))
        _, i2 = drive(e, st, i, sink)
        return st.mem.pop(acc), i2
    if m in ("any", "all"):
        def go(call_):
            def sink(s, x):
                b = call_(s, [x], ("bool",))
                return b if m == "any" else Not(b)
            return drive(e, st, i, sink)
        b, i2 = with_closure(go)
        return (b if m == "any" else Not(b)), i2
    if m == "fold":
        f, ft = args[2], atys[2]
        acc = e.tmproot(args[1], st)

        def go(call_):
            def sink(s, x):
                s.mem[acc] = call_(s, [e.content(s, acc), x], dty)
            return drive(e, st, i, sink)
        _, i2 = with_closure(go)
        return st.mem.pop(acc), i2
    if m in ("try_for_each",) and dty[0] == "adt" and dty[1] == RES:
        er = e.tmproot(UNINIT, st)

        def go(call_):
            def sink(s, x):
                r = call_(s, [x], dty)
                ok = variant(e, r, RES, 0)
                s.mem[er] = e.con(payload(e, r, 1), Not(ok))
                return Not(ok)
            return drive(e, st, i, sink)
        b, i2 = with_closure(go)
        x = st.mem.pop(er)
        return e.merge(b, Err(x), Ok(UNIT)), i2
    if m in ("find", "position"):
        hold = e.tmproot(UNINIT, st)
        cnt = e.tmproot(Z, st)

        def go(call_):
            def sink(s, x):
                if m == "find":
                    s.mem[hold] = x
                    r = e.tmproot(x, s)
                    b = call_(s, [mk("ref", (r, ()), None)], ("bool",))
                    s.mem.pop(r, None)
                else:
                    b = call_(s, [x], ("bool",))
                    n = e.content(s, cnt)
                    s.mem[cnt] = ite(b, n, add(n, c64(1)))
                return b
            return drive(e, st, i, sink)
        b, i2 = with_closure(go)
        h, n = st.mem.pop(hold), st.mem.pop(cnt)
        return e.merge(b, Some(h if m == "find" else n), NONE), i2
    if m in ("max", "min") and dty[0] == "adt" and dty[1] == OPT and dty[2][0] == "int":
        w, sg = dty[2][1], dty[2][2]
        acc = e.tmproot(tup(FALSE, C(w, 0)), st)

        def sink(s, x):
            o = e.content(s, acc)
            has, v = sel(o, (("f", 0),), "bool"), sel(o, (("f", 1),), w)
            s.mem[acc] = tup(TRUE, ite(has, minmax(v, x, sg, m == "max"), x))
        _, i2 = drive(e, st, i, sink)
        o = st.mem.pop(acc)
        return e.merge(sel(o, (("f", 0),), "bool"), Some(sel(o, (("f", 1),), w)), NONE), i2
    if m == "last":
        hold = e.tmproot(tup(FALSE, UNINIT), st)

        def sink(s, x):
            s.mem[hold] = tup(TRUE, x)
        _, i2 = drive(e, st, i, sink)
        o = st.mem.pop(hold)
        return e.merge(sel(o, (("f", 0),), "bool"), Some(sel(o, (("f", 1),), None)), NONE), i2
    return None
