"""Translation of MIR bodies into the value graph: gated merges at joins, summarised loops,
inlined local calls, modelled library calls, uninterpreted analysis anchors."""
from terms import *
import terms as T
import mir as M

BACK = "@back"
P = ("P",)          # ghost: no explicit panic so far
BND = ("B",)        # ghost: every checked access so far was in range
UBF = ("U",)        # ghost: every unchecked access so far was in range
U64 = ("int", 64, False)


class State:
    __slots__ = ("g", "mem")

    def __init__(self, g, mem):
        self.g, self.mem = g, mem

    def copy(self, g=None):
        return State(self.g if g is None else g, dict(self.mem))


class Frame:
    __slots__ = ("fid", "body", "env", "cfg")


class Diverges(Exception):
    pass


def width(ty):
    if ty is None:
        return None
    if ty[0] == "int":
        return ty[1]
    if ty[0] == "bool":
        return "bool"
    return None


def c64(n):
    return C(64, n)


Z = c64(0)


def tup(*xs):
    return agg("tuple", *xs)


_retyped = {}


def retype(v, w):
    """give an opaque value read without a type the width of its use"""
    if w is None:
        return v
    if v.op == "dd":
        r = _retyped.get((v.id, w))
        if r is None:
            a, b = retype(v.args[1], w), retype(v.args[2], w)
            r = v if a is v.args[1] and b is v.args[2] else ite(atombool(v.args[0]), a, b)
            _retyped[(v.id, w)] = r
        return r
    if v.ty is not None or v.op in ("agg", "ref", "sref", "store", "fill", "comp", "fnv") or v is UNINIT:
        return v
    if v.op == "sel":
        return sel(v.args[0], v.args[1], w)
    if v.op == "fin":
        lev, tys, ini, nx, cont, val = v.args
        r = mkfin(lev, tys, ini, nx, cont, retype(val, w), w)
    else:
        r = mk(v.op, v.args, w)
    if v in origin and r not in origin:
        origin[r] = origin[v]
    return truth(r) if w == "bool" else r


def rebase(a, b):
    """an empty slice may be regarded as an empty part of any array"""
    if a.op == b.op == "sref" and a.args[:2] != b.args[:2]:
        if a.args[3] is Z:
            a = mk("sref", (b.args[0], b.args[1], Z, Z), None)
        elif b.args[3] is Z:
            b = mk("sref", (a.args[0], a.args[1], Z, Z), None)
    return a, b


def is_ptrty(ty):
    return ty is not None and ty[0] in ("ref", "ptr")


def pointee_unsized(ty):
    return is_ptrty(ty) and ty[2][0] in ("slice", "str")


_hasref = {}


def hasref(t):
    r = _hasref.get(t)
    if r is None:
        r = t.op in ("ref", "sref") or any(hasref(c) for c in subterms(t))
        _hasref[t] = r
    return r


CHUNK_ACCESS = {"processing::image::ImageChunkMut::get_unchecked", "processing::image::ImageChunkMut::get_unchecked_mut"}


def conj(a, b):
    """unordered, unsimplified conjunction (for ghosts that are only evaluated)"""
    if a is TRUE or a is b:
        return b
    if b is TRUE:
        return a
    return truth(mk("band", (a, b), "bool"))


class Origin(dict):
    """term -> (file, line, function), per analysed program"""
    def __init__(self):
        self.sides = {}
        self.cur = self.sides.setdefault("", {})

    def side(self, name):
        self.cur = self.sides.setdefault(name, {})

    def __contains__(self, t):
        return t in self.cur

    def __getitem__(self, t):
        return self.cur[t]

    def __setitem__(self, t, v):
        self.cur[t] = v

    def of(self, t, name):
        return self.sides.get(name, {}).get(t)


origin = Origin()


class Eng:
    def __init__(self, prog, anchors, vocab=None):
        self.prog = prog
        self.anchors = anchors
        self.nf = 0
        self.nt = 0
        self.stack = []
        self.vocab = set()
        self.unknown = set()
        self.stats = {"functions": set(), "calls": 0, "loops": 0, "blocks": 0, "anchors": set(), "accesses": 0}
        self.track = False
        self.allocs = []
        self.where = ("?", 0, "?")
        self.closenv = {}
        self.budget = 400000
        self.inline_anchors = set()
        self.unroll = 0

    # ------------------------------------------------------------ types
    def rty(self, ty, env):
        """resolve generic parameters"""
        k = ty[0]
        if k == "param":
            return env.get(ty[1], ty)
        if k in ("ref", "ptr"):
            return (k, ty[1], self.rty(ty[2], env))
        if k == "slice":
            return ("slice", self.rty(ty[1], env))
        if k == "array":
            return ("array", self.rty(ty[1], env), ty[2])
        if k == "tuple":
            return ("tuple",) + tuple(self.rty(x, env) for x in ty[1:])
        if k in ("adt", "fndef"):
            return (k, ty[1]) + tuple(self.rty(x, env) if isinstance(x, tuple) and x[0] != "const" else x for x in ty[2:])
        if k == "closure":
            if len(ty) == 3:
                return ("closure", ty[1], tuple(self.rty(x, env) for x in ty[2]), tuple(sorted((a, b) for a, b in env.items())))
            return ty
        return ty

    def lty(self, fr, n):
        return self.rty(fr.body.ltys[n], fr.env)

    def fieldty(self, ty, vi, k):
        """declared type of field k (dump index) of an adt/tuple/closure type, or None"""
        if ty is None:
            return None
        if ty[0] == "tuple" and k < len(ty) - 1:
            return ty[1 + k]
        if ty[0] == "closure" and k < len(ty[2]):
            return ty[2][k]
        if ty[0] == "adt":
            a = self.prog.adts.get(ty[1])
            if a and vi < len(a["v"]) and k < len(a["v"][vi]["f"]):
                f = self.prog.ty(a["v"][vi]["f"][k]["t"])
                ta = [x for x in ty[2:] if x[0] != "const"]
                ps = set()

                def params(t):
                    if isinstance(t, tuple):
                        if t and t[0] == "param":
                            ps.add(t[1])
                        for x in t:
                            params(x)
                params(f)
                if not ps:
                    return f
                if len(ta) == 1 and len(ps) == 1:
                    return self.rty(f, {ps.pop(): ta[0]})
                if f[0] == "param" and a.get("gen") and f[1] in a["gen"]:
                    return ta[a["gen"].index(f[1])]
                return None
        return None

    # ------------------------------------------------------------ memory
    def content(self, st, root):
        c = st.mem.get(root)
        if c is None:
            c = self.initial(root)
        return c

    def initial(self, root):
        if root[0] == "D":
            return mk("sym", ("*" + root[1],), None)
        if root[0] == "H":
            return mk("sym", ("*H",), None)
        if root in (P, BND, UBF):
            return TRUE
        return UNINIT

    def opq(self, v, raw=False):
        base, path = v.args if v.op == "sel" else (v, ())
        if base.op == "sym":
            nm, lead = base.args[0], []
            for e in path:
                if e[0] == "i":
                    nm += "[#]"
                    lead.append(e)
                elif e[0] == "p":
                    nm += "<#>"
                    lead.append(e)
                elif e[0] == "f":
                    nm += ".%s" % e[1]
                else:
                    nm += "." + "_".join(str(x) for x in e)
            r, p = ("D", nm), tuple(lead)
        else:
            r, p = ("H",), (("p", v),)
        if raw:
            p = p + (("i", Z),)
        return r, p

    def deref(self, v, pty):
        """[(cond, root, path, slice)]"""
        if v.op == "ref":
            return [(TRUE, v.args[0], v.args[1], None)]
        if v.op == "sref":
            return [(TRUE, v.args[0], v.args[1], (v.args[2], v.args[3]))]
        if v.op == "dd":
            out = []
            for g, l in ddleaves(v):
                if l is UNINIT or l.op == "undef":
                    continue
                for c, r, p, s in self.deref(l, pty):
                    out.append((And(g, c), r, p, s))
            return out
        if v.op == "agg" and len(v.args) == 2:
            return self.deref(v.args[1], pty)
        r, p = self.opq(v, pty is not None and pty[0] == "ptr" and not pointee_unsized(pty))
        return [(TRUE, r, p, (Z, mk("ln", (v,), 64)) if pointee_unsized(pty) else None)]

    def rd(self, st, pl, w):
        r = None
        for c, root, path, sl in pl:
            x = sel(self.content(st, root), path, w)
            if x.op == "sel" and w is None:
                pass
            r = x if r is None else ite(c, x, r)
        return UNINIT if r is None else r

    def wr(self, st, pl, v):
        for c, root, path, sl in pl:
            old = self.content(st, root)
            new = store(old, path, v)
            if new is not old and new.op == "store" and new not in origin:
                origin[new] = self.where
            st.mem[root] = new if c is TRUE or len(pl) == 1 else self.merge(c, new, old)

    def merge(self, c, a, b):
        if a is b or c is TRUE:
            return a
        if c is FALSE or a is UNINIT:
            return b
        if b is UNINIT:
            return a
        if a.op == b.op == "agg" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            return mk("agg", (a.args[0],) + tuple(self.merge(c, x, y) for x, y in zip(a.args[1:], b.args[1:])), None)
        a, b = rebase(a, b)
        if a.op == b.op and a.op in ("ref", "sref") and a.args[0] == b.args[0] and self.pcompat(a.args[1], b.args[1]):
            p = tuple(("i", self.merge(c, x[1], y[1])) if x[0] == "i" else x for x, y in zip(a.args[1], b.args[1]))
            return mk(a.op, (a.args[0], p) + tuple(self.merge(c, x, y) for x, y in zip(a.args[2:], b.args[2:])), None)
        if a.op == "store" or b.op == "store":
            if a.op == b.op and len(a.args[1]) == len(b.args[1]) and cmp_path(a.args[1], b.args[1]) is True:
                return store(self.merge(c, a.args[0], b.args[0]), a.args[1], self.merge(c, a.args[2], b.args[2]))

            def depth(t):
                n = 0
                while t.op == "store":
                    n += 1
                    t = t.args[0]
                return n
            da, db = depth(a), depth(b)
            if da >= db:
                base, p, v = a.args
                w = v.ty if v.ty is not None else None
                return store(self.merge(c, base, b), p, self.merge(c, v, sel(b, p, w)))
            base, p, v = b.args
            w = v.ty if v.ty is not None else None
            return store(self.merge(c, a, base), p, self.merge(c, sel(a, p, w), v))
        return ite(c, a, b)

    @staticmethod
    def pcompat(p, q):
        return len(p) == len(q) and all(x[0] == y[0] and (x[0] == "i" or x == y) for x, y in zip(p, q))

    def join(self, states):
        """merge states with disjoint guards"""
        r = states[0]
        if len(states) == 1:
            return r
        r = r.copy()
        for s in states[1:]:
            g = Or(r.g, s.g)
            c = constrain(r.g, g)
            if c.op == "dd" and nleaves(c) > nleaves(r.g):
                c = r.g
            mem = {}
            for k in r.mem.keys() | s.mem.keys():
                a, b = r.mem.get(k), s.mem.get(k)
                if a is None or b is None:
                    if k[0] == "L":
                        # assigned on one path only: dead afterwards or guarded
                        mem[k] = a if a is not None else b
                        continue
                    i = self.initial(k)
                    a = i if a is None else a
                    b = i if b is None else b
                mem[k] = a if a is b else self.merge(c, a, b)
            r.mem, r.g = mem, g
        return r

    def con(self, t, g):
        """leafwise generalised cofactor"""
        if g is TRUE or g is FALSE:
            return t
        if t.op == "dd":
            return constrain(t, g)
        if t.op == "agg":
            n = tuple(self.con(x, g) for x in t.args[1:])
            return t if n == t.args[1:] else mk("agg", (t.args[0],) + n, None)
        if t.op in ("ref", "sref"):
            p = tuple(("i", self.con(x[1], g)) if x[0] == "i" else x for x in t.args[1])
            return mk(t.op, (t.args[0], p) + tuple(self.con(x, g) for x in t.args[2:]), None)
        if t.op == "store":
            return store(self.con(t.args[0], g), tuple(("i", self.con(x[1], g)) if x[0] == "i" else x for x in t.args[1]), self.con(t.args[2], g))
        return t

    # ------------------------------------------------------------ places and operands
    def place(self, st, fr, p):
        n, proj, _ = p
        ty = self.lty(fr, n)
        pl = [(TRUE, ("L", fr.fid, n), (), None)]
        vi = None
        for e in proj:
            k = e[0]
            if k == "*":
                v = self.rd(st, pl, None)
                pl = self.deref(v, ty)
                ty = ty[2] if ty is not None and ty[0] in ("ref", "ptr") else (ty[2] if ty is not None and ty[0] == "adt" and len(ty) > 2 else None)
                vi = None
            elif k == "d":
                vi = e[1]
            elif k == "f":
                fi = e[1]
                if vi is not None:
                    x = ("vf", vi, self.prog.fidx(ty[1], vi, fi) if ty is not None and ty[0] == "adt" else fi)
                elif ty is not None and ty[0] == "adt":
                    x = ("f", self.prog.fidx(ty[1], 0, fi))
                else:
                    x = ("f", fi)
                pl = [(c, r, q + (x,), s) for c, r, q, s in pl]
                ty = self.rty(self.prog.ty(e[2]), fr.env)
                vi = None
            elif k in ("i", "ci"):
                out = []
                for c, r, q, s in pl:
                    if k == "i":
                        i = self.content(st, ("L", fr.fid, e[1]))
                    elif not e[3]:
                        i = c64(e[1])
                    else:
                        i = sub(s[1] if s else c64(ty[2]), c64(e[1]))
                    if s:
                        i = add(s[0], i)
                    out.append((c, r, q + (("i", i),), None))
                pl = out
                ty = ty[1] if ty is not None and ty[0] in ("slice", "array") else None
            elif k == "ss":
                out = []
                for c, r, q, s in pl:
                    if not s:
                        s = (Z, c64(ty[2]))
                    o = add(s[0], c64(e[1]))
                    l = sub(sub(s[1], c64(e[2])), c64(e[1])) if e[3] else c64(e[2] - e[1])
                    out.append((c, r, q, (o, l)))
                pl = out
            elif k == "oc":
                pass
            else:
                raise Unsupported("projection " + k)
        return pl, ty

    def load(self, st, fr, p):
        pl, ty = self.place(st, fr, p)
        ty = self.rty(self.prog.ty(p[2]), fr.env)
        w = width(ty)
        return retype(self.rd(st, pl, w), w)

    def operand(self, st, fr, o):
        if o[0] in ("cp", "mv"):
            return self.load(st, fr, o[1])
        if o[0] != "k":
            raise Unsupported("operand " + o[0])
        c = o[1]
        ty = self.rty(self.prog.ty(c["t"]), fr.env)
        return self.const(st, fr, c, ty)

    def const(self, st, fr, c, ty):
        k = c["k"]
        if k == "int":
            v = int(c["v"])
            if ty[0] == "bool":
                return TRUE if v else FALSE
            if ty[0] == "int":
                return C(ty[1], v)
            if ty[0] == "adt":
                a = self.prog.adts.get(ty[1])
                if a and a["enum"]:
                    for i, x in enumerate(a["v"]):
                        if x["d"] == v and not x["f"]:
                            return agg(("v", ty[1], i))
                if a and not a["enum"] and len(a["v"][0]["f"]) == 1:
                    return tup(self.const(st, fr, c, self.prog.ty(a["v"][0]["f"][0]["t"])))
            return mk("konst", (str(v), ty[0]), None)
        if k == "fn":
            return self.fnval(fr, c)
        if k == "promoted":
            b = fr.body.promoted[c["i"]]
            root = ("T", "prom", fr.body.name, c["i"], id(self.prog))
            fid = self.nf + 1
            s2 = State(TRUE, dict(st.mem))
            v = self.run_fn(b, [], s2, fr.env, keep=True)
            return self.static(st, s2, v, root, fid)
        if k == "named":
            b = self.prog.bodies.get(M.norm(c["p"]))
            if b is not None:
                return self.run_fn(b, [], st, fr.env)
            return mk("konst", (M.norm(c["p"]),), width(ty))
        # textual constant
        if ty[0] == "tuple" and len(ty) == 1:
            return UNIT
        s = c["s"]
        if ty[0] in ("closure", "fndef") or (ty[0] == "adt" and ty[1].endswith("PhantomData")):
            return UNIT
        if ty[0] == "ref" and ty[2][0] == "str":
            return mk("str", (), None)
        if is_ptrty(ty) and ty[2][0] == "array" and ty[2][2] == 0:
            return mk("ref", (("T", "empty"), ()), None)
        if ty[0] == "adt":
            nm = M.norm(s.split(" ")[0])
            a = self.prog.adts.get(ty[1])
            if a and a["enum"]:
                for i, x in enumerate(a["v"]):
                    if nm.endswith("::" + x["n"]) and not x["f"]:
                        return agg(("v", ty[1], i))
            if nm in self.prog.bodies:
                return self.run_fn(self.prog.bodies[nm], [], st, fr.env)
        r = mk("konst", (s, str(ty[0])), width(ty))
        return truth(r) if ty[0] == "bool" else r

    def static(self, st, s2, v, root, fid):
        """move the memory a constant's reference points to under a root of its own"""
        if v.op in ("ref", "sref") and v.args[0][0] == "L" and v.args[0][1] >= fid:
            c = self.content(s2, v.args[0])
            if c.op == "agg" and c.args[0] == "array" and len(c.args) == 1:
                r = ("T", "empty")
            else:
                r = root
                c = mk("agg", (c.args[0],) + tuple(self.static(st, s2, x, root + (j,), fid) for j, x in enumerate(c.args[1:])), None) if c.op == "agg" else c
                st.mem[r] = c
            return mk(v.op, (r,) + v.args[1:], None)
        return v

    def fnval(self, fr, c):
        a = tuple(self.rty(self.prog.ty(x), fr.env) if isinstance(x, int) else ("const", x) for x in c["a"])
        raw = c.get("res") or c["decl"]
        return mk("fnv", (M.norm(c["decl"]), M.norm(raw), raw, bool(c["local"]), c.get("trait") and M.norm(c["trait"]), a), None)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref" or k == "rawptr":
            pl, ty = self.place(st, fr, rv[2])
            raw = k == "rawptr"
            r = None
            for c, root, path, sl in pl:
                if sl is not None:
                    v = mk("sref", (root, path, sl[0], sl[1]), None)
                else:
                    v = mk("ref", (root, path), None)
                r = v if r is None else self.merge(c, v, r)
            return UNINIT if r is None else r
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return self.binary(rv[1], a, b, self.rty(self.prog.ty(rv[4]), fr.env), dty)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if width(self.rty(self.prog.ty(rv[3]), fr.env)) == "bool":
                    return Not(a)
                return sub(C(a.ty, -1), a)
            if rv[1] == "Neg":
                return neg(a)
            if rv[1] == "PtrMetadata":
                return self.lenof(a, self.rty(self.prog.ty(rv[3]), fr.env))
            raise Unsupported("unary " + rv[1])
        if k == "discr":
            pl, ty = self.place(st, fr, rv[1])
            v = self.rd(st, pl, None)
            return self.discr(v, ty, width(dty) or 64)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[2]]
            kk = rv[1][0]
            if kk == "array":
                return agg("array", *ops)
            if kk == "tuple":
                return tup(*ops)
            if kk == "closure":
                return tup(*ops)
            if kk == "adt":
                nm, vi = M.norm(rv[1][1]), rv[1][2]
                a = self.prog.adts.get(nm)
                fs = list(ops)
                m = self.prog.fieldmap.get((nm, vi))
                if m:
                    n = max([len(ops)] + [x + 1 for x in m.values()])
                    fs = [UNINIT] * n
                    for i, o in enumerate(ops):
                        fs[m[i]] = o
                if a and a["enum"]:
                    return agg(("v", nm, vi), *fs)
                if nm == "std::ops::RangeInclusive":
                    return agg("it:rincl", *fs[:2])
                return tup(*fs)
            if kk == "rawptr":
                p = ops[0]
                if p.op == "ref" and p.args[1] and p.args[1][-1][0] == "i":
                    return mk("sref", (p.args[0], p.args[1][:-1], p.args[1][-1][1], ops[1]), None)
            raise Unsupported("aggregate " + kk)
        if k == "repeat":
            return mk("fill", (self.operand(st, fr, rv[1]),), None)
        raise Unsupported("rvalue " + str(rv[:2]))

    def lenof(self, v, ty=None):
        if v.op == "sref":
            return v.args[3]
        if v.op == "dd":
            r = lift(lambda x: self.lenof(x, ty), v, force=True)
            return r
        if v is UNINIT or v.op == "undef":
            return mk("undef", (), 64)
        if v.op == "ref" and ty is not None and is_ptrty(ty) and ty[2][0] == "array":
            return c64(ty[2][2])
        return mk("ln", (v,), 64)

    def discr(self, v, ty, w):
        a = self.prog.adts.get(ty[1]) if ty is not None and ty[0] == "adt" else None
        if v.op == "dd":
            return lift(lambda x: self.discr(x, ty, w), v, force=True)
        if v.op == "agg" and isinstance(v.args[0], tuple):
            vi = v.args[0][2]
            if a:
                return C(w, a["v"][vi]["d"])
            return C(w, vi)
        if v.op == "c":
            return v
        if a and len(a["v"]) == 1:
            return C(w, a["v"][0]["d"])
        vs = tuple(x["d"] for x in a["v"]) if a else ()
        return mk("discr", (v, vs, ty[1].split("::")[-1] if ty is not None and ty[0] == "adt" else ""), w)

    def cast(self, st, fr, rv):
        v = self.operand(st, fr, rv[2])
        sty = self.rty(self.prog.ty(rv[3]), fr.env)
        dty = self.rty(self.prog.ty(rv[4]), fr.env)
        k = rv[1]
        if k == "IntToInt":
            if sty[0] == "bool":
                return ite(v, C(dty[1], 1), C(dty[1], 0))
            if sty[0] == "adt":
                d = self.discr(v, sty, 64)
                return T.cast(d, dty[1], True)
            if sty[0] == "int" and dty[0] == "int":
                return T.cast(v, dty[1], sty[2])
        if k.startswith("PointerCoercion(Unsize"):
            if is_ptrty(sty) and sty[2][0] == "array":
                def f(x):
                    if x.op == "ref":
                        return mk("sref", (x.args[0], x.args[1], Z, c64(sty[2][2])), None)
                    r, p = self.opq(x)
                    return mk("sref", (r, p, Z, c64(sty[2][2])), None)
                return lift(f, v, force=True)
            return v
        if k.startswith("PointerCoercion") or k in ("PtrToPtr", "Transmute", "Subtype") or k.startswith("PtrToPtr"):
            if k == "Transmute" and width(sty) != width(dty):
                raise Unsupported("transmute")
            return v
        if k == "FnPtrToPtr" or k == "BoxDerefTransmute" and v.op == "ref":
            return v
        raise Unsupported("cast %s %s->%s" % (k, sty[0], dty[0]))

    def binary(self, op, a, b, ty, dty):
        w = width(ty)
        sg = ty[0] == "int" and ty[2]
        if op.endswith("Unchecked"):
            op = op[:-9]
        if w == "bool":
            if op == "BitAnd":
                return And(a, b)
            if op == "BitOr":
                return Or(a, b)
            if op in ("BitXor", "Ne"):
                return Not(T.eq(a, b))
            if op == "Eq":
                return T.eq(a, b)
            if op == "Lt":
                return And(Not(a), b)
            if op == "Gt":
                return And(a, Not(b))
            if op == "Le":
                return Or(Not(a), b)
            if op == "Ge":
                return Or(a, Not(b))
            raise Unsupported("bool " + op)
        if w is None:
            if op in ("Eq", "Ne"):
                r = TRUE if a is b else truth(mk("cmpeq", tuple(sorted((a, b), key=lambda t: t.id)), "bool"))
                return r if op == "Eq" else Not(r)
            if op == "Offset":
                return self.ptradd(a, b)
            # generic parameter operands
            r = mk("gop", (op, a, b), None)
            return truth(mk("gop", (op, a, b), "bool")) if op in ("Lt", "Le", "Gt", "Ge") else r
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op == "Div":
            return binop("sdiv" if sg else "udiv", a, b)
        if op == "Rem":
            return binop("srem" if sg else "urem", a, b)
        if op == "BitAnd":
            return binop("and", a, b)
        if op == "BitOr":
            return binop("or", a, b)
        if op == "BitXor":
            return binop("xor", a, b)
        if op == "Shl":
            return binop("shl", a, b)
        if op == "Shr":
            return binop("ashr" if sg else "lshr", a, b)
        if op == "Eq":
            return T.eq(a, b)
        if op == "Ne":
            return Not(T.eq(a, b))
        if op == "Lt":
            return lt(a, b, sg)
        if op == "Gt":
            return lt(b, a, sg)
        if op == "Le":
            return Not(lt(b, a, sg))
        if op == "Ge":
            return Not(lt(a, b, sg))
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            k = op[:3]
            r = {"Add": add, "Sub": sub, "Mul": mul}[k](a, b)
            return tup(r, self.overflow(k.lower(), a, b, sg))
        if op == "Cmp":
            return mk("cmp3", (lt(a, b, sg), T.eq(a, b)), None)
        raise Unsupported("binary " + op)

    def overflow(self, k, a, b, sg):
        """condition that the exact result does not fit"""
        w = a.ty
        W = 2 * w
        x, y = T.cast(a, W, sg), T.cast(b, W, sg)
        if not sg and k == "sub":
            return lt(a, b, False)
        if not sg and k == "add":
            return lt(add(a, b), a, False)
        if not sg and k == "mul" and isc(b) and b.args[0]:
            return lt(C(w, ((1 << w) - 1) // b.args[0]), a, False)
        if not sg and k == "mul" and isc(a) and a.args[0]:
            return lt(C(w, ((1 << w) - 1) // a.args[0]), b, False)
        r = {"add": add, "sub": sub, "mul": mul}[k](x, y)
        return Not(T.eq(T.cast(trunc(r, w), W, sg), r))

    def ptradd(self, p, n):
        def f(p):
            if p.op == "ref":
                r, q = p.args
            else:
                r, q = self.opq(p, True)
            if q and q[-1][0] == "i":
                return mk("ref", (r, q[:-1] + (("i", add(q[-1][1], n)),)), None)
            raise Unsupported("pointer arithmetic")
        return lift(f, p, force=True)

    # ------------------------------------------------------------ running
    def newframe(self, body, env):
        f = Frame()
        self.nf += 1
        f.fid, f.body, f.env = self.nf, body, env
        f.cfg = M.cfg(body)
        return f

    def tmproot(self, v, st):
        self.nt += 1
        r = ("T", self.nt)
        st.mem[r] = v
        return r

    def run_fn(self, body, args, st, env, keep=False):
        """inline; mutates st; returns the value"""
        if len(self.stack) > 40:
            raise Unsupported("call depth")
        fr = self.newframe(body, env)
        if fr.cfg.irreducible:
            raise Unsupported("irreducible control flow in " + body.name)
        self.stack.append(body.name)
        self.stats["functions"].add(body.name)
        for i, a in enumerate(args):
            st.mem[("L", fr.fid, i + 1)] = retype(a, width(self.lty(fr, i + 1))) if i + 1 < len(body.ltys) else a
        g = st.g
        where = self.where
        out = self.region(fr, 0, State(TRUE, st.mem), None, None)
        self.stack.pop()
        self.where = where
        rets = out.get("ret")
        if not rets:
            raise Diverges(body.name)
        r = self.join(rets)
        v = r.mem.get(("L", fr.fid, 0), UNIT)
        if len(body.ltys) and body.ltys[0] == ("tuple",):
            v = UNIT
        st.mem = dict(r.mem) if keep else {k: c for k, c in r.mem.items() if not (k[0] == "L" and k[1] == fr.fid)}
        st.g = g
        return v

    def region(self, fr, entry, st, blocks, header):
        cfg = fr.cfg
        pend = {entry: [st]}
        out = {}

        def put(t, s):
            if t == header:
                out.setdefault(BACK, []).append(s)
            elif t == "ret":
                out.setdefault("ret", []).append(s)
            elif blocks is None or t in blocks:
                pend.setdefault(t, []).append(s)
            else:
                out.setdefault(t, []).append(s)
        for b in cfg.rpo:
            if b not in pend:
                continue
            if blocks is not None and b not in blocks:
                continue
            ss = pend.pop(b)
            s = self.join(ss)
            self.budget -= 1
            if self.budget < 0:
                raise Unsupported("analysis budget exhausted")
            if b in cfg.loops and b != header:
                for t, x in self.loop(fr, b, s).items():
                    put(t, x)
            else:
                self.stats["blocks"] += 1
                for t, x in self.block(fr, b, s.copy()):
                    put(t, x)
        return out

    def block(self, fr, b, st):
        bb = fr.body.bbs[b]
        cfg = fr.cfg
        fn = fr.body.name
        for s in bb["s"]:
            k = s[0]
            if k == "=":
                self.where = (s[3][0], s[3][1], fn)
                dty = self.rty(self.prog.ty(s[1][2]), fr.env)
                v = self.rvalue(st, fr, s[2], dty)
                if not s[1][1]:
                    st.mem[("L", fr.fid, s[1][0])] = v
                else:
                    pl, _ = self.place(st, fr, s[1])
                    self.wr(st, pl, v)
            elif k == "dead":
                st.mem.pop(("L", fr.fid, s[1]), None)
            elif k == "sd":
                pl, ty = self.place(st, fr, s[1])
                self.wr(st, pl, agg(("v", ty[1], s[2])))
            elif k == "?":
                raise Unsupported("statement")
        t = bb["t"]
        self.where = (bb["sp"][0], bb["sp"][1], fn)
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "ret":
            # keep only the return slot of this frame
            return [("ret", st)]
        if k == "assert":
            if t[3] in ("divzero", "overflow"):
                c = self.operand(st, fr, t[1])
                c = c if t[2] else Not(c)
                st.mem[P] = And(self.content(st, P), c)
            elif t[3] == "bounds" and self.track:
                c = self.operand(st, fr, t[1])
                self.inrange(st, c if t[2] else Not(c), True)
            return [(t[5], st)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            ty = self.rty(self.prog.ty(t[2]), fr.env)
            conds = []
            rest = TRUE
            for val, tgt in t[3]:
                if ty[0] == "bool":
                    c = v if int(val) else Not(v)
                else:
                    c = T.eq(v, C(v.ty, int(val)))
                conds.append((tgt, And(rest, c)))
                rest = And(rest, Not(c))
            conds.append((t[4], rest))
            by = {}
            for tgt, c in conds:
                by[tgt] = Or(by.get(tgt, FALSE), c)
            live = [(x, c) for x, c in by.items() if x in cfg.canret]
            dead = [(x, c) for x, c in by.items() if x not in cfg.canret and c is not FALSE]
            if not live:
                return []
            for x, c in dead:
                if self.panics(cfg, x):
                    st.mem[P] = And(self.content(st, P), Not(c))
            if dead:
                o = FALSE
                for x, c in live[:-1]:
                    o = Or(o, c)
                live[-1] = (live[-1][0], Not(o))
            out = []
            for x, c in live:
                g = And(st.g, c)
                if g is not FALSE:
                    out.append((x, st.copy(g)))
            return out
        if k == "call":
            if t[4] < 0 or t[4] not in cfg.canret:
                return []
            f = self.operand(st, fr, t[1])
            args = [self.operand(st, fr, a) for a in t[2]]
            atys = [self.opty(fr, a) for a in t[2]]
            dty = self.rty(self.prog.ty(t[3][2]), fr.env)
            self.stats["calls"] += 1
            v = self.call(st, f, args, atys, dty)
            self.where = (bb["sp"][0], bb["sp"][1], fn)
            pl, _ = self.place(st, fr, t[3])
            self.wr(st, pl, v)
            return [(t[4], st)]
        if k in ("unreachable", "resume", "abort"):
            return []
        raise Unsupported("terminator " + k)

    def opty(self, fr, o):
        if o[0] in ("cp", "mv"):
            return self.rty(self.prog.ty(o[1][2]), fr.env)
        return self.rty(self.prog.ty(o[1]["t"]), fr.env)

    def panics(self, cfg, b):
        seen, work = {b}, [b]
        while work:
            x = work.pop()
            t = cfg.body.bbs[x]["t"]
            if t[0] == "call":
                return True
            for y in cfg.succ[x]:
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return False

    # ------------------------------------------------------------ loops
    def loop(self, fr, head, st):
        cfg = fr.cfg
        blocks = cfg.loops[head]
        live = cfg.livein[head] | cfg.addr
        st = State(st.g, {k: v for k, v in st.mem.items() if not (k[0] == "L" and k[1] == fr.fid and k[2] not in live)})
        where = (fr.body.bbs[head]["sp"][0], fr.body.bbs[head]["sp"][1], fr.body.name)

        def body(s):
            outs = self.region(fr, head, s, blocks, head)
            r = {k: self.join(v) for k, v in outs.items()}
            if BACK in r:
                b = r[BACK]
                b.mem = {k: v for k, v in b.mem.items() if not (k[0] == "L" and k[1] == fr.fid and k[2] not in live)}
            return r
        return self.summarize(st, body, where)

    _uid = [0]

    def fresh(self, like):
        Eng._uid[0] += 1
        ty = like.ty
        t = mk("tmp", ("t%d" % Eng._uid[0],), ty)
        return truth(t) if ty == "bool" else t

    def widen(self, h, b, mine):
        if h is b:
            return h
        if h in mine:
            return h
        if h is UNINIT:
            return UNINIT      # not initialised before the loop: dead at the head
        if b is UNINIT:
            return h
        if h.op == b.op == "agg" and h.args[0] == b.args[0] and len(h.args) == len(b.args):
            return mk("agg", (h.args[0],) + tuple(self.widen(x, y, mine) for x, y in zip(h.args[1:], b.args[1:])), None)
        h, b = rebase(h, b)
        if h.op == b.op and h.op in ("ref", "sref") and h.args[0] == b.args[0] and self.pcompat(h.args[1], b.args[1]):
            p = tuple(("i", self.widen(x[1], y[1], mine)) if x[0] == "i" else x for x, y in zip(h.args[1], b.args[1]))
            return mk(h.op, (h.args[0], p) + tuple(self.widen(x, y, mine) for x, y in zip(h.args[2:], b.args[2:])), None)
        if b.op == "store" or h.op == "store":
            cells = self.cells(h, b)
            if cells is not None:
                r = h
                for c, w in cells:
                    x, y = sel(h, c, w), sel(b, c, w)
                    if x.ty is None and y.ty is not None:
                        x = sel(h, c, y.ty)
                    r = store(r, c, self.widen(x, y, mine))
                return r
        t = self.fresh(h if h.ty is not None else b)
        mine[t] = True
        return t

    def cells(self, h, b):
        """index-free cells in which store chains h and b (over one base) differ"""
        def chain(t):
            out = []
            while t.op == "store":
                out.append((t.args[1], t.args[2]))
                t = t.args[0]
            return t, out
        bh, ch = chain(h)
        bb, cb = chain(b)
        if bh is not bb:
            return None
        cells = {}
        for p, v in ch + cb:
            q = []
            full = True
            for e in p:
                if e[0] == "i":
                    full = False
                    break
                q.append(e)
            if not q:
                return None
            cells.setdefault(tuple(q), v.ty if full else None)
        ks = sorted(cells, key=lambda p: (len(p), pathkey(p)))
        out = []
        for k in ks:
            if any(k[:len(o)] == o for o, _ in out):
                continue
            out.append((k, cells[k]))
        return out

    def pairs(self, h, i, b, mine, out):
        """(phi, init, next) by walking head/init/back contents in parallel"""
        if h in mine:
            out[h] = (i, b)
            return
        if h is i and h is b:
            return
        if h.op == "agg" and i.op == "agg" and b.op == "agg" and len(h.args) == len(i.args) == len(b.args):
            for x, y, z in zip(h.args[1:], i.args[1:], b.args[1:]):
                self.pairs(x, y, z, mine, out)
            return
        if h.op in ("ref", "sref") and i.op == b.op == h.op:
            i, b = rebase(h, i)[1], rebase(h, b)[1]
            for x, y, z in zip(h.args[1], i.args[1], b.args[1]):
                if x[0] == "i":
                    self.pairs(x[1], y[1], z[1], mine, out)
            for x, y, z in zip(h.args[2:], i.args[2:], b.args[2:]):
                self.pairs(x, y, z, mine, out)
            return
        if h.op == "store":
            t = h
            while t.op == "store":
                p, v = t.args[1], t.args[2]
                if not all(e[0] != "i" for e in p):
                    t = t.args[0]
                    continue
                self.pairs(v, sel(i, p, v.ty), sel(b, p, v.ty), mine, out)
                t = t.args[0]
            return

    def summarize(self, st, body, where):
        self.stats["loops"] += 1
        head = dict(st.mem)
        mine = {}
        base = None
        for rnd in range(30):
            s = State(TRUE, dict(head))
            outs = body(s)
            back = outs.get(BACK)
            if back is None:
                for k, x in outs.items():
                    x.g = And(st.g, x.g)
                return outs
            ch = False
            for r in list(back.mem):
                if r not in head:
                    if r[0] in ("D", "H", "P", "B", "U") or (r[0] == "T" and r[1] == "prom"):
                        head[r] = self.initial(r) if r[0] != "T" else back.mem[r]
                        st.mem.setdefault(r, head[r])
                    else:
                        continue
                h, b = head[r], back.mem[r]
                if h is b:
                    continue
                n = self.widen(h, b, mine)
                if n is not h:
                    head[r] = n
                    ch = True
            if not ch:
                break
        else:
            raise Unsupported("loop does not stabilise")
        phis = {}
        for r in head:
            if r in back.mem:
                self.pairs(head[r], st.mem.get(r, self.initial(r)), back.mem[r], mine, phis)
        gb = back.g
        # booleans are represented by their atom's temporary
        tmps = {}
        for h, (i, n) in phis.items():
            t = h.args[0].args[0] if h.op == "dd" else h
            tmps[t] = (i, self.con(n, gb))
        exits = {k: x for k, x in outs.items() if k != BACK}
        return self.finish(st, tmps, gb, exits, where)

    def finish(self, st, tmps, gb, exits, where):
        Eng._uid[0] += 1
        K = mk("tmp", ("K%d" % Eng._uid[0],), 64)
        keys = sorted(exits, key=str)
        # values that leave the loop
        stop = FALSE
        for k in keys:
            stop = Or(stop, exits[k].g)
        cont = Not(stop) if keys else TRUE
        vals = []
        for k in keys:
            x = exits[k]
            for r, c in x.mem.items():
                old = st.mem.get(r)
                if c is old:
                    continue
                vals.append((k, r, self.con(c, x.g)))
        gs = [exits[k].g for k in keys]
        # closed forms
        phis = dict(tmps)
        nxt = {t: n for t, (i, n) in phis.items()}
        init = {t: i for t, (i, n) in phis.items()}
        closed = {}
        progress = True
        while progress:
            progress = False
            for t in list(nxt):
                n = nxt[t]
                unsolved = nxt.keys() | {K}
                cf = self.closed(t, init[t], n, K, unsolved, cont)
                if cf is None:
                    continue
                S = Subst({t: cf})
                del nxt[t]
                nxt = {a: self.sub(S, b) for a, b in nxt.items()}
                cont = S(cont) if t in freevars(cont) else cont
                gs = [S(g) for g in gs]
                vals = [(k, r, self.sub(S, v)) for k, r, v in vals]
                progress = True
            if not progress:
                # merge congruent phis
                cls = {}
                for t in nxt:
                    cls[t] = (init[t], t.ty)
                while True:
                    rep = {}
                    for t in nxt:
                        rep.setdefault(cls[t], t)
                    m = {t: rep[cls[t]] for t in nxt if rep[cls[t]] is not t}
                    S = Subst(m)
                    new = {t: (cls[t], self.sub(S, nxt[t])) for t in nxt}
                    if len(set(new.values())) == len(set(cls.values())):
                        break
                    ids = {}
                    cls = {t: ids.setdefault(new[t], len(ids)) for t in nxt}
                if m:
                    nxt = {a: self.sub(S, b) for a, b in nxt.items() if a not in m}
                    cont = S(cont)
                    gs = [S(g) for g in gs]
                    vals = [(k, r, self.sub(S, v)) for k, r, v in vals]
                    progress = True
        # canonical order
        col = {t: T._h("%s|%r" % (structhash(init[t]) if not freevars(init[t]) else self.fvh(init[t]), t.ty)) for t in nxt}
        col[K] = T._h("K")
        foreign = {}
        for n in nxt.values():
            for x in freevars(n):
                if x not in col:
                    foreign[x] = T._h("outer%r" % (x.ty,))
        if len(nxt) > 1:
            for _ in range(min(len(nxt), 8)):
                H = ColourHash({**foreign, **col})
                col2 = {t: T._h("%s,%s" % (col[t], H(nxt[t]))) for t in nxt}
                col2[K] = col[K]
                col = col2
        order = sorted(nxt, key=lambda t: col[t])
        memo = {}

        def wrap(v):
            r = memo.get(v)
            if r is None:
                r = memo[v] = wrap1(v)
            return r
        loopvars = set(order) | {K}

        def scal(v):
            need = set()
            work = list((freevars(v) | freevars(cont)) & loopvars)
            while work:
                t = work.pop()
                if t in need:
                    continue
                need.add(t)
                if t is not K:
                    work.extend((freevars(nxt[t]) & loopvars) - need)
            ph = [t for t in order if t in need]
            lev = 1 + max([finlev(nxt[t]) for t in ph] + [finlev(cont), finlev(v)])
            m = {t: mk("bv", (lev, i), t.ty) for i, t in enumerate(ph)}
            m[K] = mk("bv", (lev, "K"), 64)
            S = Subst(m)
            f = mkfin(lev, tuple(t.ty for t in ph), tuple(init[t] for t in ph), tuple(self.sub(S, nxt[t]) for t in ph), self.sub(S, cont), self.sub(S, v), v.ty)
            if f not in origin:
                origin[f] = where
            return truth(f) if v.ty == "bool" else f

        def wrap1(v):
            if not (freevars(v) & loopvars):
                return v
            if v.op == "agg":
                return mk("agg", (v.args[0],) + tuple(wrap(x) for x in v.args[1:]), None)
            if v.op in ("ref", "sref"):
                p = tuple(("i", wrap(x[1])) if x[0] == "i" else x for x in v.args[1])
                return mk(v.op, (v.args[0], p) + tuple(wrap(x) for x in v.args[2:]), None)
            if v.op == "store" and not any(isinstance(y, Term) and freevars(y) & loopvars for e in v.args[1] for y in e):
                return store(wrap(v.args[0]), v.args[1], wrap(v.args[2]))
            if v.op == "dd" and v.ty is None:
                leaves = ddleaves(v)
                if any(l.op in ("agg", "ref", "sref", "store") or l is UNINIT for _, l in leaves):
                    a, hi, lo = v.args
                    return self.merge(wrap(atombool(a)), wrap(hi), wrap(lo))
            return scal(v)
        res = {}
        rest = TRUE
        horder = sorted(range(len(keys)), key=lambda i: ColourHash(dict(col))(gs[i]))
        for j, i in enumerate(horder):
            k = keys[i]
            if j == len(horder) - 1:
                g = rest
            else:
                g = And(rest, wrap(gs[i]))
                rest = And(rest, Not(g))
            res[k] = State(And(st.g, g), {r: c for r, c in exits[k].mem.items()})
        for k, r, v in vals:
            res[k].mem[r] = wrap(v)
        return {k: x for k, x in res.items() if x.g is not FALSE}

    def fvh(self, t):
        """hash of a term with foreign temporaries (outer loops): by name of shape only"""
        return ColourHash({x: T._h("outer%r" % (x.ty,)) for x in freevars(t)})(t)

    def sub(self, S, v):
        if not (freevars(v) & S.keys):
            return v
        return S(v)

    def closed(self, t, i, n, K, unsolved, cont):
        if n is t:
            return i
        if t.ty == "bool":
            if n.op == "dd" and n.args[0].op == "tb" and n.args[0].args[0] is t and n.args[1] is TRUE and n.args[2] is FALSE:
                return i
            if n is i and n in (TRUE, FALSE):
                return i
            return None
        if isinstance(t.ty, int):
            if n.op == "c" and i is n:
                return i
            if t not in freevars(n):
                return None
            kk = trunc(K, t.ty) if t.ty < 64 else K
            if t.ty > 64:
                return None
            d = sub(n, t)
            if not (freevars(d) & unsolved):
                return add(i, mul(d, kk))
            if n.op == "poly" and n.args[0] == 0 and len(n.args[1]) == 1 and n.args[1][0][1] == (t,):
                c = n.args[1][0][0]
                if c & (c - 1) == 0:
                    return mul(i, pow2k(scale(K, c.bit_length() - 1), t.ty))
            if n.op == "udiv" and n.args[0] is t and isc(n.args[1]):
                c = n.args[1].args[0]
                if c > 1 and c & (c - 1) == 0:
                    return binop("udiv", i, pow2k(scale(K, c.bit_length() - 1), t.ty))
            return None
        # content built by pushing: element k is v(k)
        if n.op == "store" and n.args[0] is t and i.op == "fill" and i.args[0] is UNINIT and len(n.args[1]) == 1 and n.args[1][0][0] == "i" and n.args[1][0][1] is K:
            v = n.args[2]
            if not (freevars(v) & (unsolved - {K})) and t not in freevars(cont):
                lev = 1 + finlev(v)
                b = mk("bv", (lev, "K"), 64)
                return mk("comp", (lev, Subst({K: b})(v)), None)
        return None

    # ------------------------------------------------------------ snapshots and uninterpreted calls
    def snap(self, st, v, depth=0, ety=None):
        """replace pointers by what they point to"""
        if depth > 8:
            return mk("deep", (), None)
        if not hasref(v):
            x = self.opqextra(st, v)
            return mk("snap", (v, x), None) if x else v
        memo = {}

        def f(t):
            if not hasref(t):
                return t
            r = memo.get(t)
            if r is None:
                if t.op == "ref":
                    root, path = t.args
                    if root[0] == "T" and root[1] == "empty":
                        r = mk("snaps", (UNINIT, Z, Z, (), width(ety)), None)
                    elif path and path[-1][0] == "i":
                        # raw pointer into an array: whole array and position
                        c = sel(self.content(st, root), path[:-1], None)
                        r = mk("snapp", (self.snap(st, c, depth + 1), path[-1][1], self.extras(st, root, depth)), None)
                    else:
                        c = sel(self.content(st, root), path, None)
                        r = mk("snap", (self.snap(st, c, depth + 1), self.extras(st, root, depth)), None)
                elif t.op == "sref":
                    root, path, off, ln = t.args
                    c = sel(self.content(st, root), path, None)
                    r = mk("snaps", (self.snap(st, c, depth + 1), off, ln, self.extras(st, root, depth), width(ety)), None)
                else:
                    r = rebuild(t, f)
                memo[t] = r
            return r
        return f(v)

    def extras(self, st, root, depth):
        if root[0] != "D":
            return ()
        out = []
        for r, c in st.mem.items():
            if r[0] == "D" and r[1].startswith("*" + root[1]) and c is not self.initial(r):
                out.append((r[1], self.snap(st, c, depth + 1)))
        return tuple(sorted(out, key=lambda x: x[0]))

    def opqextra(self, st, v):
        """modified memory behind an opaque pointer value"""
        base = v.args[0] if v.op == "sel" else v
        out = []
        if base.op == "sym":
            r0, _ = self.opq(v)
            for r, c in st.mem.items():
                if r[0] == "D" and (r[1] == r0[1] or r[1].startswith("*" + r0[1])) and c is not self.initial(r):
                    out.append((r[1], c))
        elif v.op in ("uf", "sel", "fin", "bv", "tmp") and ("H",) in st.mem and v.ty is None:
            out.append(("H", st.mem[("H",)]))
        return tuple(sorted(out, key=lambda x: x[0]))

    def uf(self, st, name, args, atys, dty, effects=True):
        self.vocab.add(name)
        sn = tuple(self.snap(st, a, 0, ty[2][1] if ty is not None and is_ptrty(ty) and ty[2][0] in ("slice", "array") else None) for a, ty in zip(args, list(atys) + [None] * len(args)))
        if effects:
            pre = dict(st.mem)
            for i, (a, ty) in enumerate(zip(args, atys)):
                self.havoc_arg(st, a, ty, name, sn, (i,))
        return self.ufval(name, ("ret",), sn, dty)

    def ufval(self, name, key, sn, ty):
        if ty == ("tuple",) or (ty is not None and ty[0] == "never"):
            return UNIT
        if ty is not None and ty[0] == "tuple":
            return tup(*[self.ufval(name, key + (i,), sn, x) for i, x in enumerate(ty[1:])])
        if ty is not None and ty[0] == "adt" and ty[1] in ("std::result::Result", "std::option::Option") and len(ty) > 2:
            import models
            c = truth(mk("uf", (name, key + ("ok",), sn), "bool"))
            if c.args[0].args[0] not in origin:
                origin[c.args[0].args[0]] = self.where
            if ty[1].endswith("Option"):
                return self.merge(c, models.Some(self.ufval(name, key + ("some",), sn, ty[2])), models.NONE)
            er = models.IOERR if ty[3] == ("adt", "std::io::Error") else self.ufval(name, key + ("err",), sn, ty[3])
            return self.merge(c, models.Ok(self.ufval(name, key + ("val",), sn, ty[2])), models.Err(er))
        w = width(ty)
        r = mk("uf", (name, key, sn), w)
        if r not in origin:
            origin[r] = self.where
        return truth(r) if w == "bool" else r

    def havoc_arg(self, st, v, ty, name, sn, key):
        if ty is None or ty[0] in ("int", "bool", "str", "float", "never", "fndef", "fnptr"):
            return
        if ty[0] == "ref" and not ty[1]:
            return
        if ty[0] == "param" or ty[0] == "other":
            if v.op in ("ref", "sref"):
                self.havoc_ptr(st, v, None, name, sn, key)
            return
        if ty[0] in ("ref", "ptr"):
            if ty[0] == "ptr" and not ty[1]:
                return
            self.havoc_ptr(st, v, ty, name, sn, key)
            return
        if v.op == "agg":
            vi = v.args[0][2] if isinstance(v.args[0], tuple) else 0
            for j, x in enumerate(v.args[1:]):
                if hasref(x) or x.op == "agg" or is_ptrty(self.fieldty(ty, vi, j)):
                    self.havoc_arg(st, x, self.fieldty(ty, vi, j) or (("param", "?") if hasref(x) else None), name, sn, key + (j,))
            return
        if v.op == "dd":
            return
        # opaque aggregate by value: pointers inside it may be written through
        if ty[0] == "adt" and self.mutable_inside(ty):
            h = ("H",)
            st.mem[h] = mk("uf", (name, ("H",) + key, sn), None)

    def mutable_inside(self, ty, depth=0):
        if ty is None or depth > 4:
            return False
        if ty[0] in ("ref", "ptr"):
            return ty[1]
        if ty[0] == "adt":
            a = self.prog.adts.get(ty[1])
            if a:
                return any(self.mutable_inside(self.prog.ty(f["t"]), depth + 1) for v in a["v"] for f in v["f"]) and a.get("local", False)
        return False

    def havoc_ptr(self, st, v, ty, name, sn, key):
        pty = ty[2] if ty else None
        for c, root, path, sl in self.deref(v, ty):
            if root[0] == "T" and root[1] == "empty":
                continue
            cont = self.content(st, root)
            if sl is not None:
                self.havoc_slice(st, root, path, sl[0], sl[1], pty[1] if pty and pty[0] == "slice" else None, name, sn, key)
                continue
            if ty is not None and ty[0] == "ptr" and path and path[-1][0] == "i":
                old = sel(cont, path[:-1], None)
                new = mk("uf", (name, ("upd",) + key, sn), None)
                self.wr(st, [(c, root, path[:-1], None)], new)
                continue
            old = sel(cont, path, width(pty))
            new = self.hv(st, old, pty, name, sn, key)
            self.wr(st, [(c, root, path, None)], new)

    def havoc_slice(self, st, root, path, off, ln, ety, name, sn, key):
        cont = sel(self.content(st, root), path, None)
        u = mk("uf", (name, ("upd",) + key, sn), None)
        if u not in origin:
            origin[u] = self.where
        if ety is not None and ety[0] == "ref" and ety[1]:
            # rows behind a slice of references
            if cont.op == "comp" and cont.args[1].op == "sref":
                lev, e = cont.args
                r3, p3, o3, l3 = e.args
                if off is Z:
                    old = sel(self.content(st, r3), p3, None)
                    self.wr(st, [(TRUE, r3, p3, None)], mk("scat", (old, lev, o3, l3, ln, u), None))
                    return
            b0 = cont.args[0] if cont.op == "sel" else cont
            if b0.op == "sym":
                v0 = sel(cont, (("i", off),), None)
                r2, lead = self.opq(v0)
                old = self.content(st, r2)
                if len(lead) == 1:
                    st.mem[r2] = mk("rng", (old, off, ln, u, None), None)
                else:
                    inner = sel(old, lead[:-1], None)
                    st.mem[r2] = store(old, lead[:-1], mk("rng", (inner, off, ln, u, None), None))
                return
            raise Unsupported("call writes through computed references")
        self.wr(st, [(TRUE, root, path, None)], mk("rng", (cont, off, ln, u, width(ety)), None))

    def hv(self, st, old, ty, name, sn, key):
        """new value of a location reachable through &mut"""
        if old.op == "sref":
            # a reader or writer over a slice: the slice shrinks from the front
            n = mk("uf", (name, ("adv",) + key, sn), 64)
            n = binop("urem", n, add(old.args[3], c64(1)))
            if not (ty is not None and ty[0] == "ref" and not ty[1]):
                self.havoc_slice(st, old.args[0], old.args[1], old.args[2], old.args[3], ty[2][1] if ty is not None and pointee_unsized(ty) and ty[2][0] == "slice" else None, name, sn, key + ("s",))
            return mk("sref", (old.args[0], old.args[1], add(old.args[2], n), sub(old.args[3], n)), None)
        if old.op == "ref":
            if not (ty is not None and ty[0] == "ref" and not ty[1]):
                self.havoc_ptr(st, old, ty, name, sn, key + ("p",))
            return old
        if old.op == "agg" and not isinstance(old.args[0], tuple) and not (ty is not None and ty[0] == "adt" and ty[1] == "std::vec::Vec"):
            return mk("agg", (old.args[0],) + tuple(self.hv(st, x, self.fieldty(ty, 0, j), name, sn, key + (j,)) for j, x in enumerate(old.args[1:])), None)
        w = width(ty) or old.ty
        r = mk("uf", (name, ("upd",) + key, sn), w)
        if r not in origin:
            origin[r] = self.where
        if ty is not None and ty[0] == "adt" and ty[1] == "std::vec::Vec":
            return tup(r, mk("uf", (name, ("len",) + key, sn), 64))
        return truth(r) if w == "bool" else r

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, atys, dty):
        if f.op == "dd":
            raise Unsupported("conditional callee")
        if f.op != "fnv":
            return self.callval(st, f, None, args, atys, dty)
        decl, res, raw, local, trait, ga = f.args
        return self.callfn(st, f, args, atys, dty)

    def recurse(self, nm):
        """inline a recursive call (bounded unrolling, used where the two sides recurse and loop respectively)?"""
        return self.unroll and nm in self.stack and (nm == self.stack[0] or nm not in self.anchors)

    def callfn(self, st, f, args, atys, dty):
        decl, res, raw, local, trait, ga = f.args
        # anchored trait methods, whatever the receiver
        if decl in self.anchors and decl not in self.inline_anchors:
            self.stats["anchors"].add(decl)
            return self.uf(st, decl, args, atys, dty)
        body = None
        if local and not decl.startswith("std::ops::Fn"):
            body = self.prog.byraw.get(raw) or self.prog.bodies.get(res)
            if body is None and trait and ga:
                body = self.impl(trait, ga[0], decl)
        elif trait and ga:
            body = self.impl(trait, ga[0], decl)
        if body is not None:
            if self.recurse(body.name):
                if self.stack.count(body.name) > self.unroll:
                    return self.uf(st, "!cut", args, atys, dty)
            elif body.name in self.anchors and body.name not in self.inline_anchors or body.name in self.stack:
                nm = body.name
                self.note_anchor(nm)
                return self.uf(st, nm, args, atys, dty)
            import models
            r = models.override(self, st, body.name, args, atys, dty)
            if r is None and body.name.endswith("Iterator>::next"):
                r = models.override_next(self, st, args, atys)
            if r is not None:
                return r
            if self.track and body.name in CHUNK_ACCESS:
                models.chunk_access(self, st, body.name, args, atys)
            env = self.genv(body, ga)
            return self.run_fn(body, args, st, env)
        import models
        r = models.call(self, st, decl, res, trait, ga, args, atys, dty)
        if r is not None:
            return r
        nm = "?" + res
        self.unknown.add(nm)
        return self.uf(st, nm, args, atys, dty)

    def inrange(self, st, c, checked):
        """record that an access needs c (bounds-tracking mode)"""
        if not self.track or c is TRUE:
            return
        if checked:
            st.mem[BND] = conj(self.content(st, BND), c)
        else:
            live = conj(self.content(st, P), self.content(st, BND))
            st.mem[UBF] = conj(self.content(st, UBF), truth(mk("bimp", (live, c), "bool")))
        self.stats["accesses"] += 1

    def note_anchor(self, nm):
        if nm in self.anchors:
            self.stats["anchors"].add(nm)
        else:
            self.unknown.add("recursion " + nm)

    def genv(self, body, ga):
        """bind a body's generic parameters; impl-level parameters come first"""
        ga = [x for x in ga if x[0] != "const"]
        g = [x for x in body.generics]
        if len(g) == len(ga):
            return {n: t for n, t in zip(g, ga) if n}
        # resolved impl method: bind from the self type's arguments
        env = {}
        if ga and ga[0][0] == "adt":
            ts = [x for x in ga[0][2:] if x[0] != "const"]
            for n, t in zip(g, ts):
                env[n] = t
            rest, rg = g[len(ts):], ga[1:]
            for n, t in zip(rest, rg):
                env[n] = t
        return env

    def impl(self, trait, selfty, decl):
        m = decl.split("::")[-1]
        while selfty[0] == "ref" and False:
            selfty = selfty[2]
        if selfty[0] == "adt":
            for n in ("<%s as %s>::%s" % (selfty[1], trait, m),):
                b = self.prog.bodies.get(n)
                if b is not None and not b.ambiguous:
                    return b
            for n, b in self.prog.bodies.items():
                if n.endswith("<impl %s for %s>::%s" % (trait, selfty[1], m)):
                    return b
        return None

    def callval(self, st, f, fty, args, atys, dty):
        """call of a function value: fn pointer, fn item, closure or opaque"""
        if f.op == "fnv":
            return self.callfn(st, f, args, atys, dty)
        if fty is not None:
            t = fty
            while t[0] == "ref":
                f = self.rd(st, self.deref(f, t), None)
                t = t[2]
            if t[0] == "fndef":
                # constants of function item type evaluate to the item itself
                if f.op == "fnv":
                    return self.callfn(st, f, args, atys, dty)
                nm = t[1]
                b = self.prog.bodies.get(nm)
                if b is not None:
                    if nm in self.anchors and nm not in self.inline_anchors or nm in self.stack:
                        self.note_anchor(nm)
                        return self.uf(st, nm, args, atys, dty)
                    return self.run_fn(b, args, st, self.genv(b, t[2:]))
                import models
                r = models.call(self, st, nm, nm, None, t[2:], args, atys, dty)
                if r is not None:
                    return r
                self.unknown.add("?" + nm)
                return self.uf(st, "?" + nm, args, atys, dty)
            if t[0] == "closure":
                return self.callclosure(st, f, t, args)
            if t[0] == "fnptr" and f.op == "fnv":
                return self.callfn(st, f, args, atys, dty)
        return self.uf(st, "callopaque", [f] + list(args), [None] + list(atys), dty)

    def callclosure(self, st, f, t, args):
        b = self.prog.bodies.get(t[1])
        if b is None:
            raise Unsupported("closure body " + t[1])
        env = dict(t[3]) if len(t) > 3 else {}
        a0 = b.ltys[1]
        root = None
        if a0[0] == "ref":
            root = self.tmproot(f, st)
            self_ = mk("ref", (root, ()), None)
        else:
            self_ = f
        # closures take their arguments as a tuple at the call site, spread in the body
        r = self.run_fn(b, [self_] + list(args), st, env)
        if root is not None:
            st.mem.pop(root, None)
        return r

    def callclosure_ref(self, st, fref, t, args):
        b = self.prog.bodies.get(t[1])
        if b is None:
            raise Unsupported("closure body " + t[1])
        env = dict(t[3]) if len(t) > 3 else {}
        if b.ltys[1][0] == "ref":
            self_ = fref
        else:
            self_ = self.rd(st, self.deref(fref, None), None)
        return self.run_fn(b, [self_] + list(args), st, env)

    # ------------------------------------------------------------ entry
    def entry(self, body, env=None):
        """arguments and initial state for analysing a body on its own"""
        st = State(TRUE, {P: TRUE})
        args = []
        for i in range(body.argc):
            ty = self.rty(body.ltys[i + 1], env or {})
            nm = "a%d" % i
            s = mk("sym", (nm,), width(ty))
            if is_ptrty(ty) and ty[0] == "ref":
                if pointee_unsized(ty):
                    s = mk("sref", (("D", nm), (), Z, mk("sym", ("len:" + nm,), 64)), None)
                else:
                    s = mk("ref", (("D", nm), ()), None)
            elif width(ty) == "bool":
                s = truth(s)
            elif ty[0] == "tuple":
                s = tup(*[self.leafsym(nm + ".%d" % j, t) for j, t in enumerate(ty[1:])])
            args.append(s)
        return st, args

    def leafsym(self, nm, ty):
        s = mk("sym", (nm,), width(ty))
        if ty[0] == "ref":
            if pointee_unsized(ty):
                return mk("sref", (("D", nm), (), Z, mk("sym", ("len:" + nm,), 64)), None)
            return mk("ref", (("D", nm), ()), None)
        if ty[0] == "tuple":
            return tup(*[self.leafsym(nm + ".%d" % j, t) for j, t in enumerate(ty[1:])])
        return truth(s) if width(ty) == "bool" else s

    def analyse(self, body, env=None, mutate=True):
        """outputs of a body: return value and final content of everything reachable through arguments"""
        st, args = self.entry(body, env)
        self.budget = 400000
        v = self.run_fn(body, args, st, env or {})
        if self.track:
            return {"panic-free": self.content(st, P), "in-bounds": self.content(st, BND), "memory-safe": self.content(st, UBF)}
        outs = {"panic-free": self.content(st, P)}
        outs["return value"] = self.snap(st, v)
        for r, c in sorted(st.mem.items(), key=lambda x: str(x[0])):
            if r[0] in ("D", "H") and c is not self.initial(r):
                outs["memory " + r[-1]] = self.snap(st, c)
        return outs

    def history(self, script):
        """a sequence of calls on one value: constructor chain, then methods on it while every earlier one returned Ok;
        nothing but results and memory is looked at, so the representation does not enter"""
        self.budget = 400000
        st, v, root, out, ok = None, None, None, {}, TRUE
        for i, (name, mode) in enumerate(script):
            body = self.prog.bodies[name]
            s0, args = self.entry(body)
            if st is None:
                st = s0
            else:
                for j in range(1, body.argc):
                    ty = self.rty(body.ltys[j + 1], {})
                    args[j] = self.leafsym("s%d.%d" % (i, j), ty)
            if mode == "new":
                v = self.run_fn(body, args, st, {})
                continue
            if mode == "into":
                v = self.run_fn(body, [v] + args[1:], st, {})
                continue
            if root is None:
                root = self.tmproot(v, st)
            before = dict(st.mem)
            r = self.run_fn(body, [mk("ref", (root, ()), None)] + args[1:], st, {})
            if ok is not TRUE:
                st.mem = self.join([State(ok, st.mem), State(Not(ok), before)]).mem
            rty = body.ltys[0]
            out["result %d" % i] = ite(ok, self.snap(st, r), UNIT) if ok is not TRUE else self.snap(st, r)
            if rty[0] == "adt" and rty[1].endswith("result::Result"):
                ok = conj(ok, eq0(self.discr(r, rty, 64)))
        if self.track:
            return {"panic-free": self.content(st, P), "in-bounds": self.content(st, BND), "memory-safe": self.content(st, UBF)}
        out["panic-free"] = self.content(st, P)
        for r, c in sorted(st.mem.items(), key=lambda x: str(x[0])):
            if r[0] in ("D", "H") and c is not self.initial(r):
                out["memory " + r[-1]] = self.snap(st, c)
        return out
