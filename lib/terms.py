"""Hash-consed value graph: canonical polynomials mod 2^w, decision diagrams over
canonical atoms, uninterpreted operations, bound loop terms.  No term is ever executed
by the program under analysis; `Ev` interprets loop-free terms for identity testing."""
import hashlib, random, sys

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class Term:
    __slots__ = ("op", "args", "ty", "id", "nl", "sh", "fv", "lev", "bl", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(op, args, ty=None):
    k = (op, args, ty)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.ty = op, args, ty
        _cnt[0] += 1
        t.id = _cnt[0]
        t.nl = None
        t.sh = None
        t.fv = None
        t.lev = None
        t.bl = None
        _tab[k] = t
        if _cnt[0] > 3000000:
            raise Unsupported("term store exhausted")
    return t


def subterms(t):
    """direct Term children"""
    out = []

    def go(a):
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                go(x)
    for a in t.args:
        go(a)
    return out


_PR = (1 << 61) - 1


def _h(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "big") % _PR


def _shash(t, rec):
    op = t.op

    def enc(a):
        if isinstance(a, Term):
            return str(rec(a))
        if isinstance(a, tuple):
            return "(" + ",".join(enc(x) for x in a) + ")"
        return repr(a)
    if op == "dd":
        # multilinear extension: independent of the variable order
        r = rec(t.args[0])
        return (r * rec(t.args[1]) + (1 - r) * rec(t.args[2])) % _PR
    if op == "poly":
        return _h("poly%r%d[" % (t.ty, t.args[0]) + ",".join(sorted("%d*%s" % (c, sorted(rec(x) for x in m)) for c, m in t.args[1])) + "]")
    if op in ("and", "or", "xor", "mul"):
        return _h(op + repr(t.ty) + "|" + "|".join(sorted(enc(a) for a in t.args)))
    return _h(op + repr(t.ty) + "|" + "|".join(enc(a) for a in t.args))


def structhash(t):
    """creation-order independent hash"""
    if t.sh is None:
        t.sh = _shash(t, structhash)
    return t.sh


class ColourHash:
    """structural hash with colours for some temporaries"""

    def __init__(self, colours):
        self.c = colours
        self.keys = colours.keys()
        self.memo = {}

    def __call__(self, t):
        r = self.c.get(t)
        if r is not None:
            return r
        if not (freevars(t) & self.keys):
            return structhash(t)
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = _shash(t, self)
        return r


TRUE = mk("b", (1,), "bool")
FALSE = mk("b", (0,), "bool")
UNIT = mk("agg", ("tuple",), None)
UNINIT = mk("uninit", (), None)


def C(w, v):
    return mk("c", (v & ((1 << w) - 1),), w)


def isc(t):
    return t.op == "c"


def sval(t):
    v, w = t.args[0], t.ty
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- decision diagrams
LIM = 64


def nleaves(t):
    if t.op != "dd":
        return 1
    if t.nl is None:
        t.nl = nleaves(t.args[1]) + nleaves(t.args[2])
    return t.nl


def _base(atom):
    """(base term, kind, const) of an atom comparing a term with a constant"""
    if atom.op == "eq0":
        p = atom.args[0]
        if p.op == "poly":
            return (mkpoly(p.ty, {m: c for c, m in p.args[1]}), "eq", (-p.args[0]) & ((1 << p.ty) - 1), p.ty)
        return (p, "eq", 0, p.ty)
    if atom.op == "lt":
        s, a, b = atom.args
        if isc(b):
            return (a, "lts" if s else "ltu", sval(b) if s else b.args[0], b.ty)
    return None


_impl = {}


def implied(a, val, b):
    """truth of atom b when atom a has value val: True/False/None"""
    k = (a.id, val, b.id)
    r = _impl.get(k, 0)
    if r != 0:
        return r
    r = None
    x, y = _base(a), _base(b)
    if x and y and x[0] is y[0]:
        (_, k1, c1, w), (_, k2, c2, _) = x, y

        def rng(kind):
            return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if kind == "lts" else (0, (1 << w) - 1)
        if k1 == "eq" and val:
            if k2 == "eq":
                r = c1 == c2
            else:
                v = c1
                if k2 == "lts" and v >> (w - 1):
                    v -= 1 << w
                r = v < c2
        elif k1 == k2 and k1 != "eq":
            if val and c1 <= c2:
                r = True
            elif not val and c2 <= c1:
                r = False
        elif k1 != "eq" and k2 == "eq":
            v = c2
            if k1 == "lts" and v >> (w - 1):
                v -= 1 << w
            if (v < c1) != val:
                r = False
    _impl[k] = r
    return r


_simp = {}


def _prune(t, atom, val, fuel=64):
    if t.op != "dd":
        return t
    k = (t.id, atom.id, val)
    r = _simp.get(k)
    if r is not None:
        return r
    a, hi, lo = t.args
    v = val if a is atom else implied(atom, val, a)
    if v is True:
        r = _prune(hi, atom, val)
    elif v is False:
        r = _prune(lo, atom, val)
    else:
        h, l = _prune(hi, atom, val), _prune(lo, atom, val)
        r = t if (h is hi and l is lo) else (h if h is l else mk("dd", (a, h, l), t.ty))
    _simp[k] = r
    return r


def mkdd(atom, hi, lo):
    if hi is lo or lo.op == "undef":
        return hi
    if hi.op == "undef":
        return lo
    if _base(atom):
        hi = _prune(hi, atom, True)
        lo = _prune(lo, atom, False)
        if hi is lo:
            return hi
    return mk("dd", (atom, hi, lo), hi.ty if hi.ty is not None else lo.ty)


def cof(t, atom, v):
    if t.op == "dd" and t.args[0] is atom:
        return t.args[1] if v else t.args[2]
    return t


def top(*ts):
    best = None
    for t in ts:
        if t.op == "dd" and (best is None or t.args[0].id < best.id):
            best = t.args[0]
    return best


_ite = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _ite.get(k)
    if r is None:
        at = top(c, a, b)
        r = mkdd(at, ite(cof(c, at, 1), cof(a, at, 1), cof(b, at, 1)), ite(cof(c, at, 0), cof(a, at, 0), cof(b, at, 0)))
        _ite[k] = r
    return r


def Not(a):
    return ite(a, FALSE, TRUE)


def And(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def Or(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


_con = {}


def constrain(f, c):
    """generalised cofactor: f on the care set c"""
    if c is TRUE or c is FALSE or f.op != "dd":
        return f
    k = (f.id, c.id)
    r = _con.get(k)
    if r is None:
        at = top(f, c)
        c1, c0 = cof(c, at, 1), cof(c, at, 0)
        if c1 is FALSE:
            r = constrain(cof(f, at, 0), c0)
        elif c0 is FALSE:
            r = constrain(cof(f, at, 1), c1)
        else:
            r = mkdd(at, constrain(cof(f, at, 1), c1), constrain(cof(f, at, 0), c0))
        _con[k] = r
    return r


def lift(fn, *args, force=False):
    """apply fn leafwise over decision diagrams"""
    n = 1
    for a in args:
        n *= nleaves(a)
    if n == 1:
        return fn(*args)
    if n > LIM and not force:
        return None
    memo = {}

    def go(*xs):
        k = tuple(x.id for x in xs)
        r = memo.get(k)
        if r is None:
            at = top(*xs)
            if at is None:
                r = fn(*xs)
            else:
                r = mkdd2(at, go(*[cof(x, at, 1) for x in xs]), go(*[cof(x, at, 0) for x in xs]))
            memo[k] = r
        return r
    return go(*args)


def mkdd2(at, hi, lo):
    """hi/lo may contain atoms that are not below `at`"""
    if hi is lo:
        return hi
    if (hi.op != "dd" or hi.args[0].id > at.id) and (lo.op != "dd" or lo.args[0].id > at.id):
        return mkdd(at, hi, lo)
    return ite(mkdd(at, TRUE, FALSE), hi, lo)


def ddleaves(t, g=TRUE):
    """[(guard, leaf)]"""
    if t.op != "dd":
        return [(g, t)]
    out = {}

    def go(t, g):
        if t.op != "dd":
            out[t] = Or(out.get(t, FALSE), g)
            return
        at = mkdd(t.args[0], TRUE, FALSE)
        go(t.args[1], And(g, at))
        go(t.args[2], And(g, Not(at)))
    go(t, g)
    return [(gg, l) for l, gg in out.items() if gg is not FALSE]


def atombool(atom):
    return mkdd(atom, TRUE, FALSE)


# ---------------------------------------------------------------- integers
def mkpoly(w, d):
    M = (1 << w) - 1
    const = d.get((), 0) & M
    items = []
    for m, c in d.items():
        c &= M
        if m and c:
            items.append((c, m))
    if not items:
        return C(w, const)
    if len(items) == 1 and const == 0 and items[0][0] == 1 and len(items[0][1]) == 1:
        return items[0][1][0]
    items.sort(key=lambda x: tuple(t.id for t in x[1]))
    return mk("poly", (const, tuple(items)), w)


def topoly(t):
    if t.op == "c":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        d = {m: c for c, m in t.args[1]}
        if t.args[0]:
            d[()] = t.args[0]
        return d
    return {(t,): 1}


def add(a, b):
    if isc(a) and a.args[0] == 0:
        return b
    if isc(b) and b.args[0] == 0:
        return a
    if (a.op == "dd" or b.op == "dd"):
        r = lift(add, a, b)
        if r is not None:
            return r
    d = dict(topoly(a))
    for m, c in topoly(b).items():
        d[m] = d.get(m, 0) + c
    return mkpoly(a.ty, d)


def scale(a, k):
    if a.op == "dd":
        r = lift(lambda x: scale(x, k), a)
        if r is not None:
            return r
    return mkpoly(a.ty, {m: c * k for m, c in topoly(a).items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if isc(a):
        return scale(b, a.args[0])
    if isc(b):
        return scale(a, b.args[0])
    if a.op == "dd" or b.op == "dd":
        r = lift(mul, a, b)
        if r is not None:
            return r
    pa, pb = topoly(a), topoly(b)
    if len(pa) * len(pb) > 64:
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("mul", (x, y), a.ty)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda t: t.id))
            d[m] = d.get(m, 0) + c1 * c2
    return mkpoly(a.ty, d)


def _cdiv(op, w, x, y):
    if y == 0:
        return None
    if op[0] == "s":
        x = x - (1 << w) if x >> (w - 1) else x
        y = y - (1 << w) if y >> (w - 1) else y
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        r = x - q * y
        return (q if op[1:] == "div" else r) & ((1 << w) - 1)
    return x // y if op[1:] == "div" else x % y


def binop(op, a, b):
    """op in udiv sdiv urem srem and or xor shl lshr ashr"""
    w = a.ty
    if a.op == "dd" or b.op == "dd":
        r = lift(lambda x, y: binop(op, x, y), a, b)
        if r is not None:
            return r
    M = (1 << w) - 1
    if isc(a) and isc(b):
        x, y = a.args[0], b.args[0]
        if op in ("udiv", "sdiv", "urem", "srem"):
            v = _cdiv(op, w, x, y)
            if v is not None:
                return C(w, v)
        else:
            return C(w, _bitop(op, w, x, y))
    if op == "shl" and isc(b):
        return scale(a, 1 << (b.args[0] % w))
    if op == "shl":
        # x << s == x * (1 << s)
        if isc(a) and a.args[0] == 1:
            return mk("pow2", (b,), w)
        return mul(a, mk("pow2", (b,), w))
    if op in ("lshr", "ashr") and isc(b):
        k = b.args[0] % w
        if k == 0:
            return a
        if op == "lshr":
            return binop("udiv", a, C(w, 1 << k)) if k < w else C(w, 0)
        b = C(w, k)
    if op in ("udiv", "sdiv") and isc(b) and b.args[0] == 1:
        return a
    if op in ("urem", "srem") and isc(b) and b.args[0] == 1:
        return C(w, 0)
    if op == "urem" and isc(b) and b.args[0] & (b.args[0] - 1) == 0 and b.args[0]:
        return binop("and", a, C(w, b.args[0] - 1))
    if op in ("and", "or", "xor"):
        x, y = sorted((a, b), key=lambda t: t.id)
        if x is y:
            return C(w, 0) if op == "xor" else x
        for p, q in ((x, y), (y, x)):
            if isc(p):
                v = p.args[0]
                if v == 0:
                    return C(w, 0) if op == "and" else q
                if v == M:
                    if op == "and":
                        return q
                    if op == "or":
                        return p
                    return sub(C(w, M), q)
        return mk(op, (x, y), w)
    return mk(op, (a, b), w)


def _bitop(op, w, x, y):
    M = (1 << w) - 1
    if op == "and":
        return x & y
    if op == "or":
        return x | y
    if op == "xor":
        return x ^ y
    y %= w
    if op == "shl":
        return (x << y) & M
    if op == "lshr":
        return x >> y
    s = x - (1 << w) if x >> (w - 1) else x
    return (s >> y) & M


def cast(a, w, signed):
    """integer a -> width w; `signed` = source signedness"""
    if a.ty == w:
        return a
    if a.op == "dd":
        r = lift(lambda x: cast(x, w, signed), a)
        if r is not None:
            return r
    if isc(a):
        return C(w, sval(a) if signed else a.args[0])
    if w < a.ty:
        return trunc(a, w)
    if a.op in ("zext", ):
        return cast(a.args[0], w, False)
    if a.op == "sext" and signed:
        return cast(a.args[0], w, True)
    if not signed and a.op == "udiv" and isc(a.args[1]):
        return binop("udiv", cast(a.args[0], w, False), C(w, a.args[1].args[0]))
    return mk("sext" if signed else "zext", (a,), w)


def trunc(a, w):
    if a.ty == w:
        return a
    if a.op == "dd":
        r = lift(lambda x: trunc(x, w), a)
        if r is not None:
            return r
    if isc(a):
        return C(w, a.args[0])
    if a.op == "poly":
        r = C(w, a.args[0])
        for c, m in a.args[1]:
            p = C(w, c)
            for x in m:
                p = mul(p, trunc(x, w))
            r = add(r, p)
        return r
    if a.op in ("zext", "sext"):
        x = a.args[0]
        if x.ty == w:
            return x
        if x.ty > w:
            return trunc(x, w)
        return mk(a.op, (x,), w)
    if a.op in ("and", "or", "xor"):
        return binop(a.op, trunc(a.args[0], w), trunc(a.args[1], w))
    if a.op == "trunc":
        return trunc(a.args[0], w)
    return mk("trunc", (a,), w)


def eq(a, b):
    if a is b:
        return TRUE
    if a.ty == "bool" or b.ty == "bool":
        return ite(a, b, Not(b))
    if a.op == "dd" or b.op == "dd":
        r = lift(eq, a, b)
        if r is not None:
            return r
    return eq0(sub(a, b))


def eq0(d):
    if d.op == "dd":
        r = lift(eq0, d)
        if r is not None:
            return r
    if isc(d):
        return TRUE if d.args[0] == 0 else FALSE
    w = d.ty
    # zext/sext of x == c
    if d.op in ("zext", "sext"):
        return eq0(d.args[0])
    if d.op == "poly" and len(d.args[1]) == 1 and len(d.args[1][0][1]) == 1:
        cf, (x,) = d.args[1][0]
        if cf == 1 or cf == (1 << w) - 1:
            cst = d.args[0] if cf == (1 << w) - 1 else (-d.args[0]) & ((1 << w) - 1)
            if x.op in ("zext", "sext"):
                y = x.args[0]
                v = cst & ((1 << y.ty) - 1)
                if C(w, v if x.op == "zext" else sval(C(y.ty, v))).args[0] != cst:
                    return FALSE
                return eq(y, C(y.ty, v))
    # canonical sign
    if d.op == "poly":
        n = neg(d)
        if n.op != "poly" or n.args[1][0][0] < d.args[1][0][0]:
            d = n
    if d.op == "discr":
        vs = d.args[1]
        if len(vs) == 2 and vs[0] == 0:
            pass
    elif d.op == "poly" and len(d.args[1]) == 1 and d.args[1][0][1][0].op == "discr" and len(d.args[1][0][1]) == 1 and d.args[1][0][0] in (1, (1 << w) - 1):
        x = d.args[1][0][1][0]
        vs = x.args[1]
        c = d.args[0] if d.args[1][0][0] != 1 else (-d.args[0]) & ((1 << w) - 1)
        vs = [v & ((1 << w) - 1) for v in vs]
        if c not in vs:
            return FALSE
        if len(vs) >= 2 and c == vs[-1]:
            # last variant = none of the others
            return Not(Or(*[eq(x, C(w, v)) for v in vs[:-1]]))
    return atombool(mk("eq0", (d,), "bool"))


def lt(a, b, signed):
    if a is b:
        return FALSE
    if a.op == "dd" or b.op == "dd":
        r = lift(lambda x, y: lt(x, y, signed), a, b)
        if r is not None:
            return r
    w = a.ty
    if isc(a) and isc(b):
        x, y = (sval(a), sval(b)) if signed else (a.args[0], b.args[0])
        return TRUE if x < y else FALSE
    mx = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
    mn = -(1 << (w - 1)) if signed else 0
    if isc(a):
        v = sval(a) if signed else a.args[0]
        if v == mx:
            return FALSE
        return Not(lt(b, C(w, v + 1), signed))
    if isc(b):
        v = sval(b) if signed else b.args[0]
        if v == mn:
            return FALSE
        if not signed and v == 1:
            return eq0(a)
        for ext in ("zext", "sext"):
            if a.op == ext:
                x = a.args[0]
                sg = ext == "sext"
                if not signed and sg:
                    continue
                lo, hi = (-(1 << (x.ty - 1)), (1 << (x.ty - 1)) - 1) if sg else (0, (1 << x.ty) - 1)
                if v > hi:
                    return TRUE
                if v <= lo:
                    return FALSE
                return lt(x, C(x.ty, v), sg)
    if a.op == b.op == "zext" and a.args[0].ty == b.args[0].ty:
        return lt(a.args[0], b.args[0], False)
    if a.op == b.op == "sext" and a.args[0].ty == b.args[0].ty and signed:
        return lt(a.args[0], b.args[0], True)
    return atombool(mk("lt", (signed, a, b), "bool"))


def minmax(a, b, signed, is_max):
    c = lt(a, b, signed)
    return ite(c, b, a) if is_max else ite(c, a, b)


def truth(t):
    """boolean view of an opaque bool-typed term"""
    if t in (TRUE, FALSE) or t.op == "dd":
        return t
    return atombool(mk("tb", (t,), "bool"))


def pow2k(k, w):
    """2**k mod 2**w for an iteration count k (not masked)"""
    if k.op == "dd":
        r = lift(lambda x: pow2k(x, w), k)
        if r is not None:
            return r
    if isc(k):
        return C(w, 1 << k.args[0] if k.args[0] < w else 0)
    return mk("pow2k", (k,), w)


def mkfin(level, tys, inits, nexts, cont, val, ty):
    return mk("fin", (level, tys, inits, nexts, cont, val), ty)


# ---------------------------------------------------------------- aggregates / memory
def agg(tag, *fs):
    return mk("agg", (tag,) + fs, None)


def isagg(t, tag=None):
    return t.op == "agg" and (tag is None or t.args[0] == tag)


def sameidx(a, b):
    """True/False/None"""
    if a is b:
        return True
    if a.ty != b.ty:
        return None
    d = sub(a, b)
    if isc(d):
        return d.args[0] == 0
    return None


def cmp_path(p, q):
    """compare equal-length paths: True same, False disjoint, None unknown"""
    unk = False
    for x, y in zip(p, q):
        if x[0] == "i" and y[0] == "i":
            s = sameidx(x[1], y[1])
            if s is False:
                return False
            if s is None:
                unk = True
        elif x[0] == "p" and y[0] == "p":
            if x[1] is not y[1]:
                unk = True
        elif x != y:
            return False
    return None if unk else True


# ---------------------------------------------------------------- free temporaries / substitution
def freevars(t):
    if t.fv is None:
        s = frozenset([t]) if t.op == "tmp" else frozenset()
        for c in subterms(t):
            s |= freevars(c)
        t.fv = s
    return t.fv


def rebuild(t, f):
    """rebuild term with children mapped by f"""
    op, a = t.op, t.args
    if op == "dd":
        x = f(a[0])
        return ite(x if x.op in ("dd", "b") else atombool(x), f(a[1]), f(a[2]))
    if op == "poly":
        r = C(t.ty, a[0])
        for c, m in a[1]:
            p = C(t.ty, c)
            for x in m:
                p = mul(p, f(x))
            r = add(r, p)
        return r
    if op in ("udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
        return binop(op, f(a[0]), f(a[1]))
    if op == "mul":
        return mul(f(a[0]), f(a[1]))
    if op in ("zext", "sext"):
        return cast(f(a[0]), t.ty, op == "sext")
    if op == "trunc":
        return trunc(f(a[0]), t.ty)
    if op == "pow2":
        return binop("shl", C(t.ty, 1), f(a[0]))
    if op == "pow2k":
        return pow2k(f(a[0]), t.ty)
    if op == "fin":
        return mkfin(t.args[0], t.args[1], tuple(f(x) for x in t.args[2]), tuple(f(x) for x in t.args[3]), f(t.args[4]), f(t.args[5]), t.ty)
    if op == "eq0":
        return eq0(f(a[0]))
    if op == "lt":
        return lt(f(a[1]), f(a[2]), a[0])
    if op == "tb":
        return truth(f(a[0]))
    if op == "sel":
        return sel(f(a[0]), mappath(a[1], f), t.ty)
    if op == "store":
        return store(f(a[0]), mappath(a[1], f), f(a[2]))
    if op == "fld":
        x = f(a[0])
        if x.op == "dd":
            r = lift(lambda y: mk("fld", (y,) + a[1:], t.ty), x)
            if r is not None:
                return r
        return mk("fld", (x,) + a[1:], t.ty)

    def m(x):
        if isinstance(x, Term):
            return f(x)
        if isinstance(x, tuple):
            return tuple(m(y) for y in x)
        return x
    return mk(op, tuple(m(x) for x in a), t.ty)


def mkatomdd(atom):
    return mk("dd", (atom, TRUE, FALSE), "bool") if atom.op != "dd" else atom


def mappath(p, f):
    return tuple(tuple(f(y) if isinstance(y, Term) else y for y in e) for e in p)


def subst(t, m):
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        if not (freevars(t) & m.keys()):
            return t
        r = memo.get(t)
        if r is None:
            if t.op == "dd":
                r = ite(go_atom(t.args[0]), go(t.args[1]), go(t.args[2]))
            else:
                r = rebuild(t, go)
            memo[t] = r
        return r

    def go_atom(a):
        if not (freevars(a) & m.keys()):
            return atombool(a)
        r = memo.get(a)
        if r is None:
            r = rebuild(a, go)
            if r.op not in ("dd", "b"):
                r = truth(r) if r.ty != "bool" else atombool(r)
            memo[a] = r
        return r
    return go(t)


# ---------------------------------------------------------------- arrays (contents with paths)
class _TyEnv:
    """set by the engine: type of the value at a path below a content term"""
    pass


def sel(c, path, ty=None):
    """value at `path` below content `c`"""
    if not path:
        return c
    if c.op == "dd":
        r = lift(lambda x: sel(x, path, ty), c)
        if r is not None:
            return r
    p0 = path[0]
    if c.op == "agg":
        tag = c.args[0]
        if p0[0] == "f":
            if isinstance(p0[1], int) and 1 + p0[1] < len(c.args):
                return sel(c.args[1 + p0[1]], path[1:], ty)
        elif p0[0] == "vf" and tag[0] == "v":
            if tag[2] == p0[1]:
                return sel(c.args[1 + p0[2]], path[1:], ty)
            return mk("undef", (), ty)
        elif p0[0] == "i" and tag == "array":
            n = len(c.args) - 1
            if isc(p0[1]):
                v = p0[1].args[0]
                if v < n:
                    return sel(c.args[1 + v], path[1:], ty)
                return mk("undef", (), ty)
            if n <= 16 and n > 0:
                r = sel(c.args[n], path[1:], ty)
                for j in range(n - 2, -1, -1):
                    r = ite(eq(p0[1], C(p0[1].ty, j)), sel(c.args[1 + j], path[1:], ty), r)
                return r
    if c.op == "fill" and p0[0] == "i":
        return sel(c.args[0], path[1:], ty)
    if c.op == "comp" and p0[0] == "i":
        r = bvinst(c.args[1], mk("bv", (c.args[0], "K"), 64), p0[1])
        if not path[1:] or r.op in ("agg", "dd", "store", "fill", "comp", "sel", "uf", "sym"):
            return sel(r, path[1:], ty)
    if c.op == "store":
        base, sp, v = c.args
        n = min(len(sp), len(path))
        r = cmp_path(sp[:n], path[:n])
        if r is False:
            return sel(base, path, ty)
        if r is True and len(sp) <= len(path):
            return sel(v, path[len(sp):], ty)
        if r is None and len(sp) <= len(path):
            # symbolic index: case split on equality (bounded)
            conds = []
            ok = True
            for x, y in zip(sp, path):
                if x[0] == "i" and y[0] == "i":
                    if x[1].ty != y[1].ty:
                        ok = False
                        break
                    conds.append(eq(x[1], y[1]))
                elif x[0] == "p" and x[1] is not y[1]:
                    ok = False
                    break
            if ok:
                cnd = And(*conds)
                rest = sel(base, path, ty)
                if nleaves(rest) < 32:
                    return ite(cnd, sel(v, path[len(sp):], ty), rest)
    if c.op == "rng" and p0[0] == "i":
        old, off, ln, new = c.args[:4]
        i = p0[1]
        d = sub(i, off)
        inside = lt(d, ln, False)
        if inside is TRUE:
            return sel(new, (("i", d),) + path[1:], ty)
        if inside is FALSE:
            return sel(old, path, ty)
    if c.op == "sel":
        c, path = c.args[0], c.args[1] + path
    r = mk("sel", (c, path), ty)
    return truth(r) if ty == "bool" else r


def store(c, path, v):
    if not path:
        return v
    if c.op == "dd":
        r = lift(lambda x: store(x, path, v), c)
        if r is not None:
            return r
    p0 = path[0]
    if c.op == "agg":
        tag = c.args[0]
        k = None
        if p0[0] == "f" and isinstance(p0[1], int) and 1 + p0[1] < len(c.args):
            k = 1 + p0[1]
        elif p0[0] == "vf" and tag[0] == "v" and tag[2] == p0[1]:
            k = 1 + p0[2]
        elif p0[0] == "i" and tag == "array" and isc(p0[1]) and 1 + p0[1].args[0] < len(c.args):
            k = 1 + p0[1].args[0]
        elif p0[0] == "i" and tag == "array" and len(c.args) <= 17:
            out = []
            for j in range(1, len(c.args)):
                out.append(ite(eq(p0[1], C(p0[1].ty, j - 1)), store(c.args[j], path[1:], v), c.args[j]))
            return agg("array", *out)
        if k is not None:
            return mk("agg", c.args[:k] + (store(c.args[k], path[1:], v),) + c.args[k + 1:], None)
    # self store
    if v.op == "sel" and v.args[0] is c and v.args[1] == path:
        return c
    if c.op == "store":
        base, sp, v0 = c.args
        if len(sp) == len(path):
            r = cmp_path(sp, path)
            if r is True:
                return store(base, path, v)
            if r is False and pathkey(path) < pathkey(sp):
                return mk("store", (store(base, path, v), sp, v0), None)
        elif len(sp) > len(path) and cmp_path(sp[:len(path)], path) is True:
            return store(base, path, v)
        elif len(sp) < len(path) and cmp_path(sp, path[:len(sp)]) is True:
            return store(base, sp, store(v0, path[len(sp):], v))
    return mk("store", (c, path, v), None)


def pathkey(p):
    return tuple(structhash(x) if isinstance(x, Term) else str(x) for e in p for x in e)


# ---------------------------------------------------------------- printing
def show(t, d=6):
    if d == 0:
        return "…"
    s = lambda x: show(x, d - 1)
    op, a = t.op, t.args
    if op == "c":
        return str(sval(t)) if t.ty and t.ty > 1 else str(a[0])
    if op == "b":
        return "true" if a[0] else "false"
    if op == "poly":
        out = []
        for c, m in a[1]:
            c = c - (1 << t.ty) if c >> (t.ty - 1) else c
            out.append(("" if c == 1 else "-" if c == -1 else "%d*" % c) + "*".join(s(x) for x in m))
        if a[0]:
            out.append(str(a[0] - (1 << t.ty) if a[0] >> (t.ty - 1) else a[0]))
        return "(" + " + ".join(out) + ")"
    if op == "dd":
        return "if(%s){%s}else{%s}" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "lt":
        return "%s<%s%s" % (s(a[1]), "" if a[0] else "u ", s(a[2]))
    if op == "eq0":
        return "%s==0" % s(a[0])
    if op == "b" :
        return str(a[0])
    if op in ("sym", "tmp", "bv"):
        return str(a[0]) + ("" if op != "bv" else ".%s" % (a[1],))
    if op == "uf":
        return "%s#%s(%s)" % (a[0].split("::")[-1], a[1], ", ".join(s(x) if isinstance(x, Term) else str(x) for x in a[2]))
    if op == "sel":
        return "%s%s" % (s(a[0]), spath(a[1], d))
    if op == "store":
        return "%s{%s:=%s}" % (s(a[0]), spath(a[1], d), s(a[2]))
    if op == "agg":
        return "%s(%s)" % (a[0] if isinstance(a[0], str) else a[0][-1], ", ".join(s(x) for x in a[1:]))
    if op == "ref":
        return "&%s%s" % (a[0], spath(a[1], d))
    if op == "sref":
        return "&%s%s[%s;+%s]" % (a[0], spath(a[1], d), s(a[2]), s(a[3]))
    if op == "fld":
        return "%s.%s" % (s(a[0]), a[1:])
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, Term) else str(x) for x in a))


def spath(p, d):
    out = ""
    for e in p:
        if e[0] == "i":
            out += "[%s]" % show(e[1], d - 1)
        elif e[0] == "*":
            out += ".*"
        elif e[0] == "p":
            out += "<%s>" % show(e[1], d - 1)
        else:
            out += "." + "_".join(str(x) for x in e[1:])
    return out


# ---------------------------------------------------------------- bound variables
def finlev(t):
    """highest level of a loop / comprehension term inside t"""
    if t.lev is None:
        m = t.args[0] if t.op in ("fin", "comp") else t.args[1] if t.op == "scat" else 0
        for c in subterms(t):
            x = finlev(c)
            if x > m:
                m = x
        t.lev = m
    return t.lev


_E = frozenset()


def bvlevels(t):
    """levels of the bound variables free in t"""
    if t.bl is None:
        if t.op == "bv":
            s = frozenset([t.args[0]])
        elif t.op == "fin":
            s = set()
            for x in t.args[3] + (t.args[4], t.args[5]):
                s |= bvlevels(x)
            s.discard(t.args[0])
            for x in t.args[2]:
                s |= bvlevels(x)
            s = frozenset(s)
        elif t.op == "comp":
            s = bvlevels(t.args[1]) - {t.args[0]}
        elif t.op == "scat":
            old, lev, off, ln, n, u = t.args
            s = (bvlevels(off) | bvlevels(ln)) - {lev} | bvlevels(old) | bvlevels(n) | bvlevels(u)
        else:
            s = _E
            for c in subterms(t):
                s |= bvlevels(c)
        t.bl = s
    return t.bl


class Subst:
    """memoised substitution of free temporaries"""

    def __init__(self, m):
        self.m = m
        self.keys = m.keys()
        self.memo = {}

    def __call__(self, t):
        r = self.m.get(t)
        if r is not None:
            return r
        if not (freevars(t) & self.keys):
            return t
        r = self.memo.get(t)
        if r is None:
            if t.op == "dd":
                r = ite(self.atom(t.args[0]), self(t.args[1]), self(t.args[2]))
            else:
                r = rebuild(t, self)
            self.memo[t] = r
        return r

    def atom(self, a):
        r = self(a)
        if r.op in ("dd", "b"):
            return r
        return atombool(r)


def bvinst(t, bv, val):
    lev = bv.args[0]
    memo = {}

    def go(t):
        if t is bv:
            return val
        if lev not in bvlevels(t):
            return t
        r = memo.get(t)
        if r is None:
            if t.op == "dd":
                a = go(t.args[0])
                r = ite(a if a.op in ("dd", "b") else atombool(a), go(t.args[1]), go(t.args[2]))
            else:
                r = rebuild(t, go)
            memo[t] = r
        return r
    return go(t)
