"""Random interpretation of value graphs.

A value graph is a mathematical expression extracted from source by `absint`.  Here two graphs
are tested for identity: free symbols get random values, uninterpreted functions become random
functions (hashes of their evaluated arguments), summarised loops are unfolded.  Nothing of the
program under analysis runs: there is no machine state, no library code, no I/O."""
import hashlib
import terms as T
from terms import Term, UNINIT, UNIT

M64 = (1 << 64) - 1


class Void(Exception):
    """the sample decides nothing (a loop is too long, a precondition fails)"""


_sh = {}


def sh(s):
    r = _sh.get(s)
    if r is None:
        r = _sh[s] = int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "big")
    return r


def mix(x):
    x &= M64
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9 & M64
    x = (x ^ (x >> 27)) * 0x94d049bb133111eb & M64
    return x ^ (x >> 31)


def hh(*xs):
    return hash(xs) & M64


class Tok:
    """opaque value"""
    __slots__ = ("h", "prov", "kids", "ix")

    def __init__(self, h, prov, ix=None):
        self.h, self.prov, self.ix = h, prov, ix
        self.kids = None


class Agg:
    __slots__ = ("tag", "f", "h")

    def __init__(self, tag, f):
        self.tag, self.f, self.h = tag, f, None


class Arr:
    """content over a base: Tok, Fill, Comp, Agg.  Successive versions share one table: key -> [(version, value)..]"""
    __slots__ = ("base", "tab", "ver", "h")

    def __init__(self, base, ov):
        self.base, self.h = base, None
        self.ver = 1
        self.tab = [1, {k: [(1, v)] for k, v in ov.items()}]

    def get(self, k):
        vs = self.tab[1].get(k)
        if vs is None:
            return None
        n = self.ver
        for e in reversed(vs):
            if e[0] <= n:
                return e[1]
        return None

    @property
    def ov(self):
        out = {}
        for k in self.tab[1]:
            v = self.get(k)
            if v is not None:
                out[k] = v
        return out

    def put(self, k, v):
        """the next version"""
        t = self.tab
        if t[0] != self.ver:
            d = self.ov
            d[k] = v
            return Arr(self.base, d)
        r = Arr.__new__(Arr)
        r.base, r.h, r.tab = self.base, None, t
        t[0] = r.ver = self.ver + 1
        t[1].setdefault(k, []).append((r.ver, v))
        return r


def spots(n):
    """some indices below n"""
    r = SPOTS.get(n)
    if r is None:
        r = {j for j in range(min(n, 48))} | {n - 1 - j for j in range(min(n, 16))}
        j = 64
        while j < n:
            r |= {x for x in (j - 1, j, j + 1) if x < n}
            j *= 2
        r |= {hh(99, j) % n for j in range(48)}
        r = SPOTS[n] = sorted(r)
    return r


SPOTS = {}


class Slab:
    """a long stretch of one content over another"""
    __slots__ = ("base", "o", "n", "new", "w", "h")

    def __init__(self, base, o, n, new, w):
        self.base, self.o, self.n, self.new, self.w, self.h = base, o, n, new, w, None


class Fill:
    __slots__ = ("v", "h")

    def __init__(self, v):
        self.v, self.h = v, None


class Comp:
    __slots__ = ("ev", "t", "env", "memo", "h")

    def __init__(self, ev, t, env):
        self.ev, self.t, self.env, self.memo, self.h = ev, t, env, {}, None


class Ref:
    __slots__ = ("root", "path", "off", "ln", "h")

    def __init__(self, root, path, off, ln):
        self.root, self.path, self.off, self.ln, self.h = root, path, off, ln, None


class Sl:
    """what a slice pointer shows"""
    __slots__ = ("c", "off", "ln", "ex", "w", "h", "kind")

    def __init__(self, kind, c, off, ln, ex, w):
        self.kind, self.c, self.off, self.ln, self.ex, self.w, self.h = kind, c, off, ln, ex, w, None


class Frame:
    __slots__ = ("id", "vals", "K", "nxt", "memo")

    def __init__(self):
        self.memo = {}


I = tuple   # boxed integers: ("I", w, v), ("B", v)

FULL = 1024
SLAB = 2048
TRACE = None    # set to a dict to record which names are asked for


class Ev:
    def __init__(self, seed, hints=None, pool=(), cap=48, fuel=2000000):
        self.seed = seed
        self.hints = hints or {}
        self.pool = pool
        self.cap = cap
        self.fuel = fuel
        self.env = {}
        self.memo = {}
        self.traj = {}
        self.nframe = 0
        self.und = Tok(hh(seed, sh("undef")), "undef")
        self.tops = {}
        self.ranks = {}
        self.trace = TRACE
        self.seen = {}

    # ------------------------------------------------------------ random values
    def num(self, h, w, prov, ix=None):
        if self.trace is None:
            return self.num0(h, w, prov, ix)
        v = self.num0(h, w, prov, ix)
        self.trace[prov, w] = self.trace.get((prov, w), 0) + 1
        self.seen[prov] = w, v
        return v

    def num0(self, h, w, prov, ix=None):
        g = self.hints.get(prov)
        if g is not None:
            v = g(self, mix(h), ix) if callable(g) else g
            if v is not None:
                return int(v) & ((1 << w) - 1)
        h = mix(h)
        k = h & 15
        r = h >> 8
        M = (1 << w) - 1
        if w == 64:
            if k < 10:
                return r % 9
            if k < 12:
                return r % 24
            if k < 13 and self.pool:
                return (self.pool[r % len(self.pool)] + (r >> 20) % 3 - 1) & M
            if k < 15:
                return r % 70
            return mix(r) & M
        if w == 32 or w == 128:
            if k < 5:
                return r % 8
            if k < 7:
                return -(r % 8) & M
            if k < 9 and self.pool:
                return (self.pool[r % len(self.pool)] + (r >> 20) % 3 - 1) & M
            if k < 12:
                return r % 300
            if k < 14:
                return (mix(r) & 0xffff) - 0x8000 & M
            return mix(r) & M
        if w == 16:
            if k < 3:
                return r % 6
            if k < 5:
                return -(r % 6) & M
            if k < 6 and self.pool:
                return (self.pool[r % len(self.pool)] + (r >> 20) % 3 - 1) & M
            if k < 11:
                return (r % 512) - 256 & M
            return r & M
        if k < 4:
            return r % 4
        if k < 6 and self.pool:
            return (self.pool[r % len(self.pool)] + (r >> 20) % 3 - 1) & M
        return r & M

    def boolean(self, h, prov, ix=None):
        g = self.hints.get(prov)
        if self.trace is not None:
            self.trace[prov, 1] = self.trace.get((prov, 1), 0) + 1
        if g is not None:
            return bool(g(self, mix(h), ix) if callable(g) else g)
        h = mix(h ^ 0x5bd1e995)
        if prov.endswith(":ok"):
            return h % 16 != 0
        if prov.endswith(":some"):
            return h % 4 != 0
        return h & 1 == 0

    def typed(self, v, w):
        """view of a value at an integer width / bool"""
        if type(v) is tuple:
            return v[-1]
        if w == "bool":
            return self.boolean(hh(self.vh(v), 2), v.prov, v.ix) if type(v) is Tok else self.boolean(hh(self.vh(v), 2), "")
        return self.num(hh(self.vh(v), 1, w), w, v.prov, v.ix) if type(v) is Tok else self.num(hh(self.vh(v), 1, w), w, "")

    # ------------------------------------------------------------ structure
    def child(self, v, key):
        t = type(v)
        if t is Tok:
            k = v.kids
            if k is None:
                k = v.kids = {}
            r = k.get(key)
            if r is None:
                if key[0] == "i":
                    hk, pr = hh(11, key[1]), "[#]"
                elif key[0] == "p":
                    hk, pr = hh(12, key[1]), "<#>"
                elif key[0] == "f":
                    hk, pr = hh(13, sh(str(key[1]))), ".%s" % (key[1],)
                else:
                    hk, pr = hh(14, sh(str(key))), ".v%s" % "_".join(str(x) for x in key[1:])
                r = k[key] = Tok(hh(v.h, hk), v.prov + pr, key[1] if key[0] == "i" else v.ix)
            return r
        if t is Arr:
            r = v.get(key)
            if r is not None:
                return r
            return self.child(v.base, key)
        if t is Slab:
            while True:
                if key[0] == "i":
                    j = key[1] - v.o & M64
                    if j < v.n:
                        return self.slabat(v, j)
                v = v.base
                if type(v) is not Slab:
                    return self.child(v, key)
        if t is Fill:
            return v.v if key[0] == "i" else self.und
        if t is Comp:
            return v.ev.compat(v, key[1]) if key[0] == "i" else self.und
        if t is Agg:
            if key[0] == "f" and isinstance(key[1], int) and key[1] < len(v.f):
                return v.f[key[1]]
            if key[0] == "vf":
                if isinstance(v.tag, tuple) and v.tag[2] == key[1] and key[2] < len(v.f):
                    return v.f[key[2]]
                return self.und
            if key[0] == "i" and key[1] < len(v.f):
                return v.f[key[1]]
            return self.und
        if t is Sl:
            if key[0] == "i":
                return self.child(v.c, ("i", v.off + key[1] & M64))
            return self.child(v.c, key)
        if t is tuple:
            return self.und
        return Tok(hh(self.vh(v), sh(str(key))), "?")

    def slabat(self, v, j):
        self.fuel -= 1
        if self.fuel < 0:
            raise Void("fuel")
        x = self.child(v.new, ("i", j))
        if type(x) is Tok and v.w is not None:
            x = ("I", v.w, self.typed(x, v.w)) if v.w != "bool" else ("B", self.typed(x, v.w))
        return x

    def compat(self, c, k):
        r = c.memo.get(k)
        if r is None:
            lev, body = c.t.args
            save = self.env
            self.env = dict(c.env)
            f = Frame()
            self.nframe += 1
            f.id, f.vals, f.K, f.nxt = self.nframe, (), k, None
            self.env[lev] = f
            r = self.box(body, self.ev(body))
            self.env = save
            c.memo[k] = r
        return r

    def setpath(self, c, path, v):
        if not path:
            return v
        k = path[0]
        t = type(c)
        if t is Agg:
            j = None
            if k[0] == "f" and isinstance(k[1], int) and k[1] < len(c.f):
                j = k[1]
            elif k[0] == "vf" and isinstance(c.tag, tuple) and c.tag[2] == k[1]:
                j = k[2]
            elif k[0] == "i" and c.tag == "array" and k[1] < len(c.f):
                j = k[1]
            if j is not None:
                return Agg(c.tag, c.f[:j] + (self.setpath(c.f[j], path[1:], v),) + c.f[j + 1:])
        new = self.setpath(self.child(c, k), path[1:], v)
        if t is Arr:
            return c.put(k, new)
        return Arr(c, {k: new})

    def same(self, a, b):
        """equality of two values, reading opaque ones at the width of the other"""
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta is tuple:
            if tb is tuple:
                return a[-1] == b[-1]
            if tb is Tok:
                return self.typed(b, a[1] if a[0] == "I" else "bool") == a[-1]
            return False
        if tb is tuple:
            return self.same(b, a)
        if ta is Tok and tb is Tok:
            return a.h == b.h
        if ta is Agg and tb is Tok and a.tag == "tuple":
            return all(self.same(x, self.child(b, ("f", i))) for i, x in enumerate(a.f))
        if tb is Agg and ta is Tok and b.tag == "tuple":
            return self.same(b, a)
        if ta is Agg and tb is Agg:
            va, vb = self.vecview(a), self.vecview(b)
            if va is not None and vb is not None:
                return len(va) == len(vb) and all(self.same(x, y) for x, y in zip(va, vb))
            return a.tag == b.tag and len(a.f) == len(b.f) and all(self.same(x, y) for x, y in zip(a.f, b.f))
        if ta is Sl and tb is Sl:
            if a.kind != b.kind:
                return False
            if a.kind == "s":
                if a.ln != b.ln:
                    return False
                if a.ln <= FULL:
                    for j in range(a.ln):
                        if not self.same(self.child(a.c, ("i", a.off + j & M64)), self.child(b.c, ("i", b.off + j & M64))):
                            return False
                elif not (a.off == b.off and self.same(a.c, b.c)):
                    return False
            elif a.off != b.off or not self.same(a.c, b.c):
                return False
            return len(a.ex) == len(b.ex) and all(x[0] == y[0] and self.same(x[1], y[1]) for x, y in zip(a.ex, b.ex))
        if ta is Tok and tb is Sl:
            return self.same(b, a)
        if ta is Sl and tb is Tok and a.kind == "s":
            # an opaque slice value against a described slice
            n = self.num(hh(b.h, sh("len")), 64, "len:" + b.prov, b.ix)
            return n == a.ln and (n == 0 or a.off == 0 and type(a.c) is Tok and a.c.prov == "*" + b.prov)
        if ta in (Arr, Slab, Tok, Fill, Comp, Agg) and tb in (Arr, Slab, Tok, Fill, Comp, Agg):
            ba, oa = self.flat(a)
            bb, ob = self.flat(b)
            if ba is not bb and not self.samebase(ba, bb):
                return False
            for k in oa.keys() | ob.keys():
                x = oa.get(k)
                y = ob.get(k)
                if x is None:
                    x = self.child(ba, k)
                if y is None:
                    y = self.child(bb, k)
                if not self.same(x, y):
                    return False
            return True
        return self.vh(a) == self.vh(b)

    def samebase(self, a, b):
        if type(a) is Fill and type(b) is Fill:
            return self.same(a.v, b.v)
        if type(a) is Tok and type(b) is Tok:
            return a.h == b.h
        if type(a) in (Fill, Comp) and type(b) in (Fill, Comp):
            # an uninitialised backing store shows nothing
            if type(a) is Fill and a.v is self.und or type(b) is Fill and b.v is self.und:
                return True
            return all(self.same(self.child(a, ("i", j)), self.child(b, ("i", j))) for j in range(16))
        return self.vh(a) == self.vh(b)

    def flat(self, v):
        ov = {}
        chain = []
        while type(v) in (Arr, Slab):
            self.tire(len(v.tab[1]) if type(v) is Arr else v.n)
            chain.append(v.ov if type(v) is Arr else {("i", v.o + j & M64): self.slabat(v, j) for j in range(v.n)})
            v = v.base
        for o in reversed(chain):
            ov.update(o)
        return v, ov

    def vecview(self, a):
        """elements of a vector value (content, length)"""
        if a.tag == "tuple" and len(a.f) == 2 and type(a.f[1]) is tuple and a.f[1][0] == "I" and a.f[1][1] == 64:
            n = a.f[1][2]
            if n > FULL and type(a.f[0]) in (Arr, Slab):
                return [self.child(a.f[0], ("i", j)) for j in spots(n)]
            if n <= FULL and type(a.f[0]) in (Arr, Slab, Fill, Comp):
                return [self.child(a.f[0], ("i", j)) for j in range(n)]
        return None

    def listh(self, xs, w=None):
        for x in xs:
            if w is None and type(x) is tuple:
                w = x[1] if x[0] == "I" else "bool"
        return hh(21, len(xs), *[(hh(1, self.typed(x, w)) if w is not None and type(x) in (Tok, tuple) else self.vh(x)) for x in xs])

    def tire(self, n):
        if n > SLAB:
            self.fuel -= n >> 2
            if self.fuel < 0:
                raise Void("fuel")

    def isbig(self, v):
        n = 0
        while type(v) in (Arr, Slab):
            if type(v) is Slab and v.n > SLAB:
                return True
            if type(v) is Slab:
                n += v.n
            elif len(v.tab[1]) > SLAB:
                self.tire(len(v.tab[1]))
                n += len(v.ov)
            else:
                n += len(v.tab[1]) and len(v.ov)
            if n > SLAB:
                return True
            v = v.base
        return False

    def vh(self, v):
        t = type(v)
        if t is tuple:
            return hh(1, int(v[-1]))
        if t is Tok:
            return v.h
        if t is int or t is bool:
            return hh(1, int(v))
        if v.h is not None:
            return v.h
        if t is Agg:
            vv = self.vecview(v)
            if vv is not None:
                r = self.listh(vv)
                if v.f[1][2] > FULL:
                    r = hh(20, v.f[1][2], r)
            else:
                r = hh(31, sh(str(v.tag)), *[self.vh(x) for x in v.f])
        elif t is Fill:
            r = hh(32, self.vh(v.v))
        elif t is Comp:
            r = hh(33, *[self.vh(self.compat(v, j)) for j in range(12)])
        elif (t is Arr or t is Slab) and self.isbig(v):
            # equal contents must hash alike however they came about; large ones are read at fixed places only
            b = v
            while type(b) in (Arr, Slab):
                b = b.base
            r = hh(40, self.vh(b), *[self.vh(self.child(v, ("i", j))) for j in spots(1 << 18)])
        elif t is Arr or t is Slab:
            b, ov = self.flat(v)
            es = []
            for k, x in ov.items():
                if self.same(self.child(b, k), x):
                    continue
                es.append((hh(sh(str(k))), self.vh(x)))
            es.sort()
            r = self.vh(b)
            if es:
                r = hh(34, r, *[y for e in es for y in e])
        elif t is Sl:
            if v.kind == "s" and v.ln <= FULL:
                r = self.listh([self.child(v.c, ("i", v.off + j & M64)) for j in range(v.ln)], v.w)
            elif v.kind == "s" and type(v.c) in (Arr, Slab):
                r = hh(20, v.ln, self.listh([self.child(v.c, ("i", v.off + j & M64)) for j in spots(v.ln)], v.w))
            elif v.kind == "r":
                r = hh(36, self.vh(v.c))
            else:
                r = hh(37, v.off, self.vh(v.c), v.ln)
            for n, x in v.ex:
                r = hh(38, r, sh(n), self.vh(x))
        elif t is Ref:
            r = hh(39, sh(str(v.root)), *([self.vh(x[1]) if x[0] == "i" else sh(str(x)) for x in v.path] + [v.off if v.off is not None else 0, v.ln if v.ln is not None else 0]))
        else:
            raise T.Unsupported("value")
        v.h = r
        return r

    # ------------------------------------------------------------ evaluation
    def box(self, t, v):
        if type(v) is int:
            return ("I", t.ty if isinstance(t.ty, int) else 64, v)
        if type(v) is bool:
            return ("B", v)
        return v

    def slot(self, t):
        """where the value of t under the present bindings is kept: with the innermost frame it depends on"""
        bl = t.bl if t.bl is not None else T.bvlevels(t)
        if not bl:
            return self.memo, t.id
        if len(bl) == 1:
            l, = bl
            return self.env[l].memo, t.id
        ls = sorted(bl)
        return self.env[ls[-1]].memo, (t.id,) + tuple([self.env[l].id for l in ls[:-1]])

    def ev(self, t):
        op = t.op
        if op == "c":
            return t.args[0]
        if op == "b":
            return bool(t.args[0])
        memo, k = self.slot(t)
        r = memo.get(k)
        if r is None:
            self.fuel -= 1
            if self.fuel < 0:
                raise Void("fuel")
            f = DISPATCH.get(op)
            if f is None:
                raise T.Unsupported("interpretation of " + op)
            r = f(self, t)
            if isinstance(t.ty, int) and type(r) is not int or t.ty == "bool" and type(r) is not bool:
                if type(r) is bool:
                    r = int(r)
                elif type(r) is int:
                    r = bool(r)
                else:
                    r = self.typed(r, t.ty)
            memo[k] = r
        return r

    def evb(self, t):
        return self.box(t, self.ev(t))

    def path(self, p):
        out = []
        for e in p:
            if e[0] == "i":
                i = self.ev(e[1])
                if type(i) is not int:
                    i = self.typed(i, 64)
                out.append(("i", i))
            elif e[0] == "p":
                out.append(("p", self.vh(self.evb(e[1]))))
            else:
                out.append(e)
        return out

    def run_loop(self, t):
        """trajectory of a loop term: list of frames, last one is the exit frame"""
        lev, tys, inits, nexts, cont = t.args[:5]
        bl = set()
        for x in nexts + (cont,):
            bl |= T.bvlevels(x)
        bl.discard(lev)
        for x in inits:
            bl |= T.bvlevels(x)
        key = (lev, inits, nexts, cont) + tuple(self.env[l].id for l in sorted(bl))
        r = self.traj.get(key)
        if r is not None:
            if r == "void":
                raise Void("loop")
            return r
        self.traj[key] = "void"
        vals = tuple(self.ev(x) for x in inits)
        save = self.env.get(lev)
        K = 0
        while True:
            f = Frame()
            self.nframe += 1
            f.id, f.vals, f.K, f.nxt = self.nframe, vals, K, None
            self.env[lev] = f
            if not self.ev(cont):
                break
            if K >= self.cap:
                if save is not None:
                    self.env[lev] = save
                raise Void("loop")
            vals = tuple(self.ev(x) for x in nexts)
            K += 1
        if save is not None:
            self.env[lev] = save
        self.traj[key] = f
        return f


def _fin(s, t):
    f = s.run_loop(t)
    lev = t.args[0]
    save = s.env.get(lev)
    s.env[lev] = f
    r = s.ev(t.args[5])
    if save is not None:
        s.env[lev] = save
    return r


def _bv(s, t):
    f = s.env[t.args[0]]
    if t.args[1] == "K":
        return f.K
    v = f.vals[t.args[1]]
    if type(v) is tuple and t.ty is not None:
        return v[-1]
    if t.ty is None and type(v) in (int, bool):
        return ("I", 64, v) if type(v) is int else ("B", v)
    return v


def _poly(s, t):
    r = t.args[0]
    for c, m in t.args[1]:
        p = c
        for x in m:
            p *= s.ev(x)
        r += p
    return r & ((1 << t.ty) - 1)


def _bin(op):
    def f(s, t):
        w = t.ty
        a, b = s.ev(t.args[0]), s.ev(t.args[1])
        if op in ("udiv", "sdiv", "urem", "srem"):
            v = T._cdiv(op, w, a, b)
            return 0 if v is None else v
        return T._bitop(op, w, a, b)
    return f


def _mul(s, t):
    return s.ev(t.args[0]) * s.ev(t.args[1]) & ((1 << t.ty) - 1)


def _sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def _sext(s, t):
    x = t.args[0]
    return _sx(s.ev(x), x.ty) & ((1 << t.ty) - 1)


def _lt(s, t):
    sg, a, b = t.args
    x, y = s.ev(a), s.ev(b)
    if sg:
        x, y = _sx(x, a.ty), _sx(y, b.ty)
    return x < y


def _dd(s, t):
    while t.op == "dd":
        t = t.args[1] if s.ev(t.args[0]) else t.args[2]
    return s.ev(t)


def _sym(s, t):
    nm = t.args[0]
    if t.ty == "bool":
        return s.boolean(hh(s.seed, sh(nm)), nm)
    if t.ty is not None:
        return s.num(hh(s.seed, sh(nm)), t.ty, nm)
    r = s.tops.get(nm)
    if r is None:
        r = s.tops[nm] = Tok(hh(s.seed, sh(nm)), nm)
    return r


def rank(s, v, d=6):
    """how many state changes by uninterpreted calls lie behind an opaque value"""
    k = type(v)
    if k is Tok:
        return s.ranks.get(v.h, 0)
    if d and k is Agg:
        return max([rank(s, x, d - 1) for x in v.f], default=0)
    if d and k is Sl:
        return rank(s, v.c, d - 1)
    return 0


_prov = {}


def ufprov(t):
    r = _prov.get(t)
    if r is None:
        name, key, _ = t.args
        r = _prov[t] = name, str(key[-1]) if key and key[-1] in ("ok", "some") else "/".join(str(x) for x in key)
    return r


def _uf(s, t):
    name, key, args = t.args
    if name == "!cut":
        raise Void("recursion")
    vs = [s.evb(a) for a in args]
    h = hh(s.seed, sh(name), sh(str(key)), *[s.vh(v) for v in vs])
    nm, k = ufprov(t)
    prov = "%s:%s" % (nm, k)
    n = max([rank(s, v) for v in vs], default=0)
    nth = "%s@%d:%s" % (nm, n, k)
    if nth in s.hints or prov not in s.hints:
        prov = nth
    if t.ty == "bool":
        return s.boolean(h, prov)
    if t.ty is not None:
        v = s.num(h, t.ty, prov)
        c = CONTRACT.get(name)
        return v if c is None or key[0] != "ret" or not args else c(v, s.ev(args[-1]), mix(h ^ 0x77))
    if key[0] == "upd":
        s.ranks[h] = n + 1
    return Tok(h, prov)


# what a bit reader promises about its results: n bits are below 2^n, at most `max` zeros are counted
CONTRACT = {
    "bits::BitsReader::get_bits": lambda v, n, h: v & ((1 << n) - 1) if n < 32 else v,
    "bits::BitsReader::get_zeros": lambda v, m, h: v if v <= m else m if h % 3 == 0 else h % (m + 1),
}


def _sel(s, t):
    c, p = t.args
    v = s.evb(c)
    for e in s.path(p):
        v = s.child(v, e)
    if t.ty is not None:
        return s.typed(v, t.ty)
    return v


def _store(s, t):
    c, p, v = t.args
    return s.setpath(s.evb(c), s.path(p), s.evb(v))


def _agg(s, t):
    return Agg(t.args[0], tuple(s.evb(x) for x in t.args[1:]))


def _rng(s, t):
    old, off, ln, new, w = t.args
    o, n = s.ev(off), s.ev(ln)
    oldv = s.evb(old)
    if n == 0:
        return oldv
    if n > max(4096, 4 * s.cap):
        raise Void("long range")
    newv = s.evb(new)
    if n > SLAB or n > 64 and (type(oldv) is Slab or type(oldv) is Arr and len(oldv.tab[1]) > SLAB):
        return Slab(oldv, o, n, newv, w)
    ov = {}
    for j in range(n):
        x = s.child(newv, ("i", j))
        if type(x) is Tok and w is not None:
            x = ("I", w, s.typed(x, w)) if w != "bool" else ("B", s.typed(x, w))
        ov[("i", o + j & M64)] = x
    if type(oldv) is Arr:
        d = dict(oldv.ov)
        d.update(ov)
        return Arr(oldv.base, d)
    return Arr(oldv, ov)


def _scat(s, t):
    old, lev, off, rl, n, u = t.args
    cur = s.evb(old)
    un = s.evb(u)
    cnt = s.ev(n)
    if cnt > max(512, s.cap):
        raise Void("long scatter")
    save = s.env.get(lev)
    ov = {}
    for k in range(cnt):
        f = Frame()
        s.nframe += 1
        f.id, f.vals, f.K, f.nxt = s.nframe, (), k, None
        s.env[lev] = f
        o, l = s.ev(off), s.ev(rl)
        if l > max(512, s.cap):
            raise Void("long row")
        row = s.child(un, ("i", k))
        for j in range(l):
            ov[("i", o + j & M64)] = s.child(row, ("i", j))
    if save is not None:
        s.env[lev] = save
    if type(cur) is Arr:
        d = dict(cur.ov)
        d.update(ov)
        return Arr(cur.base, d)
    return Arr(cur, ov)


def _comp(s, t):
    return Comp(s, t, dict(s.env))


def _perm(s, t):
    c, n = t.args
    v, k = s.evb(c), s.ev(n)
    if k > max(256, s.cap // 4):
        raise Void("long collection")
    xs = [s.child(v, ("i", j)) for j in range(k)]
    h = hh(s.seed, sh("perm"), k)
    if h % 4:
        order = sorted(range(k), key=lambda j: hh(h, j))
    else:
        order = range(k)
    return Arr(Fill(s.und), {("i", j): xs[o] for j, o in enumerate(order)})


def _discr(s, t):
    v = s.evb(t.args[0])
    vs = t.args[1]
    w = t.ty
    if type(v) is Agg and isinstance(v.tag, tuple):
        i = v.tag[2]
        return (vs[i] if i < len(vs) else i) & ((1 << w) - 1)
    if type(v) is Arr:
        b, ov = s.flat(v)
        if type(b) is Agg and isinstance(b.tag, tuple):
            i = b.tag[2]
            return (vs[i] if i < len(vs) else i) & ((1 << w) - 1)
    if type(v) is Tok:
        g = s.hints.get(v.prov + "?")
        if g is not None:
            i = g(s, mix(v.h), v.ix) if callable(g) else g
        else:
            i = mix(v.h ^ 0x1234567) % max(1, len(vs) or 2)
            if len(vs) > 20:
                # error kinds: often those the code asks about
                k = hh(s.seed, v.h)
                near = sorted({c for c in s.pool if 0 <= c < len(vs)})
                i = near[(k >> 8) % len(near)] if near and k & 1 else (k >> 8) % len(vs)
            if t.args[2] == "Option" and len(vs) == 2:
                i = 1 if mix(v.h ^ 0x1234567) % 4 else 0
            if t.args[2] == "Result" and len(vs) == 2:
                i = 0 if mix(v.h ^ 0x1234567) % 8 else 1
        return (vs[i] if i < len(vs) else i) & ((1 << w) - 1)
    if type(v) is tuple:
        return v[-1] & ((1 << w) - 1)
    return s.typed(v, w)


def _ln(s, t):
    v = s.evb(t.args[0])
    if type(v) is Ref and v.ln is not None:
        return v.ln
    if type(v) is Sl:
        return v.ln
    if type(v) is Tok:
        return s.num(hh(v.h, sh("len")), 64, "len:" + v.prov, v.ix)
    return s.num(hh(s.vh(v), sh("len")), 64, "len:")


def _ref(s, t):
    return Ref(t.args[0], tuple(("i", ("I", 64, s.ev(x[1]))) if x[0] == "i" else x for x in t.args[1]), None, None)


def _sref(s, t):
    return Ref(t.args[0], tuple(("i", ("I", 64, s.ev(x[1]))) if x[0] == "i" else x for x in t.args[1]), s.ev(t.args[2]), s.ev(t.args[3]))


def _ex(s, ex):
    return [(n, s.evb(x)) for n, x in ex]


def _snap(s, t):
    c, ex = t.args
    v = s.evb(c)
    if not ex:
        return Sl("r", v, 0, 0, (), None)
    return Sl("r", v, 0, 0, _ex(s, ex), None)


def _snaps(s, t):
    c, off, ln, ex, w = t.args
    return Sl("s", s.evb(c), s.ev(off), s.ev(ln), _ex(s, ex), w)


def _snapp(s, t):
    c, pos, ex = t.args
    return Sl("p", s.evb(c), s.ev(pos), 0, _ex(s, ex), None)


def _hash(s, t):
    def enc(a):
        if isinstance(a, Term):
            return s.vh(s.evb(a))
        if isinstance(a, tuple):
            return hh(*[enc(x) for x in a]) if a else 5
        return sh(repr(a))
    h = hh(s.seed, sh(t.op), *[enc(a) for a in t.args])
    return _ofty(s, h, t)


def _ofty(s, h, t):
    if t.ty == "bool":
        return s.boolean(h, t.op)
    if t.ty is not None:
        return s.num(h, t.ty, t.op)
    return Tok(h, t.op)


def _konst(s, t):
    h = hh(sh("konst"), *[sh(str(a)) for a in t.args])
    return _ofty(s, h, t)


def _cmpeq(s, t):
    return s.same(s.evb(t.args[0]), s.evb(t.args[1]))


def _cmp3(s, t):
    l, q = s.ev(t.args[0]), s.ev(t.args[1])
    return Agg(("v", "std::cmp::Ordering", 0 if l else 1 if q else 2), ())


def _bitfn(s, t):
    m, x = t.args
    v, w = s.ev(x), x.ty
    b = bin(v)[2:].zfill(w)
    M = (1 << w) - 1
    r = {"leading_zeros": lambda: w - v.bit_length(), "trailing_zeros": lambda: w if v == 0 else (v & -v).bit_length() - 1,
         "count_ones": lambda: b.count("1"), "leading_ones": lambda: w - (v ^ M).bit_length(),
         "trailing_ones": lambda: w if v == M else ((v ^ M) & -(v ^ M)).bit_length() - 1,
         "swap_bytes": lambda: int.from_bytes(v.to_bytes(w // 8, "big"), "little"), "reverse_bits": lambda: int(b[::-1], 2)}[m]()
    return r


def _undef(s, t):
    return s.und


DISPATCH = {
    "poly": _poly, "mul": _mul, "sext": _sext, "zext": lambda s, t: s.ev(t.args[0]),
    "trunc": lambda s, t: s.ev(t.args[0]) & ((1 << t.ty) - 1),
    "pow2": lambda s, t: 1 << (s.ev(t.args[0]) % t.ty),
    "pow2k": lambda s, t: (1 << s.ev(t.args[0])) if s.ev(t.args[0]) < t.ty else 0,
    "eq0": lambda s, t: s.ev(t.args[0]) == 0,
    "lt": _lt, "tb": lambda s, t: s.typed(s.evb(t.args[0]), "bool") if t.args[0].ty != "bool" else s.ev(t.args[0]),
    "dd": _dd, "sym": _sym, "uf": _uf, "sel": _sel, "store": _store, "agg": _agg, "fin": _fin, "bv": _bv,
    "comp": _comp, "fill": lambda s, t: Fill(s.evb(t.args[0])), "rng": _rng, "scat": _scat, "perm": _perm,
    "discr": _discr, "ln": _ln, "ref": _ref, "sref": _sref, "snap": _snap, "snaps": _snaps, "snapp": _snapp,
    "band": lambda s, t: bool(s.ev(t.args[0])) and bool(s.ev(t.args[1])),
    "bimp": lambda s, t: not s.ev(t.args[0]) or bool(s.ev(t.args[1])),
    "konst": _konst, "str": _konst, "ioerr": _konst, "tryfrom": _konst, "gop": _hash, "fld": _hash, "fnv": _hash, "deep": _konst,
    "cmpeq": _cmpeq, "cmp3": _cmp3, "bitfn": _bitfn, "undef": _undef, "uninit": _undef,
}
for _o in ("udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
    DISPATCH[_o] = _bin(_o)
