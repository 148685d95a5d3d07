"""Loading of MIR dumps: resolved types, bodies, control-flow structure."""
import re


def norm(path):
    """strip lifetimes and generic arguments from a def path"""
    out, i, n = [], 0, len(path)
    depth = 0
    # keep a leading qualified-self "<A as B>" but strip generics inside
    while i < n:
        c = path[i]
        if c == "<":
            # qualified self or `<impl ..>` at start of a segment
            if i == 0 or path.startswith("<impl", i):
                j, d = i, 0
                while True:
                    if path[j] == "<":
                        d += 1
                    elif path[j] == ">" and path[j - 1] != "-":
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                inner = path[i + 1:j]
                if path.startswith("<impl", i):
                    out.append("<" + inner + ">")
                else:
                    out.append("<" + " as ".join(norm(x) for x in inner.split(" as ", 1)) + ">")
                i = j + 1
                continue
            j, d = i, 0
            while True:
                if path[j] == "<":
                    d += 1
                elif path[j] == ">" and path[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            s = "".join(out)
            if s.endswith("::"):
                out = [s[:-2]]
            continue
        out.append(c)
        i += 1
    return "".join(out).replace("&'a ", "&").strip()


class Body:
    pass


class Program:
    def __init__(self, dump):
        self.d = dump
        self.is_spec = dump.get("crate") == "gfwxspec"
        self.types = dump["types"]
        self._t = {}
        self.adts = {}
        for p, a in dump["adts"].items():
            self.adts[norm(p)] = a
        self.fieldmap = {}
        self.bodies = {}
        self.byraw = {}
        for b in dump["bodies"]:
            self._add(b)

    def _add(self, b):
        r = Body()
        r.name = norm(b["name"])
        r.raw = b
        r.prog = self
        r.argc = b["argc"]
        r.ltys = [self.ty(t) for t, _ in b["locals"]]
        r.lnames = [n for _, n in b["locals"]]
        r.bbs = b["bbs"]
        r.generics = b.get("generics", [])
        r.kind = b.get("kind")
        r.promoted = []
        for p in b.get("promoted", []):
            q = Body()
            q.name = r.name + "::promoted"
            q.raw, q.prog, q.argc = p, self, 0
            q.ltys = [self.ty(t) for t, _ in p["locals"]]
            q.lnames = [n for _, n in p["locals"]]
            q.bbs, q.generics, q.kind, q.promoted = p["bbs"], r.generics, "promoted", []
            q._cfg = None
            r.promoted.append(q)
        r._cfg = None
        self.byraw[b["name"]] = r
        r.ambiguous = r.name in self.bodies
        self.bodies[r.name] = r
        return r

    def ty(self, i):
        r = self._t.get(i)
        if r is None:
            t = self.types[i]
            k = t["k"]
            if k == "int":
                r = ("int", t["w"], t["s"])
            elif k in ("ref", "ptr"):
                r = (k, t["mut"], self.ty(t["t"]))
            elif k == "slice":
                r = ("slice", self.ty(t["t"]))
            elif k == "array":
                r = ("array", self.ty(t["t"]), t["n"])
            elif k == "tuple":
                r = ("tuple",) + tuple(self.ty(x) for x in t["a"])
            elif k == "adt":
                r = ("adt", norm(t["p"])) + tuple(self.ty(x) if isinstance(x, int) else ("const", x) for x in t["a"])
            elif k == "closure":
                r = ("closure", norm(t["p"]), tuple(self.ty(x) for x in t["u"]))
            elif k == "fndef":
                r = ("fndef", norm(t["p"])) + tuple(self.ty(x) if isinstance(x, int) else ("const", x) for x in t["a"])
            elif k == "param":
                r = ("param", t["n"])
            elif k == "other":
                r = ("other", t["s"])
            else:
                r = (k,)
            self._t[i] = r
        return r

    def map_fields(self, spec):
        """canonical field index = the spec's index of the field of that name"""
        for p, a in self.adts.items():
            s = spec.adts.get(p)
            if not s or not a.get("local") or len(s["v"]) != len(a["v"]):
                continue
            for vi, (va, vs) in enumerate(zip(a["v"], s["v"])):
                na = [f["n"] for f in va["f"]]
                ns = [f["n"] for f in vs["f"]]
                if na == ns:
                    continue
                m = {i: ns.index(n) for i, n in enumerate(na) if n in ns}
                free = [j for j in range(len(ns)) if j not in m.values()]
                for i in range(len(na)):
                    if i not in m:
                        m[i] = free.pop(0) if free else 100 + i
                self.fieldmap[(p, vi)] = m

    def fidx(self, adt, vi, k):
        m = self.fieldmap.get((adt, vi))
        return m[k] if m else k


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        out = [b for _, b in t[3]] + [t[4]]
        return list(dict.fromkeys(out))
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] >= 0 else []
    if k == "assert":
        return [t[5]]
    return []


class Cfg:
    def __init__(self, body):
        self.body = body
        n = len(body.bbs)
        self.succ = [succs(b["t"]) for b in body.bbs]
        # unreachable-terminated targets are dropped
        self.pred = [[] for _ in range(n)]
        order, seen = [], set()

        def dfs(root):
            stack = [(root, iter(self.succ[root]))]
            seen.add(root)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ[s])))
                        break
                else:
                    order.append(b)
                    stack.pop()
        dfs(0)
        self.rpo = order[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.num[x] > self.num[y]:
                            x = idom[x]
                        while self.num[y] > self.num[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom
        # loops
        self.loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if self.num[s] <= self.num[b]:
                    if not self.dominates(s, b):
                        self.irreducible = True
                        continue
                    body_ = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body_:
                            body_.add(x)
                            st.extend(self.pred[x])
        # blocks that can return
        can = set()
        work = [b for b in self.rpo if body.bbs[b]["t"][0] == "ret"]
        while work:
            b = work.pop()
            if b in can:
                continue
            can.add(b)
            work.extend(self.pred[b])
        self.canret = can
        self._live()

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _live(self):
        body = self.body
        addr = set()

        def place_uses(p, out):
            out.add(p[0])
            for e in p[1]:
                if e[0] == "i":
                    out.add(e[1])

        def op_uses(o, out):
            if o[0] in ("cp", "mv"):
                place_uses(o[1], out)

        def rv_uses(r, out):
            k = r[0]
            if k in ("use",):
                op_uses(r[1], out)
            elif k == "repeat":
                op_uses(r[1], out)
            elif k in ("ref", "rawptr"):
                place_uses(r[2], out)
                if not any(e[0] == "*" for e in r[2][1]):
                    addr.add(r[2][0])
            elif k == "cast":
                op_uses(r[2], out)
            elif k == "bin":
                op_uses(r[2], out)
                op_uses(r[3], out)
            elif k == "un":
                op_uses(r[2], out)
            elif k == "discr":
                place_uses(r[1], out)
            elif k == "agg":
                for o in r[2]:
                    op_uses(o, out)
        use, de = {}, {}
        for b in self.rpo:
            u, d = set(), set()
            bb = body.bbs[b]
            for s in bb["s"]:
                if s[0] == "=":
                    us = set()
                    rv_uses(s[2], us)
                    if s[1][1]:
                        place_uses(s[1], us)
                    u |= us - d
                    if not s[1][1]:
                        d.add(s[1][0])
                elif s[0] == "dead":
                    d.add(s[1])
                elif s[0] == "sd":
                    us = set()
                    place_uses(s[1], us)
                    u |= us - d
                elif s[0] == "assume":
                    us = set()
                    op_uses(s[1], us)
                    u |= us - d
            t = bb["t"]
            us = set()
            if t[0] == "switch":
                op_uses(t[1], us)
            elif t[0] == "call":
                op_uses(t[1], us)
                for a in t[2]:
                    op_uses(a, us)
                if t[3][1]:
                    place_uses(t[3], us)
            elif t[0] == "assert":
                op_uses(t[1], us)
                for a in t[4]:
                    op_uses(a, us)
            elif t[0] == "ret":
                us.add(0)
            u |= us - d
            use[b], de[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    o |= live.get(s, set())
                i = use[b] | (o - de[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.livein = live
        self.addr = addr


def cfg(body):
    if body._cfg is None:
        body._cfg = Cfg(body)
    return body._cfg
