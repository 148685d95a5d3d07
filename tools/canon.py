"""canonical text of a body (type ids resolved, spans dropped) and of everything it reaches; used by tools only, to skip obligations
an edit cannot have changed."""
import hashlib, re


def canon(prog, b):
    def ty(i):
        return repr(prog.ty(i)) if isinstance(i, int) else repr(i)

    def go(x):
        if isinstance(x, dict):
            return tuple((k, ty(v) if k == "t" and isinstance(v, int) else tuple(map(ty, v)) if k == "a" and isinstance(v, list)
                          else go(v)) for k, v in sorted(x.items()) if k not in ("sp", "span"))
        if isinstance(x, list):
            if len(x) == 3 and isinstance(x[0], int) and isinstance(x[1], list) and isinstance(x[2], int):
                return (x[0], go(x[1]), ty(x[2]))
            if x and isinstance(x[0], str):
                if x[0] == "f" and len(x) == 3:
                    return ("f", x[1], ty(x[2]))
                if x[0] == "cast" and len(x) == 5:
                    return ("cast", x[1], go(x[2]), ty(x[3]), ty(x[4]))
                if x[0] in ("bin", "un"):
                    return tuple(map(go, x[:-1])) + (ty(x[-1]),)
                if x[0] == "switch":
                    return ("switch", go(x[1]), ty(x[2])) + tuple(map(go, x[3:]))
                if x[0] == "=" and len(x) == 4:
                    return ("=", go(x[1]), go(x[2]))
                if x[0] == "sd":
                    return ("sd",) + tuple(map(go, x[1:3]))
            return tuple(map(go, x))
        return x
    return repr((b["name"] if "name" in b else "", b["argc"], [ty(t) for t, _ in b["locals"]], go(b["bbs"]),
                 [canon(prog, p) for p in b.get("promoted", [])]))


def closures(prog):
    text = {n: canon(prog, b.raw) for n, b in prog.bodies.items()}
    names = set(text)
    tail = {}
    for n in names:
        tail.setdefault(n.rsplit("::", 1)[-1], set()).add(n)
    refs = {}
    for n, s in text.items():
        r = set()
        for m in re.findall(r"'([^']*)'", s):
            m2 = m
            if m2 in names:
                r.add(m2)
            t = m2.rsplit("::", 1)[-1]
            if "::" in m2 and t in tail:
                r |= tail[t]
        r |= {c for c in names if c.startswith(n + "::{closure")}
        refs[n] = r
    out = {}
    for n in names:
        seen, todo = {n}, [n]
        while todo:
            for m in refs[todo.pop()]:
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        out[n] = hashlib.sha1("\n".join(text[m] for m in sorted(seen)).encode()).hexdigest()
    return out
