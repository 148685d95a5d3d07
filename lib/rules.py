"""Structural rules: queries over the resolved MIR, the impls and the types of /repo, and compile-fail witnesses."""
import json, os, re, subprocess
import mir

CONFIGS_OF = {"C14": ["default", "noparallel", "rayon"]}
LEVEL = {}
REL = "That the two halves are inverse to each other is decided relative to the reference: both must be the reference's halves."
NOTE = {
    "C01": REL, "C03": REL, "C05": REL, "C06": REL, "C08": REL, "C22": REL + " All stages are obligations.",
    "C12": "Also: whatever the reference accepts is processed without a failing access, division, unwrap or assertion; recursion on the decoding side is bounded.",
    "C13": "Also: every unchecked access of the public entry points is in range for every input (ghost conditions in the value graph); every unsafe operation "
           "lies in a function so analysed; only ImageChunkMut is Send/Sync by hand; programs that would alias, forge, clone or outlive a block are "
           "rejected by the type checker (compile-fail witnesses with compiling twins).",
    "C14": "The drivers are analysed under the default, noparallel and rayon features against one sequential reference; no function refers to threads, time, "
           "randomised hashing, atomics, locks or addresses; no mutable static; sharing non-Sync data across the parallel iteration does not type-check.",
    "C15": "Also: every Result is inspected, propagated or returned (dataflow over the resolved call sites).",
    "C17": "Also: every Result is inspected, propagated or returned (dataflow over the resolved call sites).",
    "C21": "Also: bounded recursion (call graph cycles, guard dependence) and no allocation size read from the input (taint over the value graph). Loops are "
           "those of the reference, or folds over a computed trip count.",
}
TECH = {
    "C12": "value-graph translation validation of MIR with access/panic ghosts; call-graph recursion rule",
    "C13": "MIR access-safety obligations in the value graph, unsafe-site coverage, unsafe-impl rule, compile-fail witnesses",
    "C14": "value-graph translation validation under three feature configurations, MIR effect rules, compile-fail witnesses",
    "C15": "value-graph translation validation of MIR; result-use dataflow",
    "C17": "value-graph translation validation of MIR; result-use dataflow",
    "C21": "call-graph recursion rule, allocation-size taint, value-graph translation validation of MIR",
}
EXPLAIN = ("Every listed function of /repo is compiled to MIR by rustc; an abstract interpreter turns the MIR (callees resolved, "
           "private ones inlined, loops summarised) into a value graph of its result, its effects on memory and its accesses, and "
           "compares that graph with the one of the reference function in /verif/spec. Equal normal forms prove the obligation; "
           "differing ones are searched for an interpretation that separates them (random interpretation), which is then reported "
           "with the function, the source position and the two sub-terms. Structural rules add queries over the call graph, "
           "unsafe code, statics, impls and result use.")
ASSUMPTIONS = ["arithmetic wraps (release profile); usize has 64 bits",
               "the reference crate /verif/spec states the intended behaviour",
               "library callees behave as modelled in lib/models.py; an unmodelled one makes an obligation undecided, never violated"]


class R:
    def __init__(self):
        self.violations, self.report = [], {}
        self.obligations = self.discharged = 0

    def rule(self, name, text, n, bad):
        """n sites examined, bad: list of violations"""
        seen = set()
        bad = [v for v in bad if not (v["key"] in seen or seen.add(v["key"]))]
        self.obligations += n
        self.discharged += n - min(n, len(bad))
        e = self.report.setdefault(name, {"rule": text, "sites": 0, "violations": 0})
        e["sites"] += n
        e["violations"] += len(bad)
        have = {v["key"] for v in self.violations}
        self.violations += [v for v in bad if v["key"] not in have]


def viol(rule, key, construct, span, msg, **kw):
    d = {"rule": rule, "key": key, "construct": construct, "file": span[0], "line": span[1], "message": msg}
    d.update(kw)
    return d


# ---------------------------------------------------------------- queries

def bodies(prog):
    for b in prog.byraw.values():
        if b.raw.get("derived") or "_IMPL_NUM" in b.name:
            continue
        yield b


def fnrefs(x, out):
    """every function constant in a MIR fragment"""
    if isinstance(x, dict):
        if x.get("k") == "fn":
            out.append(x)
        else:
            for y in x.values():
                fnrefs(y, out)
    elif isinstance(x, list):
        for y in x:
            fnrefs(y, out)
    return out


def calls(b):
    for bb in b.bbs:
        t = bb["t"]
        if t[0] == "call":
            f = t[1][1] if isinstance(t[1], list) and t[1] and t[1][0] == "k" and isinstance(t[1][1], dict) else None
            yield bb, t, f if f and f.get("k") == "fn" else None


def path_of(f):
    return mir.norm(f.get("res") or f["decl"])


ANY = re.compile
NONDET = ANY(r"(^|[<\s:])(std|core|alloc)::(thread|time|env|process|net|fs)::|::thread::(current|park|sleep|spawn)|rayon(_core)?::(current_|max_num|spawn|scope|join)"
             r"|RandomState|std::collections::(hash_map|hash_set|HashMap|HashSet)|std::sync::(atomic|Mutex|RwLock|Once|mpsc|LazyLock|OnceLock)"
             r"|core::sync::atomic|sync::atomic::|LocalKey|find_any|position_any|find_map_any|try_for_each_with|broadcast|getrandom|rand::")
MUTSTATE = ANY(r"UnsafeCell|Cell<|RefCell|Atomic|Mutex|RwLock|LazyLock|OnceCell|OnceLock|LazyCell|LocalKey")


def nondeterminism(prog, cfg, r):
    n, bad = 0, []
    for b in bodies(prog):
        for bb in b.bbs:
            for f in fnrefs(bb, []):
                n += 1
                p = path_of(f)
                m = NONDET.search(p) or NONDET.search(f["decl"])
                if m:
                    bad.append(viol("nondeterminism", "nondet:%s:%s" % (b.name, p), b.name, bb["sp"],
                                    "%s uses %s: results may depend on the machine, the scheduler or the time" % (b.name, p), config=cfg))
            for s in bb["s"]:
                if s[0] == "=" and isinstance(s[2], list) and s[2][0] == "cast" and "ExposeProvenance" in str(s[2][1]):
                    bad.append(viol("nondeterminism", "addr:%s" % b.name, b.name, s[3], "%s turns an address into a number" % b.name, config=cfg))
    r.rule("no-nondeterminism", "no function refers to thread identity or count, clocks, environment, randomised hashing, atomics or locks, "
           "order-dependent parallel operations, or addresses as numbers", n, bad)
    bad = []
    for s in prog.d["statics"]:
        if s["mut"] or not s["freeze"]:
            bad.append(viol("nondeterminism", "static:" + s["p"], s["p"], ["src", 0], "global mutable state %s" % s["p"], config=cfg))
    r.rule("no-global-state", "no static is mutable or has interior mutability", len(prog.d["statics"]), bad)


def impls(prog, cfg, r):
    n, bad = 0, []
    for i in prog.d["impls"]:
        n += 1
        if not i["unsafe"] or i["trait"] in ("std::clone::TrivialClone", "std::marker::TrivialClone"):
            continue
        t = (i["trait"] or "").split("::")[-1]
        if t in ("Send", "Sync") and i["self"].startswith("processing::image::ImageChunkMut<"):
            continue
        bad.append(viol("unsafe-impl", "impl:%s:%s" % (i["trait"], i["self"]), i["self"], i["span"],
                        "unsafe impl %s for %s asserts something no analysis here covers" % (i["trait"], i["self"]), config=cfg))
    r.rule("unsafe-impls", "only the block view ImageChunkMut is declared Send/Sync by hand", n, bad)


UNSAFE_FN = ANY(r"get_unchecked|from_raw_parts|ptr::|unchecked|transmute|MaybeUninit|set_len|assume_init|offset|copy_nonoverlapping|read_unaligned|write_unaligned|from_utf8_unchecked|zeroed|alloc::(alloc|dealloc)")


def unsafe_sites(b):
    """(span, what) of operations only unsafe code can contain"""
    for bb in b.bbs:
        t = bb["t"]
        if t[0] == "call":
            for f in fnrefs(t[1], []):
                p = path_of(f)
                if not f.get("local") and UNSAFE_FN.search(p) and not p.endswith("::is_null"):
                    yield bb["sp"], p
        for s in bb["s"]:
            if s[0] != "=":
                continue
            for pl in places(s[1:3]):
                ty = b.ltys[pl[0]]
                if pl[1] and pl[1][0] == ["*"] and ty[0] == "ptr":
                    yield s[3], "dereference of a raw pointer"


def places(x):
    """[local, projections, ty] triples inside a fragment"""
    if isinstance(x, list):
        if len(x) >= 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(p, list) and p and isinstance(p[0], str) for p in x[1]):
            yield x
        for y in x:
            yield from places(y)


def covered_unsafe(prog, cfg, r, analysed):
    n, bad = 0, []
    for b in bodies(prog):
        fn = b.name
        for sp, what in unsafe_sites(b):
            n += 1
            if fn not in analysed and fn.split("::{closure")[0] not in analysed:
                bad.append(viol("unsafe-coverage", "unsafe:%s" % fn, fn, sp,
                                "%s in %s lies outside every function whose accesses are analysed" % (what, fn), config=cfg))
    r.rule("unsafe-covered", "every unchecked access, raw-pointer dereference or other operation that needs `unsafe` lies in a function "
           "whose accesses the access-safety obligations track", n, bad)


CONSUME = ANY(r"::(ok|err|is_ok|is_err|unwrap_or|unwrap_or_default|unwrap_or_else|iter|as_ref)$")


def uses(b):
    """local -> list of (kind, detail) other than storage markers, drops and the defining assignment"""
    u = {}

    def add(l, k, d):
        u.setdefault(l, []).append((k, d))
    for bb in b.bbs:
        for s in bb["s"]:
            if s[0] in ("live", "dead", "fake", "nop"):
                continue
            if s[0] == "=":
                dst = s[1]
                if dst[1]:
                    add(dst[0], "proj-def", None)
                for pl in places(s[2]):
                    add(pl[0], "rv", dst)
            else:
                for pl in places(s[1:]):
                    add(pl[0], s[0], None)
        t = bb["t"]
        if t[0] == "drop":
            continue
        if t[0] == "call":
            for a in t[2]:
                for pl in places(a):
                    add(pl[0], "arg", t)
            for pl in places(t[1]):
                add(pl[0], "callee", t)
            if t[3][1]:
                add(t[3][0], "proj-def", None)
        else:
            for pl in places(t[1:]):
                add(pl[0], t[0], None)
    return u


def dropped_results(prog, cfg, r):
    n, bad = 0, []
    for b in bodies(prog):
        u = None
        for bb, t, f in calls(b):
            if f is None:
                continue
            dl = t[3][0]
            ty = b.ltys[dl]
            if t[3][1] or ty[0] != "adt" or ty[1] != "std::result::Result" or dl == 0:
                continue
            if len(ty) > 3 and ("Infallible" in str(ty[3]) or "fmt::Error" in str(ty[3])):
                continue
            p = path_of(f)
            n += 1
            if u is None:
                u = uses(b)

            def dead(l, depth=0):
                if l == 0 or depth > 6:
                    return False
                for k, d in u.get(l, ()):
                    if k == "arg" and d[1][0] == "k" and CONSUME.search(path_of(d[1][1])) and not d[3][1] and dead(d[3][0], depth + 1):
                        continue
                    if k == "rv" and not d[1] and dead(d[0], depth + 1):
                        continue
                    return False
                return True
            if dead(dl):
                bad.append(viol("dropped-result", "dropped:%s:%s" % (b.name, p), b.name, bb["sp"],
                                "the Result of %s is dropped in %s" % (p, b.name), config=cfg))
    r.rule("no-dropped-result", "every call that returns a Result has its result inspected, propagated or returned", n, bad)


# ---------------------------------------------------------------- recursion

def local_callees(prog, b):
    out = set()
    for bb in b.bbs:
        for f in fnrefs(bb, []):
            p = path_of(f)
            if p in prog.bodies:
                out.add(p)
    for n in prog.bodies:
        if n.startswith(b.name + "::{closure"):
            out.add(n)
    return out


def recursion(prog, cfg, r, roots, verdicts):
    graph = {b.name: local_callees(prog, b) for b in bodies(prog)}
    reach, work = set(), [x for x in roots if x in graph]
    while work:
        x = work.pop()
        if x in reach:
            continue
        reach.add(x)
        work.extend(y for y in graph.get(x, ()) if y in graph)
    # trait methods called on a generic reader reach the implementation in this crate
    index, low, st, on, sccs, c = {}, {}, [], set(), [], [0]

    def go(v):
        index[v] = low[v] = c[0]
        c[0] += 1
        st.append(v)
        on.add(v)
        for w in graph.get(v, ()):
            if w not in graph:
                continue
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            s = []
            while True:
                w = st.pop()
                on.discard(w)
                s.append(w)
                if w == v:
                    break
            if len(s) > 1 or v in graph.get(v, ()):
                sccs.append(s)
    for v in sorted(reach):
        if v not in index:
            go(v)
    bad = []

    def cyclic(nodes, v):
        seen, w = set(), [x for x in graph.get(v, ()) if x in nodes]
        while w:
            x = w.pop()
            if x == v:
                return True
            if x not in seen:
                seen.add(x)
                w.extend(y for y in graph.get(x, ()) if y in nodes)
        return False
    for s in sccs:
        # functions whose value graph equals the reference's pass on the reference's arguments: the cycles through them
        # are the reference's, which end
        rest = set(s) - {x for x in s if verdicts.get(x) in ("agree", "proved")}
        for v in sorted(rest):
            if not cyclic(rest, v):
                continue
            if v in verdicts and verdicts[v] == "undecided":
                break
            ok, why = bounded_self_recursion(prog.bodies[v]) if not cyclic(rest - {v}, v) and v in graph[v] else (False, "mutual recursion of %s" % ", ".join(sorted(rest)))
            if ok:
                continue
            b = prog.bodies[v]
            bad.append(viol("recursion", "recursion:%s" % v, v, b.raw["span"], "recursion without a bounded measure: %s" % why, config=cfg))
            break
    r.rule("bounded-recursion", "a recursive function on the decoding side changes a parameter at every recursive call and the call is "
           "guarded by a comparison of that parameter", len(reach), bad)
    r.report["bounded-recursion"]["recursive"] = sorted(x for s in sccs for x in s)


def bounded_self_recursion(b):
    """each self call passes a changed value for some parameter p, and is control dependent on a comparison that p enters"""
    cfg = mir.Cfg(b)
    defs = {}
    for bb in b.bbs:
        for s in bb["s"]:
            if s[0] == "=" and not s[1][1]:
                defs.setdefault(s[1][0], []).append([pl[0] for pl in places(s[2])])
        t = bb["t"]
        if t[0] == "call" and not t[3][1]:
            defs.setdefault(t[3][0], []).append([pl[0] for a in t[2] for pl in places(a)])

    def support(l, seen=None):
        seen = set() if seen is None else seen
        if l in seen:
            return seen
        seen.add(l)
        for d in defs.get(l, ()):
            for x in d:
                support(x, seen)
        return seen

    def copy_of(l, depth=0):
        """the parameter l is a plain copy of"""
        if 1 <= l <= b.argc and l not in defs:
            return l
        if depth > 8 or len(defs.get(l, ())) != 1:
            return None
        for bb in b.bbs:
            for s in bb["s"]:
                if s[0] == "=" and s[1][0] == l and not s[1][1]:
                    if s[2][0] == "use" and s[2][1][0] in ("cp", "mv") and not s[2][1][1][1]:
                        return copy_of(s[2][1][1][0], depth + 1)
        return None
    doms = lambda x: cfg.doms(x) if hasattr(cfg, "doms") else None
    for i, bb in enumerate(b.bbs):
        t = bb["t"]
        if t[0] != "call" or t[1][0] != "k" or path_of(t[1][1]) != b.name:
            continue
        ok = False
        for k, a in enumerate(t[2]):
            pls = list(places(a))
            if not pls or b.ltys[k + 1][0] != "int":
                continue
            if copy_of(pls[0][0]) == k + 1:
                continue
            # some switch that decides whether this call happens depends on the parameter
            for j, bj in enumerate(b.bbs):
                if bj["t"][0] == "switch" and decides(cfg, j, i):
                    sw = list(places(bj["t"][1]))
                    if sw and (k + 1) in support(sw[0][0]):
                        ok = True
        if not ok:
            return False, "%s calls itself with unchanged parameters or unguarded" % b.name
    return True, ""


def decides(cfg, j, i):
    """block j can reach i along one edge and avoid it along another"""
    def reaches(a):
        seen, w = set(), [a]
        while w:
            x = w.pop()
            if x == i:
                return True
            if x in seen:
                continue
            seen.add(x)
            w.extend(cfg.succ[x])
        return False
    rs = [reaches(s) for s in cfg.succ[j]]
    return any(rs) and not all(rs)


# ---------------------------------------------------------------- allocation sizes (recorded by the abstract interpreter)

def allocations(res, r):
    n, bad = 0, []
    for x in res:
        for a in x.get("allocs", ()):
            n += 1
            if a["tainted"]:
                bad.append(viol("allocation", "alloc:%s:%s" % (x["fn"], a["at"][2]), a["at"][2], a["at"],
                                "an allocation's size is read from the input: %s" % a["size"], config=x["config"]))
    r.rule("bounded-allocation", "the size of every allocation made while decoding is a function of header fields and buffer lengths, not of "
           "values read from the input", n, bad)


# ---------------------------------------------------------------- compile-fail witnesses

def witnesses(r, which):
    import dump
    src = os.path.join(dump.VERIF, "witness")
    env = dump._env()
    env.pop("LD_LIBRARY_PATH", None)
    tdir = os.path.join(dump.BUILD, "target-witness")
    with dump.Lock("witness"):
        p = subprocess.run(["cargo", "+nightly", "check", "--offline", "--bins", "--keep-going", "--message-format=json", "--manifest-path",
                            os.path.join(src, "Cargo.toml"), "--target-dir", tdir], env=env, capture_output=True, text=True)
    errs, built = {}, set()
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            c = (m["message"].get("code") or {}).get("code")
            if c:
                errs.setdefault(m["target"]["name"], set()).add(c)
        elif m.get("reason") == "compiler-artifact":
            built.add(m["target"]["name"])
    n, bad, und = 0, [], 0
    for f in sorted(os.listdir(os.path.join(src, "src", "bin"))):
        name = f[:-3]
        head = open(os.path.join(src, "src", "bin", f)).readline()
        m = re.match(r"//! (\S+) (ok|E\d+) (.*)", head)
        if which not in m.group(1).split(","):
            continue
        n += 1
        want = m.group(2)
        if want == "ok":
            if name not in built:
                und += 1        # the interface changed: the witnesses say nothing
        elif name in built:
            bad.append(viol("witness", "witness:" + name, name, ["witness/src/bin/" + f, 1], "a program that must not compile compiles: " + m.group(3)))
        elif want not in errs.get(name, ()):
            und += 1
    r.rule("compile-fail", "programs that would break the rule are rejected by the type checker (and their legal twins accepted)", n, bad)
    r.report["compile-fail"]["undecided"] = und


DECODE_ROOTS = ["decompress_simple", "compress::decompress_aux_data", "compress::decompress_image_data", "header::Header::decode",
                "color_transform::ColorTransformProgram::decode", "encode::decode", "encode::signed_decode", "encode::interleaved_decode",
                "encode::unsigned_decode", "<bits::BitsIOReader as bits::BitsReader>::get_bits",
                "<bits::BitsIOReader as bits::BitsReader>::get_zeros", "<bits::BitsIOReader as bits::BitsReader>::flush_read_word"]


def run(pid, dumps, configs, res):
    r = R()
    for c in configs:
        p = dumps[c]
        if pid == "C14":
            nondeterminism(p, c, r)
            impls(p, c, r)
        if pid == "C13":
            impls(p, c, r)
            done = {f for x in res if x["kind"] == "safety" and x["config"] == c for f in x.get("stats", {}).get("functions", ())}
            und = any(x["status"] == "undecided" for x in res if x["kind"] == "safety")
            if not und:
                covered_unsafe(p, c, r, done)
        if pid in ("C17", "C15"):
            dropped_results(p, c, r)
        if pid in ("C21", "C12"):
            recursion(p, c, r, DECODE_ROOTS, {x["fn"]: x["status"] for x in res if x["kind"] == "value" and x["config"] == c})
    if pid == "C21":
        allocations(res, r)
    if pid in ("C13", "C14"):
        witnesses(r, pid)
    return r
