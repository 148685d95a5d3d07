"""mutate.py FILE-PATTERN [N] [SEED]: source mutants of /repo in scratch copies, which obligations notice them (development aid)"""
import fcntl, glob, json, os, random, re, shutil, subprocess, sys, time
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, "/verif/lib")
import dump, mir, runner, props

TOK = re.compile(r'//[^\n]*|"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)\'|\d[\d_a-z]*|[A-Za-z_]\w*|<<=|>>=|\.\.=|==|!=|<=|>=|&&|\|\||<<|>>|\+=|-=|\*=|/=|->|=>|::|\.\.|[^\s\w]')


def mutants(path):
    src = open(path).read()
    cm = re.search(r"#\[cfg\(test\)\]\s*mod \w+ \{", src)
    cut = cm.start() if cm else -1
    toks = [(m.group(), m.start(), m.end()) for m in TOK.finditer(src)]
    out = []

    def add(a, b, new, what):
        ln = src.count("\n", 0, a) + 1
        out.append((path, a, b, new, ln, what))
    for i, (t, a, b) in enumerate(toks):
        if t.startswith("//") or t.startswith('"'):
            continue
        sp = src[a - 1] == " " and src[b:b + 1] == " "
        line = src[src.rfind("\n", 0, a) + 1:src.find("\n", b)]
        if line.strip().startswith(("#", "use ", "pub use", "mod ", "pub mod", "pub const", "const", "//")):
            continue
        swap = {"+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"], "<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="],
                "&&": ["||"], "||": ["&&"], "<<": [">>"], ">>": ["<<"], "+=": ["-=", "="], "-=": ["+="], "*=": ["/="], "/=": ["*="], "&": ["|"], "|": ["&"], "%": ["/"]}
        if t in swap and sp or t in (">>=", "<<="):
            for n in swap.get(t, []):
                add(a, b, n, "%s -> %s" % (t, n))
        elif t == "..":
            add(a, b, "..=", ".. -> ..=")
        elif t == "..=":
            add(a, b, "..", "..= -> ..")
        elif re.fullmatch(r"\d[\d_]*(u\d+|i\d+|usize)?", t) and toks[i - 1][0] != "." :
            m = re.match(r"([\d_]+)(.*)", t)
            v = int(m.group(1).replace("_", ""))
            for n in {v + 1, 0 if v > 1 else v + 2}:
                if n != v:
                    add(a, b, "%d%s" % (n, m.group(2)), "%s -> %d" % (t, n))
        elif t in ("true", "false"):
            add(a, b, "false" if t == "true" else "true", t + " flipped")
        elif t in ("min", "max") and toks[i - 1][0] == ".":
            add(a, b, "max" if t == "min" else "min", t + " swapped")
        elif t in ("width", "height") and toks[i + 1][0] not in (":", "="):
            add(a, b, "height" if t == "width" else "width", t + " swapped")
        elif t in ("break", "continue"):
            add(a, b, "continue" if t == "break" else "break", t + " swapped")
        elif t in ("rev", "abs") and toks[i - 1][0] == "." and toks[i + 1][0] == "(":
            add(toks[i - 1][1], toks[i + 2][2], "", t + "() removed")
        elif t in ("skip", "take", "step_by") and toks[i - 1][0] == ".":
            pass
        elif t == "if" and toks[i + 1][0] != "let":
            add(b, b, " !(", "NEG")
        elif t == ";" and i > 0:
            # delete a one-line statement
            ls = src.rfind("\n", 0, a) + 1
            st = src[ls:b].strip()
            if st and not st.startswith(("let", "return", "}", "break", "continue", ")", ".")) and st.count("(") == st.count(")") and src[b:b + 1] == "\n" and "=" in st or st.endswith("?;") and not st.startswith("let") and st.count("(") == st.count(")"):
                add(ls, b, "", "deleted: " + st[:60])
    res = []
    for m in out:
        if m[5] == "NEG":
            # negate an if condition up to its brace
            p, a, b, new, ln, what = m
            j, d = a, 0
            while j < len(src):
                c = src[j]
                if c in "([":
                    d += 1
                elif c in ")]":
                    d -= 1
                elif c == "{" and d == 0:
                    break
                j += 1
            cond = src[a:j]
            res.append((p, a, j, " !(" + cond.strip() + ") ", ln, "if negated"))
        else:
            res.append(m)
    return [m for m in res if cut < 0 or m[1] < cut]


ROOT = "/tmp/mut"


def slot():
    while True:
        for i in range(8):
            f = open("%s/l%d" % (ROOT, i), "w")
            try:
                fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                return i, f
            except OSError:
                f.close()
        time.sleep(.2)


BASE = {}


def fp(b):
    return json.dumps([b.raw["bbs"], b.raw["locals"], b.raw.get("promoted")])


def strip(x):
    """drop source positions"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], str) and x[0].endswith(".rs") and isinstance(x[1], int):
            return 0
        return [strip(y) for y in x]
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items()}
    return x


def sk(prog, b):
    def rt(x):
        return x
    return json.dumps(strip([b.raw["bbs"], b.raw["locals"], b.raw.get("promoted")]))


def work(m):
    path, a, b, new, ln, what = m
    i, f = slot()
    d = "%s/r%d" % (ROOT, i)
    rel = os.path.relpath(path, "/repo")
    src = open(path).read()
    open(os.path.join(d, rel), "w").write(src[:a] + new + src[b:])
    dump.REPO = d
    t0 = time.time()
    try:
        p = mir.Program(dump.repo_dump("default"))
    except dump.DumpError:
        return m, "nocompile", []
    finally:
        open(os.path.join(d, rel), "w").write(src)
        f.close()
    p.map_fields(BASE["spec"])
    changed = {n for n in set(p.bodies) | set(BASE["repo"].bodies)
               if (n not in p.bodies) or (n not in BASE["repo"].bodies) or sk(p, p.bodies[n]) != sk(BASE["repo"], BASE["repo"].bodies[n])}
    # types are numbered per dump: a shifted numbering marks everything, fall back on the file
    if len(changed) > 40:
        changed = {n for n in changed if (p.bodies.get(n) or BASE["repo"].bodies[n]).raw["span"][0] == rel}
    todo = [n for n in props.ALL if set(BASE["deps"].get(n, [])) & changed or n in changed]
    out, st = [], []
    for n in todo:
        r = runner.decide(BASE["spec"], p, runner.Job(n, "default", 300, 12.0, 1))
        out.append((n, r["status"], r.get("why", ""), r.get("passes")))
        if r["status"] == "differ":
            break
    if not any(x[1] == "differ" for x in out):
        for n in todo:
            if any(n in v for v in props.SAFETY.values()):
                r = runner.decide(BASE["spec"], p, runner.Job(n, "default", 300, 12.0, 1, "safety"))
                out.append((n + "!", r["status"], r.get("why", ""), r.get("passes")))
    return m, "ok", out


def main():
    pat, n, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 10**9, int(sys.argv[3]) if len(sys.argv) > 3 else 1
    fs = [f for f in glob.glob("/repo/src/**/*.rs", recursive=True) if not f.endswith("test.rs") and pat in f]
    ms = [m for f in fs for m in mutants(f)]
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    os.makedirs(ROOT, exist_ok=True)
    for i in range(8):
        d = "%s/r%d" % (ROOT, i)
        if not os.path.exists(d):
            subprocess.check_call(["rsync", "-a", "--exclude", "target", "--exclude", ".git", "/repo/", d + "/"]) if shutil.which("rsync") else shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("target", ".git"))
            dump.REPO = d
            dump.repo_dump("default")
    dump.REPO = "/repo"
    BASE["spec"] = mir.Program(dump.spec_dump())
    BASE["repo"] = mir.Program(dump.repo_dump("default"))
    BASE["repo"].map_fields(BASE["spec"])
    jobs = [runner.Job(f, "default", 0, 0.1, 1) for f in props.ALL]
    deps = {}
    for r in runner.run(jobs, {"spec": BASE["spec"], "default": BASE["repo"]}):
        deps[r["fn"]] = r.get("stats", {}).get("functions", [])
    # closures and helpers belong to their parents
    BASE["deps"] = deps
    tot = {"nocompile": 0, "killed": 0, "survived": 0, "undecided": 0, "untouched": 0, "error": 0}
    def cb(i, r):
        m = ms[i]
        tag = "%s:%d %s" % (os.path.relpath(m[0], "/repo"), m[4], m[5])
        if r[0] == "error":
            tot["error"] += 1
            print("ERROR", tag, r[1][:200], flush=True)
            return
        _, st, out = r
        if st == "nocompile":
            tot["nocompile"] += 1
            return
        ss = [x[1] for x in out]
        if "differ" in ss or "missing" in ss:
            tot["killed"] += 1
        elif not out:
            tot["untouched"] += 1
            print("UNTOUCHED", tag, flush=True)
        elif "undecided" in ss:
            tot["undecided"] += 1
            print("UNDECIDED", tag, [x for x in out if x[1] == "undecided"][:2], flush=True)
        else:
            tot["survived"] += 1
            print("SURVIVED", tag, [(x[0].split("::")[-1], x[1], x[3][-1:]) for x in out][:4], flush=True)
    runner.pool(ms, work, 8, 150, cb)
    print(tot)


main()
