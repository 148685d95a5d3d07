import sys, json, time
sys.path.insert(0, "/verif/lib")
import mir, absint, terms, anchors
def load(f): return mir.Program(json.load(open(f)))
if __name__ == "__main__":
    p = load(sys.argv[1])
    pats = sys.argv[2:]
    A = anchors.HARD | anchors.SOFT
    for n, b in p.bodies.items():
        if b.kind != "fn" or b.raw.get("derived") or "_IMPL_NUM" in n or "fmt" in n: continue
        if pats and not any(x in n for x in pats): continue
        e = absint.Eng(p, A)
        t = time.time()
        try:
            o = e.analyse(b)
            print("%6.1fs %7d %s" % (time.time()-t, terms._cnt[0], n), "UNKNOWN %s" % e.unknown if e.unknown else "")
            if pats:
                for k, v in o.items(): print("    ", k, "=", terms.show(v, 9)[:3000])
        except absint.Diverges as x:
            print("  DIVERGES", n, x)
        except terms.Unsupported as x:
            print("  UNSUPPORTED", n, x, e.where)
        except Exception as x:
            import traceback
            print("  EXC", n, repr(x), e.where)
            if pats: traceback.print_exc()
