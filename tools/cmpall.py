"""cmpall.py DUMP.json [pattern..]: compare every function (development aid)"""
import sys, json, time
sys.path.insert(0, "/verif/lib")
import threading
threading.stack_size(1 << 29)
sys.setrecursionlimit(200000)


def main():
    import mir, absint, terms, anchors, compare, interp, dump, hints
    spec = mir.Program(dump.spec_dump())
    repo = mir.Program(json.load(open(sys.argv[1])))
    repo.map_fields(spec)
    names = [n for n, b in spec.bodies.items() if n in repo.bodies and b.kind == "fn" and not b.raw.get("derived") and "_IMPL_NUM" not in n and "fmt" not in n]
    only = sys.argv[2:]
    A = {x for x in anchors.HARD | anchors.SOFT}
    for n in names:
        if only and not any(x in n for x in only):
            continue
        t = time.time()
        if only:
            interp.TRACE = {}
        try:
            absint.origin.side('spec'); es = absint.Eng(spec, A); so = es.analyse(spec.bodies[n])
            absint.origin.side('repo'); er = absint.Eng(repo, A); ro = er.analyse(repo.bodies[n])
            t1 = time.time() - t
            r = compare.compare(so, ro, known=not (er.unknown - es.unknown), hints=hints.for_fn(n), cap=hints.CAPS.get(n, 48))
            print("%5.1fs %5.1fs %-10s %s %d/%d %s" % (t1, r.time, r.status, n, r.valid, r.samples, "" if r.status == "proved" else (r.key, getattr(r, "voids", None))), er.unknown or "", flush=True)
            if only or r.status == "differ":
                if interp.TRACE:
                    print("     TRACE", sorted(interp.TRACE.items(), key=lambda x: -x[1])[:60])
                print("     ", str(r.detail)[:1500]); print("     ", str(r.loc)[:1800])
        except Exception as x:
            import traceback
            print("EXC", n, repr(x)[:300], flush=True)
            if only:
                traceback.print_exc()


if __name__ == "__main__":
    th = threading.Thread(target=main); th.start(); th.join()
