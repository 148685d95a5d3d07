import sys, json, time
sys.path.insert(0, "/verif/lib")
import threading
threading.stack_size(1<<29)
def main():
    import mir, absint, terms, anchors, compare, interp
    p = mir.Program(json.load(open(sys.argv[1])))
    A = anchors.HARD | anchors.SOFT
    for n, b in p.bodies.items():
        if b.kind != "fn" or b.raw.get("derived") or "_IMPL_NUM" in n or "fmt" in n: continue
        if len(sys.argv)>2 and not any(x in n for x in sys.argv[2:]): continue
        e = absint.Eng(p, A)
        try: o = e.analyse(b)
        except Exception as x: print("EXC", n, x); continue
        t=time.time(); pool,_=compare.pool_of(o.values()); val=0; voids={}
        for i in range(60):
            ev=interp.Ev(i, {}, pool)
            try:
                if not ev.ev(o["panic-free"]): voids["panic"]=voids.get("panic",0)+1; continue
                for k,v in o.items(): ev.vh(ev.evb(v))
                val+=1
            except interp.Void as x: voids[str(x)]=voids.get(str(x),0)+1
            except Exception as x:
                import traceback; traceback.print_exc(); print(n, repr(x)); break
        print("%5.2fs %3d/60 %s %s"%(time.time()-t,val,n,voids))
th=threading.Thread(target=main); th.start(); th.join()
