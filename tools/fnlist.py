import sys; sys.path.insert(0,'/verif/lib')
import dump,mir,json
P=mir.Program(dump.repo_dump(sys.argv[1] if len(sys.argv)>1 else 'default'))
names={}
def walk(x,b):
    if isinstance(x,list):
        if len(x)==2 and x[0]=='k' and isinstance(x[1],dict) and 'decl' in x[1]:
            if not x[1].get('local'):
                names.setdefault((mir.norm(x[1]['decl']), mir.norm(x[1].get('res') or ''), str(len(x[1]['a']))),b)
        for y in x: walk(y,b)
    elif isinstance(x,dict):
        for y in x.values(): walk(y,b)
for b in P.bodies.values():
    if 'test' in b.name or 'fmt' in b.name or '_IMPL_' in b.name: continue
    walk(b.raw['bbs'],b.name)
for n in sorted(names): 
    print(n[0], '' if n[1]==n[0] else '=> '+n[1], n[2], '   @'+names[n])
