import sys; sys.path.insert(0,'/verif/engine')
import ir,time
t=time.time(); m=ir.Module(sys.argv[1]); print(len(m.funcs), time.time()-t)
bad=0
for f in m.funcs.values():
    try:
        f.parse()
        for b in f.order: f.block(b)
        f.loops()
    except Exception as e:
        bad+=1; print(f.name, repr(e)[:200])
for g in m.gtext:
    try: m.gvar(g)
    except Exception as e: print(g, repr(e)[:200])
for k in m.typetext:
    try: m.size(ir.Ty('named',k))
    except Exception as e: print(k, repr(e)[:100])
print(bad,time.time()-t)
