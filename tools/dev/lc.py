import sys; sys.path[:0]=['/verif/engine']
import ir,re
m=ir.Module('/tmp/w/ll/_repo_src_rotor_%s.cpp.ll'%sys.argv[1])
for n,f in m.funcs.items():
    d=ir.dem(n) if n in getattr(ir,'_dem',{}) else None
ir.demangle_all(list(m.funcs))
for n,f in m.funcs.items():
    d=ir.dem(n)
    if re.search(sys.argv[2],d):
        try: f.parse()
        except Exception as e: continue
        if not f.order: continue
        print("FN",d[:int(sys.argv[3]) if len(sys.argv)>3 else 300])
        for b in f.order:
            for i in f.block(b):
                if i.op in('call','invoke') and i.a[0][0]=='g': print("    ",ir.dem(i.a[0][1])[:200])
