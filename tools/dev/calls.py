from mods import *
m=mods(sys.argv[1])[0]
import re
for n,f in m.funcs.items():
    if re.search(sys.argv[2],ir.dem(n)):
        f.parse(); print("FN",ir.dem(n), [(repr(t),list(a)) for t,r,a in f.params], f.ret)
        if len(sys.argv)>3:
            for b in f.order:
                print(b+":")
                for s in f.blocks[b]: print("   ",s[:230])
        else:
            for b in f.order:
                for i in f.block(b):
                    if i.op in('call','invoke'): print("   ",ir.dem(i.a[0][1])[:170] if i.a[0][0]=='g' else i.a[0], i.ty)
