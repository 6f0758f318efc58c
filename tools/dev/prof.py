from mods import *
import sys,run,importlib,contracts,ir,sym,time
cm,nm=sys.argv[1:3]
c=importlib.import_module(cm); k=[k for k in c.CONTRACTS if k.name==nm][0]
ms=[ir.Module(run.path(t)) for t in c.TUS]
oc=sym.Engine.check; tot={}
import traceback
def chk(self,st,extra=(),quant=False,timeout=None):
    t=time.time(); r=oc(self,st,extra,quant,timeout); d=time.time()-t
    if d>0.5: print("CHECK %.1f q=%s %s %s"%(d,quant,r,[f.name for f in traceback.extract_stack(limit=6)][:-1]))
    return r
sym.Engine.check=chk
oo=sym.Engine.oblige
def ob(self,st,name,f,where=""):
    t=time.time(); r=oo(self,st,name,f,where); d=time.time()-t
    if not r: print(sym.z3.simplify(f).sexpr()[:3000])
    if d>15:
        s=self.solver(st,True,[sym.z3.Not(f)]); open("/tmp/w/slow_%d.smt2"%len(self.obls),"w").write(s.to_smt2())
    if d>0.5: print("OBL %.1f %s %s"%(d,r,name[:100]))
    return r
sym.Engine.oblige=ob
r=contracts.verify1(ms,run.L,k,base_hooks=c.HOOKS)
print(r.kind,r.error,r.time)
