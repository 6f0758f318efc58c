from mods import *
import front, fields, importlib, contracts, pickle, sys, z3
import run, sym
from sym import *
from common import *
import dbg4
L=run.L
c=importlib.import_module("c_links"); k=[k for k in c.CONTRACTS if k.name=="server handle_shutdown"][0]
ms=[ir.Module(run.path(t)) for t in c.TUS]
op=k.post
n=[0]
def post(x,st,ret):
    global core
    s=z3.Solver(); ps=[]
    s.set("core.minimize",True)
    fs=[f for f in st.facts if "Not(map48_card!8 == 0)"!=str(f)]+[c.clients(x,x.pre).card==0]
    for i,f in enumerate(fs):
        p=z3.Bool("p%d"%i); s.add(z3.Implies(p,f)); ps.append(p)
    print(s.check(ps))
    for p in s.unsat_core(): print("CORE",str(fs[int(str(p)[1:])])[:3000])
    n[0]+=1
    m=c.clients(x,x.pre)
    for i,f in enumerate(st.facts):
        if sym.has_quant(f): continue
        if 'card' in str(f): print(i,str(f)[:600].replace("\n"," "))
    yield "x", z3.BoolVal(True)
k.post=post
k.cover=[]
print(contracts.verify1(ms,L,k,base_hooks=c.HOOKS).error)
