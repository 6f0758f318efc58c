from mods import *
import front, fields, importlib, contracts, pickle, sys, z3
import run
L=run.L
c=importlib.import_module(sys.argv[1]); k=[k for k in c.CONTRACTS if k.name==sys.argv[2]][0]
ms=[ir.Module(run.path(t)) for t in c.TUS]
old=k.post
def post(x,st,ret):
    s=z3.Solver(); s.set('core.minimize',True)
    global CX; import c_links as CL
    fs=[f for f in st.facts]+[eval(sys.argv[3])]
    ps=[]
    for i,f in enumerate(fs):
        if sym.has_quant(f): continue
        p=z3.Bool('p%d'%i); s.add(z3.Implies(p,f)); ps.append(p)
    print(s.check(ps))
    for p in s.unsat_core(): print(fs[int(str(p)[1:])])
    yield "x", z3.BoolVal(True)
k.post=post
import sym
from sym import *
from common import *
k.cover=[]
print(contracts.verify1(ms,L,k,base_hooks=c.HOOKS).error)
