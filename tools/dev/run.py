from mods import *
import front, fields, importlib, contracts, pickle, time, contracts_lib, multiprocessing, os
L=front.Layout('/tmp/w/lay'); L.vals=pickle.load(open('/tmp/w/lay.pkl','rb'))
def path(t):
    return '/tmp/w/ll/'+(t if not t.startswith('verif:') else t[6:]).replace('verif:','').replace('/','_')+'.ll' if t.startswith('verif:') else '/tmp/w/ll/_repo_'+t.replace('/','_')+'.ll'
def one(i):
    c,ms,ks,verbose=G
    k=ks[i]
    tw = k.twin if os.environ.get('TWIN') else None
    if os.environ.get('TWIN') and not tw: return ''
    f = contracts.verify1
    kk = tw or k
    r=f(ms,L,kk,verbose=verbose,base_hooks=getattr(c,'HOOKS',()))
    o="## %s %s paths %d obls %d t %.1f solver %.1f q %d %s\n"%(kk.name,r.kind,r.paths,len(r.obls),r.time,r.solver,r.queries,r.error or "")
    for ob in r.obls:
        if ob.status!="discharged" or verbose>1: o+="     %s %s %s %s %s\n"%(ob.status,ob.name,ob.where,ob.reason,(ob.formula[0][:int(os.environ.get('FL','400'))], ob.formula[2][-5:]) if ob.formula else "")
    return o
def run(cm, only=None, verbose=False):
    global G
    c=importlib.import_module(cm)
    ms=[]
    for t in c.TUS:
        p=path(t); src='/repo/'+t if not t.startswith('verif:') else '/verif/'+t[6:]
        if not os.path.exists(p) or os.path.getmtime(p)<os.path.getmtime(src): front.compile_one(src,p)
        ms.append(ir.Module(p))
    ks=[k for k in c.CONTRACTS if not only or any(o == k.name or (o.endswith('*') and k.name.startswith(o[:-1])) for o in only)]
    G=(c,ms,ks,verbose)
    if len(ks)==1 and verbose: print(one(0)); return
    with multiprocessing.get_context('fork').Pool(8,maxtasksperchild=1) as p:
        for o in p.imap(one,range(len(ks)),chunksize=1): print(o,end='')
if __name__=="__main__":
    run(sys.argv[1], sys.argv[2].split(',') if len(sys.argv)>2 else None, verbose=int(os.environ.get('V','0')))
