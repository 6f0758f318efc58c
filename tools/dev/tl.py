from mods import *
import front, fields,time
t=time.time()
L=front.Layout('/tmp/w/lay').load(fields.HEADERS, fields.FIELDS, fields.CONSTS)
print(time.time()-t,len(L.vals))
want=[front.short_cls(c)+"."+f for c,fs in fields.FIELDS.items() for f in fs]+list(fields.CONSTS)
print([w for w in want if w not in L.vals])
import pickle; pickle.dump(L.vals,open('/tmp/w/lay.pkl','wb'))
print({k:v for k,v in L.vals.items() if k.startswith('actor_base')})
