import json,os,shutil,sys
META=json.load(open('/tmp/seed/meta.json'))
for s,(p,needs,br) in META.items():
    d='/verif/seeded/'+s
    if not os.path.isdir('/tmp/seed/d/'+s): continue
    os.makedirs(d,exist_ok=True)
    src='/tmp/seed/d/'+s
    for f in os.listdir(src):
        t=open(src+'/demo.cpp').read()
        if f in('reg.h','plugs.h') and '"%s"'%f not in t: continue
        shutil.copy(src+'/'+f,d+'/'+f)
    shutil.copy('/tmp/seed/p/%s.diff'%s,d+'/patch.diff')
    json.dump({"property":p,"needs":needs,"what_it_breaks":br},open(d+'/meta.json','w'),indent=1)
