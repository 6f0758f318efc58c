import sys,subprocess,json,os,importlib.util
spec=importlib.util.spec_from_file_location("s","/tmp/seed/"+sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
base=set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')))
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
only=sys.argv[2:]
for sid,edits in m.SEEDS.items():
    if only and sid not in only: continue
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    ok=True
    for f,old,new in edits:
        p="/repo/"+f; t=open(p).read()
        if t.count(old)!=1: print(sid,"old text count",t.count(old),f); ok=False; break
        open(p,"w").write(t.replace(old,new))
    if ok:
        d=sh("git -C /repo diff").stdout
        os.makedirs("/tmp/seed/p",exist_ok=True); open("/tmp/seed/p/%s.diff"%sid,"w").write(d)
        b=sh("bash /opt/vp/build.sh")
        if b.returncode: print(sid,"BUILD FAILS",b.stdout[-800:],b.stderr[-800:])
        else:
            t=sh("bash /opt/vp/test.sh /tmp/seed/out.json")
            o=json.load(open("/tmp/seed/out.json"))
            f=o.get("failed") if isinstance(o,dict) else None
            print(sid,"failed tests:",f if f is None else (len(f), f[:4]),flush=True)
    sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
