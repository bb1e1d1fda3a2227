import os, subprocess, json
W="/tmp/seedw"
def sh(c): return subprocess.run(c, shell=True, cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def S(id, prop, needs, breaks, edits, demo):
    d=f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD")
    for f,old,new,*cnt in edits:
        p=os.path.join(W,f); s=open(p).read()
        n=s.count(old)
        assert n==(cnt[0] if cnt else 1), (id,f,n,old)
        open(p,"w").write(s.replace(old,new,1 if not cnt else cnt[0]))
    open(d+"/patch.diff","w").write(sh("git diff").stdout)
    sh("git checkout -q -- .")
    open(d+"/demo.rs","w").write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+"/meta.json","w"), indent=1)
PRE='''mod chain;
mod kit;
mod weighted;
use kit::*;

'''
CO="contracts/core/src/"
AI="contracts/airdrop/src/"
