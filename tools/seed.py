#!/usr/bin/env python3
"""Dev tool: turn bug descriptions (tools/bugs/*.py, BUGS list) into /verif/seeded/<id>/ after confirming
that the change builds, keeps the stable tests of the touched packages, and that the demo tells it apart.
Usage: seed.py bugs.py [id ...]      (not used by any check)"""
import sys, os, json, subprocess, shutil, runpy, tempfile
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", CGO_ENABLED="1",
           GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
           PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"], GOFLAGS="-mod=readonly -modfile=/opt/vp/owcdrivers.mod")
DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right, 1 when it is not
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
. /opt/vp/env.sh >/dev/null 2>&1
cd "$R" || exit 2
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go.txt"}}' "$R" "$D" > "$T/o.json"
timeout 240 go run -overlay "$T/o.json" ./zz_demo
'''
def sh(c, cwd, t=600):
    return subprocess.run(c, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def tests(w, pkgs):
    r = sh(["go","test","-json","-count=1"]+pkgs, w)
    res={}
    for l in r.stdout.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get("Test") and e["Action"] in("pass","fail"): res[e["Package"].split("/",2)[-1]+"."+e["Test"]]=e["Action"]
    return res
mod = runpy.run_path(sys.argv[1]); want=set(sys.argv[2:])
for b in mod["BUGS"]:
    if want and b["id"] not in want: continue
    out=f"/verif/seeded/{b['id']}"
    w=tempfile.mkdtemp(prefix="seed-"); shutil.rmtree(w)
    subprocess.run(["git","-C","/repo","worktree","add","-q","--detach",w,"HEAD"],check=True)
    try:
        pkgs=sorted({"./"+os.path.dirname(f) for f,_,_ in b["edits"]})
        base=tests(w,pkgs)
        d=tempfile.mkdtemp(); open(d+"/demo.go.txt","w").write(b["demo"]); open(d+"/demo.sh","w").write(DEMO.replace("/opt/vp/env.sh >","/opt/vp/env.sh >")); os.chmod(d+"/demo.sh",0o755)
        # env.sh changes to /repo and back to $R
        r0=sh(["bash",d+"/demo.sh"],w)
        bad=None
        for f,a,c in b["edits"]:
            s=open(f"{w}/{f}").read()
            if s.count(a)!=b.get("count",1): bad=f"{f}: pattern occurs {s.count(a)} times"; break
            open(f"{w}/{f}","w").write(s.replace(a,c))
        if bad: print(b["id"],"SKIP",bad); continue
        bl=sh(["go","build"]+pkgs,w)
        t1=tests(w,pkgs)
        broke=[k for k,v in base.items() if v=="pass" and t1.get(k)!="pass"]
        r1=sh(["bash",d+"/demo.sh"],w)
        ok = bl.returncode==0 and not broke and r0.returncode==0 and r1.returncode!=0
        print(b["id"],"OK" if ok else "NOT KEPT", "build",bl.returncode,"broke",broke[:3],"demo",r0.returncode,r1.returncode)
        if not ok: print(bl.stdout[-800:],r0.stdout[-1500:],"----",r1.stdout[-800:]); continue
        os.makedirs(out,exist_ok=True)
        diff=subprocess.run(["git","-C",w,"diff"],capture_output=True,text=True).stdout
        open(out+"/patch.diff","w").write(diff)
        shutil.copy(d+"/demo.sh",out); shutil.copy(d+"/demo.go.txt",out)
        json.dump(dict(property=b["property"],needs=b["needs"],what_it_breaks=b["breaks"]),open(out+"/meta.json","w"),indent=1)
        shutil.rmtree(d)
    finally:
        subprocess.run(["git","-C","/repo","worktree","remove","--force",w])
