#!/usr/bin/env python3
"""Dev tool: apply seeded changes to a worktree of /repo one by one, run the check of their property against it. Not used by checks."""
import sys, os, json, subprocess, time, shutil, tempfile
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
w=tempfile.mkdtemp(prefix="try-"); shutil.rmtree(w)
subprocess.run(["git","-C","/repo","worktree","add","-q","--detach",w,"HEAD"],check=True)
try:
  for i in ids:
    d=f"/verif/seeded/{i}"; p=json.load(open(d+"/meta.json"))["property"]
    a=subprocess.run(["git","-C",w,"apply",d+"/patch.diff"],capture_output=True,text=True)
    if a.returncode: print(i,p,"DOES NOT APPLY",a.stderr[:200],flush=True); continue
    t=time.time()
    r=subprocess.run(["timeout","850","python3","/verif/check.py",p,"quick"],capture_output=True,text=True,env=dict(os.environ,VERIF_SEED="1",VERIF_TIER="quick",VERIF_REPO=w))
    v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i,p,"CAUGHT" if r.returncode==1 and v else "MISSED rc=%d"%r.returncode, "%.0fs"%(time.time()-t), v[:1], (r.stdout+r.stderr)[-500:] if r.returncode not in(0,1) else "",flush=True)
    subprocess.run(["git","-C",w,"checkout","-q","--","."])
finally: subprocess.run(["git","-C","/repo","worktree","remove","--force",w])
