#!/usr/bin/env python3
"""muts.py FILE PROP: FILE defines L = [(file, old, new[, props])]; runs the check on scratch copies of the tree with each edit"""
import sys,os,subprocess,shutil,tempfile
from concurrent.futures import ThreadPoolExecutor
ns={}; exec(open(sys.argv[1]).read(),ns); L=ns["L"]; props=sys.argv[2].split(",")
def one(k):
    f,old,new=L[k][:3]
    d=tempfile.mkdtemp(prefix="mut",dir="/tmp"); r=d+"/repo"
    subprocess.check_call("mkdir %s; cd /repo; tar cf - --exclude=_build --exclude=.git . | tar xf - -C %s"%(r,r),shell=True)
    p=r+"/"+f; s=open(p).read()
    if s.count(old)!=1: 
        shutil.rmtree(d); return "%d COUNT %d %r"%(k,s.count(old),old)
    open(p,"w").write(s.replace(old,new,1))
    out=[]
    pp=L[k][3].split(",") if len(L[k])>3 else props
    for pid in pp:
        env=dict(os.environ,VF_REPO=r,VF_EVD=d)
        o=subprocess.run(["python3","/verif/sa/check.py",pid],env=env,capture_output=True,text=True)
        out.append("%s exit %d %s"%(pid,o.returncode,[x[:170] for x in (o.stdout+o.stderr).strip().splitlines()[:1]]))
    shutil.rmtree(d)
    return "%d %s\n   %s"%(k,new[:70].replace("\n"," "),"; ".join(out))
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one,[int(x) for x in sys.argv[3].split(",")] if len(sys.argv)>3 else range(len(L))): print(r,flush=True)
