#!/usr/bin/env python3
"""refac.py LIST [checks...]: apply behaviour-preserving edits to a scratch copy and run checks on it (must stay quiet)"""
import sys, os, subprocess, shutil, tempfile, runpy, glob, time
lst = sys.argv[1]
E = runpy.run_path(lst)["E"]
ids = sys.argv[2:] or sorted(os.path.basename(p)[:-3] for p in glob.glob("/verif/sa/props/C*.py"))
d = tempfile.mkdtemp(prefix="refac")
r = d + "/repo"
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    for f, a, b in E:
        p = r + "/" + f
        s = open(p).read()
        if type(a) is tuple:
            i = s.index(a[1]); j = s.index(a[2], i)
            s = s[:i] + b + s[j:]
        else:
            if s.count(a) != 1:
                print("COUNT", s.count(a), f, a[:80]); sys.exit(1)
            s = s.replace(a, b)
        open(p, "w").write(s)
    if "--diff" in ids:
        subprocess.call(["git", "-C", r, "diff"]); sys.exit(0)
    b = d + "/b"; os.mkdir(b)
    subprocess.check_call("cd %s && %s/configure >/dev/null 2>&1 && make CFLAGS='-g -O1 -Wall' 2>&1 | grep -E 'error|warning' ; true" % (b, r), shell=True)
    env = dict(os.environ, VF_REPO=r, VF_EVD=d + "/ev")
    os.mkdir(d + "/ev")
    bad = 0
    for i in ids:
        t = time.time()
        q = subprocess.run(["python3", "/verif/sa/check.py", i, "quick"], env=env, capture_output=True, text=True)
        if q.returncode:
            bad += 1
            print(i, "ALARM", q.returncode, "\n".join(q.stdout.splitlines()[-6:]), q.stderr[-500:], flush=True)
        else:
            print(i, "quiet %.0f s" % (time.time() - t), flush=True)
    print("alarms:", bad)
finally:
    shutil.rmtree(d, ignore_errors=True)
