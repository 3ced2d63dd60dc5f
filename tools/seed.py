#!/usr/bin/env python3
"""seed.py confirm ID...: confirm planted bugs in a scratch copy (build, stable tests, demo on both trees), then run the check.
options: --notest (skip the test suite), --nocheck"""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
if ids == ["all"]:
    ids = sorted(os.listdir(V + "/seeded"))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


for i in ids:
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp(prefix="seed_%s_" % i, dir="/tmp")
    try:
        demo = t + "/demo"
        shutil.copytree(d, demo)
        for f in os.listdir(demo):
            if f.endswith(".diff") or f == "meta.json":
                os.unlink(demo + "/" + f)
        # the demonstrations and tests use /repo itself, as the final check does
        out = {}
        assert sh("git -C /repo status --porcelain --untracked-files=no").stdout == ""
        sh("bash /opt/vp/build.sh")
        r = sh("bash %s/demo.sh" % demo, cwd="/repo", timeout=300)
        out["clean"] = r.returncode
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr)
            continue
        try:
            r = sh("bash /opt/vp/build.sh")
            out["build"] = r.returncode
            r = sh("bash %s/demo.sh" % demo, cwd="/repo", timeout=300)
            out["patched"] = r.returncode
            out["msg"] = (r.stdout + r.stderr)[-150:]
            if "--notest" not in sys.argv:
                sh("bash /opt/vp/test.sh %s/o.json" % t)
                o = json.load(open(t + "/o.json"))
                b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                out["broken_tests"] = [x for x in b if x not in o["passed"]]
            if "--nocheck" not in sys.argv:
                r = sh("python3 sa/check.py %s quick" % meta["property"], cwd=V)
                out["check"] = r.returncode
                out["text"] = r.stdout[-300:]
        finally:
            sh("git -C /repo checkout -- .")
            sh("bash /opt/vp/build.sh")
        ok = out["clean"] == 0 and out["patched"] != 0 and out["build"] == 0 and not out.get("broken_tests")
        print(i, meta["property"], "VALID" if ok else "INVALID", "caught" if out.get("check") == 1 else "check=%s" % out.get("check"), out)
    finally:
        shutil.rmtree(t)
