import os, subprocess, json
DEMO = r'''#!/bin/bash
# usage: demo.sh (cwd /repo, after the build); %(what)s
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
L=$PWD/_build/src/.libs/libmonitor.so
[ -f "$L" ] || L=$(find "$PWD" -name libmonitor.so | head -1)
gcc -w -O1 -fPIC -shared -I"$PWD/src" -o $W/client.so "$D/client.c" -ldl -lpthread || exit 98
gcc -w -O1 -D_GNU_SOURCE -o $W/app "$D/app.c" -ldl -lpthread || exit 98
%(fake)scd $W
timeout -s KILL %(to)d env %(env)s LD_PRELOAD="$W/client.so $L%(fk)s" ./app >out 2>err </dev/null
rc=$?
cat out err
%(test)s
'''
def seed(id, prop, edits, client, app, test, needs, breaks, fake=None, to=20, env="", files=None):
    """edits: [(file, old, new)]; test: shell deciding exit status from $rc, out"""
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert subprocess.run("git -C /repo diff --quiet", shell=True).returncode == 0
    try:
        for f, o, n in edits:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(o) == 1, (id, f, s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    open(d + "/client.c", "w").write('#define _GNU_SOURCE\n#include "monitor.h"\n' + INC + client)
    open(d + "/app.c", "w").write(INC + app)
    fk = ""
    fks = ""
    if fake:
        open(d + "/fake.c", "w").write("#define _GNU_SOURCE\n" + INC + fake)
        fks = 'gcc -w -O1 -fPIC -shared -o $W/fake.so "$D/fake.c" -ldl -lpthread || exit 98\n'
        fk = " $W/fake.so"
    for k, v in (files or {}).items():
        open(d + "/" + k, "w").write(v)
    open(d + "/demo.sh", "w").write(DEMO % dict(what=breaks, fake=fks, fk=fk, to=to, test=test, env=env))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
INC = "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#include <errno.h>\n#include <signal.h>\n#include <pthread.h>\n#include <dlfcn.h>\n#include <sys/wait.h>\n#include <sys/types.h>\n"
