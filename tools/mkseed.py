#!/usr/bin/env python3
"""mkseed.py SPEC.py [--notest] [--nocheck]: makes and confirms planted bugs in a scratch copy of /repo.
SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo=<C++ source>)]."""
import sys, os, json, subprocess, shutil, re
V="/verif"
DEMO='''#!/bin/bash
# exit 0: the property holds on this demonstration; nonzero: it is broken.  cwd: the repository, built.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++11 -O1 -g -w -I"$R/src" -I"$R/_build" -o "$T/demo" "$D/demo.cpp" "$R/_build/src/.libs/libsphde.a" "$R/_build/src/.libs/libsphgtod.a" "$R/_build/src/.libs/libsphgettime.a" -lpthread -lrt || exit 99
mkdir "$T/store"; export SASSTOREPATH="$T/store" SASUTIL="$R/_build/src/.libs/sasutil" LD_LIBRARY_PATH="$R/_build/src/.libs"; cd "$T"
before=$(awk 'NR>1 {print $2}' /proc/sysvipc/shm | sort)
timeout -s KILL %d ./demo; rc=$?
for id in $(comm -13 <(echo "$before") <(awk 'NR>1 {print $2}' /proc/sysvipc/shm | sort)); do ipcrm -m "$id" 2>/dev/null; done
exit $rc
'''
RUN1='''#!/bin/bash
export SASSTOREPATH=$(mktemp -d /tmp/st.XXXXXX)
unshare -Uri timeout -s KILL 150 "$@"; rc=$?
rm -rf "$SASSTOREPATH"; exit $rc
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main():
    ns={}; exec(open(sys.argv[1]).read(),ns)
    only=[a for a in sys.argv[2:] if not a.startswith("--")]
    for s in ns["SEEDS"]:
        if only and s["id"] not in only: continue
        c=f"/tmp/seed.{s['id']}"; shutil.rmtree(c,ignore_errors=True); sh(f"cp -a /repo {c}")
        bad=None
        for f,o,n in s["edits"]:
            t=open(f"{c}/src/{f}").read()
            if t.count(o)!=1: bad=f"{f}: {t.count(o)} matches of {o!r}"; break
            open(f"{c}/src/{f}","w").write(t.replace(o,n))
        if bad: print(s["id"],"EDIT:",bad); shutil.rmtree(c); continue
        d=f"{V}/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
        open(f"{d}/patch.diff","w").write(sh(f"git -C {c} diff").stdout)
        open(f"{d}/demo.cpp","w").write(s["demo"]); open(f"{d}/demo.sh","w").write(DEMO%s.get("limit",120)); os.chmod(f"{d}/demo.sh",0o755)
        json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(f"{d}/meta.json","w"),indent=1)
        b=sh(f"make -C {c}/_build -j8 all && make -C {c}/_build/src -j8 check TESTS=")
        if b.returncode: print(s["id"],"BUILD FAILED",b.stdout[-800:]); continue
        r0=sh(f"bash {d}/demo.sh",cwd="/repo"); r1=sh(f"bash {d}/demo.sh",cwd=c)
        msg=f"demo clean={r0.returncode} bug={r1.returncode}"
        if r0.returncode or not r1.returncode: msg+=" DEMO BAD: "+r0.stdout[-300:]+" / "+r1.stdout[-300:]
        if "--notest" not in sys.argv:
            open(f"{c}/run1.sh","w").write(RUN1); sh(f"rm -f {c}/_build/src/*.trs")
            t=sh(f'make -C {c}/_build/src check LOG_COMPILER="bash {c}/run1.sh"')
            m=re.findall(r"^# (PASS|FAIL|ERROR|SKIP): *(\d+)",t.stdout,re.M); msg+=" tests "+" ".join(a+"="+b for a,b in m)
        if "--nocheck" not in sys.argv:
            k=sh(f"python3 {V}/check.py {s["property"]} --tier quick",env=dict(os.environ,MC_REPO=c))
            v=[l for l in k.stdout.splitlines() if l.startswith("VIOLATION")]
            msg+=f" check rc={k.returncode} "+(v[0] if v else "NOT CAUGHT "+k.stdout[-200:])
        print(s["id"],msg,flush=True); shutil.rmtree(c)
main()
