#!/usr/bin/env python3
"""Plant a bug: seed.py SPEC.py [--nocheck]. SPEC defines ID, PROP, EDITS=[(path,old,new)...], DEMO (C++ main body file text), NEEDS, BREAKS.
Confirms: applies, builds, stable tests pass, demo 0 on clean / nonzero with the patch, then runs the property's quick check. /repo is restored."""
import sys,os,subprocess,json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH='''#!/bin/bash
# exit 0 when the property holds, 1 when it is broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -I/repo/_build -I/repo/include -I/repo/include/gear "$d/demo.cc" -o "$t/demo" -L/repo/_build -lgearxml -lgear -lgearsurf -lCLHEP -ldl -Wl,-rpath,/repo/_build || exit 3
cd "$t" && timeout 120 ./demo >out.txt 2>&1; r=$?; tail -5 out.txt; exit $r
'''
ns={}; exec(open(sys.argv[1]).read(),ns); I=ns['ID']; D=V+"/seeded/"+I
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
assert sh("git -C /repo status --short").stdout=="" , "repo dirty"
os.makedirs(D,exist_ok=True)
open(D+"/demo.cc","w").write(ns['DEMO']); open(D+"/demo.sh","w").write(DEMO_SH); os.chmod(D+"/demo.sh",0o755)
json.dump({"property":ns['PROP'],"needs":ns['NEEDS'],"what_it_breaks":ns['BREAKS']},open(D+"/meta.json","w"),indent=1)
ok=True
def say(*a): print(*a,flush=True)
try:
    r=sh("bash /opt/vp/build.sh"); r=sh("bash %s/demo.sh"%D,cwd="/repo"); say("demo clean:",r.returncode,r.stdout[-300:]); ok&=r.returncode==0
    for p,a,b in ns['EDITS']:
        t=open("/repo/"+p).read(); assert t.count(a)==1,("match",p,t.count(a),a); open("/repo/"+p,"w").write(t.replace(a,b))
    diff=sh("git -C /repo diff").stdout; open(D+"/patch.diff","w").write(diff)
    # must change lines of the original repository
    r=sh("bash /opt/vp/build.sh"); say("build:",r.returncode, r.stdout[-500:] if r.returncode else ""); ok&=r.returncode==0
    if ok:
        sh("bash /opt/vp/test.sh /tmp/seedout.json"); b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o=set(json.load(open("/tmp/seedout.json"))["passed"])
        say("tests missing:",sorted(b-o)); ok&=not (b-o)
        r=sh("bash %s/demo.sh"%D,cwd="/repo"); say("demo patched:",r.returncode,r.stdout[-300:]); ok&=r.returncode not in (0,3)
        if "--nocheck" not in sys.argv:
            r=sh("./check.py %s quick"%ns['PROP'],cwd=V); say("check exit:",r.returncode,"\n".join(x[:220] for x in r.stdout.splitlines()[-6:]))
            F=V+"/tools/seed_results.json"; R=json.load(open(F)) if os.path.exists(F) else {}
            R[I]="caught" if r.returncode==1 and "VIOLATION property=%s "%ns['PROP'] in r.stdout else "missed"; json.dump(R,open(F,"w"),indent=0,sort_keys=True)
            say("RESULT",I,ns['PROP'],"valid" if ok else "INVALID","CAUGHT" if r.returncode==1 and "VIOLATION property=%s "%ns['PROP'] in r.stdout else "MISSED")
finally:
    sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
if not ok: say("INVALID seed",I)
