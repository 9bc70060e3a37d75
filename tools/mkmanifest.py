#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH={
"exploration":"bounded exhaustive exploration: every configuration x probe of a stated finite grid executed on the real code against an independent reference model",
"model_checking":"explicit-state model checking bound to the code: every operation history up to the depth bound is a model trace replayed step by step on the real objects",
"fault_enumeration":"exhaustive fault enumeration: every cut, removal, duplication and value fault of the reference documents executed on the real code",
}
NA={"C42":"src/gearcga hands every question to functions of the Mokka simulation (CGABeamOn, CGAGetStepsForJava, ...) whose behaviour is documented nowhere in the repository and which is not installed: there is nothing to compile against, and a stand-in could only repeat the calls"}
checks=[];na=[]
for l in open(V+"/properties.jsonl"):
    p=json.loads(l); i=p["id"]; h=V+"/harness/%s.cc"%i
    if i in NA: na.append({"property":i,"reason":NA[i]}); continue
    if not os.path.exists(h): na.append({"property":i,"reason":"no check built yet"}); continue
    s=open(h).read()
    lev=re.search(r'LEVEL = "(\w+)"',s).group(1)
    bounds=re.search(r'BOUNDS = "((?:[^"\\]|\\.)*)"',s).group(1)
    checks.append({"property":i,"quick_cmd":"./check.py %s quick"%i,"thorough_cmd":"./check.py %s thorough"%i,"evidence_file":"evidence/%s.json"%i,
      "technique":TECH[lev],"level":lev,
      "level_note":"Holds for everything enumerated within the bounds: %s. Executed on the code compiled from /repo's working tree with g++ -O1, AddressSanitizer, UBSan and libstdc++ assertions; trusts the reference model in the harness, the compiler and the sanitizers. Nothing is claimed outside the bounds."%bounds})
m={"version":1,"setup_cmd":"./check.py --build","checks":checks,"not_applicable":na,
 "notes":"No instrumentation hooks are needed in /repo: every check drives the public interface of the code compiled from the working tree. Genuine defects found are repaired by 'fix:' commits in /repo or listed in known_findings.txt."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
print(len(checks),"checks",len(na),"not applicable")
