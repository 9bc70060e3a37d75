#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text + per-property notes + bounds and rules taken from the harnesses + planted-bug results."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES=json.load(open(V+"/tools/notes.json"))
HEAD=open(V+"/tools/design_head.md").read(); TAIL=open(V+"/tools/design_tail.md").read()
out=[HEAD,"\n## Properties\n"]
def g(s,n):
    m=re.search(n+r' = "((?:[^"\\]|\\.)*)"',s); return m.group(1).replace('\\"','"') if m else "-"
for l in open(V+"/properties.jsonl"):
    p=json.loads(l); i=p["id"]; h=V+"/harness/%s.cc"%i; n=NOTES.get(i,{})
    out.append("\n### %s  %s\n\n"%(i,p["title"]))
    if i=="C42": out.append("Not applicable here: "+n["why"]+"\n"); continue
    if not os.path.exists(h): out.append("No check yet. Plan: "+n.get("oracle","-")+"\n"); continue
    s=open(h).read()
    out.append("*Enumerated:* %s.\n\n*A case:* %s.\n\n*Oracle:* %s\n\n*Why tests cannot:* %s\n"%(g(s,"BOUNDS"),g(s,"RULE"),n.get("oracle","see harness/%s.cc"%i),p["why_tests_cant"]))
    if "note" in n: out.append("\n*Note:* %s\n"%n["note"])
out.append("\n"+TAIL)
out.append("\n## Planted bugs and what catches them\n\n| bug | property | needs | result of the quick check |\n|---|---|---|---|\n")
res={}
f=V+"/tools/seed_results.json"
if os.path.exists(f): res=json.load(open(f))
for d in sorted(os.listdir(V+"/seeded")) if os.path.isdir(V+"/seeded") else []:
    m=json.load(open(V+"/seeded/%s/meta.json"%d)); out.append("| %s | %s | %s | %s |\n"%(d,m["property"],m["needs"],res.get(d,"?")))
open(V+"/DESIGN.md","w").write("".join(out))
