#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py OUT.jsonl [--per N] [--workers W] FILE...
Makes small changes to the code under test in scratch copies, runs the related checks on each until one objects, and for the
changes no check objects to runs the stable tests as well.  What survives both is listed for inspection by hand.
Never touches /repo: every worker has its own copy below /tmp/mut, removed at the end."""
import sys,os,re,subprocess,json,random,shutil,threading,queue,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REL=[("gearimpl/FixedPadSizeDiskLayout","C07 C09 C10 C11 C08 C12 C01 C16"),("gearimpl/FixedPadAngleDiskLayout","C07 C09 C10 C11 C08 C12 C01 C16"),("gearimpl/FixedDiskLayoutBase","C07 C09 C10 C11 C08 C12 C01 C16"),
("gearimpl/RectangularPadRowLayout","C07 C09 C10 C11 C08 C12 C01 C16"),("gearimpl/VersatileDiskRowLayout","C07 C09 C10 C11 C08 C12 C01 C16"),
("gearimpl/TPCModuleImpl","C13 C14 C11 C16 C12 C09 C01 C15"),("gearimpl/TPCParametersImpl","C15 C16 C12 C01 C11 C14"),("gearimpl/GearParametersImpl","C17 C06 C12"),
("gearimpl/GearMgrImpl","C18 C06 C31"),("gearimpl/CalorimeterParametersImpl","C27 C02 C12"),("gearimpl/LayerLayoutImpl","C27 C02 C12"),
("gearimpl/ZPlanar","C22 C23 C24 C03 C12"),("gearimpl/FTD","C25 C04 C12"),("gearimpl/SiPlanes","C26 C05 C12"),("gearimpl/TrackerPlanes","C26 C05 C12 C31"),
("gearimpl/Util","C31"),("gearimpl/Vector","C30"),("gearimpl/GlobalPadIndex","C30 C16"),("gearimpl/SimpleMaterial","C06 C18"),("gearimpl/ConstantBField","C06 C18"),("gearimpl/GEAR","C17 C18"),
("gearsurf/MeasurementSurfaceStore","C29"),("gearsurf/","C28 C29"),
("gearxml/MergeXML","C20 C33"),("gearxml/tinyxml","C21 C34 C19 C33 C06"),("gearxml/tinystr","C21 C34 C19"),("gearxml/XMLHandler","C19 C18 C06"),("gearxml/GearXML","C06 C19 C33 C18"),("gearxml/GearParametersXML","C06 C19 C03 C01"),
("gearxml/SimpleMaterialXML","C06 C19"),("gearxml/ConstantBFieldXML","C06 C19"),("gearxml/TPC","C01 C19"),("gearxml/FixedPad","C01 C19"),("gearxml/Rectangular","C01 C19"),("gearxml/Versatile","C01 C19"),
("gearxml/Calorimeter","C02 C27 C19"),("gearxml/ZPlanar","C03 C19"),("gearxml/FTD","C04 C19"),("gearxml/SiPlanes","C05 C19"),("gearxml/TrackerPlanes","C05 C19"),("","C18 C17")]
OPS=[(r'<=','<'),(r'>=','>'),(r'(?<![<\-])<(?![<=/a-zA-Z])','<='),(r'(?<![>\-])>(?![>=])(?=\s*[\w(-])','>='),(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),
(r'(?<=[\w\])]) \+ (?=[\w(])',' - '),(r'(?<=[\w\])])\s?-\s?(?=[\w(])(?<!->)',' + '),(r'(?<=[\w\])])\s?\*\s?(?=[\w(])(?![&>])','/'),(r'(?<=[\w\])])\s?/\s?(?=[\w(])','*'),
(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'(?<![\w.])0(?![\w.x])','1'),(r'(?<![\w.])1(?![\w.])','2'),(r'(?<![\w.])1(?![\w.])','0'),(r'(?<![\w.])2(?![\w.])','3'),(r'(?<![\w])0\.5\b','0.25'),(r'(?<![\w])2\.(?![\d])','1.'),
(r'\bf?abs\s*\(','('),(r'!(?=[\w(])',''),(r'\bsin\b','cos'),(r'\bcos\b','sin'),(r'\bfloor\b','ceil'),(r'\bceil\b','floor'),(r'\bmin\b','max'),(r'\bmax\b','min'),(r'\+\+','--'),(r'\+=','-='),(r'-=','+='),(r'\bcontinue\b','break'),(r'\bbreak\b','continue'),
(r'\bX\b','Y'),(r'X\(','Y('),(r'Y\(','X('),(r'\bMin\b','Max'),(r'Min\b','Max'),(r'Max\b','Min'),(r'\breturn ([^;]+);','return 0;')]
def code_lines(t):
    out=[];blk=False
    for n,l in enumerate(t.split("\n")):
        s=l
        if blk:
            if "*/" in s: blk=False
            continue
        if s.strip().startswith("/*") and "*/" not in s: blk=True; continue
        st=s.strip()
        if not st or st.startswith(("//","*","#","/*","namespace","class ","struct ","public","private","protected","typedef","using","template")): continue
        out.append(n)
    return out
def mutants(path,text):
    L=text.split("\n"); r=[]
    for n in code_lines(text):
        l=L[n]; c=l.find("//"); code=l if c<0 else l[:c]
        strs=[(m.start(),m.end()) for m in re.finditer(r'"(?:[^"\\]|\\.)*"',code)]
        for a,b in OPS:
            for m in re.finditer(a,code):
                if any(s<=m.start()<e for s,e in strs): continue
                if 'cout' in code or 'throw' in code or 'Exception(' in code or "include" in code: continue
                new=code[:m.start()]+m.expand(b)+code[m.end():]
                if new.strip()!=code.strip(): r.append((n,new+(l[c:] if c>=0 else "")))
        if code.strip().endswith(";") and not re.match(r'\s*(return|const |std::|int |double |unsigned|bool |virtual|char|float|long|size_t|delete|[\w:<>*&, ]+ \w+ *;)',code) and code.count("(")==code.count(")") and "{" not in code and "}" not in code:
            r.append((n,re.match(r'\s*',code).group()+";"))
    return r
def related(p):
    for k,v in REL:
        if k in p: return v.split()
def main():
    a=sys.argv[1:]; out=a.pop(0); per=40; W=4; seed=1; files=[]
    while a:
        x=a.pop(0)
        if x=="--per": per=int(a.pop(0))
        elif x=="--workers": W=int(a.pop(0))
        elif x=="--seed": seed=int(a.pop(0))
        else: files.append(x)
    Q=queue.Queue(); done=set()
    if os.path.exists(out):
        for l in open(out): d=json.loads(l); done.add((d["file"],d["line"],d["new"]))
    allm=[]
    for f in files:
        t=open("/repo/"+f).read(); m=mutants(f,t); random.Random(seed).shuffle(m); allm+=[(f,n,s) for n,s in m[:per]]
    random.Random(7).shuffle(allm)
    for x in allm:
        if (x[0],x[1]+1,x[2].strip()) not in done: Q.put(x)
    print(Q.qsize(),"mutants"); lock=threading.Lock(); cnt={}
    def worker(w):
        d="/tmp/mut/w%d"%w; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+"/verif"); R=d+"/repo"
        subprocess.run(["cp","-a","/repo",R]); subprocess.run(["rm","-rf",R+"/_build",R+"/.git"])
        for n in ("harness","check.py","known_findings.txt"): subprocess.run(["cp","-a",V+"/"+n,d+"/verif/"])
        os.makedirs("/tmp/mut/build",exist_ok=True); os.symlink("/tmp/mut/build",d+"/verif/build")
        env=dict(os.environ,VERIF_REPO=R,MC_FAILFAST="1")
        while True:
            try: f,n,s=Q.get_nowait()
            except queue.Empty: break
            p=R+"/"+f; t=open("/repo/"+f).read(); L=t.split("\n"); old=L[n]; L[n]=s; open(p,"w").write("\n".join(L)); t0=time.time(); res="survived"; by=""
            for c in related(f):
                try: r=subprocess.run(["./check.py",c,"quick","--jobs",str(max(1,8//W)),"--unit-limit","10"],cwd=d+"/verif",env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",timeout=900)
                except subprocess.TimeoutExpired: res="timeout";by=c;break
                if r.returncode==1: res="killed";by=c;break
                if r.returncode!=0:
                    res="nocompile" if "command failed" in r.stdout else "broken"; by=c; break
            if res=="survived":
                B=d+"/tb"; shutil.rmtree(B,ignore_errors=True); os.makedirs(B+"/src"); open(B+"/src/CMakeLists.txt","w").write(open("/opt/vp/gear/CMakeLists.txt").read().replace("set(R /repo)","set(R %s)"%R))
                r=subprocess.run("cmake -G Ninja -S %s/src -B %s/b >/dev/null 2>&1 && ninja -j2 -C %s/b >/dev/null 2>&1 && cd %s/b && ctest -j2 --timeout 60 2>&1 | tail -30"%(B,B,B,B),shell=True,stdout=subprocess.PIPE,text=True)
                if "100% tests passed" not in r.stdout:
                    bad=re.findall(r'^\s*\d+ - (\S+) \(',r.stdout,re.M); base={x.split("::")[0] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
                    if not r.stdout or any(b in base for b in bad) : res="killed"; by="tests"
                    elif bad: by="unstable tests "+" ".join(bad)
                shutil.rmtree(B,ignore_errors=True)
            open(p,"w").write(t)
            with lock:
                cnt[res]=cnt.get(res,0)+1
                open(out,"a").write(json.dumps({"file":f,"line":n+1,"old":old.strip(),"new":s.strip(),"result":res,"by":by,"s":round(time.time()-t0,1)})+"\n")
            # keep the object cache small
            if w==0 and sum(cnt.values())%25==0:
                now=time.time()
                for sub in ("obj","bin"):
                    for x in os.listdir("/tmp/mut/build/"+sub):
                        y="/tmp/mut/build/%s/%s"%(sub,x)
                        try:
                            if now-os.stat(y).st_atime>1800 and now-os.stat(y).st_mtime>1800: os.unlink(y)
                        except OSError: pass
        shutil.rmtree(d,ignore_errors=True)
    T=[threading.Thread(target=worker,args=(i,)) for i in range(W)]
    for t in T: t.start()
    for t in T: t.join()
    print(cnt)
main()
