#!/usr/bin/env python3
"""Builds the code under test from /repo's working tree and runs one property's exhaustive exploration.

usage: check.py <ID> [quick|thorough] [--replay FILE] [--unit KEY] [--jobs N]
       check.py --build            build library and all harnesses (setup)
Exit 0: property held on everything explored; 1: VIOLATION lines printed; 2: the check could not run.
"""
import sys,os,subprocess,hashlib,glob,re,shutil,tempfile,concurrent.futures as cf
V=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get("VERIF_REPO","/repo")
B=os.path.join(V,"build")
CXX="g++"
FLAGS=["-std=c++17","-O1","-ftrivial-auto-var-init=pattern","-g1","-fno-omit-frame-pointer","-fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero",
       "-fno-sanitize-recover=all","-D_GLIBCXX_ASSERTIONS","-w"]
def sh(cmd):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
    if r.returncode: raise SystemExit2("command failed: %s\n%s"%(" ".join(cmd),r.stdout[-6000:]))
class SystemExit2(Exception): pass
def digest(*parts):
    h=hashlib.sha256()
    for p in parts: h.update(p if isinstance(p,bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]
def rd(p):
    with open(p,"rb") as f: return f.read()
def tree_headers():
    r=[]
    for root,_,fs in os.walk(os.path.join(REPO,"include")):
        for f in sorted(fs):
            if f.endswith((".h",".hh",".hpp",".icc")): r.append(os.path.join(root,f))
    for root,_,fs in os.walk(os.path.join(REPO,"src")):
        if "/geartgeo" in root or "/gearcga" in root or "/test" in root: continue
        for f in sorted(fs):
            if f.endswith((".h",".hh",".hpp",".icc")): r.append(os.path.join(root,f))
    return sorted(r)
def gen_config():
    src=os.path.join(REPO,"cmake/GearConfig.h.cmake.in")
    cm=open(os.path.join(REPO,"CMakeLists.txt"),errors="replace").read()
    vals={}
    for k in ("MAJOR","MINOR","PATCH"):
        m=re.search(r"SET\s*\(\s*(?:\$\{PROJECT_NAME\}|GEAR|Gear)_VERSION_%s\s+\"?(\d+)"%k,cm,re.I)
        vals[k]=m.group(1) if m else "0"
    t=open(src,errors="replace").read()
    t=re.sub(r"@(?:\w+?)_VERSION_(MAJOR|MINOR|PATCH)@",lambda m:vals[m.group(1)],t)
    t=re.sub(r"@\w+@","",t)
    t=re.sub(r"#cmakedefine\s+(\w+).*",r"/* #undef \1 */",t)
    d=os.path.join(B,"gen-"+digest(t))
    os.makedirs(os.path.join(d,"gear"),exist_ok=True)
    p=os.path.join(d,"gear","GearConfig.h")
    if not os.path.exists(p):
        tmp=p+".%d"%os.getpid(); open(tmp,"w").write(t); os.replace(tmp,p)
    return d
def compile_one(src,incs,key):
    o=os.path.join(B,"obj",digest(key,rd(src),src)+".o")
    if not os.path.exists(o):
        tmp=o+".%d"%os.getpid()
        sh([CXX]+FLAGS+incs+["-c",src,"-o",tmp]); os.replace(tmp,o)
    return o
def build(ids):
    os.makedirs(os.path.join(B,"obj"),exist_ok=True); os.makedirs(os.path.join(B,"bin"),exist_ok=True)
    gen=gen_config()
    incs=["-I",gen,"-I",os.path.join(REPO,"include"),"-I",os.path.join(REPO,"include/gear")]
    hk=digest(" ".join(FLAGS+incs+[CXX]),*[h.encode()+rd(h) for h in tree_headers()])
    srcs=[]
    for d in ("gearimpl","gearsurf","gearxml"): srcs+=sorted(glob.glob(os.path.join(REPO,"src",d,"*.cc")))
    hdir=os.path.join(V,"harness")
    hh=digest(hk,*[rd(h) for h in sorted(glob.glob(hdir+"/*.h"))])
    with cf.ThreadPoolExecutor(max(2,os.cpu_count() or 2)) as ex:
        hf={i:ex.submit(compile_one,os.path.join(hdir,i+".cc"),incs+["-I",hdir]+(["-I",os.path.join(hdir,"root")] if i=="C32" else []),hh if i!="C32" else digest(hh,*[rd(h) for h in sorted(glob.glob(hdir+"/root/*.h"))])) for i in ids}
        mf=ex.submit(compile_one,os.path.join(hdir,"mc.cc"),["-I",hdir],digest("mc",rd(hdir+"/mc.h")," ".join(FLAGS)))
        ol=[ex.submit(compile_one,s,incs,hk) for s in srcs]
        objs=[f.result() for f in ol]; mc=mf.result()
        bins={}; tgeo=os.path.join(REPO,"src","geartgeo"); root=os.path.join(hdir,"root")
        def extra(i): # sources of the ROOT back end, which the build leaves out: compiled against the stand-in for ROOT in harness/root
            if i not in ("C32","C41"): return []
            k=digest(hk,*[h.encode()+rd(h) for h in sorted(glob.glob(root+"/*.h")+glob.glob(tgeo+"/*.h"))])
            return [compile_one(s,incs+["-I",root,"-I",tgeo],k) for s in sorted(glob.glob(tgeo+"/*.cc")) if i=="C32" or os.path.basename(s).startswith("MaterialMap")]
        def link(i):
            o=hf[i].result(); xo=extra(i); b=os.path.join(B,"bin",i+"-"+digest(o,mc,*(objs+xo)))
            if not os.path.exists(b):
                tmp=b+".%d"%os.getpid()
                sh([CXX,"-fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero",o,mc]+xo+objs+["-o",tmp,"-lCLHEP","-ldl","-lpthread"]); os.replace(tmp,b)
            return b
        for i,f in [(i,ex.submit(link,i)) for i in ids]: bins[i]=f.result()
    return bins
def main():
    a=sys.argv[1:]
    if a and a[0]=="--build":
        ids=sorted(os.path.basename(p)[:-3] for p in glob.glob(V+"/harness/C[0-9]*.cc")); build([i for i in ids if i!="C32"])
        try: build(["C32"])
        except SystemExit2 as e: print("C32 not built:",e)   # its own check will say so
        print("built"); return 0
    pid=a[0]; tier=os.environ.get("VERIF_TIER","quick"); extra=[]
    i=1
    while i<len(a):
        if a[i] in("quick","thorough"): tier=a[i]
        elif a[i] in("--replay","--unit","--jobs","--unit-limit"): extra+=[a[i],a[i+1]]; i+=1
        i+=1
    b=build([pid])[pid]
    os.makedirs(os.path.join(B,"replay"),exist_ok=True); os.makedirs(os.path.join(V,"evidence"),exist_ok=True)
    shm="/dev/shm"      # scratch files in memory if there is room: much faster, same bytes
    try: ok=os.access(shm,os.W_OK) and shutil.disk_usage(shm).free>(1<<30)
    except OSError: ok=False
    run=tempfile.mkdtemp(prefix="run-%s-"%pid,dir=shm if ok else B)
    env=dict(os.environ)
    env["ASAN_OPTIONS"]="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:max_allocation_size_mb=4096"
    env["UBSAN_OPTIONS"]="print_stacktrace=1:halt_on_error=1"
    cmd=[b,"--evidence",os.path.join(V,"evidence",pid+".json"),"--replay-dir",os.path.join(B,"replay"),
         "--known",os.path.join(V,"known_findings.txt"),"--rundir",run,"--seed",os.environ.get("VERIF_SEED","1")]
    if "--jobs" not in extra: cmd+=["--jobs",str(min(16,os.cpu_count() or 4))]
    if tier=="thorough": cmd.append("--thorough")
    try: r=subprocess.run(cmd+extra,env=env).returncode
    finally: shutil.rmtree(run,ignore_errors=True)
    return r if r in(0,1) else 2
if __name__=="__main__":
    try: sys.exit(main())
    except SystemExit2 as e: print(e,file=sys.stderr); sys.exit(2)
