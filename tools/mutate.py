#!/usr/bin/env python3
"""Mutation testing of the checks (a development aid, no registered check uses it).
usage: mutate.py WORKTREE SEED COUNT OUT FILE...   (WORKTREE: a scratch copy of /repo)
Each mutant changes one token of one file; it is compiled and a few hundred seeds of every profile
are run until one reports a violation. Survivors are listed for inspection."""
import sys,os,re,random,subprocess,hashlib,time
wt,seed,count,outf=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),sys.argv[4]; files=sys.argv[5:]
os.environ["SIM_REPO"]=wt; os.environ.setdefault("SIM_BUILD","mutbuild")
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build as B
from props_cfg import CFG
NW=int(os.environ.get("MT_W","4")); N=int(os.environ.get("MT_N","640"))
OPS=[(r"<=","<"),(r">=",">"),(r"(?<![-<=>])<(?![<=])","<="),(r"(?<![->=])>(?![>=])",">="),(r"==","!="),(r"!=","=="),(r"&&","||"),(r"\|\|","&&"),
 (r"\btrue\b","false"),(r"\bfalse\b","true"),(r"(?<=[\w\])]) ?\+ ?1\b",""),(r"(?<=[\w\])]) ?- ?1\b",""),(r"\+\+","--"),(r"(?<=[\w\])])\+(?=[\w(])","-"),(r"(?<=[\w\])])-(?=[\w(])","+"),(r"\bcontinue;",";"),(r"\bbreak;",";"),(r"if \((?!.*\bdestructive\b)","if (!("),]
def mutants(f):
    src=open(os.path.join(wt,f),encoding="latin-1").read().split("\n"); out=[]; incom=False; depth=0
    for i,l in enumerate(src):
        s=l.strip()
        if "/*" in s and "*/" not in s: incom=True
        if incom:
            if "*/" in s: incom=False
            continue
        if s.startswith(("#","//","/*","*","extern","static","typedef","const")) or "fprint" in s or "printf" in s or "assert" in s: continue
        code=l.split("//")[0].split("/*")[0]
        if '"' in code or not l.startswith((" ","\t")): continue
        for pat,rep in OPS:
            for m in re.finditer(pat,code):
                if pat.startswith("if"):
                    k=code.find("(",m.start()); d=0
                    for j in range(k,len(code)):
                        d+={"(":1,")":-1}.get(code[j],0)
                        if d==0: break
                    else: continue
                    n=code[:k]+"(!"+code[k:j+1]+")"+code[j+1:]
                else: n=code[:m.start()]+rep+code[m.end():]
                out.append((i,n))
        if re.match(r"^\s+[\w>.\-\[\]()*&, ]+;\s*$",code) and not re.match(r"^\s*(return|break|continue|goto|[\w ]+\*+ ?\w+;|(int|size_t|bool|mpq_t|\w+_t\*?) )",code): out.append((i,re.match(r"^\s*",code).group(0)+";"))
    return src,out
def run(exe,prof,libs):
    ps=[]
    for w in range(NW):
        f="/tmp/mut_%d_%d.txt"%(os.getpid(),w); ps.append((subprocess.Popen([exe,"batch",prof,str(5000001+w),str(N//NW),str(NW),f,"60"],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL),f))
    r=[]
    for p,f in ps:
        p.wait()
        for l in open(f,errors="replace"):
            m=re.match(r'^R (\d+) \S+ \d+ 2 \d+ \d+ "(.*?)" "(.*)"',l)
            if m and not m.group(2).startswith(("incomplete-strict","flag-exact-strict")): r.append((m.group(1),m.group(2),m.group(3)[:160]))
        os.remove(f)
    return r
PLAN=[("C05",),("C03",),("C14",),("C04",),("C10",),("C09",),("C15",),("C01",),("C02",),("C13",),("C18",),("C11",),("C12",),("C08",)]
if os.environ.get("MT_P"): PLAN=[(x,) for x in os.environ["MT_P"].split(",")]
rng=random.Random(seed); pool=[]
for f in files:
    src,ms=mutants(f); pool+=[(f,m) for m in ms]
rng.shuffle(pool); done=0; log=open(outf,"a")
for f,(i,new) in pool:
    if done>=count: break
    p=os.path.join(wt,f); old=open(p,encoding="latin-1").read(); L=old.split("\n"); was=L[i]; L[i]=new
    open(p,"w",encoding="latin-1").write("\n".join(L)); t=time.time()
    try:
        res=None; exes={}
        try:
            for (pr,) in PLAN:
                P=CFG[pr]["profiles"][0]; tag=P["tag"]
                if tag not in exes: exes[tag]=B.build("asan",P["libs"],main="sim_asan_"+tag,srcs=B.SIMSRCS)[0]
                os.environ["SIM_KEY"]=CFG[pr]["key"]
                if pr=="C08":
                    k=N; N=200
                r=run(exes[tag],pr,None)
                if pr=="C08": N=k
                if r: res=(pr,len(r),r[0]); break
        except RuntimeError as e: continue
        done+=1
        log.write("%s %s:%d | %s -> %s | %s (%.0fs)\n"%("KILLED" if res else "SURVIVED",f,i+1,was.strip(),new.strip(),"%s x%d %s"%(res[0],res[1],res[2]) if res else "",time.time()-t)); log.flush()
    finally: open(p,"w",encoding="latin-1").write(old)
