#!/usr/bin/env python3
"""check.py PROPERTY — decides one property by seeded simulation of /repo's current working tree.

Builds the simulator from /repo, runs seeded simulated histories on all cores, gates every
violation (same seed replayed in fresh processes must fail the same way), minimises it, and prints
    VIOLATION property=<id> replay=<file>
Exit 0: held on everything explored; 1: violated; 2: the check itself could not answer.
VERIF_SEED and VERIF_TIER (quick|thorough) come from the environment.
"""
import sys,os,time,json,re,subprocess,collections,shutil
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"tools"))
import build as B
from props_cfg import CFG,REALCODE,STUBS
VERIF=os.path.dirname(os.path.abspath(__file__))
SEED=int(os.environ.get("VERIF_SEED","1")); TIER=os.environ.get("VERIF_TIER","quick")
if TIER not in ("quick","thorough"): TIER="quick"
NW=min(8,os.cpu_count() or 8)
def known():
    ks=[]
    p=os.path.join(VERIF,"known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r"known: property=(\S+) match=/(.*?)/ (.*)$",l.rstrip("\n"))
            if m: ks.append((m.group(1),re.compile(m.group(2),re.S),m.group(3)))
    return ks
RL=re.compile(r'^R (\d+) ([0-9a-f]+) (\d+) (\d) (\d+) (\d+) "(.*?)" "(.*)"$')
def batch(exe,prof,start,n,secs,out,env,suf=""):
    ps=[]
    for w in range(NW):
        cnt=(n-w+NW-1)//NW
        f=os.path.join(out,"%s%s.%d.txt"%(prof,suf,w))
        ps.append((subprocess.Popen([exe,"batch",prof,str(start+w),str(cnt),str(NW),f,str(secs)],env=env,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE),f))
    R={};S=collections.Counter();E=set();steps=0;mx=0
    for p,f in ps:
        err=p.communicate()[1]
        if p.returncode!=0: raise RuntimeError("worker failed (%d): %s"%(p.returncode,err[-500:]))
        for l in open(f,errors="replace"):
            if l[0]=="R":
                m=RL.match(l.rstrip("\n"))
                if not m: raise RuntimeError("bad line "+l[:200])
                R[int(m.group(1))]=(m.group(2),int(m.group(3)),int(m.group(4)),int(m.group(5)),int(m.group(6)),m.group(7),m.group(8))
            elif l[0]=="S":
                a=l.split(); S[" ".join(a[1:-1])]+=int(a[-1])
            elif l[0]=="E": E.update(x for x in l[2:].strip().split(",") if x)
            elif l[0]=="T": a=l.split(); steps+=int(a[1]); mx=max(mx,float(a[2]))
    return R,S,E,steps,mx
def replay(exe,f,env):
    p=subprocess.run([exe,"replay",f],env=env,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,errors="replace",timeout=200)
    m=re.search(r"^state=(\d) hash=([0-9a-f]+) class=(.*)$",p.stdout,re.M)
    msg=p.stdout[m.end()+1:].strip() if m else ""
    return (int(m.group(1)),m.group(2),m.group(3),msg) if m else (-1,"","","")
def main():
    t0=time.time(); prop=sys.argv[1]; C=CFG[prop]; ks=[k for k in known() if k[0]==prop]
    OUT=os.environ.get("SIM_OUT",VERIF); out=os.path.join(OUT,"out",prop); os.makedirs(out,exist_ok=True); os.makedirs(os.path.join(OUT,"evidence"),exist_ok=True)
    for f in os.listdir(out):
        if f.endswith(".scn"): os.remove(os.path.join(out,f))
    env=dict(os.environ); env.update(C.get("env",{})); env["SIM_KEY"]=C["key"]
    exes={}; profs=C["profiles"]; viol=[]; knownhit={}; errs=[]
    tot=dict(runs=0,steps=0,secs=0.0); ST=collections.Counter(); EDG={}; hashes=set(); nontriv=0; samples=[]; disc=collections.Counter(); det=0
    for pr in profs:
        variant=pr.get("variant","asan"); libs=pr["libs"]; srcs=pr.get("srcs",B.CXXSRCS if variant=="cxx" else B.SIMSRCS)
        exe,nc=B.build(variant,libs,main="sim_%s_%s"%(variant,pr.get("tag",prop)),srcs=srcs)
        tb=time.time(); name=pr["profile"]
        n=pr[TIER+"_n"]; secs=pr.get(TIER+"_s",240 if TIER=="quick" else 3600)
        start=(SEED-1)*10000000+1+pr.get("skip",0)
        R,S,E,steps,mx=batch(exe,name,start,n,secs,out,env)
        # determinism gate: a sample of the seeds again, from another worker layout, in other processes
        ng=min(pr.get("gate",160),len(R))
        R2,_,_,_,_=batch(exe,name,start,ng,120,out,env,"-gate") if ng else ({},0,0,0,0)
        gate_runs=0
        for s,v in R2.items():
            if s in R:
                gate_runs+=1
                if v[2] in(1,2) and R[s][2] in (1,2) and (v[0]!=R[s][0] or v[2]!=R[s][2]) and not (v[2]==2 and R[s][2]==2): errs.append("seed %d of %s is not deterministic (%s/%s, state %d/%d)"%(s,name,v[0],R[s][0],v[2],R[s][2]))
        det+=gate_runs
        tot["runs"]+=len(R); tot["steps"]+=steps; tot["secs"]+=mx; ST.update(S); EDG.setdefault(variant,set()).update(E)
        for s,(h,stp,state,nops,key,cls,msg) in R.items():
            if state==3: disc[cls]+=1
            elif state==1:
                if h not in hashes:
                    hashes.add(h)
                    if key>0: nontriv+=1
                if key>0 and len(samples)<3:
                    g=subprocess.run([exe,"gen",name,str(s)],env=env,stdout=subprocess.PIPE,text=True).stdout
                    samples.append(dict(profile=name,seed=s,steps=stp,key_events=key,scenario=g.splitlines()[:40]))
        bad=sorted((s for s,v in R.items() if v[2]==2))
        byc=collections.OrderedDict()
        for s in bad: byc.setdefault(R[s][5],[]).append(s)
        picks=[]
        for c,l in byc.items(): picks+=l[:3]
        reported=set(); tv=time.time(); nfail=0
        for s in picks:
            if time.time()-tv>(240 if TIER=="quick" else 1200) and (viol or nfail>8): break
            cls=R[s][5]
            if cls in reported: continue
            f=os.path.join(out,"%s-%d.scn"%(name,s))
            open(f,"w").write(subprocess.run([exe,"gen",name,str(s)],env=env,stdout=subprocess.PIPE,text=True).stdout)
            a=replay(exe,f,env); b=replay(exe,f,env)
            if not(a[0]==2 and b[0]==2 and a[2]==cls and b[2]==cls):
                nfail+=1; errs.append("violation of seed %d (%s) did not replay: %s %s"%(s,cls,a[:3],b[:3])); continue
            mf=os.path.join(out,"%s-%d.min.scn"%(name,s))
            subprocess.run([exe,"min",f,mf,"40"],env=env,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=400)
            m=replay(exe,mf,env) if os.path.exists(mf) else (0,"","","")
            if m[0]==2 and m[2]==cls: rf=mf; msg=m[3]
            else: rf=f; msg=a[3]
            txt=cls+": "+msg
            k=[x for x in ks if x[1].search(txt)]
            if k: knownhit.setdefault(k[0][2],s); continue
            t=open(rf).read(); open(rf,"w").write("# variant %s\n%s"%(variant,t)); reported.add(cls); viol.append((rf,cls,msg,s,name))
        # every remaining violating seed must be covered by a known finding, judged on its own message
        if ks:
            for s in bad:
                if s in picks: continue
                txt=R[s][5]+": "+R[s][6].replace("\\n","\n").replace('\\"','"')
                if any(x[1].search(txt) for x in ks) or R[s][5] in reported: continue
                f=os.path.join(out,"%s-%d.scn"%(name,s))
                open(f,"w").write(subprocess.run([exe,"gen",name,str(s)],env=env,stdout=subprocess.PIPE,text=True).stdout)
                a=replay(exe,f,env)
                if a[0]==2: t=open(f).read(); open(f,"w").write("# variant %s\n%s"%(variant,t)); reported.add(a[2]); viol.append((f,a[2],a[3],s,name))
    for k in ks:
        if k[2] in knownhit or C.get("always_known"): print("KNOWN-FINDING: property=%s %s"%(prop,k[2]))
        else: print("KNOWN-FINDING: property=%s %s (not reached by this run's seeds)"%(prop,k[2]))
    wall=time.time()-t0
    need=[x for x in C.get("must",[]) if ST.get(x,0)==0]
    runh=int(tot["runs"]*3600/max(tot["secs"],.1))
    cov=dict(evaluations=tot["runs"],distinct_nontrivial=nontriv,rule=C["rule"],samples=samples or [dict(note="no completed non-trivial run")],
        runs_per_hour=runh,simulated_time_steps=tot["steps"],simulated_time_unit="edges of instrumented library code executed (the simulator's only clock)",
        distinct_histories=len(hashes),distinct_edges={k:len(v) for k,v in EDG.items()},determinism_gate_runs=det,
        faults={k:v for k,v in sorted(ST.items()) if re.match(C.get("fault_re",r"fault|limit\.|maint|inplace|restart|renew|sched\."),k)},
        counters={k:v for k,v in sorted(ST.items())},discarded=dict(disc),rare_probes_at_zero=need,real_components=C.get("real",REALCODE),stubbed_components=C.get("stubs",STUBS),
        profiles=[dict(profile=p["profile"],variant=p.get("variant","asan"),libs=p["libs"],seeds=p[TIER+"_n"],first_seed=(SEED-1)*10000000+1+p.get("skip",0)) for p in profs])
    ev=dict(property=prop,tier=TIER,seed=SEED,level=C.get("level","exploration"),coverage=cov,assumptions=C["assume"],wall_s=round(wall,1),violations=len(viol))
    json.dump(ev,open(os.path.join(OUT,"evidence",prop+".json"),"w"),indent=1)
    for rf,cls,msg,s,name in viol[:6]:
        print("violation class=%s profile=%s seed=%d\n  %s"%(cls,name,s,msg[:1500].replace("\n","\n  ")))
    if viol:
        print("VIOLATION property=%s replay=%s"%(prop,viol[0][0])); return 1
    if errs:
        print("ERROR: "+"\n".join(errs[:10])); return 2
    print("OK property=%s runs=%d distinct_nontrivial=%d wall=%.0fs"%(prop,tot["runs"],nontriv,wall)); return 0
if __name__=="__main__":
    try: rc=main()
    except Exception as e:
        import traceback; traceback.print_exc(); rc=2
    sys.stdout.flush(); sys.exit(rc)
