#!/usr/bin/env python3
"""Builds the simulator straight from /repo's working tree (never through /repo/_build or /opt/vp).

usage: build.py VARIANT [lib ...]      VARIANT: asan | sched | plain
Objects are cached by content (source + every header + flags) under /verif/build/<variant>/.
Every domain library is compiled once per number representation and its global symbols get a
suffix (box_meet -> box_meet__boxD), so all representations live in one process.
"""
import os,sys,hashlib,subprocess,glob,re
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
REPO=os.environ.get("SIM_REPO","/repo")
NUM=dict(D="NUM_DOUBLE",Dl="NUM_LONGDOUBLE",MPQ="NUM_MPQ",MPFR="NUM_MPFR",MPZ="NUM_MPZ",
         Ill="NUM_LONGLONGINT",Il="NUM_LONGINT",Rll="NUM_LONGLONGRAT",Rl="NUM_LONGRAT")
APRON="""ap_scalar ap_interval ap_coeff ap_dimension ap_linexpr0 ap_lincons0 ap_generator0 ap_texpr0
 ap_tcons0 ap_manager ap_abstract0 ap_policy ap_generic ap_var ap_environment ap_linexpr1 ap_lincons1
 ap_generator1 ap_texpr1 ap_tcons1 ap_abstract1 ap_linearize ap_reducedproduct ap_disjunction""".split()
ITV="itv itv_linexpr itv_linearize".split()
LIBSRC=dict(
 box=("box","box_internal box_representation box_constructor box_meetjoin box_assign box_resize box_otherops box_policy"),
 oct=("octagons","oct_hmat oct_print oct_transfer oct_closure oct_nary oct_representation oct_predicate oct_resize"),
 avo=("avoct","avo_hmat avo_print avo_transfer avo_closure avo_nary avo_representation avo_predicate avo_resize"),
 polka=("newpolka","pk_user pk_internal pk_bit pk_satmat pk_vector pk_matrix pk_cherni pk_representation pk_approximate pk_constructor pk_test pk_extract pk_meetjoin pk_assign pk_project pk_resize pk_expandfold pk_widening pk_closure pkeq"),
 t1p=("taylor1plus","t1p_internal t1p_representation t1p_constructor t1p_meetjoin t1p_assign t1p_resize t1p_otherops t1p_fun t1p_itv_utils"),
 fpp=("fppol","fpp_print fpp_transfer fpp_user fpp_extract fpp_nary fpp_representation fpp_predicate fpp_resize fpp_weakjoin fppol_domain bt quasi_linear rlp fm numitv bv"),
)
ALL="boxD boxMPQ boxMPFR octD octMPQ octMPFR octDl octMPZ octIll octRll avoD avoMPQ avoMPZ avoIll avoMPFR polkaMPQ t1pD t1pMPQ t1pMPFR fppD ppl pkgrid".split()
NEEDS=dict(t1pD=["boxD","polkaMPQ"],t1pMPQ=["boxMPQ","polkaMPQ"],t1pMPFR=["boxMPFR","polkaMPQ"],pkgrid=["polkaMPQ","ppl"])
BASE="-U__STRICT_ANSI__ -DNDEBUG -DAPRON_SIM -w -g1 -fno-omit-frame-pointer -fPIC"
VAR=dict(
 asan=dict(cc="gcc",cxx="g++",flags="-O1 -fsanitize=address -fsanitize-coverage=trace-pc",ld="-fsanitize=address"),
 debug=dict(cc="gcc",cxx="g++",flags="-O1 -UNDEBUG -fsanitize=address -fsanitize-coverage=trace-pc",ld="-fsanitize=address"),
 cxx=dict(cc="gcc",cxx="g++",flags="-O1 -fsanitize=address -fsanitize-coverage=trace-pc",ld="-fsanitize=address",simdef="-DSIM_CXX -I%s/apronxx"%REPO,apronxx=True),
 sched=dict(cc="gcc",cxx="g++",flags="-O1 -fsanitize=thread --param=tsan-instrument-func-entry-exit=0",cflags="-fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -Dmemcpy=sim_memcpy -Dmemmove=sim_memmove -Dmemset=sim_memset -Dfree=sim_free -Drealloc=sim_realloc",simflags="-DSIM_SCHED -fno-builtin-malloc -fno-builtin-free -fno-builtin-realloc -fno-builtin-calloc",ld="-rdynamic -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock"),
 fpu=dict(cc="gcc",cxx="g++",flags="-O1 -fsanitize-coverage=trace-pc",ld="-rdynamic",api="-finstrument-functions"),
 plain=dict(cc="gcc",cxx="g++",flags="-O2",ld=""),
)
SIMSRCS="main.cpp expr.cpp dom.cpp ref.cpp hist.cpp step.cpp special.cpp checks.cpp misuse.cpp level1.cpp gen.cpp fpu.cpp sched.cpp".split()
CXXSRCS=SIMSRCS+["cxx.cpp"]
BASESRC=set(open(os.path.join(HERE,"base_sources.txt")).read().split())
def sources(d,names,ext="c"):
    """the library's files, without those a change removed, plus those a change added to its directory"""
    r=["%s/%s/%s.%s"%(REPO,d,n,ext) for n in names]
    r=[f for f in r if os.path.exists(f)]
    for f in sorted(glob.glob("%s/%s/*.%s"%(REPO,d,ext))):
        if os.path.relpath(f,REPO) in BASESRC or "test" in os.path.basename(f): continue
        if re.search(r"\bmain\s*\(",open(f,errors="replace").read()): continue
        r.append(f)
    return r
def sh(cmd):
    p=subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if p.returncode!=0: raise RuntimeError("build failed: %s\n%s"%(cmd,p.stdout[-4000:]))
    return p.stdout
def fhash(paths):
    h=hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(open(p,"rb").read())
    return h.hexdigest()
def build(variant,libs=None,log=True,main="sim",srcs=None,extra_flags="",extra_ld=""):
    v=VAR[variant]; libs=list(libs or ALL)
    for l in list(libs):
        for n in NEEDS.get(l,[]):
            if n not in libs: libs.append(n)
    libs.sort(key=ALL.index)
    out=os.path.join(VERIF,os.environ.get("SIM_BUILD","build"),variant); obj=os.path.join(out,"obj"); os.makedirs(obj,exist_ok=True)
    hdrs=sorted(glob.glob(REPO+"/*/*.h")+glob.glob(REPO+"/*/*.hh")); hh=fhash(hdrs)
    shdrs=sorted(glob.glob(VERIF+"/sim/*.hpp")+glob.glob(VERIF+"/sim/*.h")); sh_h=fhash(shdrs)
    inc="-I%s/num -I%s/itv -I%s/apron -I%s/sim/gen"%(REPO,REPO,REPO,VERIF)
    jobs=[] # (cmd, objpath, group)
    groups={}
    def add(group,src,cfg,xinc="",cxx=False,rename=None,nosan=False,hash_extra="",keyname=None):
        std="" if cxx else "-std=c99"
        if group=="apron" and "/apron/" in src: xinc+=" "+v.get("api","")
        if group!="sim" and not cxx: xinc+=" "+v.get("cflags","")
        if group=="sim": xinc+=" "+v.get("simflags","")
        fl=v["flags"] if not nosan else re.sub(r"-fsanitize\S*","",v["flags"])
        if nosan and variant in ("asan","debug","cxx"): fl+=" -fsanitize=address"
        cmd="%s %s %s %s %s %s %s"%(v["cxx"] if cxx else v["cc"],BASE,fl,std,inc,xinc,"-D"+cfg if cfg else "")
        key=hashlib.sha256((cmd+hh+hash_extra+str(rename)+fhash([src])+src).encode()).hexdigest()[:24]
        o=os.path.join(obj,"%s_%s.o"%(os.path.basename(src).split(".")[0],key))
        groups.setdefault(group,[]).append(o)
        if not os.path.exists(o): jobs.append(("%s -c %s -o %s.tmp.o"%(cmd,src,o),o))
    for f in sources("apron",APRON): add("apron",f,None)
    cfgs={"MPQ","D","MPFR"}
    for l in libs:
        for k in LIBSRC:
            if l.startswith(k): cfgs.add(l[len(k):])
    for c in sorted(cfgs):
        for f in sources("itv",ITV): add("apron",f,NUM[c])
    for c in ("MPQ","D","MPFR"): add("apron","%s/apron/ap_linearize_aux.c"%REPO,NUM[c])
    for l in libs:
        if l=="ppl":
            for f in sources("ppl","ppl_user ppl_poly ppl_grid".split(),"cc"): add("ppl",f,None,cxx=True)
        elif l=="pkgrid":
            add("pkgrid","%s/products/ap_pkgrid.c"%REPO,"NUM_MPQ","-I%s/newpolka -I%s/ppl -I%s/products"%(REPO,REPO,REPO))
        else:
            k=[k for k in LIBSRC if l.startswith(k)][0]; d,fs=LIBSRC[k]
            for f in sources(d,fs.split()): add(l,f,NUM[l[len(k):]],"-I%s/%s -I%s/box"%(REPO,d,REPO),rename=l)
    simdef=v.get("simdef","")+" "+" ".join("-DHAVE_%s"%l for l in libs)
    simsrcs=[os.path.join(VERIF,"sim",s) for s in (srcs or [])]
    for s in simsrcs:
        add("sim",s,None,"-std=c++17 -I%s/sim -I%s/box -I%s/octagons -I%s/avoct -I%s/newpolka -I%s/taylor1plus -I%s/ppl -I%s/products -I%s/fppol %s %s"%(VERIF,REPO,REPO,REPO,REPO,REPO,REPO,REPO,REPO,simdef,extra_flags),cxx=True,nosan=True,hash_extra=sh_h)
    if v.get("apronxx"):
        for s in sources("apronxx",["apronxx"],"cc"): add("apronxx",s,None,"-std=c++17 -I%s/box -I%s/octagons -I%s/newpolka -I%s/taylor1plus -I%s/ppl"%((REPO,)*5),cxx=True)
    def run(j):
        cmd,o=j; sh(cmd); os.rename(o+".tmp.o",o)
    with ThreadPoolExecutor(os.cpu_count()) as ex: list(ex.map(run,jobs))
    # symbol suffixes
    linked=[]
    for g,objs in groups.items():
        if g in ("apron","ppl","pkgrid","sim","apronxx"): linked+=objs; continue
        todo=[o for o in objs if not os.path.exists(o[:-2]+".r.o")]
        renamed=[o[:-2]+".%s.r.o"%hashlib.sha256(" ".join(sorted(objs)).encode()).hexdigest()[:8] for o in objs]
        if not all(os.path.exists(r) for r in renamed):
            syms=set()
            for line in sh("nm -g --defined-only "+" ".join(objs)).splitlines():
                p=line.split()
                if len(p)==3: syms.add(p[2])
            # polka stays the unsuffixed one (the grid product calls it by name)
            keep=set()
            mp=os.path.join(obj,g+".map")
            # t1p calls its own box: map box_* to box_*__boxX
            with open(mp,"w") as f:
                for s in sorted(syms):
                    if g!="polkaMPQ": f.write("%s %s__%s\n"%(s,s,g))
                if g.startswith("t1p"):
                    bx="box"+g[3:]
                    und=set()
                    for line in sh("nm -u "+" ".join(objs)).splitlines():
                        p=line.split()
                        if len(p)==2: und.add(p[1])
                    for s in sorted(und-syms):
                        if s.startswith("box_") : f.write("%s %s__%s\n"%(s,s,bx))
            def ren(t): sh("objcopy --redefine-syms=%s %s %s"%(mp,t[0],t[1]))
            with ThreadPoolExecutor(os.cpu_count()) as ex: list(ex.map(ren,zip(objs,renamed)))
        linked+=renamed
    exe=os.path.join(out,main)
    key=hashlib.sha256(" ".join(linked).encode()).hexdigest()
    kf=exe+".key"
    if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read()==key):
        rsp=os.path.join(out,main+".rsp"); open(rsp,"w").write("\n".join(linked))
        sh("%s %s -o %s.tmp @%s -lppl -lglpk -lmpfr -lgmpxx -lgmp -lm -lpthread %s"%(v["cxx"],v["ld"],exe,rsp,extra_ld))
        os.rename(exe+".tmp",exe); open(kf,"w").write(key)
    return exe,len(jobs)
if __name__=="__main__":
    import time; t=time.time()
    variant=sys.argv[1]
    srcs=sys.argv[2].split(",")
    e,n=build(variant,sys.argv[3:] or None,srcs=srcs,main=srcs[0].split(".")[0])
    print(e,"compiled",n,"objects in %.1fs"%(time.time()-t))
