// Seeded scenario generation for the level-0 history profiles (swarm style: each run draws its own
// domain, sizes, mix of operations, fault kinds and rates).
#include "hist.hpp"
struct W { int k; int w; };
Scenario gen(uint64_t seed,const string& prof){
  Scenario s; s.profile=prof; s.seed=seed; Rng r(seed*2654435761ULL+std::hash<string>()("p")*0+mix64(prof.size()*131+prof[prof.size()-1]));
  vector<string> doms; int nops=r.range(4,30); map<int,int> w; 
  auto set=[&](const char*k,long v){ s.cfg[k]=std::to_string(v); };
  auto avail=[&](vector<const char*> v){ vector<string> o; for(auto n:v) if(dom(n)) o.push_back(n); return o; };
  for(int k=O_TOP;k<=O_CONS;k++) w[k]= k==O_CONS?10:k==O_BOX?4:k==O_TOP?2:1;
  for(int k=O_COPY;k<=O_CLOSURE;k++) w[k]=3; w[O_FREE]=1; w[O_MEETLIN]=8; w[O_JOIN]=8; w[O_MEET]=5; w[O_ASSIGN]=6; w[O_SUBST]=4; w[O_ADDRAY]=4; w[O_WIDEN]=2; w[O_WIDENTH]=1; w[O_FORGET]=4; w[O_CLOSURE]=1; w[O_MEETTC]=2; w[O_ASSIGNT]=2; w[O_SUBSTT]=1;
  set("slots",r.range(2,5)); set("probes",r.range(1,3)); set("rd",r.range(1,4)); set("id",0);
  if(prof=="C01"||prof=="C02"){
    doms=avail({"polka","polka","polkaS","polkaS","pkeq"}); set("limits",1); set("bigc",r.p(70)); set("maxc",r.p(50)?8:100); set("itv",r.p(20)?15:0); set("sustain",prof=="C01"?(r.p(50)?40:0):0); set("maint0",r.p(50)?r.range(5,50):0); set("probecopy",r.p(50)?100:0); set("ref",prof=="C02"); 
    w[O_LIMIT]=r.range(4,20); w[O_UNLIMIT]=r.range(1,8); if(r.p(25)) set("id",r.range(0,2)); nops=r.range(5,25);
    if(r.p(30)) w[O_OPTALGO]=3; if(r.p(30)) w[O_MAINT]=3;
  } else if(prof=="C03"){
    doms=avail({"polka","polka","polka","polkaS","polkaS","polkaS","pkeq","octMPQ","octMPQ","octMPQ","boxMPQ","ppl","pplS"}); set("uni",2); set("eq",1); set("ref",1); set("maint0",0); set("maint1",r.range(10,80)); set("probecopy0",100); set("probecopy1",r.p(50)?0:50); w[O_MAINT]=r.range(0,6); w[O_OPTALGO]=r.p(50)?r.range(1,5):0; set("itv",r.p(25)?15:0); nops=r.range(6,40); if(r.p(50)){ w[O_FREE]=0; for(int k:{O_ADDDIM,O_REMDIM,O_EXPAND,O_FOLD,O_FORGET,O_PERM}) w[k]=1; w[O_MEET]=w[O_JOIN]=w[O_MEETLIN]=w[O_ADDRAY]=8; }
  } else if(prof=="C04"){
    doms=avail({"polka","polka","polka","polkaS","polkaS","pkeq","octMPQ","octMPQ","boxMPQ","boxMPQ","ppl","pplS"}); set("uni",2); set("eq",1); set("ref",r.p(50)); set("shadow",1); set("inplace1",r.range(40,100)); set("itv",r.p(25)?15:0); set("maint0",r.p(40)?20:0); set("maint1",r.p(40)?20:0); w[O_COPY]=6; w[O_MEETARR]=5; w[O_JOINARR]=5; nops=r.range(4,25);
  } else if(prof=="C17"){
    doms=avail({"polka","polka","polkaS","pkeq","octMPQ","octMPQ","octD","boxMPQ","boxD","ppl","pplS"}); set("uni",2); set("eq",1); set("cxx1",1); set("shadow",1); set("inplace0",0); set("inplace1",r.range(10,90)); set("itv",r.p(25)?15:0); if(r.p(30)) set("id",r.range(1,2)); w[O_COPY]=5; w[O_MEETARR]=5; w[O_JOINARR]=5; w[O_CXX]=r.range(5,40); nops=r.range(4,20); if(r.p(15)){ doms=avail({"polka","polkaS","pkeq"}); set("limits",1); set("uni",1); set("eq",0); set("cxx0",1); set("inplace0",50); set("bigc",r.p(70)); w[O_LIMIT]=r.range(4,20); w[O_UNLIMIT]=r.range(1,8); }
  } else if(prof=="C10"){
    doms=avail({"boxD","boxMPQ","boxMPQ","octD","octMPQ","octMPQ","polka","polkaS","polkaS","pkeq","ppl","pplS"}); set("uni",2); set("eq",1); set("shadow",1); set("misuse",1); w[O_MISUSE]=r.range(10,40); if(r.p(40)) set("id",r.range(1,2)); set("inplace0",0); set("inplace1",0); set("maint1",r.p(30)?20:0); set("maint0",s.geti("maint1")); nops=r.range(4,20);
  } else if(prof=="C11"){
    doms=avail({"octD","octD","octMPQ","octMPQ","octMPFR","octDl","octMPZ"}); bool av=r.p(15)&&dom("avoMPQ"); if(av) doms=avail({"avoD","avoMPQ","avoMPFR"}); bool two=r.p(60); set("uni",two?2:1); set("eq",two); w[O_SERIAL]=r.range(5,25); w[O_RESTART]=r.range(3,12); if(r.p(40)) set("id",r.range(1,2)); set("itv",0); set("bigc",r.p(30)); set("maint0",r.p(40)?30:0); set("maint1",s.geti("maint0")); nops=r.range(4,20);
    if(av){ set("nowit",1); set("uni",1); set("eq",0); int a=w[O_SERIAL],b=w[O_RESTART]; for(auto&x:w) if(x.first>=O_COPY&&x.first!=O_COPY&&x.first!=O_MEETLIN&&x.first!=O_JOIN&&x.first!=O_MEET) x.second=0; w[O_SERIAL]=a; w[O_RESTART]=b; }
  } else if(prof=="C12"){
    doms=avail({"boxD","boxMPQ","boxMPFR","octD","octMPQ","octMPFR","octDl","octMPZ","polka","polka","polkaS","pkeq","ppl","pplS"}); w[O_PRINT]=r.range(10,60); if(r.p(40)) set("id",r.range(1,2)); set("itv",r.p(40)?15:0); set("bigc",r.p(40)); set("maint0",r.p(50)?30:0); set("inplace0",r.p(40)?40:0); nops=r.range(4,18);
  } else if(prof=="C13"){
    doms=avail({"boxD","boxMPQ","octD","octMPQ","octMPQ","octMPZ","polka","polka","polka","polkaS","polkaS","pkeq","ppl","pplS"}); for(auto&x:w) x.second=0; w[O_CHAIN]=10; w[O_OPTALGO]=r.p(40)?4:0; set("rd",r.range(1,3)); if(r.p(20)){ set("id",r.range(1,2)); } set("maint0",r.p(70)?r.range(5,90):0); set("limits",r.p(35)); nops=r.range(2,5); set("budget",1000000000);
  } else if(prof=="C14"||prof=="C15"){
    doms=avail({"boxD","boxMPQ","boxMPQ","octD","octMPQ","octMPQ","octMPFR","octMPZ","polka","polka","polka","polkaS","polkaS","pkeq","ppl","pplS"}); w[prof=="C14"?O_QUERY:O_EXPORT]=r.range(10,60); set("ref",r.p(50)); if(r.p(30)) set("id",r.range(1,2)); set("itv",r.p(25)?15:0); set("maint0",r.p(60)?r.range(5,60):0); set("inplace0",r.p(40)?40:0); set("probecopy0",r.p(50)?100:0); if(r.p(40)) w[O_OPTALGO]=3; if(r.p(50)) w[O_MAINT]=3; nops=r.range(4,25);
  } else if(prof=="C18"){
    doms=avail({"boxD","boxMPQ","boxMPQ","boxMPFR","octD","octMPQ","octMPQ","octMPQ","octMPFR","octDl","octMPZ","polka","polka","polka","polkaS","polkaS","pkeq","pkeq","ppl","pplS"}); set("flags",1); if(r.p(40)) set("wanted",r.range(1,3)); if(r.p(35)) set("alg",r.p(70)?-1:r.range(1,3)); set("itv",r.p(25)?15:0); set("maint0",r.p(60)?r.range(5,60):0); set("inplace0",r.p(50)?50:0); if(r.p(30)) w[O_OPTALGO]=3; nops=r.range(4,25); w[O_WIDEN]=w[O_WIDENTH]=1;
  } else if(prof=="C09"){
    doms=avail({"boxMPQ","boxMPQ","octMPQ","octMPQ","polka","polka","polkaS","pkeq","ppl","pplS","boxD","octD"}); for(int k:{O_ADDDIM,O_REMDIM,O_PERM}) w[k]=0; for(int k=O_TOP;k<=O_CONS;k++) w[k]=k==O_CONS?8:2; w[O_MAINT]=2; w[O_QUERY]=4; w[O_MISUSE]=r.p(50)?r.range(2,15):0; w[O_E_ENV]=r.range(0,6); w[O_E_EXPR]=r.range(0,6); w[O_E_UNIFY]=6; w[O_E_CHENV]=8; w[O_E_MINENV]=3; w[O_E_RENAME]=5; w[O_EXPAND]=w[O_FOLD]=4; set("rd",r.range(2,5)); set("id",r.p(40)); set("itv",r.p(20)?15:0); set("inplace0",r.p(60)?r.range(20,90):0); nops=r.range(4,25);
  } else { // C05, and C05x: the domains whose answers are not judged, for C08
    doms=avail({"polka","polkaS","pkeq","boxD","boxD","boxMPQ","boxMPFR","octD","octD","octMPQ","octMPFR","octDl","octMPZ","polka","polkaS","pkeq","ppl","pplS"});
    set("inplace0",r.p(60)?r.range(20,90):0); set("maint0",r.p(50)?r.range(5,40):0); set("probecopy0",r.p(50)?100:30); set("probes",r.range(1,4)); set("itv",r.p(50)?r.range(5,30):0); int id=r.p(60)?0:r.range(1,3), rd=r.range(id?0:1,id?2:4); set("id",id); set("rd",rd); set("flt",r.p(70)); set("nonlin",r.p(80)); w[O_APPROX]=r.p(30)?4:0; w[O_ASSIGNT]=6; w[O_MEETTC]=5; w[O_SUBSTT]=3; w[O_FREE]=1; set("bigc",r.p(10)); 
    w[O_RENEW]=r.p(20); if(prof=="C05x"){ doms=avail({"grid","pkgrid"}); set("probes",0); if(r.p(60)) set("id",0); }
  }
  { Rng ra(seed^0xa190); if(ra.p(30)) set("alg",ra.p(60)?1:-1); } if(prof=="C05"||prof=="C18"){ Rng ra(seed^0xa191); if(ra.p(30)){ set("anyalg",1); set("alg",ra.p(40)?-1:ra.p(50)?100+ra.range(0,3):ra.range(1,5)); } }
  // swarm: drop a random subset of operation kinds
  for(auto&x:w) if(x.first>O_CONS&&r.p(25)) x.second=0; else if(x.first>O_CONS&&r.p(15)) x.second*=4;
  s.cfg["dom"]=doms.empty()?"none":doms[r.below(doms.size())];
  const Dom* D=dom(s.cfg["dom"]); if(D){ if(s.geti("uni",1)>1&&!strncmp(D->name,"oct",3)) set("itv",0); 
    if(prof!="C09"&&(int)(s.geti("id")+s.geti("rd"))>D->maxdim-1){ set("rd",std::max(1L,(long)D->maxdim-1-s.geti("id"))); }
    if(!strncmp(D->name,"t1p",3)){ for(int k:{O_ADDRAY,O_SUBST,O_SUBSTT,O_EXPAND,O_FOLD,O_WIDENTH,O_CLOSURE,O_MEETARR}) w[k]=0; } }
  int tot=0; for(auto&x:w) tot+=x.second; int ns=s.geti("slots"); int over=r.p(50)?45:10; /* how often a result replaces its own operand */
  for(int i=0;i<nops;i++){ Op o; int x=r.below(tot); for(auto&y:w){ if(x<y.second){ o.k=y.first; break; } x-=y.second; } if(i==0&&prof!="C13") o.k=O_CONS; if(prof=="C13") {} else if(i==1&&r.p(60)) o.k=r.p(70)?O_CONS:O_BOX;
    o.d=r.below(ns); o.a=r.below(ns); o.b=r.below(ns); o.c=r.below(ns); if(r.p(over)) o.d=o.a; if(i<2&&o.k<=O_CONS) o.d=i%ns; o.seed=r.next()>>16; if(r.p(8)) o.fl|=1; if(r.p(12)) o.fl|=2; s.ops.push_back(o); }
  return s;
}
void run(const Scenario& s){ Run R(s); R.exec(); }
// ---- C08: any of the other histories, three times in one process, with allocator accounting -------
// Bytes in use: AddressSanitizer's own count, or (without it) the number of live blocks counted by a malloc seam.
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t live(){ return __sanitizer_get_current_allocated_bytes(); }
#elif defined(__SANITIZE_THREAD__)||defined(SIM_SCHED)
static size_t live(){ return 0; }
#else
static size_t g_live; static size_t live(){ return g_live; }
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*,size_t); void* __libc_calloc(size_t,size_t); void* __libc_memalign(size_t,size_t);
void* malloc(size_t n){ void* p=__libc_malloc(n); if(p) __atomic_add_fetch(&g_live,1,__ATOMIC_RELAXED); return p; }
void* calloc(size_t n,size_t m){ void* p=__libc_calloc(n,m); if(p) __atomic_add_fetch(&g_live,1,__ATOMIC_RELAXED); return p; }
void free(void* p){ if(p) __atomic_sub_fetch(&g_live,1,__ATOMIC_RELAXED); __libc_free(p); }
void* realloc(void* p,size_t n){ void* q=__libc_realloc(p,n); if(!p&&q) __atomic_add_fetch(&g_live,1,__ATOMIC_RELAXED); else if(p&&!q&&!n) __atomic_sub_fetch(&g_live,1,__ATOMIC_RELAXED); return q; }
void* memalign(size_t a,size_t n){ void* p=__libc_memalign(a,n); if(p) __atomic_add_fetch(&g_live,1,__ATOMIC_RELAXED); return p; }
void* aligned_alloc(size_t a,size_t n){ return memalign(a,n); }
int posix_memalign(void** o,size_t a,size_t n){ *o=memalign(a,n); return *o?0:12; } }
#endif
static Scenario gen_mem(uint64_t seed,const string& prof){
  Rng r(seed^0xc08c08); static const char* subs[]={"C01","C02","C04","C05","C05","C09","C09","C09","C10","C10","C11","C12","C13","C14","C15","C05x","C05x"}; string sub=subs[r.below(17)]; if(getenv("SUB")) sub=getenv("SUB");
  Scenario s=gen(seed,sub); s.profile=prof; s.cfg["sub"]=sub; s.cfg["freeorder"]=std::to_string(r.below(4)); s.cfg["twice"]="1"; return s; }
static void run_mem(const Scenario& s){
  Scenario t=s; t.profile=s.gets("sub","C05"); if(t.profile=="C05x") t.profile="C05"; size_t m[3]; uint64_t h[3]; 
  for(int i=0;i<3;i++){ g_loghash=1469598103934665603ULL; try { if(t.profile=="C09") run_level1(t); else run(t); } catch(Violation& v){ if(v.cls=="count") throw; if(getenv("SUB")) throw; throw Discard{"other-property"}; } mpfr_free_cache(); h[i]=g_loghash; m[i]=live(); }
  stat("memory.accounted"); stat("sub."+t.profile);
  if(m[1]!=m[0]&&m[2]!=m[1]) violate("leak","%s %s: the history left %ld, then %ld more bytes (or blocks) allocated after its last handle was released",s.gets("dom").c_str(),t.profile.c_str(),(long)(m[1]-m[0]),(long)(m[2]-m[1]));
  if(h[0]!=h[1]||h[1]!=h[2]) violate("rerun-differs","%s %s: the same history run again in the same process behaves differently",s.gets("dom").c_str(),t.profile.c_str()); }
#ifdef SIM_CXX
static Scenario gen_cxx(uint64_t seed,const string& prof){ Scenario s=gen(seed,prof); s.cfg["freeorder"]=std::to_string(Rng(seed^0xfee).below(4)); return s; }
static void run_cxx(const Scenario& t){ size_t m[3]; for(int i=0;i<3;i++){ run(t); mpfr_free_cache(); m[i]=live(); }
  if(m[1]!=m[0]&&m[2]!=m[1]) violate("leak","%s: the history left %ld, then %ld more bytes allocated after its last C++ object was destroyed",t.gets("dom").c_str(),(long)(m[1]-m[0]),(long)(m[2]-m[1])); stat("memory.accounted"); }
#endif
Scenario gen_sched(uint64_t,const string&); void run_sched(const Scenario&);
const vector<Workload>& workloads(){ static const vector<Workload> v={{"C01",gen,run},{"C02",gen,run},{"C03",gen,run},{"C04",gen,run},{"C05",gen,run},{"C09",gen,run_level1},{"C10",gen,run},{"C11",gen,run},{"C12",gen,run},{"C13",gen,run},{"C14",gen,run},{"C15",gen,run},{"C18",gen,run},
#ifdef SIM_CXX
{"C17",gen_cxx,run_cxx},
#endif
{"C08",gen_mem,run_mem},{"C06",gen_fpu,run_fpu},{"C07",gen_sched,run_sched}}; return v; }
