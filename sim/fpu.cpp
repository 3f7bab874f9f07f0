// C06: the rounding mode at every library-call boundary, and independence from what other domains do.
// A history is executed alone and then again with seeded activity of other domains between its
// operations. The library's API functions are compiled with entry/exit hooks (variant fpu): whenever an
// outermost call returns, both control words must round upward.
#include "hist.hpp"
#include <fenv.h>
#include <dlfcn.h>
#if defined(__x86_64__)
#include <xmmintrin.h>
static inline bool upward(){ return fegetround()==FE_UPWARD&&(_mm_getcsr()&_MM_ROUND_MASK)==_MM_ROUND_UP; }
#else
static inline bool upward(){ return fegetround()==FE_UPWARD; }
#endif
static bool armed=false; static int depth=0; static void* badfn=nullptr; static uint64_t boundaries=0;
extern "C" void __cyg_profile_func_enter(void*,void*){ depth++; }
extern "C" void __cyg_profile_func_exit(void* fn,void*){ if(--depth==0&&armed){ boundaries++; if(!badfn&&!upward()) badfn=fn; } }
static const char* modename(){ switch(fegetround()){ case FE_UPWARD: return "upward in the x87 word only"; case FE_TONEAREST: return "to nearest"; case FE_DOWNWARD: return "downward"; default: return "toward zero"; } }
static void judge(const char* what){
  if(depth!=0) depth=0;
  if(badfn){ Dl_info i; const char* n=dladdr(badfn,&i)&&i.dli_sname?i.dli_sname:"an internal function"; void* b=badfn; badfn=nullptr; (void)b; violate("rounding-mode","%s returned with the FPU not rounding upward (during %s)",n,what); }
  if(armed&&!upward()) violate("rounding-mode","after %s the FPU rounds %s",what,modename()); }
static void setman(ap_manager_t* m){ for(int i=0;i<AP_EXC_SIZE;i++) ap_manager_set_abort_if_exception(m,(ap_exc_t)i,false); }
static void mute(std::function<void()> f){ // another domain's history: its own findings are other checks' business
  uint64_t h=g_loghash; string lo=g_lastop; bool vb=g_verbose; Hook* hk=g_hook; g_hook=nullptr; g_verbose=false;
  try { f(); } catch(Violation&){ stat("alien.violation"); } catch(Discard&){}
  g_hook=hk; g_loghash=h; g_lastop=lo; g_verbose=vb; }
static void arm(const Dom* d){ if(d->fp) armed=true; }
static void managers(Rng& r){ int k=r.range(1,3); while(k--){ const Dom& d=domains()[r.below(domains().size())]; ap_manager_t* m=d.mk(); arm(&d); if(r.p(30)){ ap_manager_t* c=ap_manager_copy(m); ap_manager_free(m); m=c; } judge((string("creating manager ")+d.name).c_str()); ap_manager_free(m); judge((string("freeing manager ")+d.name).c_str()); } stat("alien.managers"); }
static void history(Rng& r){
  static const char* subs[]={"C05","C05","C01","C10","C09","C14","C15","C12"}; Scenario t=gen(r.next()>>1,subs[r.below(8)]); int n=r.range(1,8); if((int)t.ops.size()>n) t.ops.resize(n); t.cfg["uni"]="1"; t.cfg["eq"]="0"; t.cfg["ref"]="0"; t.cfg["shadow"]="0"; const Dom* d=dom(t.gets("dom")); if(!d||!strncmp(d->name,"t1p",3)) return; arm(d);
  stat(string("alien.")+t.profile); mute([&]{ if(t.profile=="C09") run_level1(t); else run(t); }); }
static Q dy(Rng& r,int m){ return q(r.range(-m*8,m*8),8); }
static void affine(Rng& r){ // affine arithmetic: the only domain that changes the rounding mode on purpose
  vector<const Dom*> v; for(auto&d:domains()) if(!strncmp(d.name,"t1p",3)) v.push_back(&d); if(v.empty()) return; const Dom* D=v[r.below(v.size())]; ap_manager_t* m=D->mk(); setman(m); arm(D); stat("alien.affine");
  int n=r.range(1,3); ap_interval_t** b=ap_interval_array_alloc(n); for(int i=0;i<n;i++){ Q a=dy(r,20),c=a+q(r.range(0,60),3); ap_scalar_set_double(b[i]->inf,a.get_d()); ap_scalar_set_double(b[i]->sup,c.get_d()); }
  ap_abstract0_t* x=ap_abstract0_of_box(m,0,n,b); ap_interval_array_free(b,n); judge("affine of_box");
  int k=r.range(1,4); while(k--){ GenCfg g; g.intdim=0; g.realdim=n; g.reprs={R_DBL}; g.dyadic=true; LinE e=gen_lin(r,g,0); for(auto&c:e.t) c.second=Coef(dy(r,3),R_DBL); e.c=Coef(dy(r,3),R_DBL); ap_linexpr0_t* l=mk_linexpr(e,n); ap_dim_t d=r.below(n);
    if(r.p(70)) x=ap_abstract0_assign_linexpr(m,true,x,d,l,NULL); else { ap_interval_t* i=ap_abstract0_bound_dimension(m,x,d); if(i) ap_interval_free(i); } judge("affine assignment"); ap_linexpr0_free(l); }
  if(r.p(50)){ ap_dim_t d=r.below(n),e=r.below(n),f=r.below(n); ap_texpr0_t* t=ap_texpr0_binop(r.p(70)?AP_TEXPR_MUL:AP_TEXPR_ADD,ap_texpr0_dim(e),ap_texpr0_dim(f),AP_RTYPE_REAL,AP_RDIR_RND); x=ap_abstract0_assign_texpr(m,true,x,d,t,NULL); ap_texpr0_free(t); judge("affine tree assignment"); }
  if(r.p(50)){ ap_interval_t** c=ap_interval_array_alloc(n); for(int i=0;i<n;i++){ Q a=dy(r,20),z=a+q(r.range(0,60),3); ap_scalar_set_double(c[i]->inf,a.get_d()); ap_scalar_set_double(c[i]->sup,z.get_d()); } ap_abstract0_t* y=ap_abstract0_of_box(m,0,n,c); ap_interval_array_free(c,n);
    ap_abstract0_t* j=ap_abstract0_join(m,false,x,y); ap_abstract0_free(m,x); ap_abstract0_free(m,y); x=j; judge("affine join"); }
  ap_interval_t** o=ap_abstract0_to_box(m,x); if(o) ap_interval_array_free(o,n); judge("affine to_box"); ap_abstract0_free(m,x); clear_exc(m); ap_manager_free(m); judge("affine release"); }
static void numbers(Rng& r){ // conversions and evaluations that are pure level-0 services
  stat("alien.numbers"); GenCfg g; g.intdim=r.range(0,1); g.realdim=r.range(1,2); g.itvpct=30; g.nonlin=true; g.fltround=true; g.reprs={R_MPQ,R_DBL,R_MPFR}; int n=g.intdim+g.realdim;
  for(int k=r.range(1,4);k--;){ LinE e=gen_lin(r,g,0); ap_linexpr0_t* l=mk_linexpr(e,n); for(auto&c:e.t){ ap_coeff_t* a=ap_linexpr0_coeffref(l,c.first); if(a&&a->discr==AP_COEFF_SCALAR){ double d; ap_double_set_scalar(&d,a->val.scalar,(mp_rnd_t)(r.p(50)?GMP_RNDU:GMP_RNDD)); mpq_t z; mpq_init(z); ap_mpq_set_scalar(z,a->val.scalar,GMP_RNDU); mpq_clear(z); mpfr_t f; mpfr_init(f); ap_mpfr_set_scalar(f,a->val.scalar,GMP_RNDD); mpfr_clear(f); } } judge("scalar conversions"); ap_linexpr0_free(l); } }
struct Watch : Hook { bool on; explicit Watch(bool o):on(o){}
  void alien(const Op& op) override { if(!on) return; Rng r(op.seed); stat("fault.alien"); if(g_verbose) printf("  other domains: kind %d\n",op.a%8);
    switch(op.a%8){ case 0: managers(r); break; case 1: case 2: affine(r); break; case 3: numbers(r); break; default: history(r); } judge("activity of other domains"); }
  void after(const Op& op,const string& v) override { LOG("values %s",v.c_str()); if(v.size()>7000) for(size_t i=7000;i<v.size();i+=7000) LOG("%s",v.substr(i,7000).c_str()); judge(OPN[op.k]); } };
Scenario gen_fpu(uint64_t seed,const string& prof){
  Rng r(seed^0xf9f9); static const char* subs[]={"C01","C04","C05","C05","C05","C05","C09","C10","C12","C13","C14","C15"}; string sub=subs[r.below(12)]; Scenario s=gen(seed,sub); if(!strncmp(s.gets("dom").c_str(),"t1p",3)||!dom(s.gets("dom"))) s.cfg["dom"]=dom("octD")?"octD":"boxD"; s.profile=prof; s.cfg["sub"]=sub; vector<Op> o; int rate=r.range(10,60);
  for(auto&x:s.ops){ if(r.p(rate)){ Op a; a.k=O_FPU; a.a=r.below(8); a.seed=r.next()>>16; o.push_back(a); } o.push_back(x); } s.ops=o; s.cfg["initial"]=std::to_string(r.below(3)); return s; }
void run_fpu(const Scenario& s){
  Scenario t=s; t.profile=s.gets("sub","C05"); uint64_t h[2]; string why[2]; const Dom* D=dom(s.gets("dom")); if(!D) throw Discard{"no such domain"};
  static const int ini[]={FE_TONEAREST,FE_UPWARD,FE_DOWNWARD};
  for(int i=0;i<2;i++){ g_loghash=1469598103934665603ULL; armed=false; badfn=nullptr; depth=0; Watch w(i==1); g_hook=&w; 
    // a manager of the domain is created first: from then on the mode must be upward
    fesetround(ini[s.geti("initial",0)%3]); ap_manager_t* m=D->mk(); setman(m); armed=D->fp; judge("creating the first manager");
    try { if(t.profile=="C09") run_level1(t); else run(t); } catch(Violation& v){ if(v.cls=="rounding-mode"){ g_hook=nullptr; throw; } why[i]=v.cls+v.msg; } catch(Discard& d){ why[i]=d.why; }
    g_hook=nullptr; judge("the end"); ap_manager_free(m); judge("freeing the last manager"); h[i]=g_loghash; stat("boundaries",boundaries); boundaries=0; }
  armed=false; stat("fpu.compared"); stat("sub."+t.profile);
  if(h[0]!=h[1]||why[0]!=why[1]) violate("depends-on-others","%s %s: the same history gives other results when other domains run between its operations (%s / %s)",s.gets("dom").c_str(),t.profile.c_str(),why[0].c_str(),why[1].c_str()); }
