// Level-1 histories (C09): values over named variables, checked against sets of valuations of names.
// The model works on a fixed pool of names; a name absent from an environment is simply unconstrained.
#include "hist.hpp"
extern "C" {
#include "ap_global1.h"
}
#undef mpq_set_num
namespace {
const int NP=8; const char* N1[NP]={"b","a10","a","B","x_1","a2","z","_t"}; char N2[NP][8]; 
typedef std::set<int> Env;
ap_var_t var(int i,Rng* r=nullptr){ if(!N2[i][0]) strcpy(N2[i],N1[i]); return (ap_var_t)(r&&r->p(50)?N2[i]:N1[i]); }
int idx_of(ap_var_t v){ for(int i=0;i<NP;i++) if(!strcmp(N1[i],(const char*)v)) return i; violate("name","unknown name %s",(const char*)v); }
bool ill_formed(ap_environment_t* e){ size_t n=e->intdim+e->realdim; for(size_t i=0;i<n;i++) for(size_t j=i+1;j<n;j++){ int c=strcmp((char*)e->var_of_dim[i],(char*)e->var_of_dim[j]); if(c==0||(c>0&&(i<e->intdim)==(j<e->intdim))) return true; } return false; }
bool is(const Dom* d,const char* s){ return strcmp(d->name,s)==0; } bool pre(const Dom* d,const char* s){ return strncmp(d->name,s,strlen(s))==0; }
Ext scal(const ap_scalar_t* s,bool& nan){ Ext e; if(!scalar_get(s,e)) nan=true; return e; }
TexE remap(const TexE& e,const vector<int>& o){ TexE t=e; if(e.kind==1) t.dim=o[e.dim]; if(e.a) t.a=std::make_shared<TexE>(remap(*e.a,o)); if(e.b) t.b=std::make_shared<TexE>(remap(*e.b,o)); return t; }
LinE remap(const LinE& e,const vector<int>& o){ LinE l=e; for(auto&x:l.t) x.first=o[x.first]; return l; }
void texnames(const TexE& e,Env& s){ if(e.kind==1) s.insert(e.dim); if(e.a) texnames(*e.a,s); if(e.b) texnames(*e.b,s); }
string envs(const Env& e){ string s="{"; for(int i:e){ s+=N1[i]; s+=" "; } return s+"}"; }
string lin_s(const LinE& e){ string s; for(auto&x:e.t) s+=(x.second.itv?string("[..]"):es(x.second.lo))+"*"+N1[x.first]+" + "; return s+(e.c.itv?string("[..]"):es(e.c.lo)); }
const size_t WCAP=6; bool qint(const Q& x){ return x.get_den()==1; }
void addw(vector<Pt>& w,const Pt& p){ for(auto&x:p) if(qbits(x)>500) return; if(w.size()>=WCAP) return; for(auto&x:w) if(x==p) return; w.push_back(p); }
bool octa(const LinE& e){ int k=0; for(auto&x:e.t){ if(x.second.itv) return false; if(x.second.lo.v!=0){ k++; if(abs(x.second.lo.v)!=1) return false; } } return k<=2; }
bool scalar(const LinE& e){ if(e.c.itv||e.c.lo.inf) return false; for(auto&x:e.t) if(x.second.itv||x.second.lo.inf) return false; return true; }
struct Val { bool live=false; ap_abstract1_t a{NULL,NULL}; Env e; vector<Pt> w; Ref ref; bool refok=false; };
// the constraint takes over the contents of the expression, the caller releases the shell
static ap_tcons1_t tc1(ap_constyp_t ty,ap_texpr1_t* t,ap_scalar_t* m){ ap_tcons1_t c=ap_tcons1_make(ty,t,m); free(t); return c; }
struct L1 {
  const Scenario& sc; const Dom* D; ap_manager_t* man; vector<Val> V; bool isint[NP]; GenCfg gc; bool useref; int absref=0; bool strict; int inplace; int opi=0; const Op* cur=nullptr; bool ints=false;
  std::set<ap_environment_t*> seen; int maxenv;
  string where(){ char b[100]; snprintf(b,sizeof b,"%s op#%d %s",D->name,opi,cur?OPN[cur->k]:"end"); return b; }
  L1(const Scenario& s):sc(s){
    D=dom(s.gets("dom")); if(!D) throw Discard{"no such domain"}; man=D->mk(); for(int i=0;i<AP_EXC_SIZE;i++) ap_manager_set_abort_if_exception(man,(ap_exc_t)i,false);
    V.resize(s.geti("slots",4)); Rng r(s.seed^0x5150); for(int i=0;i<NP;i++){ isint[i]=s.geti("id")&&r.p(40); ints|=isint[i]; }
    gc.itvpct=s.geti("itv",0); gc.nonlin=s.geti("nonlin",1); gc.fltround=s.geti("flt",0); if(D->fp){ gc.dyadic=true; gc.reprs={R_MPQ,R_DBL,R_MPFR}; }
    inplace=s.geti("inplace0",0); maxenv=s.geti("rd",4); if(is(D,"boxMPQ")) absref=1; if(is(D,"octMPQ")) absref=2; if(is(D,"pkeq")) absref=3; useref=!ints&&(D->refp||absref); strict=is(D,"polkaS")||is(D,"pplS");
    LOG("run1 dom=%s slots=%d ints=%d",D->name,(int)V.size(),ints);
  }
  // ---- environments
  vector<int> order(const Env& e){ vector<int> o(e.begin(),e.end()); std::sort(o.begin(),o.end(),[&](int a,int b){ if(isint[a]!=isint[b]) return isint[a]; return strcmp(N1[a],N1[b])<0; }); return o; }
  // half of the histories keep every environment alive and compare it again at the end; in the others only the library holds references
  void retain(ap_environment_t* e){ if(sc.seed&1) return; if(seen.insert(e).second) ap_environment_copy(e); }
  void check_env(ap_environment_t* env,const Env& e,const char* what){
    if(!env) violate("environment","%s: %s: null environment, expected %s",where().c_str(),what,envs(e).c_str());
    retain(env); auto o=order(e); size_t ni=0; for(int i:o) ni+=isint[i]; bool ok=env->intdim==ni&&env->realdim==o.size()-ni; if(ok) for(size_t i=0;i<o.size();i++) if(strcmp((char*)ap_environment_var_of_dim(env,i),N1[o[i]])) ok=false;
    if(!ok){ string s; for(size_t i=0;i<env->intdim+env->realdim;i++) s+=string((char*)env->var_of_dim[i])+" "; violate("environment","%s: %s: environment is (%lu,%lu) [%s], expected %s",where().c_str(),what,(unsigned long)env->intdim,(unsigned long)env->realdim,s.c_str(),envs(e).c_str()); }
    if(ill_formed(env)) violate("environment","%s: %s: ill-formed about %s",where().c_str(),what,envs(e).c_str());
    for(int i=0;i<NP;i++){ ap_dim_t d=ap_environment_dim_of_var(env,var(i)); size_t p=std::find(o.begin(),o.end(),i)-o.begin(); if(e.count(i)?d!=p:d!=AP_DIM_MAX) violate("environment","%s: %s: %s has dimension %lu in %s",where().c_str(),what,N1[i],(unsigned long)d,envs(e).c_str()); if(ap_environment_mem_var(env,var(i))!=(e.count(i)>0)) violate("environment","%s: mem_var",where().c_str()); }
  }
  template<class F> void split(vector<int> v,Rng& r,F f){ vector<ap_var_t> vi,vr; for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[r.below(i)]); for(int i:v) (isint[i]?vi:vr).push_back(var(i,&r)); f(vi,vr); }
  ap_environment_t* mkenv(const Env& e,Rng& r){ // in a random addition order, sometimes through a larger environment
    vector<int> v(e.begin(),e.end()); for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[r.below(i)]);
    size_t cut=r.p(50)?v.size():r.below(v.size()+1); vector<int> a(v.begin(),v.begin()+cut),b(v.begin()+cut,v.end()); ap_environment_t* env=nullptr;
    split(a,r,[&](vector<ap_var_t>& vi,vector<ap_var_t>& vr){ env=ap_environment_alloc(vi.data(),vi.size(),vr.data(),vr.size()); });
    if(!env) violate("environment","%s: cannot allocate %s",where().c_str(),envs(e).c_str());
    if(!b.empty()) split(b,r,[&](vector<ap_var_t>& vi,vector<ap_var_t>& vr){ ap_environment_t* n; n=ap_environment_add(env,vi.data(),vi.size(),vr.data(),vr.size()); ap_environment_free(env); env=n; });
    if(env&&r.p(15)){ vector<int> ex; for(int i=0;i<NP;i++) if(!e.count(i)&&r.p(40)) ex.push_back(i); if(!ex.empty()){ ap_environment_t* n=nullptr; split(ex,r,[&](vector<ap_var_t>& vi,vector<ap_var_t>& vr){ n=ap_environment_add(env,vi.data(),vi.size(),vr.data(),vr.size()); vector<ap_var_t> all=vi; all.insert(all.end(),vr.begin(),vr.end()); if(!n) violate("environment","%s: cannot add",where().c_str()); ap_environment_t* m=ap_environment_remove(n,all.data(),all.size()); ap_environment_free(n); ap_environment_free(env); env=m; }); } }
    check_env(env,e,"construction"); return env;
  }
  struct EnvH { ap_environment_t* e; EnvH(ap_environment_t* x):e(x){} ~EnvH(){ if(e) ap_environment_free(e); } operator ap_environment_t*() const { return e; } EnvH(const EnvH&)=delete; };
  Env randenv(Rng& r,int lo,int hi){ Env e; int k=r.range(lo,hi); while((int)e.size()<k) e.insert(r.below(NP)); return e; }
  Env subenv(Rng& r,const Env& e){ Env s; for(int i:e) if(r.p(65)) s.insert(i); return s; }
  ap_environment_t* expr_env(Rng& r,const Val& v,const Env& need){ // environment of an expression: the value's own, an equal one, or a sub-environment
    int k=r.below(4); if(k==0) return ap_environment_copy(v.a.env); Env s=need; for(int i:v.e) if(k==1||r.p(40)) s.insert(i); return mkenv(s,r); }
  // ---- expressions
  GenCfg cfg(const vector<int>& o){ GenCfg g=gc; g.intdim=0; for(int i:o) g.intdim+=isint[i]; g.realdim=o.size()-g.intdim; return g; }
  Pt gpt(Rng& r,const Env& e){ Pt p(NP,Q(0)); for(int i:e) p[i]=gen_q(r,gc,isint[i]); return p; }
  LinE glin(Rng& r,const Env& e,int shape,const vector<Pt>* W){ auto o=order(e); GenCfg g=cfg(o); LinE l=remap(gen_lin(r,g,shape),o);
    if(W&&!W->empty()&&r.p(80)&&!l.c.itv){ bool sc_=true; Q v=0; const Pt& p=(*W)[r.below(W->size())]; for(auto&x:l.t){ if(x.second.itv) sc_=false; else v+=x.second.lo.v*p[x.first]; } if(sc_){ Q c=-v; if(r.p(30)) c+=abs(gen_q(r,g)); l.c=Coef(c,l.c.repr); } }
    return l; }
  int shape(Rng& r){ int k=r.below(100); if(pre(D,"oct")) return k<75?1:k<90?2:0; if(pre(D,"box")) return k<60?2:0; return k<60?0:1; }
  Cons gcons(Rng& r,const Val& v){ Cons c; c.e=glin(r,v.e,shape(r),&v.w); int k=r.below(100); c.typ=k<62?AP_CONS_SUPEQ:k<86?AP_CONS_EQ:k<95?AP_CONS_SUP:AP_CONS_DISEQ; if(is(D,"pkeq")&&r.p(70)) c.typ=AP_CONS_EQ;
    if(c.typ==AP_CONS_SUPEQ||c.typ==AP_CONS_SUP){ int keep=0; for(auto&p:v.w) keep+=cons_may(c,p); if(2*keep<(int)v.w.size()&&scalar(c.e)){ for(auto&x:c.e.t) x.second=Coef(Q(-x.second.lo.v),x.second.repr); c.e.c=Coef(Q(-c.e.c.lo.v),c.e.c.repr); } } return c; }
  static Env names(const LinE& e){ Env s; for(auto&x:e.t) s.insert(x.first); return s; }
  TexE gtex(Rng& r,const Env& e,int depth){ auto o=order(e); GenCfg g=cfg(o); return remap(gen_tex(r,g,depth),o); }
  ap_linexpr1_t lin1(ap_environment_t* env,const LinE& e,Rng& r){ auto l=ap_linexpr1_make(env,e.sparse?AP_LINEXPR_SPARSE:AP_LINEXPR_DENSE,r.p(50)?0:e.t.size()); vector<size_t> p; for(size_t i=0;i<e.t.size();i++) p.push_back(i); for(size_t i=p.size();i>1;i--) std::swap(p[i-1],p[r.below(i)]);
    coeff_set(ap_linexpr1_cstref(&l),e.c); for(size_t i:p){ ap_coeff_t* c=ap_linexpr1_coeffref(&l,var(e.t[i].first,&r)); if(!c) violate("expression","%s: no coefficient for %s",where().c_str(),N1[e.t[i].first]); coeff_set(c,e.t[i].second); } return l; }
  ap_texpr1_t* tex1(ap_environment_t* env,const TexE& e,Rng& r){
    if(e.kind==0){ ap_coeff_t* c=ap_coeff_alloc(AP_COEFF_SCALAR); coeff_set(c,e.c); auto t=ap_texpr1_cst(env,c); ap_coeff_free(c); return t; }
    if(e.kind==1){ auto t=ap_texpr1_var(env,var(e.dim,&r)); if(!t) violate("expression","%s: no variable %s",where().c_str(),N1[e.dim]); return t; }
    auto a=tex1(env,*e.a,r); if(e.b){ auto t=ap_texpr1_binop((ap_texpr_op_t)e.op,a,tex1(env,*e.b,r),(ap_texpr_rtype_t)e.rt,(ap_texpr_rdir_t)e.rd); return t; }
    return ap_texpr1_unop((ap_texpr_op_t)e.op,a,(ap_texpr_rtype_t)e.rt,(ap_texpr_rdir_t)e.rd); }
  ap_lincons1_array_t cons1(ap_environment_t* env,const vector<Cons>& cs,Rng& r){ auto arr=ap_lincons1_array_make(env,cs.size()); for(size_t i=0;i<cs.size();i++){ auto l=lin1(env,cs[i].e,r); ap_lincons1_t c=ap_lincons1_make((ap_constyp_t)cs[i].typ,&l,NULL); if(ap_lincons1_array_set(&arr,i,&c)) violate("expression","%s: lincons1_array_set refused",where().c_str()); } return arr; }
  ap_tcons1_array_t tcons1(ap_environment_t* env,const vector<TexE>& ts,const vector<int>& typ,Rng& r){ auto arr=ap_tcons1_array_make(env,ts.size()); for(size_t i=0;i<ts.size();i++){ ap_texpr1_t* t=tex1(env,ts[i],r); ap_tcons1_t c=tc1((ap_constyp_t)typ[i],t,NULL); if(ap_tcons1_array_set(&arr,i,&c)) violate("expression","%s: tcons1_array_set refused",where().c_str()); } return arr; }
  LinE by_name(const ap_linexpr0_t* l,ap_environment_t* env){ LinE e=from_linexpr(l); for(auto&x:e.t){ ap_var_t v=ap_environment_var_of_dim(env,x.first); if(!v) violate("expression","%s: dimension %d beyond the environment",where().c_str(),x.first); x.first=idx_of(v); } return e; }
  // ---- exceptions
  bool exc(const char* what){ bool ni=false; for(auto&e:take_exc(man)){ if(e.exn==AP_EXC_NOT_IMPLEMENTED){ ni=true; continue; } violate("exc-unexpected","%s: valid %s raised %s in %s: %s",where().c_str(),what,ap_name_of_exception[e.exn],e.funid<AP_FUNID_SIZE2?ap_name_of_funid[e.funid]:"?",e.msg.c_str()); } return ni; }
  // ---- values
  optional<Ref> sys(ap_abstract1_t* a){ auto arr=ap_abstract1_to_lincons_array(man,a); vector<Cons> cs; bool eq=ap_environment_is_eq(arr.env,a->env); if(eq) for(size_t i=0;i<ap_lincons1_array_size(&arr);i++){ ap_lincons1_t l=ap_lincons1_array_get(&arr,i); Cons c=from_lincons(&l.lincons0); c.e=by_name(l.lincons0.linexpr0,l.env); cs.push_back(c); } ap_lincons1_array_clear(&arr); if(!eq) violate("environment","%s: export is on another environment",where().c_str()); Ref R=ref_univ(NP); if(!ref_add(R,cs,false)) return {}; return R; }
  void check(Val& v,const char* what,Rng& r,bool full){
    string w=where()+" "+what; check_env(v.a.env,v.e,what); ap_dimension_t d=ap_abstract0_dimension(man,v.a.abstract0); if(d.intdim!=v.a.env->intdim||d.realdim!=v.a.env->realdim) violate("dimension","%s: value has dimensions (%lu,%lu), its environment (%lu,%lu)",w.c_str(),(unsigned long)d.intdim,(unsigned long)d.realdim,(unsigned long)v.a.env->intdim,(unsigned long)v.a.env->realdim);
    if(ap_abstract1_environment(man,&v.a)!=v.a.env||ap_abstract1_abstract0(man,&v.a)!=v.a.abstract0) violate("environment","%s: accessors",w.c_str());
    ap_abstract1_t c=r.p(50)?v.a:ap_abstract1_copy(man,&v.a); bool cp=c.abstract0!=v.a.abstract0; struct G{ bool cp; ap_manager_t* m; ap_abstract1_t& c; ~G(){ if(cp) ap_abstract1_clear(m,&c); } } g{cp,man,c};
    if(!v.w.empty()&&ap_abstract1_is_bottom(man,&c)) violate("lost-point","%s: is_bottom, but a valuation belongs to it",w.c_str());
    if(!v.w.empty()) for(int t=0;t<(full?3:1);t++) switch(r.below(4)){
      case 0: { auto arr=ap_abstract1_to_lincons_array(man,&c); string bad; for(size_t i=0;i<ap_lincons1_array_size(&arr);i++){ ap_lincons1_t l=ap_lincons1_array_get(&arr,i); Cons k=from_lincons(&l.lincons0); k.e=by_name(l.lincons0.linexpr0,l.env); for(auto&p:v.w) if(!cons_may(k,p)) bad=lin_s(k.e)+" excludes "+pts(p); } ap_lincons1_array_clear(&arr); if(!bad.empty()) violate("lost-point","%s: exported constraint %s",w.c_str(),bad.c_str()); break; }
      case 1: { ap_box1_t b=ap_abstract1_to_box(man,&c); string bad; if(b.p) for(size_t i=0;i<b.env->intdim+b.env->realdim;i++){ int n=idx_of(ap_environment_var_of_dim(b.env,i)); bool nan=false; Ext lo=scal(b.p[i]->inf,nan),hi=scal(b.p[i]->sup,nan); if(!nan) for(auto&p:v.w) if(ecmp(lo,Ext(p[n]))>0||ecmp(hi,Ext(p[n]))<0) bad=string(N1[n])+" in ["+es(lo)+","+es(hi)+"] excludes "+pts(p); } ap_box1_clear(&b); if(!bad.empty()) violate("lost-point","%s: box %s",w.c_str(),bad.c_str()); break; }
      case 2: { if(v.e.empty()) break; int n=order(v.e)[r.below(v.e.size())]; ap_interval_t* b=ap_abstract1_bound_variable(man,&c,var(n,&r)); bool nan=false; Ext lo=scal(b->inf,nan),hi=scal(b->sup,nan); ap_interval_free(b); for(auto&p:v.w) if(!nan&&(ecmp(lo,Ext(p[n]))>0||ecmp(hi,Ext(p[n]))<0)) violate("lost-point","%s: bound of %s is [%s,%s], excludes %s",w.c_str(),N1[n],es(lo).c_str(),es(hi).c_str(),pts(p).c_str()); break; }
      case 3: { LinE e=glin(r,v.e,r.below(3),nullptr); EnvH ee(expr_env(r,v,names(e))); auto l=lin1(ee,e,r); ap_interval_t* b=ap_abstract1_bound_linexpr(man,&c,&l); ap_linexpr1_clear(&l); bool nan=false; Ext lo=scal(b->inf,nan),hi=scal(b->sup,nan); ap_interval_free(b); for(auto&p:v.w){ Q x=e.eval(p,r); if(!nan&&(ecmp(lo,Ext(x))>0||ecmp(hi,Ext(x))<0)) violate("lost-point","%s: bound of %s is [%s,%s], but it is %s at %s",w.c_str(),lin_s(e).c_str(),es(lo).c_str(),es(hi).c_str(),qs(x).c_str(),pts(p).c_str()); } break; }
    }
    if(full||v.refok){ auto s=ints?optional<Ref>():sys(&c); exc("export"); if(s&&v.refok){ if(!ref_eq(*s,v.ref)) violate("differs","%s: value over %s denotes {%s}, the model is {%s}",w.c_str(),envs(v.e).c_str(),ref_str(*s).c_str(),ref_str(v.ref).c_str()); stat("ref"); } else if(s&&useref){ v.ref=*s; v.refok=true; } }
    exc("query");
  }
  int live(int x){ int n=V.size(); for(int i=0;i<n;i++) if(V[(x+i)%n].live) return (x+i)%n; return -1; }
  void drop(int i){ if(V[i].a.abstract0) ap_abstract1_clear(man,&V[i].a); V[i]=Val(); }
  // in-place or functional: the operand as the call gets it
  struct Arg { ap_abstract1_t* p; ap_abstract1_t tmp; bool destr; };
  void arg(Arg& A,int s,int d,Rng& r){ A.destr=r.p(inplace); if(!A.destr){ A.p=&V[s].a; return; } stat("inplace"); if(s==d&&r.p(70)){ A.tmp=V[s].a; V[s].a.abstract0=NULL; V[s].a.env=NULL; } else A.tmp=ap_abstract1_copy(man,&V[s].a); A.p=&A.tmp; }
  void put(int d,Val& nv,Rng& r,bool exact){ nv.live=true; if(!exact||!useref) nv.refok=false; if(V[d].live||V[d].a.abstract0) drop(d); V[d]=nv; LOG("-> s%d %s w=%d",d,envs(nv.e).c_str(),(int)nv.w.size()); for(auto&p:nv.w) if(g_verbose) LOG("   point %s",pts(p).c_str()); check(V[d],"result",r,true); int o=live(r.below(V.size())); if(o>=0&&o!=d) check(V[o],"bystander",r,false); }
  Val embed(int s,const Env& target,bool project,Rng& r,bool& exact){ Val R=V[s]; R.e=target; ap_environment_t* env=r.p(20)&&V[s].e==target?ap_environment_copy(V[s].a.env):mkenv(target,r); R.a=ap_abstract1_change_environment(man,false,&V[s].a,env,project); ap_environment_free(env); chg(R,V[s].e,target,project,r); (void)exact; return R; }
  void chg(Val& R,const Env& from,const Env& to,bool project,Rng& r){ vector<int> rem,add; for(int i:from) if(!to.count(i)) rem.push_back(i); for(int i:to) if(!from.count(i)) add.push_back(i); if(R.refok){ R.ref=ref_copy(R.ref); if(project&&!add.empty()) ref_forget(R.ref,add,true); if(!rem.empty()) ref_forget(R.ref,rem,false); } vector<Pt> nw; for(auto p:R.w){ for(int i:rem) p[i]=0; for(int i:add) p[i]=project?Q(0):gen_q(r,gc,isint[i]); addw(nw,p); } R.w=nw; R.e=to; }
  void swapn(Ref& R,int a,int b){ vector<int> p(NP); for(int i=0;i<NP;i++) p[i]=i; std::swap(p[a],p[b]); ref_permute(R,p); }
  void step(const Op& op);
  void envtest(Rng& r); void exprtest(Rng& r); void query(int s,Rng& r); void misuse(int s,Rng& r);
  void exec(){
    for(size_t i=0;i<sc.ops.size();i++){ opi=i; cur=&sc.ops[i]; if(cur->k==O_FPU){ if(g_hook) g_hook->alien(*cur); continue; } step(*cur);
      if(g_hook){ string t; Val& v=V[cur->d%V.size()]; if(v.live) t=outstr([&](FILE*f){ ap_abstract1_t c=ap_abstract1_copy(man,&v.a); ap_abstract1_fprint(f,man,&c); ap_abstract1_clear(man,&c); }); clear_exc(man); g_hook->after(*cur,t); } }
    cur=nullptr; Rng r(sc.seed+17); for(auto&v:V) if(v.live) check(v,"at end",r,true); for(size_t i=0;i<V.size();i++) if(V[i].live) drop(i);
    for(auto e:seen) if(e->count!=1) violate("environment-count","environment with %lu variables is still held %ld times after everything was released",(unsigned long)(e->intdim+e->realdim),(long)e->count-1);
    for(auto e:seen) ap_environment_free(e); seen.clear(); clear_exc(man); ap_manager_free(man);
  }
};
// does this operation with these constraints / expressions give the best abstraction?
bool best(const Dom* D,int absref,const vector<Cons>& cs){ if(!absref) { for(auto&c:cs) if(!scalar(c.e)||c.typ==AP_CONS_DISEQ) return false; return true; } for(auto&c:cs){ if(!scalar(c.e)||c.typ==AP_CONS_DISEQ) return false; int k=0; for(auto&x:c.e.t) if(x.second.lo.v!=0) k++; if(absref==1&&k>1) return false; if(absref==2&&!octa(c.e)) return false; if(absref==3&&c.typ!=AP_CONS_EQ) return false; } return true; }
void L1::step(const Op& op){
  Rng r(op.seed); g_lastop=OPN[op.k]; int d=op.d%V.size(); Val R; bool exact=true; vector<Pt> nw;
  if(op.k==O_E_ENV){ envtest(r); return; } if(op.k==O_E_EXPR){ exprtest(r); return; }
  if(op.k<=O_CONS){
    R.e=randenv(r,0,maxenv); if(r.p(92)&&R.e.empty()) R.e.insert(r.below(NP)); EnvH env(mkenv(R.e,r)); R.ref=ref_univ(NP,op.k==O_BOTTOM); R.refok=useref; vector<Pt> ps; int np=r.range(1,3); for(int i=0;i<np;i++) addw(ps,gpt(r,R.e));
    LOG("%s over %s",OPN[op.k],envs(R.e).c_str()); stat(string("op.")+OPN[op.k]);
    switch(op.k){
    case O_TOP: R.a=ap_abstract1_top(man,env); R.w=ps; break;
    case O_BOTTOM: R.a=ap_abstract1_bottom(man,env); break;
    case O_BOX: { Env sub=subenv(r,R.e); vector<int> o(sub.begin(),sub.end()); for(size_t i=o.size();i>1;i--) std::swap(o[i-1],o[r.below(i)]); vector<ap_var_t> tv; vector<Cons> cs; ap_interval_t** t=ap_interval_array_alloc(o.size()); for(size_t k=0;k<o.size();k++){ int i=o[k]; Ext lo(ps[0][i]),hi(ps[0][i]); for(auto&p:ps){ if(p[i]<lo.v) lo=Ext(p[i]); if(p[i]>hi.v) hi=Ext(p[i]); } if(r.p(15)) lo=Ext::minf(); if(r.p(15)) hi=Ext::pinf(); int rp=r.pick(gc.reprs); scalar_set(t[k]->inf,lo,rp); scalar_set(t[k]->sup,hi,rp); tv.push_back(var(i,&r)); Cons c; c.e.t.push_back({i,Coef(q(1))}); if(!lo.inf){ c.e.c=Coef(Q(-lo.v)); cs.push_back(c); } c.e.t[0].second=Coef(q(-1)); if(!hi.inf){ c.e.c=Coef(hi.v); cs.push_back(c); } }
      R.a=ap_abstract1_of_box(man,env,tv.data(),t,o.size()); ap_interval_array_free(t,o.size()); R.w=ps; ref_add(R.ref,cs,true); if(absref==3) exact=false; break; }
    default: { R.w=ps; vector<Cons> cs; int k=r.range(0,(int)R.e.size()+2); for(int i=0;i<k;i++) cs.push_back(gcons(r,R)); Env need; for(auto&c:cs) for(int i:names(c.e)) need.insert(i); Val tmp; tmp.e=R.e; tmp.a.env=env; EnvH ee(expr_env(r,tmp,need)); auto arr=cons1(ee,cs,r); for(auto&c:cs) if(g_verbose) LOG("   cons %s typ %d",lin_s(c.e).c_str(),c.typ); R.a=ap_abstract1_of_lincons_array(man,env,&arr); ap_lincons1_array_clear(&arr); for(auto&p:ps){ bool ok=true; for(auto&c:cs) ok&=cons_may(c,p); if(ok) addw(nw,p); } R.w=nw; exact=best(D,absref,cs); if(exact){ ref_add(R.ref,cs,!strict); if(absref) R.ref=ref_abs(R.ref,absref); } break; }
    }
    if(exc(OPN[op.k])) exact=false; put(d,R,r,exact); return;
  }
  int a=live(op.a); if(a<0) return; if(op.k==O_FREE){ LOG("free s%d",a); drop(a); return; }
  if(op.k==O_QUERY){ query(a,r); return; } if(op.k==O_MISUSE){ misuse(a,r); return; }
  Val& X=V[a]; R=X; R.a=ap_abstract1_t{NULL,NULL}; R.ref=X.refok?ref_copy(X.ref):Ref(); Arg A; Env e=X.e; LOG("%s s%d %s",OPN[op.k],a,envs(e).c_str()); stat(string("op.")+OPN[op.k]);
  switch(op.k){
  case O_COPY: R.a=ap_abstract1_copy(man,&X.a); break;
  case O_MEET: case O_JOIN: case O_WIDEN: case O_WIDENTH: {
    int b=live(op.b); Val T; ap_abstract1_t* y; bool tmp=V[b].e!=e; T=V[b]; if(tmp) T=embed(b,e,r.p(40),r,exact); y=tmp?&T.a:&V[b].a; if(exc("change_environment")) exact=false;
    if(op.k==O_MEET||op.k==O_JOIN){ arg(A,a,d==b&&!tmp?-1:d,r); R.a=op.k==O_MEET?ap_abstract1_meet(man,A.destr,A.p,y):ap_abstract1_join(man,A.destr,A.p,y); }
    else { auto j=ap_abstract1_join(man,false,&X.a,y); if(op.k==O_WIDEN) R.a=ap_abstract1_widening(man,&X.a,&j); else { vector<Cons> cs; int k=r.range(0,2); for(int i=0;i<k;i++){ Cons c=gcons(r,X); c.typ=r.p(80)?AP_CONS_SUPEQ:AP_CONS_SUP; if(!scalar(c.e)) continue; cs.push_back(c); } Env need; for(auto&c:cs) for(int i:names(c.e)) need.insert(i); EnvH ee(expr_env(r,X,need)); auto arr=cons1(ee,cs,r); R.a=ap_abstract1_widening_threshold(man,&X.a,&j,&arr); ap_lincons1_array_clear(&arr); } ap_abstract1_clear(man,&j); exact=false; }
    if(op.k==O_MEET){ for(auto&p:R.w) for(auto&z:T.w) if(p==z) addw(nw,p); } else { for(auto&p:R.w) addw(nw,p); for(auto&p:T.w) addw(nw,p); }
    R.w=nw; if(R.refok&&T.refok&&exact) { R.ref=op.k==O_MEET?ref_meet(R.ref,T.ref):ref_hull(R.ref,T.ref); if(absref) R.ref=ref_abs(R.ref,absref); } else exact=false; if(tmp) ap_abstract1_clear(man,&T.a); break; }
  case O_MEETARR: case O_JOINARR: { int k=r.range(1,3); vector<ap_abstract1_t> t; vector<Val> tmp; t.push_back(ap_abstract1_copy(man,&X.a)); vector<Val> ms={X}; for(int i=1;i<k;i++){ Val T=embed(live(i==1?op.b:op.c),e,r.p(40),r,exact); t.push_back(T.a); ms.push_back(T); } if(exc("change_environment")) exact=false;
    R.a=op.k==O_MEETARR?ap_abstract1_meet_array(man,t.data(),t.size()):ap_abstract1_join_array(man,t.data(),t.size()); for(auto&x:t) ap_abstract1_clear(man,&x);
    for(size_t i=1;i<ms.size();i++){ if(R.refok&&ms[i].refok) R.ref=op.k==O_MEETARR?ref_meet(R.ref,ms[i].ref):ref_hull(R.ref,ms[i].ref); else exact=false; } if(exact&&absref&&R.refok) R.ref=ref_abs(R.ref,absref);
    if(op.k==O_MEETARR){ for(auto&p:R.w){ bool ok=true; for(auto&m:ms){ bool in=false; for(auto&z:m.w) in|=z==p; ok&=in; } if(ok) addw(nw,p); } } else { for(auto&m:ms) for(size_t i=0;i<m.w.size()&&i<2;i++) addw(nw,m.w[i]); } R.w=nw; break; }
  case O_E_UNIFY: { int b=live(op.b); Val& Y=V[b]; for(auto&p:X.w) for(auto&z:Y.w){ bool ok=true; Pt m=p; for(int i:Y.e){ if(e.count(i)&&p[i]!=z[i]) ok=false; m[i]=z[i]; } if(ok) addw(nw,m); }
    // a valuation of one that agrees with the other's on common names is rare: when names are disjoint every pair merges
    if(R.refok&&Y.refok){ R.ref=ref_meet(R.ref,Y.ref); if(absref) R.ref=ref_abs(R.ref,absref); } else exact=false; R.w=nw; R.e.insert(Y.e.begin(),Y.e.end()); arg(A,a,a==b||d==b?-1:d,r); R.a=ap_abstract1_unify(man,A.destr,A.p,&Y.a); break; }
  case O_MEETLIN: { vector<Cons> cs; int k=r.range(0,2); for(int i=0;i<k;i++) cs.push_back(gcons(r,X)); Env need; for(auto&c:cs) for(int i:names(c.e)) need.insert(i); EnvH ee(expr_env(r,X,need)); auto arr=cons1(ee,cs,r); for(auto&c:cs) if(g_verbose) LOG("   cons %s typ %d",lin_s(c.e).c_str(),c.typ); arg(A,a,d,r); R.a=ap_abstract1_meet_lincons_array(man,A.destr,A.p,&arr); ap_lincons1_array_clear(&arr);
    for(auto&p:R.w){ bool ok=true; for(auto&c:cs) ok&=cons_may(c,p); if(ok) addw(nw,p); } R.w=nw; if(best(D,absref,cs)&&R.refok){ ref_add(R.ref,cs,!strict); if(absref) R.ref=ref_abs(R.ref,absref); } else exact=false; break; }
  case O_MEETTC: { vector<TexE> ts; vector<int> ty; int k=r.range(1,2); vector<Cons> lc; bool lin=r.p(40); for(int i=0;i<k;i++){ if(lin){ Cons c=gcons(r,X); ts.push_back(tex_of_lin(c.e)); ty.push_back(c.typ); } else { TexE t=gtex(r,e,3); if(!X.w.empty()){ auto v=tex_eval(t,X.w[r.below(X.w.size())],r); if(v&&qbits(*v)<200){ TexE s; s.kind=2; s.op=AP_TEXPR_SUB; s.a=std::make_shared<TexE>(t); TexE c; c.c=Coef(Q(*v-abs(gen_q(r,gc)))); s.b=std::make_shared<TexE>(c); t=s; } } ts.push_back(t); ty.push_back(r.p(80)?AP_CONS_SUPEQ:AP_CONS_SUP); } }
    Env need; for(auto&t:ts) texnames(t,need); EnvH ee(expr_env(r,X,need)); auto arr=tcons1(ee,ts,ty,r); arg(A,a,d,r); R.a=ap_abstract1_meet_tcons_array(man,A.destr,A.p,&arr); ap_tcons1_array_clear(&arr); exact=false;
    for(auto&p:R.w){ bool ok=true; for(size_t i=0;i<ts.size();i++){ auto v=tex_eval(ts[i],p,r); ok&=v&&(ty[i]==AP_CONS_EQ?*v==0:ty[i]==AP_CONS_SUPEQ?*v>=0:ty[i]==AP_CONS_SUP?*v>0:*v!=0); } if(ok) addw(nw,p); } R.w=nw; break; }
  case O_ADDRAY: { vector<pair<int,LinE>> gs; int k=r.range(1,2); for(int i=0;i<k;i++){ LinE g; g.sparse=r.p(50); for(int j:e) if(r.p(50)){ Q x=gen_q(r,gc,true); if(x!=0) g.t.push_back({j,Coef(x)}); } if(g.t.empty()&&!e.empty()) g.t.push_back({*e.begin(),Coef(q(1))}); g.c=Coef(Q(0)); gs.push_back({r.p(70)?AP_GEN_RAY:AP_GEN_LINE,g}); } if(e.empty()) return;
    Env need; for(auto&g:gs) for(int i:names(g.second)) need.insert(i); EnvH ee(expr_env(r,X,need)); auto arr=ap_generator1_array_make(ee,gs.size()); for(size_t i=0;i<gs.size();i++){ auto l=lin1(ee,gs[i].second,r); ap_generator1_t g=ap_generator1_make((ap_gentyp_t)gs[i].first,&l); if(ap_generator1_array_set(&arr,i,&g)) violate("expression","%s: generator1_array_set refused",where().c_str()); }
    arg(A,a,d,r); R.a=ap_abstract1_add_ray_array(man,A.destr,A.p,&arr); ap_generator1_array_clear(&arr); nw=R.w; if(!R.w.empty()){ Pt p=R.w[0]; Q l=gs[0].first==AP_GEN_RAY?q(r.range(0,9)):q(r.range(-9,9)); for(auto&x:gs[0].second.t) p[x.first]+=l*x.second.lo.v; if(nw.size()>=WCAP) nw.pop_back(); addw(nw,p); } R.w=nw; if(R.refok&&!absref) R.ref=ref_rays(R.ref,gs); else exact=false; break; }
  case O_ASSIGN: case O_SUBST: case O_ASSIGNT: case O_SUBSTT: {
    if(e.empty()) return; bool tex=op.k==O_ASSIGNT||op.k==O_SUBSTT,sub=op.k==O_SUBST||op.k==O_SUBSTT; auto o=order(e); for(size_t i=o.size();i>1;i--) std::swap(o[i-1],o[r.below(i)]); int k=r.p(60)?1:r.range(1,std::min<int>(3,o.size())); o.resize(k); vector<LinE> ls; vector<TexE> ts;
    for(int n:o){ if(!tex){ LinE l=glin(r,e,r.below(3),nullptr); if(isint[n]){ for(auto&x:l.t) if(!x.second.itv) x.second=Coef(Q(qfloor(x.second.lo.v)),x.second.repr); if(!l.c.itv) l.c=Coef(Q(qfloor(l.c.lo.v)),l.c.repr); } if(r.p(40)&&!names(l).count(n)) l.t.push_back({n,Coef(q(1))}); ls.push_back(l); if(g_verbose) LOG("   %s := %s",N1[n],lin_s(l).c_str()); } else { TexE t=gtex(r,e,3); auto oo=order(e); TexE chk=t; if(isint[n]){ TexE c; c.kind=2; c.op=AP_TEXPR_CAST; c.a=std::make_shared<TexE>(t); c.rt=AP_RTYPE_INT; c.rd=AP_RDIR_DOWN; t=c; } ts.push_back(t); } }
    vector<ap_var_t> tv; vector<ap_linexpr1_t> l1; vector<ap_texpr1_t> t1; vector<ap_environment_t*> es_; for(int i=0;i<k;i++){ tv.push_back(var(o[i],&r)); Env need; if(tex) texnames(ts[i],need); else need=names(ls[i]); ap_environment_t* ee=expr_env(r,X,need); es_.push_back(ee); if(tex){ ap_texpr1_t* t=tex1(ee,ts[i],r); t1.push_back(*t); free(t); } else l1.push_back(lin1(ee,ls[i],r)); }
    ap_abstract1_t* dst=nullptr; Val T; bool tmp=false; if(op.fl&2){ int b=live(op.c); tmp=V[b].e!=e||b==d; if(tmp) T=embed(b,e,false,r,exact); else T=V[b]; if(exc("change_environment")) exact=false; dst=tmp?&T.a:&V[b].a; }
    arg(A,a,d,r);
    if(k==1&&r.p(60)){ if(!tex) R.a=sub?ap_abstract1_substitute_linexpr(man,A.destr,A.p,tv[0],&l1[0],dst):ap_abstract1_assign_linexpr(man,A.destr,A.p,tv[0],&l1[0],dst); else R.a=sub?ap_abstract1_substitute_texpr(man,A.destr,A.p,tv[0],&t1[0],dst):ap_abstract1_assign_texpr(man,A.destr,A.p,tv[0],&t1[0],dst); }
    else { if(!tex) R.a=sub?ap_abstract1_substitute_linexpr_array(man,A.destr,A.p,tv.data(),l1.data(),k,dst):ap_abstract1_assign_linexpr_array(man,A.destr,A.p,tv.data(),l1.data(),k,dst); else R.a=sub?ap_abstract1_substitute_texpr_array(man,A.destr,A.p,tv.data(),t1.data(),k,dst):ap_abstract1_assign_texpr_array(man,A.destr,A.p,tv.data(),t1.data(),k,dst); }
    auto eval=[&](int i,const Pt& p)->optional<Q>{ if(tex) return tex_eval(ts[i],p,r); return ls[i].eval(p,r); }; auto allowed=[&](const Pt& p){ for(int i:e) if(isint[i]&&!qint(p[i])) return false; if(!dst) return true; for(auto&z:T.w) if(z==p) return true; return false; };
    if(!sub){ for(auto&p:R.w){ Pt z=p; bool ok=true; for(int i=0;i<k;i++){ auto v=eval(i,p); if(!v){ ok=false; break; } z[o[i]]=*v; } if(ok&&allowed(z)) addw(nw,z); } }
    else { vector<Pt> cand=R.w; if(dst) for(auto&p:T.w) cand.push_back(p); for(auto&p:R.w){ if(!tex&&k==1&&scalar(ls[0])){ Q c=ls[0].coef(o[0]),rest=ls[0].c.lo.v; for(auto&x:ls[0].t) if(x.first!=o[0]) rest+=x.second.lo.v*p[x.first]; Pt z=p; if(c!=0) z[o[0]]=(p[o[0]]-rest)/c; else if(rest!=p[o[0]]) continue; else z[o[0]]=gen_q(r,gc,isint[o[0]]); cand.push_back(z); } else { Pt z=p; for(int n:o) z[n]=gen_q(r,gc,isint[n]); cand.push_back(z); } }
      for(auto&z:cand){ Pt p=z; bool ok=true; for(int i=0;i<k;i++){ auto v=eval(i,z); if(!v){ ok=false; break; } p[o[i]]=*v; } bool in=false; for(auto&y:R.w) in|=y==p; if(ok&&in&&allowed(z)) addw(nw,z); } }
    R.w=nw; if(tex||!R.refok||(dst&&!T.refok)) exact=false; else { bool ok=true; for(auto&l:ls) if(!scalar(l)) ok=false; if(absref==1) ok=ok&&!sub&&!dst; if(absref==2){ int nz=0; if(ok) for(auto&x:ls[0].t) if(x.second.lo.v!=0){ nz++; if(abs(x.second.lo.v)!=1) nz=9; } ok=ok&&!sub&&!dst&&k==1&&nz<=1; } if(absref==3) ok=ok&&!dst; if(!ok||!ref_assign(R.ref,o,ls,dst?&T.ref:nullptr,sub)) exact=false; else if(absref) R.ref=ref_abs(R.ref,absref); }
    for(auto&x:l1) ap_linexpr1_clear(&x); for(auto&x:t1){ ap_texpr0_free(x.texpr0); ap_environment_free(x.env); } for(auto x:es_) ap_environment_free(x); if(tmp) ap_abstract1_clear(man,&T.a); break; }
  case O_FORGET: { auto o=order(e); for(size_t i=o.size();i>1;i--) std::swap(o[i-1],o[r.below(i)]); o.resize(r.p(10)?0:r.range(0,o.size())); if(o.size()>1&&r.p(60)) o.resize(1); bool pj=r.p(40); vector<ap_var_t> tv; for(int n:o) tv.push_back(var(n,&r)); arg(A,a,d,r); R.a=ap_abstract1_forget_array(man,A.destr,A.p,tv.data(),o.size(),pj); for(auto&p:R.w) for(int t=0;t<2;t++){ Pt z=p; for(int n:o) z[n]=pj?Q(0):t?gen_q(r,gc,isint[n]):p[n]; addw(nw,z); } R.w=nw; if(R.refok){ ref_forget(R.ref,o,pj); } else exact=false; break; }
  case O_E_CHENV: { Env t=randenv(r,0,maxenv); if(r.p(40)) t.insert(e.begin(),e.end()); while((int)t.size()>maxenv+1) t.erase(t.begin()); if(r.p(10)) t=e; bool pj=r.p(50); EnvH env(t==e&&r.p(60)?ap_environment_copy(X.a.env):mkenv(t,r)); arg(A,a,d,r); R.a=ap_abstract1_change_environment(man,A.destr,A.p,env,pj); LOG("   to %s%s",envs(t).c_str(),pj?" project":""); chg(R,e,t,pj,r); break; }
  case O_E_MINENV: { arg(A,a,d,r); R.a=ap_abstract1_minimize_environment(man,A.destr,A.p); Env got; for(size_t i=0;i<R.a.env->intdim+R.a.env->realdim;i++) got.insert(idx_of(R.a.env->var_of_dim[i])); for(int i:got) if(!e.count(i)) violate("environment","%s: %s appears in the minimized environment",where().c_str(),N1[i]);
    if(R.refok&&D->exact&&!ref_empty(R.ref)) for(int i:e){ Ref f=ref_copy(R.ref); ref_forget(f,{i},false); bool un=ref_eq(f,R.ref); if(un==(got.count(i)>0)) violate("environment","%s: %s is %sconstrained in {%s} but was %s",where().c_str(),N1[i],un?"un":"",ref_str(R.ref).c_str(),un?"kept":"removed"); }
    chg(R,e,got,false,r); break; }
  case O_E_RENAME: { vector<int> o=order(e),from,to; Env used=e; vector<int> fi,ti; // choose a set, then an injective map of each type
      for(int i:o) if(r.p(50)) from.push_back(i); for(size_t i=from.size();i>1;i--) std::swap(from[i-1],from[r.below(i)]); std::set<int> keep; for(int i:o) if(std::find(from.begin(),from.end(),i)==from.end()) keep.insert(i); std::set<int> taken=keep; vector<int> ok_;
      for(int f:from){ vector<int> c; for(int j=0;j<NP;j++) if(isint[j]==isint[f]&&!taken.count(j)) c.push_back(j); if(c.empty()) { to.clear(); break; } int t=r.pick(c); taken.insert(t); to.push_back(t); } if(to.size()!=from.size()) return; 
      vector<ap_var_t> t1,t2; string s; for(size_t i=0;i<from.size();i++){ t1.push_back(var(from[i],&r)); t2.push_back(var(to[i],&r)); s+=string(N1[from[i]])+"->"+N1[to[i]]+" "; } LOG("   %s",s.c_str()); arg(A,a,d,r); R.a=ap_abstract1_rename_array(man,A.destr,A.p,t1.data(),t2.data(),from.size());
      vector<int> pm(NP,-1); std::set<int> tgt; for(size_t i=0;i<from.size();i++){ pm[from[i]]=to[i]; tgt.insert(to[i]); } for(int i:keep){ pm[i]=i; tgt.insert(i); } vector<int> rest; for(int j=0;j<NP;j++) if(!tgt.count(j)) rest.push_back(j); size_t k=0; for(int i=0;i<NP;i++) if(pm[i]<0) pm[i]=rest[k++];
      if(R.refok) ref_permute(R.ref,pm); for(auto&p:R.w){ Pt z(NP); for(int i=0;i<NP;i++) z[pm[i]]=p[i]; nw.push_back(z); } R.w=nw; R.e.clear(); for(int i:e) R.e.insert(pm[i]); for(auto&p:R.w) for(int i=0;i<NP;i++) if(!R.e.count(i)) p[i]=0; break; }
  case O_EXPAND: { if(e.empty()) return; int n=order(e)[r.below(e.size())]; vector<int> c; for(int j=0;j<NP;j++) if(!e.count(j)&&isint[j]==isint[n]) c.push_back(j); for(size_t i=c.size();i>1;i--) std::swap(c[i-1],c[r.below(i)]); int k=std::min<int>(c.size(),r.p(10)?0:r.range(1,2)); if((int)e.size()+k>maxenv+1) return; c.resize(k); vector<ap_var_t> tv; string s=N1[n]; for(int j:c){ tv.push_back(var(j,&r)); s+=string(" ")+N1[j]; } LOG("   expand %s",s.c_str()); arg(A,a,d,r); R.a=ap_abstract1_expand(man,A.destr,A.p,var(n,&r),tv.data(),k);
      Ref base=R.refok?ref_copy(R.ref):Ref(); if(R.refok) for(int j:c){ Ref t=ref_copy(base); swapn(t,n,j); R.ref=ref_meet(R.ref,t); } if(absref&&R.refok) R.ref=ref_abs(R.ref,absref);
      for(auto&p:X.w.empty()?vector<Pt>():R.w){ Pt z=p; for(int j:c){ z[j]=p[n]; for(auto&y:R.w){ bool same=true; for(int i:e) if(i!=n&&y[i]!=p[i]) same=false; if(same&&r.p(60)) z[j]=y[n]; } } addw(nw,z); } R.w=nw; R.e.insert(c.begin(),c.end()); break; }
  case O_FOLD: { vector<int> o; bool in=r.p(50); for(int i:e) if(isint[i]==in) o.push_back(i); if(o.size()<2){ in=!in; o.clear(); for(int i:e) if(isint[i]==in) o.push_back(i); } if(o.empty()) return; for(size_t i=o.size();i>1;i--) std::swap(o[i-1],o[r.below(i)]); o.resize(std::min<size_t>(o.size(),r.p(10)?1:r.range(2,3))); vector<ap_var_t> tv; string s; for(int n:o){ tv.push_back(var(n,&r)); s+=string(N1[n])+" "; } LOG("   fold %s",s.c_str()); arg(A,a,d,r); R.a=ap_abstract1_fold(man,A.destr,A.p,tv.data(),o.size());
      vector<int> gone(o.begin()+1,o.end()); if(R.refok&&!gone.empty()){ Ref base=ref_copy(R.ref); Ref acc; for(size_t i=0;i<o.size();i++){ Ref t=ref_copy(base); if(i) swapn(t,o[0],o[i]); ref_forget(t,gone,false); acc=i?ref_hull(acc,t):t; } R.ref=acc; if(absref) R.ref=ref_abs(R.ref,absref); }
      for(auto&p:R.w) for(int n:o){ Pt z=p; z[o[0]]=p[n]; for(int g:gone) z[g]=0; addw(nw,z); } R.w=nw; for(int g:gone) R.e.erase(g); break; }
  case O_CLOSURE: arg(A,a,d,r); R.a=ap_abstract1_closure(man,A.destr,A.p); if(R.refok) ref_closure(R.ref); break;
  case O_MAINT: { int k=r.below(5); if(k==0) ap_abstract1_minimize(man,&X.a); else if(k==1) ap_abstract1_canonicalize(man,&X.a); else if(k==2) ap_abstract1_hash(man,&X.a); else if(k==3){ string t=outstr([&](FILE*f){ ap_abstract1_fprint(f,man,&X.a); }); (void)t; } else outstr([&](FILE*f){ ap_abstract1_fdump(f,man,&X.a); }); exc("upkeep"); stat("maint"); check(X,"after upkeep",r,true); return; }
  default: return;
  }
  if(exc(OPN[op.k])) exact=false; put(d,R,r,exact);
}
// ---- environments alone, against sets of names --------------------------------------------------
void L1::envtest(Rng& r){
  stat("env"); Env A=randenv(r,0,NP),B=randenv(r,0,NP),C=randenv(r,0,NP); if(r.p(30)) B=A; if(r.p(30)) B=subenv(r,A); EnvH a(mkenv(A,r)),b(mkenv(B,r)),c(mkenv(C,r)); LOG("env %s %s %s",envs(A).c_str(),envs(B).c_str(),envs(C).c_str());
  auto sub=[](const Env& x,const Env& y){ return std::includes(y.begin(),y.end(),x.begin(),x.end()); }; string w=where()+" "+envs(A)+" "+envs(B);
  auto bad=[&](const char* f){ violate("environment","%s: %s",w.c_str(),f); };
  if(ap_environment_is_eq(a,b)!=(A==B)) bad("is_eq"); if(ap_environment_is_leq(a,b)!=sub(A,B)) bad("is_leq"); { int x=ap_environment_compare(a,b),y=A==B?0:sub(A,B)?-1:sub(B,A)?1:2; if(x!=y) bad("compare"); } if(A==B&&ap_environment_hash(a)!=ap_environment_hash(b)) bad("hash"); 
  Env U=A; U.insert(B.begin(),B.end());
  auto conv=[&](const Env& from,const Env& to,ap_dimchange_t* dc,const char* f){ // apply the insertions to the list of names
    auto o=order(from),t=order(to); size_t ni=0,nr=0; for(int i:to) if(!from.count(i)) (isint[i]?ni:nr)++; if(!dc){ if(!(from==to)) bad(f); return; } if(dc->intdim!=ni||dc->realdim!=nr) bad(f); vector<int> res; size_t k=0; bool mono=true; for(size_t i=1;i<ni+nr;i++) if(dc->dim[i-1]>dc->dim[i]) mono=false; for(size_t i=0;i<=o.size();i++){ while(k<ni+nr&&dc->dim[k]==i){ res.push_back(-1); k++; } if(i<o.size()) res.push_back(o[i]); } if(!mono||k!=ni+nr||res.size()!=t.size()) bad(f); for(size_t i=0;i<t.size();i++) if(res[i]!=(from.count(t[i])?t[i]:-1)) bad(f); };
  { ap_dimchange_t* dc=ap_environment_dimchange(a,b); if(sub(A,B)){ if(!dc) bad("dimchange to a superset is null"); conv(A,B,dc,"dimchange"); } else if(dc) bad("dimchange to a non-superset"); if(dc) ap_dimchange_free(dc); }
  { ap_dimchange2_t* d2=ap_environment_dimchange2(a,b); if(!d2) bad("dimchange2 null"); conv(A,U,d2->add,"dimchange2 add"); Env inv=U; if(d2->remove){ // positions removed from the union
        auto u=order(U); vector<int> left; size_t k=0,n=d2->remove->intdim+d2->remove->realdim; for(size_t i=0;i<u.size();i++){ if(k<n&&d2->remove->dim[k]==i) k++; else left.push_back(u[i]); } if(k!=n||left!=order(B)) bad("dimchange2 remove"); } else if(U!=B) bad("dimchange2 remove"); ap_dimchange2_free(d2); }
  { ap_dimchange_t *d1=NULL,*d2=NULL; ap_environment_t* l=ap_environment_lce(a,b,&d1,&d2); check_env(l,U,"lce"); conv(A,U,d1,"lce 1"); conv(B,U,d2,"lce 2"); if(d1) ap_dimchange_free(d1); if(d2) ap_dimchange_free(d2); ap_environment_free(l); }
  { int n=r.range(1,4); vector<ap_environment_t*> t; vector<Env> m; for(int i=0;i<n;i++){ int k=r.below(3); t.push_back(k==0?a.e:k==1?b.e:c.e); m.push_back(k==0?A:k==1?B:C); } if(r.p(30)) for(int i=0;i<n;i++){ t[i]=r.p(50)?a.e:A==B?b.e:a.e; m[i]=A; } Env W; bool same=true; for(auto&x:m){ W.insert(x.begin(),x.end()); same&=x==m[0]; } auto t0=t; ap_dimchange_t** pd=NULL; ap_environment_t* l=ap_environment_lce_array(t.data(),n,&pd); check_env(l,W,"lce_array"); if(t!=t0) bad("lce_array permutes its argument"); if(same&&pd) bad("lce_array: conversions given for equal environments"); if(!same&&!pd) bad("lce_array: no conversions"); if(pd){ for(int i=0;i<n;i++) conv(m[i],W,pd[i],"lce_array conversion"); for(int i=0;i<n;i++) if(pd[i]) ap_dimchange_free(pd[i]); free(pd); } ap_environment_free(l); }
  { vector<int> nv; bool clash=false; int k=r.range(0,3); for(int i=0;i<k;i++){ int x=r.below(NP); if(A.count(x)||std::find(nv.begin(),nv.end(),x)!=nv.end()) clash=true; nv.push_back(x); } Env W=A; W.insert(nv.begin(),nv.end()); bool wrongtype=r.p(10)&&!A.empty(); split(nv,r,[&](vector<ap_var_t>& vi,vector<ap_var_t>& vr){ if(wrongtype){ int x=order(A)[r.below(A.size())]; (isint[x]?vr:vi).push_back(var(x)); } ap_dimperm_t pm; pm.dim=NULL; pm.size=0; ap_environment_t* n=r.p(50)?ap_environment_add(a,vi.data(),vi.size(),vr.data(),vr.size()):nullptr; bool viaperm=!n; if(viaperm) n=ap_environment_add_perm(a,vi.data(),vi.size(),vr.data(),vr.size(),&pm);
        if(clash||wrongtype){ if(n) bad("add accepted a name twice"); if(viaperm&&pm.dim) bad("add_perm: permutation after a failure"); return; } check_env(n,W,"add"); if(viaperm){ auto o=order(A); vector<int> cat; for(int i:o) if(isint[i]) cat.push_back(i); for(auto v:vi) cat.push_back(idx_of(v)); for(int i:o) if(!isint[i]) cat.push_back(i); for(auto v:vr) cat.push_back(idx_of(v)); auto t=order(W); vector<int> res(t.size(),-1); if(pm.size!=t.size()) bad("add_perm size"); for(size_t i=0;i<t.size();i++) res[pm.dim[i]]=cat[i]; if(res!=t) bad("add_perm permutation"); ap_dimperm_clear(&pm); } ap_environment_free(n); }); }
  { vector<int> rv; for(int i:A) if(r.p(40)) rv.push_back(i); bool unk=r.p(20); if(unk){ int x=r.below(NP); if(A.count(x)&&!rv.empty()) x=rv[r.below(rv.size())]; else if(A.count(x)) unk=false; if(unk) rv.push_back(x); } for(size_t i=rv.size();i>1;i--) std::swap(rv[i-1],rv[r.below(i)]); vector<ap_var_t> tv; for(int i:rv) tv.push_back(var(i,&r)); auto t0=tv; ap_environment_t* n=ap_environment_remove(a,tv.data(),tv.size()); if(tv!=t0) bad("remove permutes its argument"); if(unk){ if(n) bad("remove accepted an unknown name"); } else { Env W=A; for(int i:rv) W.erase(i); check_env(n,W,"remove"); ap_environment_free(n); } }
  { vector<int> f,t; for(int i:A) if(r.p(50)) f.push_back(i); for(size_t i=0;i<f.size();i++){ vector<int> cnd; for(int j=0;j<NP;j++) if(isint[j]==isint[f[i]]) cnd.push_back(j); t.push_back(r.pick(cnd)); } bool unk=r.p(10); if(unk){ vector<int> o; for(int j=0;j<NP;j++) if(!A.count(j)) o.push_back(j); if(o.empty()) unk=false; else { int x=r.pick(o); size_t at=r.below(f.size()+1); f.insert(f.begin()+at,x); t.insert(t.begin()+at,x); } } std::map<int,int> m; for(int i:A) m[i]=i; for(size_t i=0;i<f.size();i++) m[f[i]]=t[i]; Env W; for(int i:A) W.insert(m[i]); bool ok=W.size()==A.size()&&!unk; vector<ap_var_t> v1,v2; for(int i:f) v1.push_back(var(i,&r)); for(int i:t) v2.push_back(var(i,&r)); ap_dimperm_t pm; pm.dim=(ap_dim_t*)0x1; pm.size=0; ap_environment_t* n=ap_environment_rename(a,v1.data(),v2.data(),f.size(),&pm); if(!ok){ if(n) bad("rename accepted a clash or an unknown name"); if(pm.dim) bad("rename: permutation after a failure"); } else { check_env(n,W,"rename"); auto o=order(A),u=order(W); vector<int> res(u.size(),-1); if(pm.size!=u.size()) bad("rename permutation size"); for(size_t i=0;i<u.size();i++) res[pm.dim[i]]=m[o[i]]; if(res!=u) bad("rename permutation"); ap_dimperm_clear(&pm); ap_environment_free(n); } }
  if(!A.empty()&&!B.empty()&&r.p(40)){ // a name of both types: incompatible
    int x=order(A)[r.below(A.size())]; Env rest=B; rest.erase(x); vector<int> v(rest.begin(),rest.end()); ap_environment_t* n=nullptr; split(v,r,[&](vector<ap_var_t>& vi,vector<ap_var_t>& vr){ (isint[x]?vr:vi).push_back(var(x)); n=ap_environment_alloc(vi.data(),vi.size(),vr.data(),vr.size()); }); if(!n) bad("alloc"); ap_dimchange_t *d1=NULL,*d2=NULL;  if(ap_environment_lce(a,n,&d1,&d2)) bad("lce of incompatible environments"); if(ap_environment_compare(a,n)!=-2||ap_environment_compare(n,a)!=-2) bad("compare of incompatible environments"); auto x2=ap_environment_dimchange2(a,n); if(x2) bad("dimchange2 of incompatible environments"); if(ap_environment_dimchange(a,n)) bad("dimchange of incompatible environments"); if(ap_environment_is_leq(a,n)) bad("is_leq of incompatible environments"); ap_environment_t* t[3]={a.e,n,r.p(50)?b.e:n}; ap_dimchange_t** pd=NULL; int k=r.range(2,3); ap_environment_t* l=ap_environment_lce_array(t,k,&pd); if(l&&!(k==3&&false)) bad("lce_array of incompatible environments"); if(pd) bad("lce_array: conversions after a failure"); if(n->count!=1) bad("count"); ap_environment_free(n); }
  { auto* nd=ap_environment_name_of_dim_alloc(a); auto o=order(A); if(nd->size!=o.size()) bad("name_of_dim size"); for(size_t i=0;i<o.size();i++) if(strcmp(nd->p[i],N1[o[i]])) bad("name_of_dim"); ap_environment_name_of_dim_free(nd); outstr([&](FILE*f){ ap_environment_fdump(f,a); }); }
}
// ---- expressions moved between environments -------------------------------------------------------
void L1::exprtest(Rng& r){
  stat("expr"); Env A=randenv(r,0,5),B=A; for(int i=0;i<NP;i++) if(r.p(35)) B.insert(i); bool super=true; if(r.p(20)){ B=randenv(r,0,6); super=std::includes(B.begin(),B.end(),A.begin(),A.end()); } EnvH a(mkenv(A,r)),b(mkenv(B,r)); string w=where()+" "+envs(A)+" to "+envs(B); auto bad=[&](const char* f){ violate("expression","%s: %s",w.c_str(),f); };
  auto same=[&](const LinE& x,const LinE& y){ for(int i=0;i<NP;i++){ const Coef *p=nullptr,*q_=nullptr; for(auto&t:x.t) if(t.first==i) p=&t.second; for(auto&t:y.t) if(t.first==i) q_=&t.second; auto z=[](const Coef* c){ return !c||(!c->lo.inf&&c->lo.v==0&&(!c->itv||(!c->hi.inf&&c->hi.v==0))); }; if(z(p)!=z(q_)) return false; if(!z(p)&&(ecmp(p->lo,q_->lo)||ecmp(p->itv?p->hi:p->lo,q_->itv?q_->hi:q_->lo))) return false; } return ecmp(x.c.lo,y.c.lo)==0; };
  LinE e=glin(r,A,0,nullptr); auto l=lin1(a,e,r); LinE e0=by_name(l.linexpr0,l.env); if(!same(e,e0)) violate("expression","%s: linear expression reads differently: %s then %s",w.c_str(),lin_s(e).c_str(),lin_s(e0).c_str());
  { ap_coeff_t c; ap_coeff_init(&c,AP_COEFF_SCALAR); for(int i=0;i<NP;i++){ bool f=ap_linexpr1_get_coeff(&c,&l,var(i,&r)); if(f==(A.count(i)>0)) bad("linexpr1_get_coeff on a known/unknown name"); if(!f){ Coef want(Q(0)); for(auto&t:e.t) if(t.first==i) want=t.second; Ext lo,hi; coeff_bounds(&c,lo,hi); if(ecmp(lo,want.lo)) bad("linexpr1_get_coeff"); } if(!A.count(i)&&ap_linexpr1_coeffref(&l,var(i))) bad("linexpr1_coeffref of an unknown name"); } ap_coeff_clear(&c); }
  { ap_linexpr1_t n; bool f=ap_linexpr1_extend_environment(&n,&l,b); if(f==super) bad("linexpr1_extend_environment"); if(!f){ check_env(n.env,B,"extend"); if(!same(e,by_name(n.linexpr0,n.env))) bad("linexpr1_extend_environment changes the expression"); ap_linexpr1_clear(&n); } ap_linexpr1_t k=ap_linexpr1_copy(&l); f=ap_linexpr1_extend_environment_with(&k,b); if(f==super) bad("linexpr1_extend_environment_with"); check_env(k.env,f?A:B,"extend"); if(!same(e,by_name(k.linexpr0,k.env))) bad("linexpr1_extend_environment_with changes the expression"); ap_linexpr1_clear(&k); if(!same(e,by_name(l.linexpr0,l.env))) bad("the original expression changed"); }
  { ap_linexpr1_t k=ap_linexpr1_copy(&l); ap_lincons1_t c=ap_lincons1_make(AP_CONS_SUPEQ,&k,NULL); ap_lincons1_t n; bool f=ap_lincons1_extend_environment(&n,&c,b); if(f==super) bad("lincons1_extend_environment"); if(!f){ if(!same(e,by_name(n.lincons0.linexpr0,n.env))||n.lincons0.constyp!=AP_CONS_SUPEQ) bad("lincons1_extend_environment changes the constraint"); ap_lincons1_clear(&n); }
    ap_lincons1_array_t arr=ap_lincons1_array_make(a,2); ap_lincons1_t c2=ap_lincons1_copy(&c); ap_lincons1_array_set(&arr,0,&c2); ap_lincons1_t c3=ap_lincons1_make_unsat(a); ap_lincons1_array_set(&arr,1,&c3); { EnvH o(mkenv(B,r)); ap_linexpr1_t z=ap_linexpr1_make(o,AP_LINEXPR_SPARSE,0); ap_lincons1_t cz=ap_lincons1_make(AP_CONS_EQ,&z,NULL); bool g=ap_lincons1_array_set(&arr,0,&cz); if(g==(A==B)) bad("lincons1_array_set checks the environment"); if(g) ap_lincons1_clear(&cz); else { ap_lincons1_t c4=ap_lincons1_copy(&c); ap_lincons1_array_set(&arr,0,&c4); } }
    ap_lincons1_array_t na; f=ap_lincons1_array_extend_environment(&na,&arr,b); if(f==super) bad("lincons1_array_extend_environment"); if(!f){ check_env(na.env,B,"extend"); ap_lincons1_t g=ap_lincons1_array_get(&na,0); if(!same(e,by_name(g.lincons0.linexpr0,g.env))) bad("lincons1_array_extend_environment changes the constraint"); g=ap_lincons1_array_get(&na,1); if(!ap_lincons1_is_unsat(&g)) bad("lincons1_array_extend_environment: unsat"); ap_lincons1_array_clear(&na); } f=ap_lincons1_array_extend_environment_with(&arr,b); if(f==super) bad("lincons1_array_extend_environment_with"); check_env(arr.env,f?A:B,"extend"); ap_lincons1_t g=ap_lincons1_array_get(&arr,0); if(!same(e,by_name(g.lincons0.linexpr0,g.env))) bad("lincons1_array_extend_environment_with changes the constraint"); ap_lincons1_array_clear(&arr); ap_lincons1_extend_environment_with(&c,b); if(!same(e,by_name(c.lincons0.linexpr0,c.env))) bad("lincons1_extend_environment_with"); ap_lincons1_clear(&c); }
  { ap_linexpr1_t k=ap_linexpr1_copy(&l); ap_generator1_t g=ap_generator1_make(AP_GEN_RAY,&k); ap_generator1_array_t arr=ap_generator1_array_make(a,1); ap_generator1_t g2=ap_generator1_copy(&g); ap_generator1_array_set(&arr,0,&g2); ap_generator1_array_t na; bool f=ap_generator1_array_extend_environment(&na,&arr,b); if(f==super) bad("generator1_array_extend_environment"); if(!f){ check_env(na.env,B,"extend"); ap_generator1_t x=ap_generator1_array_get(&na,0); if(!same(e,by_name(x.generator0.linexpr0,x.env))) bad("generator1_array_extend_environment"); ap_generator1_array_clear(&na); } f=ap_generator1_array_extend_environment_with(&arr,b); if(f==super) bad("generator1_array_extend_environment_with"); ap_generator1_t x=ap_generator1_array_get(&arr,0); if(!same(e,by_name(x.generator0.linexpr0,x.env))) bad("generator1_array_extend_environment_with"); ap_generator1_array_clear(&arr); ap_generator1_t n; f=ap_generator1_extend_environment(&n,&g,b); if(f==super) bad("generator1_extend_environment"); if(!f){ if(!same(e,by_name(n.generator0.linexpr0,n.env))) bad("generator1_extend_environment"); ap_generator1_clear(&n); } ap_generator1_extend_environment_with(&g,b); if(!same(e,by_name(g.generator0.linexpr0,g.env))) bad("generator1_extend_environment_with"); ap_generator1_clear(&g); }
  { // an expression or array that holds the last reference to its environment is extended to that same environment
    ap_environment_t* e2=mkenv(A,r); auto x=lin1(e2,e,r); ap_environment_free(e2); auto ok=[&](bool f,ap_environment_t* v,ap_linexpr0_t* l0,const char* n){ if(f) bad(n); check_env(v,A,n); if(!same(e,by_name(l0,v))) bad(n); };
    ok(ap_linexpr1_extend_environment_with(&x,x.env),x.env,x.linexpr0,"linexpr1_extend_environment_with to its own");
    if(r.p(50)){ ap_lincons1_t c=ap_lincons1_make(AP_CONS_SUPEQ,&x,NULL); ok(ap_lincons1_extend_environment_with(&c,c.env),c.env,c.lincons0.linexpr0,"lincons1_extend_environment_with to its own"); ap_lincons1_array_t arr=ap_lincons1_array_make(c.env,1); ap_lincons1_array_set(&arr,0,&c); bool f=ap_lincons1_array_extend_environment_with(&arr,arr.env); ap_lincons1_t g=ap_lincons1_array_get(&arr,0); ok(f,arr.env,g.lincons0.linexpr0,"lincons1_array_extend_environment_with to its own"); ap_lincons1_array_clear(&arr); }
    else { ap_generator1_t c=ap_generator1_make(AP_GEN_RAY,&x); ok(ap_generator1_extend_environment_with(&c,c.env),c.env,c.generator0.linexpr0,"generator1_extend_environment_with to its own"); ap_generator1_array_t arr=ap_generator1_array_make(c.env,1); ap_generator1_array_set(&arr,0,&c); bool f=ap_generator1_array_extend_environment_with(&arr,arr.env); ap_generator1_t g=ap_generator1_array_get(&arr,0); ok(f,arr.env,g.generator0.linexpr0,"generator1_array_extend_environment_with to its own"); ap_generator1_array_clear(&arr); }
    e2=mkenv(A,r); ap_texpr1_t* t=tex1(e2,gtex(r,A,2),r); ap_environment_free(e2); if(ap_texpr1_extend_environment_with(t,t->env)) bad("texpr1_extend_environment_with to its own"); check_env(t->env,A,"texpr1 own"); ap_tcons1_t c=tc1(AP_CONS_SUP,t,NULL); if(ap_tcons1_extend_environment_with(&c,c.env)) bad("tcons1_extend_environment_with to its own"); ap_tcons1_array_t arr=ap_tcons1_array_make(c.env,1); ap_tcons1_array_set(&arr,0,&c); if(ap_tcons1_array_extend_environment_with(&arr,arr.env)) bad("tcons1_array_extend_environment_with to its own"); check_env(arr.env,A,"tcons1 own"); ap_tcons1_array_clear(&arr); stat("expr.own_env"); }
  TexE te=gtex(r,A,3); ap_texpr1_t* t=tex1(a,te,r); auto txt=[&](ap_texpr1_t* x){ return outstr([&](FILE*f){ ap_texpr1_fprint(f,x); }); }; string s0=txt(t); Env used; texnames(te,used);
  for(int i=0;i<NP;i++) if(ap_texpr1_has_var(t,var(i,&r))!=(used.count(i)>0)) bad("texpr1_has_var");
  { ap_texpr1_t* n=ap_texpr1_extend_environment(t,b); if((n!=nullptr)!=super) bad("texpr1_extend_environment"); if(n){ check_env(n->env,B,"extend"); if(txt(n)!=s0) bad("texpr1_extend_environment changes the expression"); for(int i=0;i<NP;i++) if(ap_texpr1_has_var(n,var(i))!=(used.count(i)>0)) bad("texpr1_has_var after extension"); if(ap_texpr1_equal(t,n)!=(A==B)) bad("texpr1_equal over environments"); ap_texpr1_free(n); } if(txt(t)!=s0) bad("the original tree changed"); ap_texpr1_t* k=ap_texpr1_copy(t); if(!ap_texpr1_equal(t,k)) bad("texpr1_equal of a copy"); bool f=ap_texpr1_extend_environment_with(k,b); if(f==super) bad("texpr1_extend_environment_with"); if(txt(k)!=s0) bad("texpr1_extend_environment_with changes the expression"); ap_texpr1_free(k); }
  { ap_texpr1_t* k=ap_texpr1_copy(t); ap_tcons1_t c=tc1(AP_CONS_SUP,k,NULL); ap_tcons1_array_t arr=ap_tcons1_array_make(a,1); ap_tcons1_t c2=ap_tcons1_copy(&c); ap_tcons1_array_set(&arr,0,&c2); ap_tcons1_array_t na; bool f=ap_tcons1_array_extend_environment(&na,&arr,b); if(f==super) bad("tcons1_array_extend_environment"); auto ct=[&](ap_tcons1_t* x){ return outstr([&](FILE*f){ ap_tcons1_fprint(f,x); }); }; string z=ct(&c); if(!f){ check_env(na.env,B,"extend"); ap_tcons1_t x=ap_tcons1_array_get(&na,0); if(ct(&x)!=z) bad("tcons1_array_extend_environment"); ap_tcons1_array_clear(&na); } f=ap_tcons1_array_extend_environment_with(&arr,b); if(f==super) bad("tcons1_array_extend_environment_with"); ap_tcons1_t x=ap_tcons1_array_get(&arr,0); if(ct(&x)!=z) bad("tcons1_array_extend_environment_with"); ap_tcons1_array_clear(&arr); ap_tcons1_t n; f=ap_tcons1_extend_environment(&n,&c,b); if(f==super) bad("tcons1_extend_environment"); if(!f){ if(ct(&n)!=z) bad("tcons1_extend_environment"); ap_tcons1_clear(&n); } ap_tcons1_extend_environment_with(&c,b); if(ct(&c)!=z) bad("tcons1_extend_environment_with"); ap_tcons1_clear(&c); }
  { int v=r.below(NP); TexE se=gtex(r,A,2); ap_texpr1_t* d=tex1(a,se,r); ap_texpr1_t* n=ap_texpr1_substitute(t,var(v,&r),d); if((n!=nullptr)!=(A.count(v)>0)) bad("texpr1_substitute of a known/unknown name"); if(n){ // semantics: by evaluation of the model tree
      std::function<TexE(const TexE&)> sb=[&](const TexE& x)->TexE{ if(x.kind==1) return x.dim==v?se:x; TexE y=x; if(x.a) y.a=std::make_shared<TexE>(sb(*x.a)); if(x.b) y.b=std::make_shared<TexE>(sb(*x.b)); return y; }; ap_texpr1_t* m=tex1(a,sb(te),r); if(!ap_texpr1_equal(m,n)||txt(m)!=txt(n)) bad("texpr1_substitute"); ap_texpr1_free(m); ap_texpr1_t* k=ap_texpr1_copy(t); if(te.kind==2){ if(ap_texpr1_substitute_with(k,var(v),d)) bad("texpr1_substitute_with"); if(!ap_texpr1_equal(k,n)) bad("texpr1_substitute_with differs"); } ap_texpr1_free(k); ap_texpr1_free(n); } if(A!=B){ ap_texpr1_t* o=ap_texpr1_cst_scalar_int(b,3); if(ap_texpr1_substitute(t,var(v),o)) bad("texpr1_substitute over environments"); ap_texpr1_free(o); } ap_texpr1_free(d); if(txt(t)!=s0) bad("the original tree changed"); }
  { ap_texpr1_t* f=ap_texpr1_from_linexpr1(&l); check_env(f->env,A,"from_linexpr1"); ap_texpr1_free(f); }
  ap_texpr1_free(t); ap_linexpr1_clear(&l);
}
// ---- questions by name ------------------------------------------------------------------------------
void L1::query(int s,Rng& r){
  Val& v=V[s]; string w=where()+" "+envs(v.e); stat("query"); auto So=ints?optional<Ref>():sys(&v.a); exc("export"); bool ex=D->exact&&!ints&&So; int k=r.range(1,4);
  while(k--) switch(r.below(8)){
  case 0: { LinE e=glin(r,v.e,pre(D,"oct")?1:r.below(3),&v.w); if(!scalar(e)) break; Cons c; c.e=e; c.typ=r.p(60)?AP_CONS_SUPEQ:r.p(50)?AP_CONS_EQ:AP_CONS_SUP; EnvH ee(expr_env(r,v,names(e))); auto l=lin1(ee,e,r); ap_lincons1_t lc=ap_lincons1_make((ap_constyp_t)c.typ,&l,NULL); bool b=ap_abstract1_sat_lincons(man,&v.a,&lc); ap_lincons1_clear(&lc); ap_texpr1_t* t=tex1(ee,tex_of_lin(e),r); ap_tcons1_t tc=tc1((ap_constyp_t)c.typ,t,NULL); bool b2=ap_abstract1_sat_tcons(man,&v.a,&tc); ap_tcons1_clear(&tc); if(b||b2) for(auto&p:v.w) if(!cons_may(c,p)) violate("contradiction","%s: sat is true for %s, false at %s",w.c_str(),lin_s(e).c_str(),pts(p).c_str()); if(So){ Ref t2=ref_univ(NP); ref_add(t2,{c},false); bool truth=ref_leq(*So,t2); if((b||b2)&&!truth) violate("contradiction","%s: sat is true for %s typ %d on {%s}",w.c_str(),lin_s(e).c_str(),c.typ,ref_str(*So).c_str()); if(!b&&truth&&ex&&(!pre(D,"oct")||octa(e))&&!(is(D,"polka")&&c.typ==AP_CONS_SUP)&&!(is(D,"pkeq")&&c.typ!=AP_CONS_EQ)) violate("incomplete","%s: sat_lincons is false for %s typ %d on {%s}",w.c_str(),lin_s(e).c_str(),c.typ,ref_str(*So).c_str()); } break; }
  case 1: { if(v.e.empty()) break; int n=order(v.e)[r.below(v.e.size())]; LinE e; e.t.push_back({n,Coef(q(1))}); e.c=Coef(Q(0)); ap_interval_t* b=ap_abstract1_bound_variable(man,&v.a,var(n,&r)); bool nan=false; Ext lo=scal(b->inf,nan),hi=scal(b->sup,nan); bool bot=ap_interval_is_bottom(b); if(!bot&&!ap_abstract1_sat_interval(man,&v.a,var(n,&r),b)&&ex) violate("contradiction","%s: bound of %s denied by sat_interval",w.c_str(),N1[n]); ap_interval_free(b); if(So&&!nan){ bool em; Ext l,h; ref_bounds(*So,e,em,l,h); if(em){ if(ex&&!bot) violate("incomplete","%s: bound of %s not empty",w.c_str(),N1[n]); } else if(bot||ecmp(lo,l)>0||ecmp(hi,h)<0||(ex&&(ecmp(lo,l)||ecmp(hi,h)))) violate("contradiction","%s: bound of %s is [%s,%s], its range is [%s,%s]",w.c_str(),N1[n],es(lo).c_str(),es(hi).c_str(),es(l).c_str(),es(h).c_str());
      if(!em){ Ref f=ref_copy(*So); ref_forget(f,{n},false); bool truth=ref_eq(f,*So),u=ap_abstract1_is_variable_unconstrained(man,&v.a,var(n,&r)); if(u&&!truth||ex&&u!=truth) violate("contradiction","%s: is_variable_unconstrained(%s) is %d on {%s}",w.c_str(),N1[n],u,ref_str(*So).c_str()); } } break; }
  case 2: { TexE e=gtex(r,v.e,3); Env need; texnames(e,need); EnvH ee(expr_env(r,v,need)); ap_texpr1_t* t=tex1(ee,e,r); ap_interval_t* b=ap_abstract1_bound_texpr(man,&v.a,t); ap_texpr1_free(t); bool nan=false; Ext lo=scal(b->inf,nan),hi=scal(b->sup,nan); ap_interval_free(b); for(auto&p:v.w){ auto x=tex_eval(e,p,r); if(x&&!nan&&(ecmp(lo,Ext(*x))>0||ecmp(hi,Ext(*x))<0)) violate("lost-point","%s: bound of %s is [%s,%s], but it is %s at %s",w.c_str(),texs(e).c_str(),es(lo).c_str(),es(hi).c_str(),qs(*x).c_str(),pts(p).c_str()); } break; }
  case 3: { int b=live(r.below(V.size())); bool same=V[b].e==v.e; ap_abstract1_t y=same?V[b].a:ap_abstract1_t{NULL,NULL}; if(!same) break; bool l=ap_abstract1_is_leq(man,&v.a,&y),q_=ap_abstract1_is_eq(man,&v.a,&y); if(l||q_){ auto T=ints?optional<Ref>():sys(&y); if(T&&So){ if(l&&!ref_leq(*So,*T)||q_&&!ref_eq(*So,*T)) violate("contradiction","%s: is_leq %d is_eq %d",w.c_str(),l,q_); } } else if(ex){ auto T=sys(&y); if(T&&(ref_leq(*So,*T)||ref_eq(*So,*T))) violate("incomplete","%s: is_leq %d is_eq %d",w.c_str(),l,q_); } break; }
  case 4: { ap_generator1_array_t g=ap_abstract1_to_generator_array(man,&v.a); vector<pair<int,LinE>> gs; bool ok=true,env=ap_environment_is_eq(g.env,v.a.env); for(size_t i=0;i<ap_generator1_array_size(&g);i++){ ap_generator1_t x=ap_generator1_array_get(&g,i); int ty=x.generator0.gentyp; if(ty!=AP_GEN_LINE&&ty!=AP_GEN_RAY&&ty!=AP_GEN_VERTEX) ok=false; gs.push_back({ty,by_name(x.generator0.linexpr0,x.env)}); } ap_generator1_array_clear(&g); bool ni=exc("to_generator_array"); if(!env) violate("environment","%s: generators over another environment",w.c_str()); if(ok&&!ni&&So&&!strict&&ex){ for(int i=0;i<NP;i++) if(!v.e.count(i)){ LinE l; l.t.push_back({i,Coef(q(1))}); l.c=Coef(Q(0)); gs.push_back({AP_GEN_LINE,l}); } Ref R=ref_of_gens(NP,gs); if(pre(D,"oct")?!ref_leq(*So,R):!ref_eq(R,*So)) violate("contradiction","%s: generators give {%s}, constraints {%s}",w.c_str(),ref_str(R).c_str(),ref_str(*So).c_str()); } break; }
  case 5: { LinE e=glin(r,v.e,0,nullptr); EnvH ee(expr_env(r,v,names(e))); auto l=lin1(ee,e,r); auto x=ap_abstract1_quasilinear_of_intlinear(man,&v.a,&l,D->fp?AP_SCALAR_DOUBLE:AP_SCALAR_MPQ); ap_linexpr1_clear(&l); check_env(x.env,v.e,"quasilinear"); LinE y=by_name(x.linexpr0,x.env); ap_linexpr1_clear(&x); for(auto&t:y.t) if(t.second.itv&&!v.w.empty()&&false) violate("expression","%s: not quasilinear",w.c_str()); for(auto&p:v.w){ Ext lo,hi; y.bounds(p,lo,hi); Q z=e.eval(p,r); if(ecmp(lo,Ext(z))>0||ecmp(hi,Ext(z))<0) violate("lost-point","%s: quasilinear form of %s excludes %s at %s",w.c_str(),lin_s(e).c_str(),qs(z).c_str(),pts(p).c_str()); } break; }
  case 6: { TexE e=gtex(r,v.e,3); Env need; texnames(e,need); EnvH ee(expr_env(r,v,need)); ap_texpr1_t* t=tex1(ee,e,r); bool ql=r.p(50); auto x=ap_abstract1_intlinear_of_tree(man,&v.a,t,D->fp?AP_SCALAR_DOUBLE:AP_SCALAR_MPQ,ql); ap_texpr1_free(t); check_env(x.env,v.e,"intlinear"); LinE y=by_name(x.linexpr0,x.env); ap_linexpr1_clear(&x); for(auto&p:v.w){ auto z=tex_eval(e,p,r); if(!z) continue; Ext lo,hi; y.bounds(p,lo,hi); if(ecmp(lo,Ext(*z))>0||ecmp(hi,Ext(*z))<0) violate("lost-point","%s: interval linear form of %s is %s, excludes %s at %s",w.c_str(),texs(e).c_str(),lin_s(y).c_str(),qs(*z).c_str(),pts(p).c_str()); } break; }
  case 7: { ap_tcons1_array_t t=ap_abstract1_to_tcons_array(man,&v.a); bool env=ap_environment_is_eq(t.env,v.a.env); EnvH ve(ap_environment_copy(v.a.env)); auto rb=ap_abstract1_of_tcons_array(man,ve,&t); ap_tcons1_array_clear(&t); auto T=ints?optional<Ref>():sys(&rb); ap_abstract1_clear(man,&rb); if(!env) violate("environment","%s: tcons over another environment",w.c_str()); if(T&&ex&&!ref_eq(*T,*So)) violate("differs","%s: rebuilt from tree constraints: {%s} instead of {%s}",w.c_str(),ref_str(*T).c_str(),ref_str(*So).c_str()); break; }
  }
  if(exc("query")) stat("notimpl"); check(v,"after queries",r,false);
}
// ---- misuse -----------------------------------------------------------------------------------------
void L1::misuse(int s,Rng& r){
  Val& v=V[s]; Env absent; for(int i=0;i<NP;i++) if(!v.e.count(i)) absent.insert(i); auto anyof=[&](const Env& e){ auto it=e.begin(); std::advance(it,r.below(e.size())); return *it; };
  int kind=r.below(19); string nm; bool value=true; Env want=v.e; bool destr=r.p(50); ap_abstract1_t res{NULL,NULL}; int funid=-1; std::function<void(ap_abstract1_t*)> call; vector<std::function<void()>> cl; struct C{ vector<std::function<void()>>& c; ~C(){ for(auto it=c.rbegin();it!=c.rend();++it) (*it)(); } } cc{cl}; bool consumes=false; string wrong;
  Env other=randenv(r,0,4); while(other==v.e) other=randenv(r,0,4); ap_environment_t* oe=mkenv(other,r); cl.push_back([=]{ ap_environment_free(oe); }); ap_abstract1_t* ov=new ap_abstract1_t(r.p(50)?ap_abstract1_top(man,oe):ap_abstract1_bottom(man,oe)); cl.push_back([=]{ ap_abstract1_clear(man,ov); delete ov; });
  Env sup=v.e; if(!absent.empty()) sup.insert(anyof(absent)); bool hassup=sup!=v.e; ap_environment_t* se=mkenv(sup,r); cl.push_back([=]{ ap_environment_free(se); });
  Env stray=subenv(r,v.e); if(hassup){ stray.insert(anyof(absent)); } ap_environment_t* xe=mkenv(stray,r); cl.push_back([=]{ ap_environment_free(xe); }); // never a sub-environment
  ap_environment_t* clash=nullptr; if(!v.e.empty()){ int x=anyof(v.e); Env rest=randenv(r,0,3); rest.erase(x); vector<int> vv(rest.begin(),rest.end()); split(vv,r,[&](vector<ap_var_t>& vi,vector<ap_var_t>& vr){ (isint[x]?vr:vi).push_back(var(x)); clash=ap_environment_alloc(vi.data(),vi.size(),vr.data(),vr.size()); }); retain(clash); cl.push_back([=]{ ap_environment_free(clash); }); }
  auto xlin=[&]{ auto* l=new ap_linexpr1_t(lin1(xe,glin(r,stray,0,nullptr),r)); cl.push_back([=]{ ap_linexpr1_clear(l); delete l; }); return l; }; auto xtex=[&]{ auto* t=tex1(xe,gtex(r,stray,2),r); cl.push_back([=]{ ap_texpr1_free(t); }); return t; };
  auto glin1=[&]{ auto* l=new ap_linexpr1_t(lin1(v.a.env,glin(r,v.e,0,nullptr),r)); cl.push_back([=]{ ap_linexpr1_clear(l); delete l; }); return l; };
  switch(kind){
  case 0: nm="meet/join over another environment"; { bool m=r.p(50); funid=m?AP_FUNID_MEET:AP_FUNID_JOIN; consumes=destr; call=[&,m](ap_abstract1_t* a){ res=m?ap_abstract1_meet(man,destr,a,ov):ap_abstract1_join(man,destr,a,ov); }; } break;
  case 1: nm="meet_array/join_array over another environment or empty"; { bool m=r.p(50); funid=m?AP_FUNID_MEET_ARRAY:AP_FUNID_JOIN_ARRAY; int sz=r.p(40)?0:2; if(!sz) want.clear(); call=[&,m,sz](ap_abstract1_t* a){ ap_abstract1_t t[2]={*a,*ov}; res=m?ap_abstract1_meet_array(man,t,sz):ap_abstract1_join_array(man,t,sz); }; } break;
  case 2: nm="is_leq/is_eq over another environment"; value=false; { bool m=r.p(50); funid=m?AP_FUNID_IS_LEQ:AP_FUNID_IS_EQ; call=[&,m](ap_abstract1_t* a){ if(m?ap_abstract1_is_leq(man,a,ov):ap_abstract1_is_eq(man,a,ov)) wrong="answers true"; }; } break;
  case 3: nm="widening over another environment"; funid=AP_FUNID_WIDENING; call=[&](ap_abstract1_t* a){ res=ap_abstract1_widening(man,a,ov); }; break;
  case 4: { if(!hassup) return; nm="widening_threshold with foreign constraints"; funid=AP_FUNID_WIDENING; auto arr=std::make_shared<ap_lincons1_array_t>(ap_lincons1_array_make(xe,1)); auto l=ap_linexpr1_make(xe,AP_LINEXPR_SPARSE,0); ap_lincons1_t c=ap_lincons1_make(AP_CONS_SUPEQ,&l,NULL); ap_lincons1_array_set(arr.get(),0,&c); cl.push_back([=]{ ap_lincons1_array_clear(arr.get()); }); call=[&,arr](ap_abstract1_t* a){ res=ap_abstract1_widening_threshold(man,a,a,arr.get()); }; break; }
  case 5: { if(!hassup) return; value=false; bool t=r.p(50); nm="sat of a foreign constraint"; funid=t?AP_FUNID_SAT_TCONS:AP_FUNID_SAT_LINCONS; if(t){ auto* x=ap_texpr1_copy(xtex()); auto c=std::make_shared<ap_tcons1_t>(tc1(AP_CONS_SUPEQ,x,NULL)); cl.push_back([=]{ ap_tcons1_clear(c.get()); }); call=[&,c](ap_abstract1_t* a){ if(ap_abstract1_sat_tcons(man,a,c.get())) wrong="answers true"; }; } else { auto l=ap_linexpr1_copy(xlin()); auto c=std::make_shared<ap_lincons1_t>(ap_lincons1_make(AP_CONS_SUPEQ,&l,NULL)); cl.push_back([=]{ ap_lincons1_clear(c.get()); }); call=[&,c](ap_abstract1_t* a){ if(ap_abstract1_sat_lincons(man,a,c.get())) wrong="answers true"; }; } break; }
  case 6: { if(absent.empty()) return; value=false; int n=anyof(absent); int k=r.below(3); nm="question about an unknown variable"; funid=k==0?AP_FUNID_SAT_INTERVAL:k==1?AP_FUNID_IS_DIMENSION_UNCONSTRAINED:AP_FUNID_BOUND_DIMENSION; call=[&,n,k](ap_abstract1_t* a){ if(k==0){ ap_interval_t* i=mk_interval(Ext::minf(),Ext::pinf(),R_MPQ); if(ap_abstract1_sat_interval(man,a,var(n),i)) wrong="answers true"; ap_interval_free(i); } else if(k==1){ if(ap_abstract1_is_variable_unconstrained(man,a,var(n))) wrong="answers true"; } else { ap_interval_t* i=ap_abstract1_bound_variable(man,a,var(n)); if(!ap_interval_is_top(i)) wrong="is bounded"; ap_interval_free(i); } }; break; }
  case 7: { if(!hassup) return; value=false; bool t=r.p(50); nm="bound of a foreign expression"; funid=t?AP_FUNID_BOUND_TEXPR:AP_FUNID_BOUND_LINEXPR; auto* x=xtex(); auto* l=xlin(); call=[&,t,x,l](ap_abstract1_t* a){ ap_interval_t* i=t?ap_abstract1_bound_texpr(man,a,x):ap_abstract1_bound_linexpr(man,a,l); if(!ap_interval_is_top(i)) wrong="is bounded"; ap_interval_free(i); }; break; }
  case 8: case 9: { bool tex=r.p(50),sub=r.p(50); int what=r.below(3); if(what==0&&absent.empty()) return; if(what==1&&!hassup) return; if(what!=0&&v.e.empty()) return; nm=what==0?"assignment to an unknown variable":what==1?"assignment of a foreign expression":"assignment with a destination over another environment"; funid=tex?(sub?AP_FUNID_SUBSTITUTE_TEXPR_ARRAY:AP_FUNID_ASSIGN_TEXPR_ARRAY):(sub?AP_FUNID_SUBSTITUTE_LINEXPR_ARRAY:AP_FUNID_ASSIGN_LINEXPR_ARRAY); consumes=destr; int sz=r.range(1,2),at=r.below(sz); auto o=order(v.e); if((int)o.size()<sz+1){ sz=1; at=0; } vector<int> tv; vector<ap_linexpr1_t> l1; vector<ap_texpr1_t> t1; Env sube=subenv(r,v.e); EnvH sb(mkenv(sube,r));
      for(int i=0;i<sz;i++){ tv.push_back(i<(int)o.size()?o[i]:0); if(i==at&&what==0) tv[i]=anyof(absent); bool f=what==1&&i==at; ap_environment_t* ee=f?xe:r.p(50)?v.a.env:sb.e; const Env& en=ee==xe?stray:ee==sb.e?sube:v.e; if(tex){ auto* t=tex1(ee,gtex(r,en,2),r); t1.push_back(*t); free(t); } else l1.push_back(lin1(ee,glin(r,en,0,nullptr),r)); }
      auto L=std::make_shared<vector<ap_linexpr1_t>>(l1); auto T=std::make_shared<vector<ap_texpr1_t>>(t1); cl.push_back([=]{ for(auto&x:*L) ap_linexpr1_clear(&x); for(auto&x:*T){ ap_texpr0_free(x.texpr0); ap_environment_free(x.env); } }); ap_abstract1_t* dst=what==2?ov:nullptr;
      call=[&,tex,sub,sz,tv,L,T,dst](ap_abstract1_t* a){ vector<ap_var_t> x; for(int i:tv) x.push_back(var(i)); if(tex) res=sub?ap_abstract1_substitute_texpr_array(man,destr,a,x.data(),T->data(),sz,dst):ap_abstract1_assign_texpr_array(man,destr,a,x.data(),T->data(),sz,dst); else res=sub?ap_abstract1_substitute_linexpr_array(man,destr,a,x.data(),L->data(),sz,dst):ap_abstract1_assign_linexpr_array(man,destr,a,x.data(),L->data(),sz,dst); }; break; }
  case 10: { if(absent.empty()) return; nm="forget of an unknown variable"; funid=AP_FUNID_FORGET_ARRAY; consumes=destr; auto o=order(v.e); vector<int> tv; if(!o.empty()&&r.p(50)) tv.push_back(o[0]); tv.push_back(anyof(absent)); call=[&,tv](ap_abstract1_t* a){ vector<ap_var_t> x; for(int i:tv) x.push_back(var(i)); res=ap_abstract1_forget_array(man,destr,a,x.data(),x.size(),false); }; break; }
  case 11: { if(!clash) return; nm="change to an incompatible environment"; funid=AP_FUNID_CHANGE_ENVIRONMENT; consumes=destr; want.clear(); want.insert(-1); call=[&](ap_abstract1_t* a){ res=ap_abstract1_change_environment(man,destr,a,clash,r.p(50)); }; break; }
  case 12: { int what=r.below(3); vector<int> f,t; auto o=order(v.e); if(what==0){ if(absent.empty()) return; f={anyof(absent)}; t={f[0]}; if(absent.size()>1) for(int x:absent) t[0]=x; if(!o.empty()&&r.p(50)){ f.insert(f.begin(),o[0]); t.insert(t.begin(),o[0]); } } else if(what==1){ if(o.size()<2) return; f={o[0]}; t={o[1]}; } else { if(o.size()<2||absent.empty()) return; int x=anyof(absent); f={o[0],o[1]}; t={x,x}; } nm=what==0?"renaming of an unknown variable":what==1?"renaming to a name in use":"renaming of two variables to one name"; funid=AP_FUNID_RENAME_ARRAY; consumes=destr; call=[&,f,t](ap_abstract1_t* a){ vector<ap_var_t> x,y; for(int i:f) x.push_back(var(i)); for(int i:t) y.push_back(var(i)); res=ap_abstract1_rename_array(man,destr,a,x.data(),y.data(),x.size()); }; break; }
  case 13: { int what=r.below(3); vector<int> t; int n; if(what==0){ if(absent.size()<2) return; n=anyof(absent); t={n==*absent.begin()?*absent.rbegin():*absent.begin()}; } else { if(v.e.empty()) return; n=anyof(v.e); if(what==1) t={r.p(50)?n:anyof(v.e)}; else { if(absent.empty()) return; int x=anyof(absent); t={x,x}; } if(what==1&&!absent.empty()&&r.p(50)) t.push_back(anyof(absent)); } nm=what==0?"expansion of an unknown variable":what==1?"expansion to a name in use":"expansion to one name twice"; funid=AP_FUNID_EXPAND; consumes=destr; call=[&,n,t](ap_abstract1_t* a){ vector<ap_var_t> x; for(int i:t) x.push_back(var(i)); res=ap_abstract1_expand(man,destr,a,var(n),x.data(),x.size()); }; break; }
  case 14: { int what=r.below(5); vector<int> t; auto o=order(v.e); for(size_t i=o.size();i>1;i--) std::swap(o[i-1],o[r.below(i)]); if(what==0) {} else if(what==1){ if(absent.empty()) return; if(!o.empty()) t.push_back(o[0]); t.push_back(anyof(absent)); if(o.size()>1) t.push_back(o[1]); if(t.size()<2) t.push_back(t[0]); if(r.p(50)) std::swap(t[0],t[1]); } else if(what==2){ if(o.size()<2) return; t={o[0],o[1],o[1]}; } else if(what==3){ if(o.size()<1) return; t={o[0],o[0]}; if(o.size()>1&&r.p(50)) t.push_back(o[1]); } else { int a_=-1,b_=-1; for(int i:o) (isint[i]?a_:b_)=i; if(a_<0||b_<0) return; t={a_,b_}; if(r.p(50)) std::swap(t[0],t[1]); }
      nm=what==0?"fold of nothing":what==1?"fold of an unknown variable":what==2||what==3?"fold of a variable twice":"fold of an integer and a real"; funid=AP_FUNID_FOLD; consumes=destr; call=[&,t](ap_abstract1_t* a){ vector<ap_var_t> x; for(int i:t) x.push_back(var(i)); res=ap_abstract1_fold(man,destr,a,x.data(),x.size()); }; break; }
  case 15: { if(!clash) return; nm="unification of incompatible environments"; funid=AP_FUNID_UNKNOWN; consumes=destr; auto* cv=new ap_abstract1_t(ap_abstract1_top(man,clash)); cl.push_back([=]{ ap_abstract1_clear(man,cv); delete cv; }); call=[&,cv](ap_abstract1_t* a){ res=ap_abstract1_unify(man,destr,a,cv); }; break; }
  case 16: { if(absent.empty()) return; nm="box over an unknown variable"; funid=AP_FUNID_OF_BOX; int n=anyof(absent); auto o=order(v.e); call=[&,n,o](ap_abstract1_t* a){ vector<ap_var_t> x; int k=r.below(o.size()+1); for(int i=0;i<k;i++) x.push_back(var(o[i])); x.push_back(var(n)); ap_interval_t** t=ap_interval_array_alloc(x.size()); for(size_t i=0;i<x.size();i++) ap_interval_set_int(t[i],0,1); res=ap_abstract1_of_box(man,a->env,x.data(),t,x.size()); ap_interval_array_free(t,x.size()); }; break; }
  case 17: { if(!hassup) return; bool t=r.p(50); nm="meet with foreign constraints"; funid=t?AP_FUNID_MEET_TCONS_ARRAY:AP_FUNID_MEET_LINCONS_ARRAY; consumes=destr; if(r.p(30)&&clash){ } if(t){ auto arr=std::make_shared<ap_tcons1_array_t>(ap_tcons1_array_make(xe,1)); ap_tcons1_t c=tc1(AP_CONS_SUPEQ,ap_texpr1_copy(xtex()),NULL); ap_tcons1_array_set(arr.get(),0,&c); cl.push_back([=]{ ap_tcons1_array_clear(arr.get()); }); call=[&,arr](ap_abstract1_t* a){ res=ap_abstract1_meet_tcons_array(man,destr,a,arr.get()); }; } else { auto arr=std::make_shared<ap_lincons1_array_t>(ap_lincons1_array_make(xe,1)); auto l=ap_linexpr1_copy(xlin()); ap_lincons1_t c=ap_lincons1_make(AP_CONS_SUPEQ,&l,NULL); ap_lincons1_array_set(arr.get(),0,&c); cl.push_back([=]{ ap_lincons1_array_clear(arr.get()); }); call=[&,arr](ap_abstract1_t* a){ res=ap_abstract1_meet_lincons_array(man,destr,a,arr.get()); }; } break; }
  default: { int k=r.below(3); value=false; if(k==0){ nm="fprintdiff over another environment"; funid=AP_FUNID_FPRINTDIFF; call=[&](ap_abstract1_t* a){ outstr([&](FILE*f){ ap_abstract1_fprintdiff(f,man,a,ov); }); }; } else { if(!hassup) return; bool t=k==1; nm="linearization of a foreign expression"; funid=AP_FUNID_UNKNOWN; auto* x=xtex(); auto* l=xlin(); call=[&,t,x,l](ap_abstract1_t* a){ auto y=t?ap_abstract1_intlinear_of_tree(man,a,x,AP_SCALAR_MPQ,true):ap_abstract1_quasilinear_of_intlinear(man,a,l,AP_SCALAR_MPQ); LinE z=from_linexpr(y.linexpr0); check_env(y.env,v.e,"linearization"); ap_linexpr1_clear(&y); if(!z.t.empty()||!z.c.itv||!z.c.lo.inf||!z.c.hi.inf) wrong="is not the universal expression"; }; } break; }
  }
  if(!call) return; string w=where()+" "+envs(v.e)+" ("+nm+(consumes&&destr?", in place)":")"); LOG("misuse1 %s",nm.c_str()); stat("misuse"); stat("misuse."+string(funid<AP_FUNID_SIZE2?ap_name_of_funid[funid]:"?")); if(!consumes) destr=false;
  ap_abstract1_t tmp; ap_abstract1_t* a=&v.a; if(destr){ tmp=ap_abstract1_copy(man,&v.a); a=&tmp; } call(a); auto ex=take_exc(man); bool fe=man->result.flag_exact,fb=man->result.flag_best;
  if(ex.empty()) violate("misuse-accepted","%s: no exception was recorded",w.c_str()); bool hit=false; for(auto&e:ex){ if(e.exn!=AP_EXC_INVALID_ARGUMENT) violate("misuse-wrong-exception","%s: recorded %s",w.c_str(),ap_name_of_exception[e.exn]); if(e.funid==funid) hit=true; } if(!hit) violate("misuse-wrong-function","%s: recorded for function %s",w.c_str(),ex[0].funid<AP_FUNID_SIZE2?ap_name_of_funid[ex[0].funid]:"?"); if(fe||fb) violate("misuse-flags","%s: exact=%d best=%d after the exception",w.c_str(),fe,fb);
  if(!wrong.empty()) violate("misuse-answer","%s: %s",w.c_str(),wrong.c_str());
  if(value){ if(!res.abstract0||!res.env) violate("misuse-result","%s: null result",w.c_str()); retain(res.env); if(want.count(-1)){ if(!ap_environment_is_eq(res.env,clash)) violate("misuse-result","%s: wrong environment",w.c_str()); } else if(kind!=14) check_env(res.env,want,"misuse result"); else if(ill_formed(res.env)) violate("misuse-result","%s: ill-formed environment",w.c_str());
    ap_dimension_t dm=ap_abstract0_dimension(man,res.abstract0); if(dm.intdim!=res.env->intdim||dm.realdim!=res.env->realdim) violate("misuse-result","%s: value has dimensions (%lu,%lu), its environment (%lu,%lu)",w.c_str(),(unsigned long)dm.intdim,(unsigned long)dm.realdim,(unsigned long)res.env->intdim,(unsigned long)res.env->realdim);
    // rejected meets and unifications may return the operand itself; everything else must be the universe
    bool self=kind==15||kind==17; bool top=ap_abstract1_is_top(man,&res); if(!top&&!self) violate("misuse-result","%s: result is not a safe over-approximation",w.c_str()); if(self){ Val t=v; t.a=res; check(t,"misuse result",r,true); } ap_abstract1_clear(man,&res); }
  exc("after misuse"); check(v,"after misuse",r,true);
}
}
void run_level1(const Scenario& s){ L1 R(s); R.exec(); }
