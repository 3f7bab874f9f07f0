#include "hist.hpp"
#include <fenv.h>
const char* OPN[O_N]={"top","bottom","box","cons","copy","free","meet","join","meetarr","joinarr","meetlin","meettc","addray",
 "assign","subst","assignt","substt","forget","adddim","remdim","perm","expand","fold","widen","widenth","closure",
 "maint","query","export","limit","unlimit","optalgo","serial","restart","renew","print","misuse","chain","fpu","approx","cxx","eenv","eexpr","unify","chenv","minenv","rename1"};
static const size_t WCAP=8;
string outstr(std::function<void(FILE*)> f){ char* b=NULL; size_t n=0; FILE* s=open_memstream(&b,&n); f(s); fclose(s); string r(b,n); free(b); return r; }
static void addw(vector<Pt>& w,const Pt& p){ for(auto&x:p) if(qbits(x)>600) return; if(w.size()>=WCAP) return; for(auto&x:w) if(x==p) return; w.push_back(p); }
static void setman(ap_manager_t* m){ for(int i=0;i<AP_EXC_SIZE;i++) ap_manager_set_abort_if_exception(m,(ap_exc_t)i,false); }
static Ext scal(const ap_scalar_t* s,bool& nan){ Ext e; if(!scalar_get(s,e)) nan=true; return e; }

Run::Run(const Scenario& s):sc(s){
  const Dom* D=dom(s.gets("dom")); if(!D) throw Discard{"no such domain"};
  int nu=s.geti("uni",1); int ns=s.geti("slots",4);
  M.resize(ns); U.resize(nu);
  for(int i=0;i<nu;i++){ Uni& u=U[i]; u.d=D; u.man=D->mk(); setman(u.man); u.v.assign(ns,nullptr); u.tag="U"+std::to_string(i);
    if(int al=s.geti("alg")) if(i==nu-1&&(s.geti("flags")||s.geti("anyalg")||(D->poly&&strcmp(D->name,"pkeq")))) for(int f=1;f<AP_FUNID_SIZE;f++){ if((nu>1||s.geti("limits"))&&f==AP_FUNID_WIDENING) continue; ap_funopt_t o=ap_manager_get_funopt(u.man,(ap_funid_t)f); o.algorithm=al; ap_manager_set_funopt(u.man,(ap_funid_t)f,&o); stat("algorithm.set"); } // eager or lazy conversions throughout
    if(s.geti("wanted")) for(int f=1;f<AP_FUNID_SIZE;f++){ ap_funopt_t o=ap_manager_get_funopt(u.man,(ap_funid_t)f); o.flag_exact_wanted=s.geti("wanted")&1; o.flag_best_wanted=s.geti("wanted")&2; ap_manager_set_funopt(u.man,(ap_funid_t)f,&o); stat("wanted.set"); }
    u.inplace=s.geti("inplace"+std::to_string(i),0); u.maint=s.geti("maint"+std::to_string(i),0); u.cxx=s.geti("cxx"+std::to_string(i),0); u.probecopy=s.geti("probecopy"+std::to_string(i),100); u.shadow.resize(ns); }
  man2=D->mk(); setman(man2);
  gc.intdim=s.geti("id",0); gc.realdim=s.geti("rd",2); gc.itvpct=s.geti("itv",0); gc.maxc=s.geti("maxc",8); gc.bigc=s.geti("bigc",0); gc.fltround=s.geti("flt",1); gc.nonlin=s.geti("nonlin",1);
  if(D->fp){ gc.dyadic=s.geti("dyadic",1); gc.reprs={R_MPQ,R_DBL,R_DBL,R_MPFR}; if(!strncmp(D->name,"avo",3)) gc.reprs={R_MPQ,R_DBL}; }
  if(D->ints) gc.dyadic=true;
  eq=s.geti("eq",0); if(!strcmp(D->name,"boxMPQ")) absref=1; if(!strcmp(D->name,"octMPQ")) absref=2; if(!strcmp(D->name,"pkeq")) absref=3; useref=s.geti("ref",0)&&(D->refp||(absref&&!s.geti("limits",0))); useshadow=s.geti("shadow",0); exactdom=D->exact; probes=s.geti("probes",1); limits=s.geti("limits",0);
  if(s.geti("flags",0)){ flagmode=useref=true; ref_quasi=true; flagabs=!strncmp(D->name,"box",3)?1:!strncmp(D->name,"oct",3)?2:absref==3?3:0; absref=0; }
  mrng=Rng(s.seed^0xabcdef);
  LOG("run dom=%s id=%d rd=%d uni=%d slots=%d",D->name,gc.intdim,gc.realdim,nu,ns);
}
Run::~Run(){ if(flagmode) ref_quasi=false; }
void Run::freeall(){
  if(int fo=sc.geti("freeorder",0)) for(size_t k=0;k<U.size();k++){ auto&u=U[k]; if(limits&&u.d->poly) pk_set_limits(u.man,0,0); clear_exc(u.man); bool dead=fo>=2; if(dead){ ap_manager_free(u.man); u.man=nullptr; stat("fault.manager_first"); }
    Rng r(sc.seed+k); vector<int> o; for(size_t i=0;i<u.v.size();i++) o.push_back(i); for(size_t i=o.size();i>1;i--) std::swap(o[i-1],o[r.below(i)]);
    for(int i:o) if(u.v[i]){ ap_manager_t* m=ap_abstract0_manager(u.v[i]); if(fo==3) ap_abstract0_free(m,u.v[i]); else { m=ap_manager_copy(m); ap_abstract0_free(m,u.v[i]); ap_manager_free(m); } u.v[i]=nullptr; } }
  for(auto&u:U){ if(u.man&&limits&&u.d->poly) pk_set_limits(u.man,0,0); for(auto&x:u.v) if(x){ ap_abstract0_free(u.man,x); x=nullptr; } if(u.man){ clear_exc(u.man); ap_manager_free(u.man); } u.man=nullptr; }
  if(man2){ clear_exc(man2); ap_manager_free(man2); } man2=nullptr;
}
string Run::where(const Uni& u,int si) const { char b[200]; snprintf(b,sizeof b,"%s %s op#%d %s slot%d",u.d->name,u.tag.c_str(),opi,cur?OPN[cur->k]:"-",si); return b; }
int Run::live(int x) const { int n=M.size(); for(int i=0;i<n;i++) if(M[(x+i)%n].live) return (x+i)%n; return -1; }
int Run::live_like(int x,const Slot& m,int skip) const { int n=M.size(); for(int i=0;i<n;i++){ int j=(x+i)%n; if(j!=skip&&M[j].live&&M[j].id==m.id&&M[j].rd==m.rd) return j; } return -1; }
GenCfg Run::cfg_for(const Slot& s) const { GenCfg g=gc; g.intdim=s.id; g.realdim=s.rd; return g; }
static int domshape(const Dom* d,Rng& r){ string n=d->name; int k=r.below(100); if(n.substr(0,3)=="oct"||n.substr(0,3)=="avo") return k<70?1:k<85?2:0; if(n.substr(0,3)=="box") return k<50?2:k<65?1:0; return k<60?0:k<85?1:2; }
LinE Run::tight_lin(Rng& r,const Slot& s,int shape){
  GenCfg g=cfg_for(s); LinE e=gen_lin(r,g,shape);
  if(!s.w.empty()&&r.p(80)){ const Pt& p=s.w[r.below(s.w.size())]; Q v=0; bool sc=true; for(auto&x:e.t){ if(x.second.itv) sc=false; else v+=x.second.lo.v*p[x.first]; }
    if(sc){ Q c=-v; if(r.p(25)) c+=abs(gen_q(r,g)); bool itv=e.c.itv; int rp=e.c.repr; Q w= itv&&!e.c.lo.inf&&!e.c.hi.inf? e.c.hi.v-e.c.lo.v:Q(0); e.c=Coef(c,rp); if(itv&&w!=0){ e.c.itv=true; e.c.lo=Ext(Q(c-w)); e.c.hi=Ext(c); } } }
  return e;
}
Cons Run::gen_cons(Rng& r,const Slot& s){
  const Dom* D=U[0].d; Cons c; c.e=tight_lin(r,s,domshape(D,r));
  int k=r.below(100); c.typ= k<62?AP_CONS_SUPEQ:k<84?AP_CONS_EQ:k<94?AP_CONS_SUP:AP_CONS_DISEQ;
  if(string(D->name)=="pkeq") c.typ=r.p(80)?AP_CONS_EQ:AP_CONS_SUPEQ;
  if((string(D->name)=="grid"||string(D->name)=="pkgrid")&&r.p(50)){ c.typ=r.p(50)?AP_CONS_EQMOD:AP_CONS_EQ; c.mod=q(r.range(1,6)); for(auto&x:c.e.t) if(x.second.itv) x.second=Coef(q(1)); if(c.e.c.itv) c.e.c=Coef(c.e.c.lo.inf?Q(0):c.e.c.lo.v); }
  if(c.typ==AP_CONS_SUPEQ||c.typ==AP_CONS_SUP){ // orient so that most witnesses stay
    int keep=0; for(auto&p:s.w) keep+=cons_may(c,p);
    if(2*keep<(int)s.w.size()){ for(auto&x:c.e.t){ Ext l=x.second.lo,h=x.second.hi; l.inf=-l.inf; h.inf=-h.inf; l.v=-l.v; h.v=-h.v; x.second.lo=h; x.second.hi=l; } Ext l=c.e.c.lo,h=c.e.c.hi; l.inf=-l.inf;h.inf=-h.inf;l.v=-l.v;h.v=-h.v; c.e.c.lo=h;c.e.c.hi=l; } }
  return c;
}
// ---------------------------------------------------------------------------------------------
bool Run::exc(Uni& u,const char* what,bool limited){
  auto v=take_exc(u.man); bool ni=false;
  for(auto&e:v){ stat(string("exc.")+ap_name_of_exception[e.exn]); LOG("exc %s in %s",ap_name_of_exception[e.exn],(e.funid>=0&&e.funid<AP_FUNID_SIZE2)?ap_name_of_funid[e.funid]:"?");
    if(e.exn==AP_EXC_NOT_IMPLEMENTED){ ni=true; continue; }
    if(limited&&(e.exn==AP_EXC_OVERFLOW||e.exn==AP_EXC_OUT_OF_SPACE)) continue;
    violate("exc-unexpected","%s: valid call %s raised %s in %s: %s",where(u,-1).c_str(),what,ap_name_of_exception[e.exn],(e.funid>=0&&e.funid<AP_FUNID_SIZE2)?ap_name_of_funid[e.funid]:"?",e.msg.c_str()); }
  return ni;
}
struct Boxed { ap_interval_t** t; size_t n; ~Boxed(){ if(t) ap_interval_array_free(t,n); } };
static ap_linexpr0_t** linarr(const vector<LinE>& v,size_t dims){ ap_linexpr0_t** t=(ap_linexpr0_t**)malloc(sizeof(void*)*(v.size()+1)); for(size_t i=0;i<v.size();i++) t[i]=mk_linexpr(v[i],dims); return t; }
static ap_texpr0_t** texarr(const vector<TexE>& v){ ap_texpr0_t** t=(ap_texpr0_t**)malloc(sizeof(void*)*(v.size()+1)); for(size_t i=0;i<v.size();i++) t[i]=mk_texpr(v[i]); return t; }
ap_abstract0_t* Run::perform(Uni& u,ap_manager_t* man,const Op& op,bool destr,const vector<ap_abstract0_t*>& x,const Args& A,const vector<Slot>& ms){
#ifdef SIM_CXX
  if(u.cxx&&man==u.man) return cxx_perform(u,man,op,destr,x,A,ms);
#endif
  return perform_c(u,man,op,destr,x,A,ms);
}
ap_abstract0_t* Run::perform_c(Uni& u,ap_manager_t* man,const Op& op,bool destr,const vector<ap_abstract0_t*>& x,const Args& A,const vector<Slot>& ms){
  ap_abstract0_t* res=nullptr; int n= ms.empty()?0:ms[0].n();
  ap_dim_t dims[64]; for(size_t i=0;i<A.dims.size();i++) dims[i]=A.dims[i];
  switch(op.k){
  case O_TOP: return ap_abstract0_top(man,ms[0].id,ms[0].rd);
  case O_BOTTOM: return ap_abstract0_bottom(man,ms[0].id,ms[0].rd);
  case O_BOX: { ap_interval_t** t=ap_interval_array_alloc(n); for(int i=0;i<n;i++){ scalar_set(t[i]->inf,A.box[i].first,A.boxc[i].repr); scalar_set(t[i]->sup,A.box[i].second,A.boxc[i].repr); } res=ap_abstract0_of_box(man,ms[0].id,ms[0].rd,t); ap_interval_array_free(t,n); return res; }
  case O_CONS: { auto a=mk_lincons_array(A.cons,n); res=ap_abstract0_of_lincons_array(man,ms[0].id,ms[0].rd,&a); ap_lincons0_array_clear(&a); return res; }
  case O_COPY: return ap_abstract0_copy(man,x[0]);
  case O_MEET: return ap_abstract0_meet(man,destr,x[0],x[1]);
  case O_JOIN: return ap_abstract0_join(man,destr,x[0],x[1]);
  case O_MEETARR: { auto y=x; return ap_abstract0_meet_array(man,y.data(),y.size()); }
  case O_JOINARR: { auto y=x; return ap_abstract0_join_array(man,y.data(),y.size()); }
  case O_MEETLIN: { auto a=mk_lincons_array(A.cons,n); res=ap_abstract0_meet_lincons_array(man,destr,x[0],&a); ap_lincons0_array_clear(&a); return res; }
  case O_MEETTC: { ap_tcons0_array_t a=ap_tcons0_array_make(A.tex.size()); for(size_t i=0;i<A.tex.size();i++) a.p[i]=ap_tcons0_make((ap_constyp_t)A.tcops[i],mk_texpr(A.tex[i]),NULL); res=ap_abstract0_meet_tcons_array(man,destr,x[0],&a); ap_tcons0_array_clear(&a); return res; }
  case O_ADDRAY: { ap_generator0_array_t a=ap_generator0_array_make(A.gens.size()); for(size_t i=0;i<A.gens.size();i++) a.p[i]=ap_generator0_make((ap_gentyp_t)A.gens[i].first,mk_linexpr(A.gens[i].second,n)); res=ap_abstract0_add_ray_array(man,destr,x[0],&a); ap_generator0_array_clear(&a); return res; }
  case O_ASSIGN: case O_SUBST: { auto t=linarr(A.lin,n); ap_abstract0_t* dst= A.dest>=0? x[1]:NULL;
     if(A.dims.size()==1) res= op.k==O_ASSIGN? ap_abstract0_assign_linexpr(man,destr,x[0],dims[0],t[0],dst):ap_abstract0_substitute_linexpr(man,destr,x[0],dims[0],t[0],dst);
     else res= op.k==O_ASSIGN? ap_abstract0_assign_linexpr_array(man,destr,x[0],dims,t,A.dims.size(),dst):ap_abstract0_substitute_linexpr_array(man,destr,x[0],dims,t,A.dims.size(),dst);
     for(size_t i=0;i<A.lin.size();i++) ap_linexpr0_free(t[i]); free(t); return res; }
  case O_ASSIGNT: case O_SUBSTT: { auto t=texarr(A.tex); ap_abstract0_t* dst= A.dest>=0? x[1]:NULL;
     if(A.dims.size()==1) res= op.k==O_ASSIGNT? ap_abstract0_assign_texpr(man,destr,x[0],dims[0],t[0],dst):ap_abstract0_substitute_texpr(man,destr,x[0],dims[0],t[0],dst);
     else res= op.k==O_ASSIGNT? ap_abstract0_assign_texpr_array(man,destr,x[0],dims,t,A.dims.size(),dst):ap_abstract0_substitute_texpr_array(man,destr,x[0],dims,t,A.dims.size(),dst);
     for(size_t i=0;i<A.tex.size();i++) ap_texpr0_free(t[i]); free(t); return res; }
  case O_FORGET: return ap_abstract0_forget_array(man,destr,x[0],dims,A.dims.size(),A.project);
  case O_ADDDIM: case O_REMDIM: { ap_dimchange_t* c=ap_dimchange_alloc(A.addi,A.addr); for(size_t i=0;i<A.dims.size();i++) c->dim[i]=A.dims[i];
     res= op.k==O_ADDDIM? ap_abstract0_add_dimensions(man,destr,x[0],c,A.project):ap_abstract0_remove_dimensions(man,destr,x[0],c); ap_dimchange_free(c); return res; }
  case O_PERM: { ap_dimperm_t* p=ap_dimperm_alloc(A.perm.size()); for(size_t i=0;i<A.perm.size();i++) p->dim[i]=A.perm[i]; res=ap_abstract0_permute_dimensions(man,destr,x[0],p); ap_dimperm_free(p); return res; }
  case O_EXPAND: return ap_abstract0_expand(man,destr,x[0],dims[0],A.n);
  case O_FOLD: return ap_abstract0_fold(man,destr,x[0],dims,A.dims.size());
  case O_WIDEN: { ap_abstract0_t* j=ap_abstract0_join(man,false,x[0],x[1]); res=ap_abstract0_widening(man,x[0],j); ap_abstract0_free(man,j); return res; }
  case O_WIDENTH: { auto a=mk_lincons_array(A.cons,n); ap_abstract0_t* j=ap_abstract0_join(man,false,x[0],x[1]); res=ap_abstract0_widening_threshold(man,x[0],j,&a); ap_abstract0_free(man,j); ap_lincons0_array_clear(&a); return res; }
  case O_CLOSURE: return ap_abstract0_closure(man,destr,x[0]);
  }
  return nullptr;
}
// ---------------------------------------------------------------------------------------------
void Run::maint(Uni& u,ap_manager_t* man,ap_abstract0_t* v,Rng& r){
  int k=r.below(12); stat("maint");
  ap_dimension_t dm=ap_abstract0_dimension(man,v); int n=dm.intdim+dm.realdim;
  switch(k){
  case 0: case 1: ap_abstract0_minimize(man,v); break;
  case 2: case 3: ap_abstract0_canonicalize(man,v); break;
  case 4: ap_abstract0_hash(man,v); break;
  case 5: ap_abstract0_size(man,v); break;
  case 6: outstr([&](FILE*f){ ap_abstract0_fprint(f,man,v,NULL); }); break;
  case 7: ap_abstract0_is_bottom(man,v); break;
  case 8: { ap_interval_t** b=ap_abstract0_to_box(man,v); if(b) ap_interval_array_free(b,n); break; }
  case 9: { auto a=ap_abstract0_to_lincons_array(man,v); ap_lincons0_array_clear(&a); break; }
  case 10: { auto a=ap_abstract0_to_generator_array(man,v); ap_generator0_array_clear(&a); break; }
  case 11: ap_abstract0_is_top(man,v); break;
  }
}
optional<Ref> Run::sys(Uni& u,ap_manager_t* man,ap_abstract0_t* v,bool viagen){
  ap_abstract0_t* c=ap_abstract0_copy(man,v); ap_dimension_t dm=ap_abstract0_dimension(man,c); int n=dm.intdim+dm.realdim;
  optional<Ref> res;
  if(!viagen){
    auto a=ap_abstract0_to_lincons_array(man,c); vector<Cons> cs; for(size_t i=0;i<a.size;i++) cs.push_back(from_lincons(&a.p[i])); ap_lincons0_array_clear(&a);
    Ref r=ref_univ(n); if(ref_add(r,cs,false)) res=r;
  } else {
    auto a=ap_abstract0_to_generator_array(man,c); vector<pair<int,LinE>> g; bool ok=true; for(size_t i=0;i<a.size;i++){ int ty=a.p[i].gentyp; if(ty!=AP_GEN_LINE&&ty!=AP_GEN_RAY&&ty!=AP_GEN_VERTEX) ok=false; g.push_back({ty,from_linexpr(a.p[i].linexpr0)}); } ap_generator0_array_clear(&a);
    if(ok) res=ref_of_gens(n,g);
  }
  ap_abstract0_free(man,c); return res;
}
// A value must contain every witness point, by every route a client could ask.
void Run::probe_value(Uni& u,ap_manager_t* man,ap_abstract0_t* v,const vector<Pt>& w,int id,int rd,Rng& r,const string& when,int routes){
  ap_dimension_t dm=ap_abstract0_dimension(man,v);
  if((int)dm.intdim!=id||(int)dm.realdim!=rd) violate("dimension","%s: value has dimensions (%d,%d), expected (%d,%d)",when.c_str(),(int)dm.intdim,(int)dm.realdim,id,rd);
  if(w.empty()) return;
  int n=id+rd; GenCfg g=gc; g.intdim=id; g.realdim=rd; g.itvpct=0; const Dom* D=u.d; string nm=D->name;
  bool grid= nm=="grid"||nm=="pkgrid";
  for(int z=0;z<routes;z++){
    const Pt& p=w[r.below(w.size())]; int k=r.below(14); stat("probe");
    switch(k){
    case 0: if(ap_abstract0_is_bottom(man,v)) violate("lost-point","%s: is_bottom is true but the value must contain %s",when.c_str(),pts(p).c_str()); break;
    case 1: case 12: { auto a=ap_abstract0_to_lincons_array(man,v); string bad; for(size_t i=0;i<a.size;i++){ Cons c=from_lincons(&a.p[i]); for(auto&y:w) if(!cons_may(c,y)){ bad=conss(c)+" excludes "+pts(y); break; } } ap_lincons0_array_clear(&a); if(!bad.empty()) violate("lost-point","%s: exported constraint %s",when.c_str(),bad.c_str()); break; }
    case 2: { ap_interval_t** b=ap_abstract0_to_box(man,v); string bad; if(b){ for(int i=0;i<n;i++){ bool nan=false; Ext lo=scal(b[i]->inf,nan),hi=scal(b[i]->sup,nan); if(nan) continue; for(auto&y:w) if(ecmp(lo,Ext(y[i]))>0||ecmp(hi,Ext(y[i]))<0){ bad="x"+std::to_string(i)+" in ["+es(lo)+","+es(hi)+"] excludes "+pts(y); } } ap_interval_array_free(b,n); } if(!bad.empty()) violate("lost-point","%s: box %s",when.c_str(),bad.c_str()); break; }
    case 3: { if(!n) break; int d=r.below(n); ap_interval_t* b=ap_abstract0_bound_dimension(man,v,d); bool nan=false; Ext lo=scal(b->inf,nan),hi=scal(b->sup,nan); ap_interval_free(b); if(!nan&&(ecmp(lo,Ext(p[d]))>0||ecmp(hi,Ext(p[d]))<0)) violate("lost-point","%s: bound of x%d is [%s,%s], excludes %s",when.c_str(),d,es(lo).c_str(),es(hi).c_str(),pts(p).c_str()); break; }
    case 4: { GenCfg h=g; h.itvpct=gc.itvpct; LinE e=gen_lin(r,h,r.below(3)); auto l=mk_linexpr(e,n); ap_interval_t* b=ap_abstract0_bound_linexpr(man,v,l); bool nan=false; Ext lo=scal(b->inf,nan),hi=scal(b->sup,nan); ap_interval_free(b); ap_linexpr0_free(l); Q x=e.eval(p,r); if(!nan&&(ecmp(lo,Ext(x))>0||ecmp(hi,Ext(x))<0)) violate("lost-point","%s: bound of %s is [%s,%s], but it is %s at %s",when.c_str(),lins(e).c_str(),es(lo).c_str(),es(hi).c_str(),qs(x).c_str(),pts(p).c_str()); break; }
    case 5: { GenCfg h=g; h.itvpct=gc.itvpct/2; TexE e=gen_tex(r,h,3); auto x=tex_eval(e,p,r); if(!x) break; auto t=mk_texpr(e); ap_interval_t* b=ap_abstract0_bound_texpr(man,v,t); bool nan=false; Ext lo=scal(b->inf,nan),hi=scal(b->sup,nan); ap_interval_free(b); ap_texpr0_free(t); if(!nan&&(ecmp(lo,Ext(*x))>0||ecmp(hi,Ext(*x))<0)) violate("lost-point","%s: bound of %s is [%s,%s], but it is %s at %s",when.c_str(),texs(e).c_str(),es(lo).c_str(),es(hi).c_str(),qs(*x).c_str(),pts(p).c_str()); break; }
    case 6: { vector<Cons> cs; for(int i=0;i<n;i++){ Cons c; c.typ=AP_CONS_EQ; c.e.sparse=r.p(50); c.e.t.push_back({i,Coef(q(1))}); c.e.c=Coef(Q(-p[i])); cs.push_back(c); } auto a=mk_lincons_array(cs,n); ap_abstract0_t* m=ap_abstract0_meet_lincons_array(man,false,v,&a); ap_lincons0_array_clear(&a); bool b=ap_abstract0_is_bottom(man,m); ap_abstract0_free(man,m); if(b) violate("lost-point","%s: meet with the point %s is empty",when.c_str(),pts(p).c_str()); break; }
    case 7: case 10: { LinE e=gen_lin(r,g,domshape(D,r)); Q x=0; for(auto&t:e.t) x+=t.second.lo.v*p[t.first]; Q eps= r.p(50)?q(1,r.range(1,64)):abs(gen_q(r,g))+q(1,7); e.c=Coef(Q(-x-eps),g.reprs[r.below(g.reprs.size())]);
        bool res; int ty; if(k==7){ Cons c; c.e=e; c.typ=ty=r.p(70)?AP_CONS_SUPEQ:r.p(50)?AP_CONS_EQ:AP_CONS_SUP; if(grid&&r.p(40)){ c.typ=ty=AP_CONS_EQ; } ap_lincons0_t l=mk_lincons(c,n); res=ap_abstract0_sat_lincons(man,v,&l); ap_lincons0_clear(&l); }
        else { ap_tcons0_t t=ap_tcons0_make((ap_constyp_t)(ty=r.p(70)?AP_CONS_SUPEQ:AP_CONS_EQ),mk_texpr(tex_of_lin(e)),NULL); res=ap_abstract0_sat_tcons(man,v,&t); ap_tcons0_clear(&t); }
        if(res) violate("lost-point","%s: sat says %s %s always holds, false at %s",when.c_str(),lins(e).c_str(),ty==AP_CONS_SUPEQ?">=0":ty==AP_CONS_EQ?"=0":">0",pts(p).c_str()); break; }
    case 8: { if(!n) break; int d=r.below(n); Ext lo,hi; Q w1=abs(gen_q(r,g)), w2=q(1,r.range(1,32)); if(r.p(50)){ hi=Ext(Q(p[d]-w2)); lo=r.p(30)?Ext::minf():Ext(Q(hi.v-w1)); } else { lo=Ext(Q(p[d]+w2)); hi=r.p(30)?Ext::pinf():Ext(Q(lo.v+w1)); } ap_interval_t* b=mk_interval(lo,hi,R_MPQ); bool res=ap_abstract0_sat_interval(man,v,d,b); ap_interval_free(b); if(res) violate("lost-point","%s: sat_interval says x%d in [%s,%s], false at %s",when.c_str(),d,es(lo).c_str(),es(hi).c_str(),pts(p).c_str()); break; }
    case 9: { if(!D->exact||nm=="pkeq") break; if(grid){ bool frac=false; for(auto&x:p) if(!isint(x)) frac=true; if(frac) break; } /* the grid of a fractional box is the whole line */ Boxed t{ap_interval_array_alloc(n),(size_t)n}; for(int i=0;i<n;i++){ scalar_set(t.t[i]->inf,Ext(p[i]),R_MPQ); scalar_set(t.t[i]->sup,Ext(p[i]),R_MPQ); } ap_abstract0_t* P=ap_abstract0_of_box(man,id,rd,t.t); bool b=ap_abstract0_is_leq(man,P,v); ap_abstract0_free(man,P); if(!b) violate("lost-point","%s: the point %s is not below the value",when.c_str(),pts(p).c_str()); break; }
    case 11: { auto a=ap_abstract0_to_tcons_array(man,v); string bad; for(size_t i=0;i<a.size;i++){ ap_linexpr0_t* l=NULL; (void)l; } ap_tcons0_array_clear(&a); if(!bad.empty()) violate("lost-point","%s: %s",when.c_str(),bad.c_str()); break; }
    case 13: { if(!D->refp) break; auto a=ap_abstract0_to_generator_array(man,v); vector<pair<int,LinE>> gs; bool ok=true; for(size_t i=0;i<a.size;i++){ int ty=a.p[i].gentyp; if(ty!=AP_GEN_LINE&&ty!=AP_GEN_RAY&&ty!=AP_GEN_VERTEX) ok=false; gs.push_back({ty,from_linexpr(a.p[i].linexpr0)}); } ap_generator0_array_clear(&a); if(!ok||!D->refp) break; Ref R=ref_of_gens(n,gs); ref_closure(R); if(!ref_has(R,p)) violate("lost-point","%s: exported generators do not span %s",when.c_str(),pts(p).c_str()); break; }
    }
  }
}
void Run::probe(Uni& u,int si,Rng& r,const char* what){
  if(sc.geti("nowit",0)) return; // a domain that is only serialized here
  ap_abstract0_t* v=u.v[si]; bool cp=r.p(u.probecopy); ap_abstract0_t* c=cp?ap_abstract0_copy(u.man,v):v;
  probe_value(u,u.man,c,M[si].w,M[si].id,M[si].rd,r,where(u,si)+" "+what,probes);
  if(cp) ap_abstract0_free(u.man,c);
  exc(u,"query");
}
void Run::compare(int si,const char* when){
  if(!M[si].live||flagmode) return; const Slot& m=M[si];
  if(m.id>0) return; // canonical results only over the reals
  bool nosys= string(U[0].d->name)=="grid"||!U[0].d->convex;
  if(nosys){ if(eq) for(size_t i=1;i<U.size();i++){ ap_abstract0_t* a=ap_abstract0_copy(man2,U[0].v[si]); ap_abstract0_t* b=ap_abstract0_copy(man2,U[i].v[si]); bool e=ap_abstract0_is_eq(man2,a,b); string sa,sb; if(!e){ sa=outstr([&](FILE*f){ap_abstract0_fprint(f,man2,a,NULL);}); sb=outstr([&](FILE*f){ap_abstract0_fprint(f,man2,b,NULL);}); } ap_abstract0_free(man2,a); ap_abstract0_free(man2,b); stat("compare"); if(!e) violate("differ","%s %s: universes denote different sets:\n--- %s\n--- %s",where(U[i],si).c_str(),when,sa.c_str(),sb.c_str()); } clear_exc(man2); return; }
  optional<Ref> r0;
  for(size_t i=0;i<U.size();i++){
    if(!eq&&i>0) break;
    auto ri=sys(U[i],U[i].man,U[i].v[si]); exc(U[i],"to_lincons_array"); if(!ri) return; stat("compare");
    if(useref&&m.refok){ if(!ref_eq(*ri,m.ref)) violate("differ-ref","%s %s: value is {%s}, exact result is {%s}",where(U[i],si).c_str(),when,ref_str(*ri).c_str(),ref_str(m.ref).c_str());
      if(!absref&&mrng.p(25)){ auto rg=sys(U[i],U[i].man,U[i].v[si],true); exc(U[i],"to_generator_array"); Ref c=ref_copy(m.ref); if(rg){ ref_closure(c); Ref g2=ref_copy(*rg); ref_closure(g2); if(!ref_eq(g2,c)) violate("differ-ref-gen","%s %s: generators span {%s}, exact result is {%s}",where(U[i],si).c_str(),when,ref_str(g2).c_str(),ref_str(c).c_str()); } } }
    if(i==0) r0=ri; else if(eq&&U[0].d->exact&&!ref_eq(*r0,*ri)) violate("differ","%s %s: U0 is {%s}, %s is {%s}",where(U[i],si).c_str(),when,ref_str(*r0).c_str(),U[i].tag.c_str(),ref_str(*ri).c_str());
  }
}
void Run::shadows(const char* when){
  if(!useshadow) return;
  for(auto&u:U) for(size_t s=0;s<M.size();s++) if(M[s].live&&u.shadow[s]){ auto r=sys(u,u.man,u.v[s]); exc(u,"to_lincons_array"); if(r&&!ref_same(u.d->exact,*r,u.shadow[s])) violate("argument-changed","%s %s: a value that was only read changed from {%s} to {%s}",where(u,s).c_str(),when,ref_str(u.shadow[s]).c_str(),ref_str(*r).c_str()); stat("shadow"); }
}
// Operation under a limit: judged against the same operation on the same operands in a pristine
// manager without limits; then repeated without limits in the same manager.
ap_abstract0_t* Run::limited_attempt(Uni& u,const Op& op,const vector<int>& xs,const Args& A,const vector<Slot>& ms,bool keep){
  bool wid=op.k==O_WIDEN||op.k==O_WIDENTH;
  vector<ap_abstract0_t*> before,ins; for(int s:xs) before.push_back(ap_abstract0_copy(man2,u.v[s]));
  Rng r(op.seed^0x11bb); bool destr=r.p(40); if(op.k<O_MEET||op.k==O_MEETARR||op.k==O_JOINARR||op.k==O_WIDEN||op.k==O_WIDENTH) destr=false;
  for(int s:xs) ins.push_back(u.v[s]);
  if(destr&&!ins.empty()) ins[0]=ap_abstract0_copy(u.man,ins[0]);
  if(op.k==O_MEETARR||op.k==O_JOINARR) {}
  pk_set_limits(u.man,limc,limo);
  ap_abstract0_t* res=perform(u,u.man,op,destr,ins,A,ms);
  bool fe=u.man->result.flag_exact;
  pk_set_limits(u.man,0,0);
  auto ex=take_exc(u.man); bool hit=false;
  for(auto&e:ex){ if(e.exn==AP_EXC_OVERFLOW||e.exn==AP_EXC_OUT_OF_SPACE){ hit=true; stat(e.exn==AP_EXC_OVERFLOW?"fault.overflow":"fault.out_of_space"); stat(string("faultop.")+OPN[op.k]); LOG("limit hit %s",ap_name_of_exception[e.exn]); }
    else if(e.exn!=AP_EXC_NOT_IMPLEMENTED) violate("exc-unexpected","%s: limited %s raised %s",where(u,-1).c_str(),OPN[op.k],ap_name_of_exception[e.exn]); }
  string w=where(u,-1)+" (limits coeff="+std::to_string(limc)+" obj="+std::to_string(limo)+(destr?" in place)":")");
  Slot& R=const_cast<Slot&>(ms.back());
  probe_value(u,man2,res,R.w,R.id,R.rd,r,w+" result",2); clear_exc(man2);
  // exact result in the pristine manager
  vector<ap_abstract0_t*> bc; for(auto b:before) bc.push_back(ap_abstract0_copy(man2,b));
  ap_abstract0_t* E=perform(u,man2,op,false,bc,A,ms); for(auto b:bc) ap_abstract0_free(man2,b);
  clear_exc(man2);
  auto rr=sys(u,man2,res), re=sys(u,man2,E);
  if(rr&&re&&R.id==0&&!wid){
    stat("limit.judged");
    if(!ref_leq(*re,*rr)) violate("limit-unsound","%s: result {%s} does not contain the exact result {%s}",w.c_str(),ref_str(*rr).c_str(),ref_str(*re).c_str());
    if(!ref_eq(*re,*rr)){ stat("limit.overapprox"); if(!hit&&fe) violate("limit-unreported","%s: result {%s} is larger than the exact {%s} but no exception was recorded and the result is flagged exact",w.c_str(),ref_str(*rr).c_str(),ref_str(*re).c_str()); }
  }
  ap_abstract0_t* kept=nullptr; if(keep) kept=res; else ap_abstract0_free(u.man,res);
  if(hit){ stat("limit.hit"); }
  // the manager recovers: same operation, same operands, no limit, same manager
  auto recover=[&](const char* when){ vector<ap_abstract0_t*> i2; for(int s:xs) i2.push_back(u.v[s]);
    ap_abstract0_t* again=perform(u,u.man,op,false,i2,A,ms);
    for(auto&e:take_exc(u.man)) if(e.exn!=AP_EXC_NOT_IMPLEMENTED) violate("limit-not-recovered","%s: after the limit was lifted, repeating the operation %s raised %s",w.c_str(),when,ap_name_of_exception[e.exn]);
    auto ra=sys(u,man2,again); clear_exc(man2); ap_abstract0_free(u.man,again);
    if(ra&&re&&R.id==0&&!(wid&&!strcmp(u.d->name,"polkaS"))&&!ref_eq(*ra,*re)) /* widenings of loose polyhedra depend on the representation */ violate("limit-not-recovered","%s: after the limit was lifted, repeating the operation %s gives {%s} instead of {%s}",w.c_str(),when,ref_str(*ra).c_str(),ref_str(*re).c_str());
  };
  bool early=r.p(50); if(early) recover("at once");
  // operands keep their meaning
  for(size_t i=0;i<xs.size();i++){
    auto r1=sys(u,early?man2:u.man,u.v[xs[i]]), r2=sys(u,man2,before[i]);
    if(r1&&r2&&!ref_eq(*r1,*r2)) violate("limit-operand-changed","%s: operand %d was {%s}, is now {%s}",w.c_str(),(int)i,ref_str(*r2).c_str(),ref_str(*r1).c_str());
    if(r.p(30)){ auto g1=sys(u,u.man,u.v[xs[i]],true); if(g1&&r2){ Ref c=ref_copy(*r2); ref_closure(c); Ref g2=ref_copy(*g1); ref_closure(g2); if(!ref_eq(g2,c)) violate("limit-operand-changed","%s: generators of operand %d span {%s}, should be {%s}",w.c_str(),(int)i,ref_str(g2).c_str(),ref_str(c).c_str()); } }
  }
  { auto e2=take_exc(u.man); for(auto&e:e2) if(e.exn!=AP_EXC_NOT_IMPLEMENTED) violate("limit-not-recovered","%s: after the limit was lifted, reading the operands raised %s",w.c_str(),ap_name_of_exception[e.exn]); }
  // a limited query on operands must only answer what is true
  int nq=xs.empty()||!r.p(70)?0:r.range(1,3); while(nq-->0){
    int a=xs[0], b=xs.back(); int kind=r.below(16); ap_abstract0_t* approx=nullptr; vector<Cons> out; bool outs=false; LinE e=tight_lin(r,M[a],r.below(3)); for(auto&x:e.t) if(x.second.itv) x.second=Coef(q(1)); if(e.c.itv) e.c=Coef(Q(0)); Cons c; c.e=e; c.typ=r.p(60)?AP_CONS_SUPEQ:AP_CONS_EQ;
    auto ra=sys(u,man2,before[0]), rb=sys(u,man2,before.back()); clear_exc(man2);
    pk_set_limits(u.man,limc,limo); bool ans=false; Ext lo=Ext::minf(),hi=Ext::pinf(); bool isb=false; const char* qn="";
    ap_abstract0_t* va=r.p(50)?ap_abstract0_copy(u.man,u.v[a]):u.v[a];
    switch(kind){
    case 0: ans=ap_abstract0_is_leq(u.man,va,u.v[b]); qn="is_leq"; break;
    case 1: ans=ap_abstract0_is_eq(u.man,va,u.v[b]); qn="is_eq"; break;
    case 2: ans=ap_abstract0_is_bottom(u.man,va); qn="is_bottom"; break;
    case 3: ans=ap_abstract0_is_top(u.man,va); qn="is_top"; break;
    case 4: { ap_lincons0_t l=mk_lincons(c,M[a].n()); ans=ap_abstract0_sat_lincons(u.man,va,&l); ap_lincons0_clear(&l); qn="sat_lincons"; break; }
    case 5: { auto l=mk_linexpr(e,M[a].n()); ap_interval_t* i=ap_abstract0_bound_linexpr(u.man,va,l); bool nan=false; lo=scal(i->inf,nan); hi=scal(i->sup,nan); isb=true; ap_interval_free(i); ap_linexpr0_free(l); qn="bound_linexpr"; break; }
    case 6: { ap_interval_t** t=ap_abstract0_to_box(u.man,va); int d=M[a].n()?r.below(M[a].n()):-1; bool nan=false; if(d>=0&&t){ lo=scal(t[d]->inf,nan); hi=scal(t[d]->sup,nan); e=LinE(); e.t.push_back({d,Coef(q(1))}); e.c=Coef(Q(0)); isb=true; } if(t) ap_interval_array_free(t,M[a].n()); qn="to_box"; break; }
    case 7: ap_abstract0_hash(u.man,va); qn="hash"; break;
    case 8: ap_abstract0_minimize(u.man,va); qn="minimize"; break;
    case 9: ap_abstract0_canonicalize(u.man,va); qn="canonicalize"; break;
    case 10: outstr([&](FILE*f){ ap_abstract0_fprint(f,u.man,va,NULL); }); qn="fprint"; break;
    case 11: { auto t=ap_abstract0_to_generator_array(u.man,va); ap_generator0_array_clear(&t); qn="to_generator_array"; break; }
    case 12: { auto t=ap_abstract0_to_lincons_array(u.man,va); for(size_t i=0;i<t.size;i++) out.push_back(from_lincons(&t.p[i])); outs=true; ap_lincons0_array_clear(&t); qn="to_lincons_array"; break; }
    case 13: { int n=M[a].n(); if(n){ int d=r.below(n); ans=ap_abstract0_is_dimension_unconstrained(u.man,va,d); c.e=LinE(); c.e.t.push_back({d,Coef(q(1))}); c.e.c=Coef(Q(0)); } qn="is_dimension_unconstrained"; break; }
    case 14: approx=ap_abstract0_copy(u.man,u.v[a]); ap_abstract0_approximate(u.man,approx,r.range(-1,3)); qn="approximate"; break;
    case 15: { int n=M[a].n(); if(n){ int d=r.below(n); Q lo1=q(r.range(-6,2)),hi1=lo1+q(r.range(0,8)); ap_interval_t* iv=mk_interval(Ext(lo1),Ext(hi1),R_MPQ); ans=ap_abstract0_sat_interval(u.man,va,d,iv); ap_interval_free(iv); out.clear(); Cons c1; c1.typ=AP_CONS_SUPEQ; c1.e.t.push_back({d,Coef(q(1))}); c1.e.c=Coef(Q(-lo1)); Cons c2=c1; c2.e.t[0].second=Coef(q(-1)); c2.e.c=Coef(hi1); out={c1,c2}; } qn="sat_interval"; break; }
    }
    pk_set_limits(u.man,0,0); auto eq=take_exc(u.man); bool qhit=false; for(auto&x:eq) if(x.exn==AP_EXC_OVERFLOW||x.exn==AP_EXC_OUT_OF_SPACE) qhit=true;
    if(qhit){ stat("fault.query"); stat(string("faultquery.")+qn); }
    if(va!=u.v[a]) ap_abstract0_free(u.man,va);
    if(ra&&rb&&M[a].id==0&&M[b].id==0){
      bool bad=false;
      if(ans) switch(kind){ case 0: bad=!ref_leq(*ra,*rb); break; case 1: bad=!ref_eq(*ra,*rb); break; case 2: bad=!ref_empty(*ra); break; case 3: bad=!ref_univ_p(*ra); break;
        case 13: { bool em; Ext l2,h2; ref_bounds(*ra,c.e,em,l2,h2); bad=!em&&(!l2.inf||!h2.inf); break; } case 15: if(!out.empty()){ Ref t=ref_univ(M[a].n()); ref_add(t,out,false); bad=!ref_leq(*ra,t); } break;
        case 4: { Ref t=ref_univ(M[a].n()); ref_add(t,{c},false); bad=!ref_leq(*ra,t); break; } }
      if(isb){ bool em; Ext l2,h2; ref_bounds(*ra,e,em,l2,h2); if(!em&&(ecmp(lo,l2)>0||ecmp(hi,h2)<0)) bad=true; }
      if(outs){ Ref t=ref_univ(M[a].n()); if(ref_add(t,out,false)) bad=!ref_leq(*ra,t); }
      if(approx){ auto t=sys(u,man2,approx); if(t) bad=!ref_leq(*ra,*t); clear_exc(man2); }
      stat("limit.query");
      if(bad) violate("limit-query-wrong","%s: %s under the limit answers %s [%s,%s] for {%s} (and {%s}) on %s",w.c_str(),qn,ans?"true":"",es(lo).c_str(),es(hi).c_str(),ref_str(*ra).c_str(),ref_str(*rb).c_str(),conss(c).c_str());
      bool viaown=r.p(50); auto r1=sys(u,viaown?u.man:man2,u.v[a]); clear_exc(man2); if(r1&&!ref_eq(*r1,*ra)) violate("limit-operand-changed","%s: %s under the limit changed its operand from {%s} to {%s}",w.c_str(),qn,ref_str(*ra).c_str(),ref_str(*r1).c_str());
    }
    if(approx) ap_abstract0_free(u.man,approx);
    if(r.p(40)){ string q=string("after a limited ")+qn; recover(q.c_str()); }
    for(auto&e:take_exc(u.man)) if(e.exn!=AP_EXC_NOT_IMPLEMENTED) violate("limit-not-recovered","%s: after the limit was lifted, reading the operands raised %s",w.c_str(),ap_name_of_exception[e.exn]);
  }
  recover("later");
  ap_abstract0_free(man2,E); for(auto b:before) ap_abstract0_free(man2,b); clear_exc(man2);
  return kept;
}
