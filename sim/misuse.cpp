// Misuse of the API (C10) and widening chains (C13).
#include "hist.hpp"
#include <fenv.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <signal.h>
static bool is(const Dom* d,const char* s){ return strcmp(d->name,s)==0; }
static bool pre(const Dom* d,const char* s){ return strncmp(d->name,s,strlen(s))==0; }
static void noabort(ap_manager_t* m){ for(int i=0;i<AP_EXC_SIZE;i++) ap_manager_set_abort_if_exception(m,(ap_exc_t)i,false); }
bool complete_for(const Dom* D,const LinE& e);
// ---- C10 --------------------------------------------------------------------------------------
namespace {
struct MU { // one misuse: what is called, what must come back
  string name; int funid=-1; vector<int> funids; int id=-1,rd=-1; // expected dimensions of a value result (id<0: no value result)
  bool consumes=false;
  std::function<ap_abstract0_t*(ap_manager_t*,ap_abstract0_t*)> call; // receives the first argument (a fresh copy when consumed)
  std::function<string()> wrong; // after the call: complaint about a non-value answer
};
}
void Run::misuse(Uni& u,int si,Rng& r){
  const Slot& s=M[si]; const Dom* D=u.d; int n=s.n(); ap_manager_t* man=u.man; string w=where(u,si); GenCfg g=cfg_for(s); g.itvpct=gc.itvpct;
  vector<std::function<void()>> cleanup; struct CL{ vector<std::function<void()>>& c; ~CL(){ for(auto&f:c) f(); } } cl{cleanup};
  // material: a value of other dimensions, a value of another library
  int oi=s.id,orr=s.rd; do { oi=r.range(0,s.id+2); orr=r.range(0,s.rd+2); } while((oi==s.id&&orr==s.rd)||oi+orr==0||oi+orr>D->maxdim);
  if(oi+orr==n&&r.p(50)){} 
  ap_abstract0_t* other= r.p(50)?ap_abstract0_top(man,oi,orr):ap_abstract0_bottom(man,oi,orr); cleanup.push_back([=]{ ap_abstract0_free(man,other); });
  const Dom* F=nullptr; { vector<const Dom*> c; for(auto&d:domains()) if(!pre(&d,"t1p")&&!pre(&d,"fpp")&&!pre(&d,"avo")&&!is(&d,"grid")&&!is(&d,"pkgrid")&&strcmp(man->library,"")){ c.push_back(&d); } for(int t=0;t<20&&!F;t++){ const Dom* x=c[r.below(c.size())]; ap_manager_t* m=x->mk(); if(m->library!=man->library) F=x; ap_manager_free(m); } }
  ap_manager_t* fm=F?F->mk():nullptr; ap_abstract0_t* foreign=nullptr; vector<Cons> fcs; if(fm){ noabort(fm); foreign=ap_abstract0_top(fm,s.id,s.rd); Slot ts=s; for(int i=0;i<2&&n;i++){ Cons c; c.e.t.push_back({(int)r.below(n),Coef(q(1))}); c.e.c=Coef(q(r.range(-9,9))); fcs.push_back(c); } auto a=mk_lincons_array(fcs,n); foreign=ap_abstract0_meet_lincons_array(fm,true,foreign,&a); ap_lincons0_array_clear(&a); clear_exc(fm); }
  string ftext; if(fm) ftext=outstr([&](FILE*f){ ap_abstract0_fprint(f,fm,foreign,NULL); });
  cleanup.push_back([=]{ if(fm){ ap_abstract0_free(fm,foreign); clear_exc(fm); ap_manager_free(fm); } });
  auto baddim=[&]{ int k=r.below(4); return (ap_dim_t)(k==0?n:k==1?n+1+r.below(5):k==2?AP_DIM_MAX-1:n); };
  auto badlin=[&]{ ap_linexpr0_t* e; int k=r.below(3); if(k==0){ e=ap_linexpr0_alloc(AP_LINEXPR_DENSE,n+1+r.below(3)); for(size_t i=0;i<e->size;i++) ap_coeff_set_scalar_int(&e->p.coeff[i],(int)r.range(-3,3)); ap_coeff_set_scalar_int(&e->cst,1); } else { e=ap_linexpr0_alloc(AP_LINEXPR_SPARSE,r.p(50)?0:r.below(5)); if(n&&k==1) ap_coeff_set_scalar_int(ap_linexpr0_coeffref(e,r.below(n)),2); ap_coeff_set_scalar_int(ap_linexpr0_coeffref(e,n+(r.p(50)?0:r.below(6))),(int)r.range(1,4)); } cleanup.push_back([=]{ ap_linexpr0_free(e); }); return e; };
  auto badtex=[&]{ ap_texpr0_t* t=ap_texpr0_dim(n+(r.p(60)?0:r.below(5))); if(r.p(60)) t=ap_texpr0_binop(AP_TEXPR_ADD,r.p(50)?t:ap_texpr0_cst_scalar_int(2),t->discr==AP_TEXPR_DIM&&n&&r.p(50)?ap_texpr0_dim(r.below(n)):ap_texpr0_cst_scalar_int(3),AP_RTYPE_REAL,AP_RDIR_RND); return t; };
  auto badtexp=[&]{ ap_texpr0_t* t=nullptr; ap_texpr0_t* d=ap_texpr0_dim(n+(r.p(60)?0:r.below(5))); if(r.p(40)) t=d; else { ap_texpr0_t* o=n&&r.p(50)?ap_texpr0_dim(r.below(n)):ap_texpr0_cst_scalar_int(3); t=r.p(50)?ap_texpr0_binop(AP_TEXPR_MUL,o,d,AP_RTYPE_REAL,AP_RDIR_RND):ap_texpr0_binop(AP_TEXPR_ADD,d,o,AP_RTYPE_DOUBLE,AP_RDIR_UP); } cleanup.push_back([=]{ ap_texpr0_free(t); }); return t; }; (void)badtex;
  auto goodlin=[&]{ auto e=mk_linexpr(gen_lin(r,g,0),n); cleanup.push_back([=]{ ap_linexpr0_free(e); }); return e; };
  auto goodtex=[&]{ auto e=mk_texpr(gen_tex(r,g,2)); cleanup.push_back([=]{ ap_texpr0_free(e); }); return e; };
  MU m; m.id=s.id; m.rd=s.rd; bool destr=r.p(40); int kind=r.below(22); ap_abstract0_t* first=u.v[si];
  bool* ans=new bool(false); cleanup.push_back([=]{ delete ans; });
  ap_interval_t** iv=new ap_interval_t*(NULL); cleanup.push_back([=]{ if(*iv) ap_interval_free(*iv); delete iv; });
  auto query=[&]{ m.id=-1; destr=false; m.wrong=[=]{ return *ans?string("answers true"):string(); }; };
  auto bound=[&]{ m.id=-1; destr=false; m.wrong=[=]{ return *iv&&ap_interval_is_top(*iv)?string():string("bound is not [-oo,+oo]"); }; };
  ap_abstract0_t* bad2= foreign&&r.p(40)?foreign:other;
  switch(kind){
  case 0: m.name="meet/join of different values"; m.funid=r.p(50)?AP_FUNID_MEET:AP_FUNID_JOIN; { int f=m.funid; m.call=[=](ap_manager_t* mm,ap_abstract0_t* a){ return f==AP_FUNID_MEET?ap_abstract0_meet(mm,destr,a,bad2):ap_abstract0_join(mm,destr,a,bad2); }; } m.consumes=destr; break;
  case 1: { m.name="meet_array/join_array"; m.funid=r.p(50)?AP_FUNID_MEET_ARRAY:AP_FUNID_JOIN_ARRAY; int f=m.funid; int sz=r.p(20)?0:r.range(2,4), at=sz>1?r.range(1,sz-1):0; if(sz==0){ m.id=m.rd=0; } destr=false; m.call=[=](ap_manager_t* mm,ap_abstract0_t* a){ ap_abstract0_t* t[4]={a,a,a,a}; if(sz) t[at]=bad2; return f==AP_FUNID_MEET_ARRAY?ap_abstract0_meet_array(mm,t,sz):ap_abstract0_join_array(mm,t,sz); }; break; }
  case 2: { m.name="is_leq/is_eq"; bool l=r.p(50); m.funid=l?AP_FUNID_IS_LEQ:AP_FUNID_IS_EQ; query(); bool sw=r.p(50); m.call=[=](ap_manager_t* mm,ap_abstract0_t* a)->ap_abstract0_t*{ ap_abstract0_t*x=sw?bad2:a,*y=sw?a:bad2; *ans=l?ap_abstract0_is_leq(mm,x,y):ap_abstract0_is_eq(mm,x,y); return NULL; }; break; }
  case 3: { m.name="widening"; m.funid=AP_FUNID_WIDENING; destr=false; int k=r.below(3); ap_linexpr0_t* bl=badlin(); m.call=[=](ap_manager_t* mm,ap_abstract0_t* a){ if(k==0) return ap_abstract0_widening(mm,a,bad2); ap_lincons0_array_t arr=ap_lincons0_array_make(1); arr.p[0]=ap_lincons0_make(AP_CONS_SUPEQ,k==1?ap_linexpr0_copy(bl):ap_linexpr0_alloc(AP_LINEXPR_SPARSE,0),NULL); if(k==2) ap_coeff_set_scalar_int(&arr.p[0].linexpr0->cst,1); auto x=ap_abstract0_widening_threshold(mm,a,k==1?a:bad2,&arr); ap_lincons0_array_clear(&arr); return x; }; break; }
  case 4: { m.name="sat_lincons"; m.funid=AP_FUNID_SAT_LINCONS; query(); auto e=badlin(); int ty=r.below(4); m.call=[=](ap_manager_t* mm,ap_abstract0_t* a)->ap_abstract0_t*{ ap_lincons0_t c=ap_lincons0_make((ap_constyp_t)ty,e,NULL); *ans=ap_abstract0_sat_lincons(mm,a,&c); return NULL; }; break; }
  case 5: { m.name="sat_tcons"; m.funid=AP_FUNID_SAT_TCONS; query(); auto e=badtexp(); m.call=[=](ap_manager_t* mm,ap_abstract0_t* a)->ap_abstract0_t*{ ap_tcons0_t c=ap_tcons0_make(AP_CONS_SUPEQ,e,NULL); *ans=ap_abstract0_sat_tcons(mm,a,&c); return NULL; }; break; }
  case 6: { ap_dim_t d=baddim(); int k=r.below(3); if(k==0){ m.name="sat_interval"; m.funid=AP_FUNID_SAT_INTERVAL; query(); m.call=[=](ap_manager_t* mm,ap_abstract0_t* a)->ap_abstract0_t*{ ap_interval_t* i=mk_interval(Ext::minf(),Ext::pinf(),R_MPQ); *ans=ap_abstract0_sat_interval(mm,a,d,i); ap_interval_free(i); return NULL; }; }
      else if(k==1){ m.name="is_dimension_unconstrained"; m.funid=AP_FUNID_IS_DIMENSION_UNCONSTRAINED; query(); m.call=[=](ap_manager_t* mm,ap_abstract0_t* a)->ap_abstract0_t*{ *ans=ap_abstract0_is_dimension_unconstrained(mm,a,d); return NULL; }; }
      else { m.name="bound_dimension"; m.funid=AP_FUNID_BOUND_DIMENSION; bound(); m.call=[=](ap_manager_t* mm,ap_abstract0_t* a)->ap_abstract0_t*{ *iv=ap_abstract0_bound_dimension(mm,a,d); return NULL; }; } break; }
  case 7: { if(r.p(50)){ m.name="bound_linexpr"; m.funid=AP_FUNID_BOUND_LINEXPR; bound(); auto e=badlin(); m.call=[=](ap_manager_t* mm,ap_abstract0_t* a)->ap_abstract0_t*{ *iv=ap_abstract0_bound_linexpr(mm,a,e); return NULL; }; } else { m.name="bound_texpr"; m.funid=AP_FUNID_BOUND_TEXPR; bound(); auto e=badtexp(); m.call=[=](ap_manager_t* mm,ap_abstract0_t* a)->ap_abstract0_t*{ *iv=ap_abstract0_bound_texpr(mm,a,e); return NULL; }; } break; }
  case 8: case 9: case 10: { // assignments and substitutions
      bool tex=r.p(50),sub=r.p(50); m.name=string(sub?"substitute_":"assign_")+(tex?"texpr":"linexpr"); m.funid=tex?(sub?AP_FUNID_SUBSTITUTE_TEXPR_ARRAY:AP_FUNID_ASSIGN_TEXPR_ARRAY):(sub?AP_FUNID_SUBSTITUTE_LINEXPR_ARRAY:AP_FUNID_ASSIGN_LINEXPR_ARRAY);
      int what=r.below(4); int sz=r.p(50)?1:std::min(n+1,2); if(n==0&&what>=1) what=0; int at=r.below(sz); vector<ap_dim_t> td; for(int i=0;i<sz;i++) td.push_back(n?(i%n):0); vector<void*> te; for(int i=0;i<sz;i++) te.push_back(tex?(void*)goodtex():(void*)goodlin());
      if(sz>1&&n>1&&td[0]==td[1]) td[1]=(td[0]+1)%n; if(n<2&&sz>1){ sz=1; at=0; td.resize(1); te.resize(1); }
      if(what==0) td[at]=baddim(); else if(what==1) te[at]=tex?(void*)badtexp():(void*)badlin(); else if(what==2) te[at]=NULL; ap_abstract0_t* dst=what==3?bad2:NULL; m.name+=what==0?" to a dimension it has not":what==1?" of a bad expression":what==2?" of a null expression":" with a bad destination";
      m.call=[=](ap_manager_t* mm,ap_abstract0_t* a){ auto d=td; auto e=te; bool single=sz==1&&what!=2; if(!tex) return single?(sub?ap_abstract0_substitute_linexpr(mm,destr,a,d[0],(ap_linexpr0_t*)e[0],dst):ap_abstract0_assign_linexpr(mm,destr,a,d[0],(ap_linexpr0_t*)e[0],dst)):(sub?ap_abstract0_substitute_linexpr_array(mm,destr,a,d.data(),(ap_linexpr0_t**)e.data(),sz,dst):ap_abstract0_assign_linexpr_array(mm,destr,a,d.data(),(ap_linexpr0_t**)e.data(),sz,dst));
        return single?(sub?ap_abstract0_substitute_texpr(mm,destr,a,d[0],(ap_texpr0_t*)e[0],dst):ap_abstract0_assign_texpr(mm,destr,a,d[0],(ap_texpr0_t*)e[0],dst)):(sub?ap_abstract0_substitute_texpr_array(mm,destr,a,d.data(),(ap_texpr0_t**)e.data(),sz,dst):ap_abstract0_assign_texpr_array(mm,destr,a,d.data(),(ap_texpr0_t**)e.data(),sz,dst)); }; m.consumes=destr; break; }
  case 11: { m.name="forget_array"; m.funid=AP_FUNID_FORGET_ARRAY; int sz=r.range(1,3),at=r.below(sz); vector<ap_dim_t> td; for(int i=0;i<sz;i++) td.push_back(n?i%n:0); td[at]=baddim(); bool pj=r.p(50); m.call=[=](ap_manager_t* mm,ap_abstract0_t* a){ auto d=td; return ap_abstract0_forget_array(mm,destr,a,d.data(),sz,pj); }; m.consumes=destr; break; }
  case 12: { m.name="add_dimensions"; m.funid=AP_FUNID_ADD_DIMENSIONS; int k=r.below(3); vector<ap_dim_t> d; int ai=0; if(k==0){ d={(ap_dim_t)(n+1+r.below(4))}; if(r.p(40)) d.insert(d.begin(),(ap_dim_t)n); if(r.p(30)){ ai=d.size(); } } else if(k==1){ if(s.rd==0) return; d={(ap_dim_t)n,(ap_dim_t)(s.id+r.below(s.rd))}; if(r.p(40)) d.push_back(n); if(r.p(40)) d.insert(d.begin()+1,(ap_dim_t)(s.id+r.below(n-s.id+1))); bool sorted=true; for(size_t i=1;i<d.size();i++) if(d[i-1]>d[i]) sorted=false; if(sorted) return; } else { ai=1; d={(ap_dim_t)(s.id+1)}; if(s.id+1>n) d[0]=n+1; }
      if(k==1) m.name+=" unsorted"; int ar=d.size()-ai; m.id+=ai; m.rd+=ar; bool pj=r.p(50); if(m.id+m.rd>D->maxdim+3) return; m.call=[=](ap_manager_t* mm,ap_abstract0_t* a){ ap_dimchange_t* c=ap_dimchange_alloc(ai,ar); for(size_t i=0;i<d.size();i++) c->dim[i]=d[i]; auto x=ap_abstract0_add_dimensions(mm,destr,a,c,pj); ap_dimchange_free(c); return x; }; m.consumes=destr; break; }
  case 13: { m.name="remove_dimensions"; m.funid=AP_FUNID_REMOVE_DIMENSIONS; int k=r.below(4); vector<ap_dim_t> d; int ai=0; if(k==0) d={baddim()}; else if(k==1&&s.rd>=2){ int x=s.id+r.below(s.rd); d={(ap_dim_t)x,(ap_dim_t)x}; if(r.p(30)) d.push_back(x); m.name+=" twice the same"; } else if(k==2&&s.rd>=2){ d={(ap_dim_t)(n-1),(ap_dim_t)(n-2)}; m.name+=" unsorted"; } else { int sz=n+1+r.below(2); for(int i=0;i<sz;i++) d.push_back(i); ai=r.p(50)?0:std::min(s.id+1,sz); m.name+=" too many"; }
      int ar=d.size()-ai; m.id=s.id>=ai?s.id-ai:0; m.rd=s.rd>=ar?s.rd-ar:0; m.call=[=](ap_manager_t* mm,ap_abstract0_t* a){ ap_dimchange_t* c=ap_dimchange_alloc(ai,ar); for(size_t i=0;i<d.size();i++) c->dim[i]=d[i]; auto x=ap_abstract0_remove_dimensions(mm,destr,a,c); ap_dimchange_free(c); return x; }; m.consumes=destr; break; }
  case 14: { m.name="permute_dimensions"; m.funid=AP_FUNID_PERMUTE_DIMENSIONS; int k=r.below(3); int sz=k==0?(r.p(50)||n==0?n+1:n-1):n; vector<ap_dim_t> d; for(int i=0;i<sz;i++) d.push_back(i); if(k>=1){ if(n<2) return; if(k==1) d[r.below(n)]=baddim(); else { int x=r.below(n),y=(x+1)%n; d[x]=d[y]; m.name+=" not injective"; } } m.call=[=](ap_manager_t* mm,ap_abstract0_t* a){ ap_dimperm_t* c=ap_dimperm_alloc(sz); for(int i=0;i<sz;i++) c->dim[i]=d[i]; auto x=ap_abstract0_permute_dimensions(mm,destr,a,c); ap_dimperm_free(c); return x; }; m.consumes=destr; break; }
  case 15: { m.name="expand"; m.funid=AP_FUNID_EXPAND; ap_dim_t d=baddim(); int k=r.range(1,2); m.rd+=k; m.call=[=](ap_manager_t* mm,ap_abstract0_t* a){ return ap_abstract0_expand(mm,destr,a,d,k); }; m.consumes=destr; break; }
  case 16: { m.name="fold"; m.funid=AP_FUNID_FOLD; int k=r.below(5); vector<ap_dim_t> d; if(k==0){ d={}; m.name+=" of nothing"; } else if(k==1){ if(n<2) return; d={(ap_dim_t)(s.rd?n-1:s.id-1),(ap_dim_t)(s.rd?s.id:0)}; if(d[0]==d[1]) return; m.name+=" unsorted"; } else if(k==2){ if(!n) return; int x=r.below(n); int c=r.range(2,3); for(int i=0;i<c;i++) d.push_back(x); m.name+=" twice the same"; } else if(k==3){ if(!s.id||!s.rd) return; for(int i=0;i<n;i++) if(r.p(70)||i==0||i==n-1) d.push_back(i); m.name+=" of integers and reals"; } else { d={(ap_dim_t)n}; if(n) d.insert(d.begin(),(ap_dim_t)r.below(n)); if(r.p(50)) d.push_back(n+1); m.name+=" of dimensions it has not"; }
      { int lose=d.empty()?0:(int)d.size()-1; bool in=!d.empty()&&(int)d[0]<s.id; if(in) m.id=std::max(0,m.id-lose); else m.rd=std::max(0,m.rd-lose); } m.call=[=](ap_manager_t* mm,ap_abstract0_t* a){ auto e=d; ap_dim_t z=0; return ap_abstract0_fold(mm,destr,a,e.empty()?&z:e.data(),e.size()); }; m.consumes=destr; break; }
  case 17: { m.name="meet_lincons_array"; m.funid=AP_FUNID_MEET_LINCONS_ARRAY; int sz=r.range(1,3),at=r.below(sz); bool nul=r.p(25); vector<ap_linexpr0_t*> e; for(int i=0;i<sz;i++) e.push_back(i==at?(nul?NULL:badlin()):goodlin()); m.call=[=](ap_manager_t* mm,ap_abstract0_t* a){ vector<ap_lincons0_t> c; for(auto x:e) c.push_back(ap_lincons0_make(AP_CONS_SUPEQ,x,NULL)); ap_lincons0_array_t arr={c.data(),c.size()}; return ap_abstract0_meet_lincons_array(mm,destr,a,&arr); }; m.consumes=destr; break; }
  case 18: { m.name="meet_tcons_array"; m.funid=AP_FUNID_MEET_TCONS_ARRAY; int sz=r.range(1,3),at=r.below(sz); bool nul=r.p(25); vector<ap_texpr0_t*> e; for(int i=0;i<sz;i++) e.push_back(i==at?(nul?NULL:badtexp()):goodtex()); m.call=[=](ap_manager_t* mm,ap_abstract0_t* a){ vector<ap_tcons0_t> c; for(auto x:e) c.push_back(ap_tcons0_make(AP_CONS_SUPEQ,x,NULL)); ap_tcons0_array_t arr={c.data(),c.size()}; return ap_abstract0_meet_tcons_array(mm,destr,a,&arr); }; m.consumes=destr; break; }
  case 19: { m.name="add_ray_array"; m.funid=AP_FUNID_ADD_RAY_ARRAY; int sz=r.range(1,2),at=r.below(sz); bool nul=r.p(25); vector<ap_linexpr0_t*> e; for(int i=0;i<sz;i++) e.push_back(i==at?(nul?NULL:badlin()):goodlin()); m.call=[=](ap_manager_t* mm,ap_abstract0_t* a){ vector<ap_generator0_t> c; for(auto x:e) c.push_back(ap_generator0_make(AP_GEN_RAY,x)); ap_generator0_array_t arr={c.data(),c.size()}; return ap_abstract0_add_ray_array(mm,destr,a,&arr); }; m.consumes=destr; break; }
  case 20: case 21: { // first argument of another library
      if(!foreign) return; first=foreign; int k=r.below(22); m.id=s.id; m.rd=s.rd; string* txt=new string(); cleanup.push_back([=]{ delete txt; });
      auto noval=[&](int f,std::function<void(ap_manager_t*,ap_abstract0_t*)> fn){ m.funid=f; m.id=-1; destr=false; m.call=[=](ap_manager_t* mm,ap_abstract0_t* a)->ap_abstract0_t*{ fn(mm,a); return NULL; }; };
      auto val=[&](int f,std::function<ap_abstract0_t*(ap_manager_t*,ap_abstract0_t*)> fn){ m.funid=f; m.call=fn; m.consumes=destr; };
      switch(k){
      case 0: destr=false; val(AP_FUNID_COPY,[](ap_manager_t* mm,ap_abstract0_t* a){ return ap_abstract0_copy(mm,a); }); break;
      case 1: noval(AP_FUNID_ASIZE,[=](ap_manager_t* mm,ap_abstract0_t* a){ ap_abstract0_size(mm,a); }); break;
      case 2: noval(AP_FUNID_MINIMIZE,[=](ap_manager_t* mm,ap_abstract0_t* a){ ap_abstract0_minimize(mm,a); }); break;
      case 3: noval(AP_FUNID_CANONICALIZE,[=](ap_manager_t* mm,ap_abstract0_t* a){ ap_abstract0_canonicalize(mm,a); }); break;
      case 4: noval(AP_FUNID_HASH,[=](ap_manager_t* mm,ap_abstract0_t* a){ ap_abstract0_hash(mm,a); }); m.funids={AP_FUNID_CANONICALIZE}; break;
      case 5: noval(AP_FUNID_APPROXIMATE,[=](ap_manager_t* mm,ap_abstract0_t* a){ ap_abstract0_approximate(mm,a,0); }); break;
      case 6: noval(AP_FUNID_FPRINT,[=](ap_manager_t* mm,ap_abstract0_t* a){ outstr([&](FILE*f){ ap_abstract0_fprint(f,mm,a,NULL); }); }); break;
      case 7: noval(AP_FUNID_FDUMP,[=](ap_manager_t* mm,ap_abstract0_t* a){ outstr([&](FILE*f){ ap_abstract0_fdump(f,mm,a); }); }); break;
      case 8: { ap_abstract0_t* v=u.v[si]; noval(AP_FUNID_FPRINTDIFF,[=](ap_manager_t* mm,ap_abstract0_t* a){ outstr([&](FILE*f){ ap_abstract0_fprintdiff(f,mm,a,v,NULL); }); }); break; }
      case 9: noval(AP_FUNID_SERIALIZE_RAW,[=](ap_manager_t* mm,ap_abstract0_t* a){ ap_membuf_t b=ap_abstract0_serialize_raw(mm,a); *ans=b.ptr!=NULL; free(b.ptr); }); m.wrong=[=]{ return *ans?string("returned bytes"):string(); }; break;
      case 10: { int wi=s.id,wr=s.rd; noval(AP_FUNID_DIMENSION,[=](ap_manager_t* mm,ap_abstract0_t* a){ ap_dimension_t d=ap_abstract0_dimension(mm,a); *ans=(int)d.intdim!=wi||(int)d.realdim!=wr; }); m.wrong=[=]{ return *ans?string("wrong dimension"):string(); }; break; }
      case 11: noval(AP_FUNID_IS_BOTTOM,[=](ap_manager_t* mm,ap_abstract0_t* a){ *ans=ap_abstract0_is_bottom(mm,a); }); m.wrong=[=]{ return *ans?string("answers true"):string(); }; break;
      case 12: noval(AP_FUNID_IS_TOP,[=](ap_manager_t* mm,ap_abstract0_t* a){ *ans=ap_abstract0_is_top(mm,a); }); m.wrong=[=]{ return *ans?string("answers true"):string(); }; break;
      case 13: noval(AP_FUNID_TO_LINCONS_ARRAY,[=](ap_manager_t* mm,ap_abstract0_t* a){ auto x=ap_abstract0_to_lincons_array(mm,a); *ans=x.size!=0; ap_lincons0_array_clear(&x); }); m.wrong=[=]{ return *ans?string("returns constraints"):string(); }; break;
      case 14: noval(AP_FUNID_TO_TCONS_ARRAY,[=](ap_manager_t* mm,ap_abstract0_t* a){ auto x=ap_abstract0_to_tcons_array(mm,a); *ans=x.size!=0; ap_tcons0_array_clear(&x); }); m.wrong=[=]{ return *ans?string("returns constraints"):string(); }; break;
      case 15: { size_t nn=n; noval(AP_FUNID_TO_BOX,[=](ap_manager_t* mm,ap_abstract0_t* a){ auto x=ap_abstract0_to_box(mm,a); for(size_t i=0;i<nn;i++) if(!ap_interval_is_top(x[i])) *ans=true; ap_interval_array_free(x,nn); }); m.wrong=[=]{ return *ans?string("box is not universal"):string(); }; break; }
      case 16: noval(AP_FUNID_TO_GENERATOR_ARRAY,[=](ap_manager_t* mm,ap_abstract0_t* a){ auto x=ap_abstract0_to_generator_array(mm,a); *ans=x.size!=0; ap_generator0_array_clear(&x); }); m.wrong=[=]{ return *ans?string("returns generators"):string(); }; break;
      case 17: { bool dd=destr; val(AP_FUNID_CLOSURE,[=](ap_manager_t* mm,ap_abstract0_t* a){ return ap_abstract0_closure(mm,dd,a); }); break; }
      case 18: { bool dd=destr; ap_abstract0_t* v=u.v[si]; val(AP_FUNID_JOIN,[=](ap_manager_t* mm,ap_abstract0_t* a){ return ap_abstract0_join(mm,dd,a,v); }); break; }
      case 19: { destr=false; ap_abstract0_t* v=u.v[si]; val(AP_FUNID_WIDENING,[=](ap_manager_t* mm,ap_abstract0_t* a){ return ap_abstract0_widening(mm,a,v); }); break; }
      case 20: { if(!n){ return; } bool dd=destr; auto e=goodlin(); val(AP_FUNID_ASSIGN_LINEXPR_ARRAY,[=](ap_manager_t* mm,ap_abstract0_t* a){ return ap_abstract0_assign_linexpr(mm,dd,a,0,e,NULL); }); break; }
      case 21: { bool dd=destr; auto e=goodlin(); val(AP_FUNID_MEET_LINCONS_ARRAY,[=](ap_manager_t* mm,ap_abstract0_t* a){ ap_lincons0_t c=ap_lincons0_make(AP_CONS_SUPEQ,e,NULL); ap_lincons0_array_t arr={&c,1}; return ap_abstract0_meet_lincons_array(mm,dd,a,&arr); }); break; }
      } m.name="value of another library, function "+string(ap_name_of_funid[m.funid]); break; }
  }
  if(!m.call) return;
  w+=" ("+m.name+(m.consumes?", in place)":")"); LOG("misuse %s",m.name.c_str()); stat("misuse"); stat("misuse."+string(ap_name_of_funid[m.funid]));
  bool fgn=first==foreign; ap_manager_t* own=fgn?fm:man;
  // aborting: in a forked child, the process must end by SIGABRT
  if(r.p(6)&&!sc.geti("noabort",0)){ stat("fault.abort"); pid_t pid=fork();
    if(!pid){ int dn=open("/dev/null",O_WRONLY); dup2(dn,1); dup2(dn,2); signal(SIGABRT,SIG_DFL); ap_manager_set_abort_if_exception(man,AP_EXC_INVALID_ARGUMENT,true); ap_abstract0_t* a=m.consumes?ap_abstract0_copy(own,first):first; m.call(man,a); _exit(0); }
    int st; waitpid(pid,&st,0); if(!(WIFSIGNALED(st)&&WTERMSIG(st)==SIGABRT)) violate("no-abort","%s: the exception is set to abort but the call returned (status %x)",w.c_str(),st); }
  if(r.p(30)) for(int i=0;i<AP_EXC_SIZE;i++) if(i!=AP_EXC_INVALID_ARGUMENT&&i!=AP_EXC_NONE&&i!=AP_EXC_NOT_IMPLEMENTED) ap_manager_set_abort_if_exception(man,(ap_exc_t)i,true);
  auto So=s.id==0?sys(u,man,u.v[si]):optional<Ref>(); exc(u,"export");
  ap_abstract0_t* a=m.consumes?ap_abstract0_copy(own,first):first; if(fgn) clear_exc(fm);
  stat("fault.misuse"); ap_abstract0_t* res=m.call(man,a);
  bool fe=ap_manager_get_flag_exact(man),fb=ap_manager_get_flag_best(man); ap_exc_t last=man->result.exn;
  auto ex=take_exc(man); noabort(man);
  if(ex.empty()) { if(res) ap_abstract0_free(man,res); violate("misuse-accepted","%s: no exception was recorded",w.c_str()); }
  for(auto&e:ex){ if(e.exn!=AP_EXC_INVALID_ARGUMENT) violate("misuse-wrong-exception","%s: recorded %s",w.c_str(),ap_name_of_exception[e.exn]); bool ok=e.funid==m.funid; for(int f:m.funids) if(e.funid==f) ok=true; if(!ok) violate("misuse-wrong-function","%s: recorded for function %s",w.c_str(),(e.funid>=0&&e.funid<AP_FUNID_SIZE2)?ap_name_of_funid[e.funid]:"?"); if(e.msg.empty()) violate("misuse-no-message","%s: empty message",w.c_str()); }
  if(last!=AP_EXC_INVALID_ARGUMENT) violate("misuse-not-last","%s: last exception reads %s",w.c_str(),last<AP_EXC_SIZE?ap_name_of_exception[last]:"?");
  if(fe||fb) { stat("misuse.flags"); if(sc.geti("flags",1)) violate("misuse-flags","%s: exact=%d best=%d after the exception",w.c_str(),fe,fb); }
  if(m.wrong){ string x=m.wrong(); if(!x.empty()) violate("misuse-answer","%s: %s",w.c_str(),x.c_str()); }
  if(m.id>=0){
    if(!res) violate("misuse-result","%s: null result",w.c_str());
    ap_dimension_t d=ap_abstract0_dimension(man,res); if(res->man->library!=man->library) violate("misuse-result","%s: result belongs to another library",w.c_str());
    if((int)d.intdim!=m.id||(int)d.realdim!=m.rd) violate("misuse-result","%s: result has dimensions (%lu,%lu), expected (%d,%d)",w.c_str(),(unsigned long)d.intdim,(unsigned long)d.realdim,m.id,m.rd);
    bool top=ap_abstract0_is_top(man,res); ap_abstract0_free(man,res); if(!top) violate("misuse-result","%s: result is not a safe over-approximation",w.c_str()); }
  else if(res) ap_abstract0_free(man,res);
  exc(u,"after misuse");
  if(fm){ string t=outstr([&](FILE*f){ ap_abstract0_fprint(f,fm,foreign,NULL); }); if(t!=ftext) violate("misuse-argument","%s: the value of the other library changed from\n%s\nto\n%s",w.c_str(),ftext.c_str(),t.c_str()); if(!take_exc(fm).empty()&&!is(F,"x")) {} }
  auto S2=s.id==0?sys(u,man,u.v[si]):optional<Ref>(); exc(u,"after misuse"); if(So&&S2&&!ref_same(D->exact,*So,*S2)) violate("misuse-argument","%s: argument was {%s}, is now {%s}",w.c_str(),ref_str(*So).c_str(),ref_str(*S2).c_str());
  probe(u,si,r,"after misuse");
}
// ---- C13 --------------------------------------------------------------------------------------
void Run::chain(Uni& u,const Op& op){
  Rng r(op.seed); const Dom* D=u.d; ap_manager_t* man=u.man; int id=gc.intdim,rd=gc.realdim,n=id+rd; if(n==0||n>4) return; bool real=id==0; Slot S; S.id=id; S.rd=rd; GenCfg g=cfg_for(S); g.itvpct=0;
  struct Own{ ap_manager_t* m; vector<ap_abstract0_t*> v; ~Own(){ for(auto x:v) if(x) ap_abstract0_free(m,x); } } own{man,{nullptr,nullptr,nullptr}}; own.v.reserve(64); ap_abstract0_t*&X=own.v[0]; ap_abstract0_t*&Y=own.v[1]; ap_abstract0_t*&J=own.v[2];
  string w=where(u,-1)+" widening chain";
  vector<Pt> pts_; for(int i=r.range(1,3);i-->0;) pts_.push_back(gen_pt(r,g));
  S.w=pts_; { vector<Cons> cs; for(int i=r.range(1,2*n+2);i-->0;) cs.push_back(gen_cons(r,S)); for(auto&c:cs) if(c.typ==AP_CONS_DISEQ||c.typ==AP_CONS_EQMOD) c.typ=AP_CONS_SUPEQ; if(r.p(25)) for(int i=0;i<n;i++){ Cons c; c.typ=AP_CONS_EQ; c.e.t.push_back({i,Coef(q(1))}); c.e.c=Coef(Q(-pts_[0][i])); cs.push_back(c); } auto a=mk_lincons_array(cs,n); X=ap_abstract0_of_lincons_array(man,id,rd,&a); ap_lincons0_array_clear(&a); exc(u,"of_lincons_array"); vector<Pt> keep; for(auto&p:S.w){ bool ok=true; for(auto&c:cs) if(!cons_may(c,p)) ok=false; if(ok) keep.push_back(p); } S.w=keep; }
  bool thr=D->thr&&r.p(35); vector<Cons> T; if(thr){ int k=r.range(1,3); for(int i=0;i<k;i++){ Cons c; c.e= pre(D,"box")?gen_lin(r,g,2):pre(D,"oct")?gen_lin(r,g,r.p(50)?1:2):gen_lin(r,g,r.below(3)); c.typ=r.p(35)?AP_CONS_SUP:AP_CONS_SUPEQ; if(r.p(60)) { c.e.c=Coef(q(r.range(20,400)),c.e.c.repr); } T.push_back(c); } stat("chain.thr"); }
  auto size0=[&]{ auto a=ap_abstract0_to_lincons_array(man,X); size_t s=a.size; ap_lincons0_array_clear(&a); return s; };
  long c0=0; { ap_abstract0_t* c=ap_abstract0_copy(man,X); std::swap(c,X); c0=size0(); std::swap(c,X); ap_abstract0_free(man,c); }
  long bound= pre(D,"box")?2*n+2: pre(D,"oct")?4L*n*n+2: is(D,"pkeq")?n+2: (n+2)*(c0+2*n+4); bound*=(long)T.size()+1;
  bool lim=limits&&D->poly&&r.p(40); int mode=r.below(4); long changes=0; int quiet=0; auto Sx=sys(u,man,X); exc(u,"export"); Q step=r.p(50)?q(1):q(1,2); Q amp=q(r.range(1,20));
  bool relax=r.p(30); int rdim=r.below(n); bool rneg=r.p(50);
  int maxit=bound+6; string trace;
  for(int k=1;k<=maxit&&quiet<10;k++){
    // the adversary: one point just outside some constraint, a shifted copy, or a parabola
    Pt p=S.w.empty()?gen_pt(r,g):S.w[r.below(S.w.size())]; int kind=r.p(80)?mode:r.below(4);
    if(kind==0){ int d=r.below(n); Q x=d<id?q(k):Q(amp*k); p[d]+=r.p(50)?x:Q(-x); }
    else if(kind==1){ int d=r.below(n); amp*=step; p[d]+=d<id?(r.p(50)?q(1):q(-1)):r.p(50)?amp:Q(-amp); }
    else if(kind==2){ for(int i=0;i<n;i++) p[i]= i==0?q(k): i==1?q((long)k*k): q((long)k*(i-1)); }
    else { for(int i=0;i<n;i++) if(r.p(60)){ Q x=q(r.range(-30,30)*k); p[i]+=x; } }
    if(X&&Sx&&real&&r.p(70)){ // aim outside: push along the normal of one exported constraint
      ap_abstract0_t* c=ap_abstract0_copy(man,X); auto a=ap_abstract0_to_lincons_array(man,c); ap_abstract0_free(man,c); if(a.size){ Cons cc=from_lincons(&a.p[r.below(a.size)]); Q v=cc.e.c.lo.v,nn=0; for(auto&x:cc.e.t){ v+=x.second.lo.v*p[x.first]; nn+=x.second.lo.v*x.second.lo.v; } if(nn!=0){ Q over= mode==1? Q(amp): Q(amp*k); Q t=(v+over)/nn; for(auto&x:cc.e.t) p[x.first]-=t*x.second.lo.v; } } ap_lincons0_array_clear(&a); }
    if(thr&&real&&r.p(30)){ // touch a threshold exactly
      Cons cc=T[r.below(T.size())]; bool sc=!cc.e.c.itv&&!cc.e.c.lo.inf; Q v=sc?cc.e.c.lo.v:Q(0),nn=0; for(auto&x:cc.e.t){ if(x.second.itv||x.second.lo.inf) sc=false; v+=x.second.lo.v*p[x.first]; nn+=x.second.lo.v*x.second.lo.v; } if(sc&&nn!=0){ Q t=v/nn; for(auto&x:cc.e.t) p[x.first]-=t*x.second.lo.v; stat("chain.touch"); } }
    for(auto&x:p) if(qbits(x)>300) return;
    if(D->fp){ for(size_t i=0;i<p.size();i++) if((int)i<id) p[i]=qfloor(p[i]); }
    // Y: the point alone, or joined with (a copy of) X, or X shifted
    vector<Cons> cs; for(int i=0;i<n;i++){ Cons c; c.typ=AP_CONS_EQ; c.e.t.push_back({i,Coef(q(1))}); c.e.c=Coef(Q(-p[i])); cs.push_back(c); } auto a=mk_lincons_array(cs,n); Y=ap_abstract0_of_lincons_array(man,id,rd,&a); ap_lincons0_array_clear(&a);
    exc(u,"of_lincons_array");
    bool relaxed=false; if(relax&&real){ // a slightly larger copy of X: one of the constraints that grow along one direction is relaxed
      ap_abstract0_t* c=ap_abstract0_copy(man,X); ap_abstract0_canonicalize(man,c); auto xa=ap_abstract0_to_lincons_array(man,c); ap_abstract0_free(man,c); vector<size_t> cand; for(size_t i=0;i<xa.size;i++){ Cons z=from_lincons(&xa.p[i]); if(z.typ==AP_CONS_EQMOD) continue; for(auto&x:z.e.t) if(x.first==rdim&&(x.second.lo.v<0)==rneg&&x.second.lo.v!=0) cand.push_back(i); }
      if(!cand.empty()){ size_t i=cand[r.below(cand.size())]; ap_coeff_t* cst=&xa.p[i].linexpr0->cst; Ext e0; if(cst->discr==AP_COEFF_SCALAR&&scalar_get(cst->val.scalar,e0)&&!e0.inf){ scalar_set(cst->val.scalar,Ext(Q(e0.v+(D->fp?q(1):amp))),R_MPQ); if(xa.p[i].constyp==AP_CONS_EQ) xa.p[i].constyp=AP_CONS_SUPEQ; ap_abstract0_free(man,Y); Y=ap_abstract0_of_lincons_array(man,id,rd,&xa); stat("chain.relax"); relaxed=true; } } ap_lincons0_array_clear(&xa); clear_exc(man); }
    Rng mr(op.seed+k*77); if(u.maint&&mr.p(u.maint)){ int c=mr.range(1,3); while(c--) maint(u,man,mr.p(60)?X:Y,mr); exc(u,"upkeep"); }
    if(lim&&r.p(40)) pk_set_limits(man,r.p(50)?1:0,r.p(60)?(size_t)r.range(4,30):0);
    J=ap_abstract0_join(man,false,X,Y);
    if(u.maint&&mr.p(u.maint)){ int c=mr.range(1,2); while(c--) maint(u,man,mr.p(50)?X:J,mr); }
    ap_abstract0_t* W; if(thr){ auto ta=mk_lincons_array(T,n); W=ap_abstract0_widening_threshold(man,X,J,&ta); ap_lincons0_array_clear(&ta); } else W=ap_abstract0_widening(man,X,J);
    own.v.push_back(W); if(lim) pk_set_limits(man,0,0);
    bool hit=false; for(auto&e:take_exc(man)){ if(lim&&(e.exn==AP_EXC_OVERFLOW||e.exn==AP_EXC_OUT_OF_SPACE)){ hit=true; stat("fault.limit"); } else if(e.exn!=AP_EXC_NOT_IMPLEMENTED) violate("exc-unexpected","%s: step %d raised %s in %s",w.c_str(),k,ap_name_of_exception[e.exn],ap_name_of_funid[e.funid]); }
    stat("chain.step"); stat("op.widen"); bool changed=false;
    auto Sw=sys(u,man,W); auto Sj=real?sys(u,man,J):optional<Ref>(); auto Sy=real?sys(u,man,Y):optional<Ref>(); exc(u,"export");
    if(!relaxed) S.w.push_back(p); if(S.w.size()>7) S.w.erase(S.w.begin()+r.below(S.w.size()-1));
    { vector<Pt> ww=S.w; if(D->ints||!D->convex) ww={p}; probe_value(u,man,W,S.w,id,rd,r,w+" step "+std::to_string(k),1); exc(u,"query"); }
    if(Sw&&Sx){
      if(real&&!ref_leq(*Sx,*Sw)) violate("widening-not-upper","%s step %d: left argument {%s} is not in the widening {%s}",w.c_str(),k,ref_str(*Sx).c_str(),ref_str(*Sw).c_str());
      if(real&&Sj&&!ref_leq(*Sj,*Sw)) violate("widening-not-upper","%s step %d: right argument {%s} is not in the widening {%s}",w.c_str(),k,ref_str(*Sj).c_str(),ref_str(*Sw).c_str());
      changed=!ref_eq(*Sx,*Sw);
      if(thr&&!hit&&real&&Sj) for(auto c:T){ if(c.typ==AP_CONS_SUP&&is(D,"polka")) continue; /* known finding of C14: loose polyhedra do not decide strict satisfaction */ Ref t=ref_univ(n); ref_add(t,{c},false); if(ref_leq(*Sj,t)){ stat("chain.kept"); if(c.typ==AP_CONS_SUP&&!is(D,"polkaS")&&!is(D,"pplS")){ c.typ=AP_CONS_SUPEQ; t=ref_univ(n); ref_add(t,{c},false); } if(!ref_leq(*Sw,t)&&complete_for(D,c.e)&&!is(D,"pkeq")) violate("threshold-lost","%s step %d: threshold %s holds for {%s} but not for the widening {%s}",w.c_str(),k,conss(c).c_str(),ref_str(*Sj).c_str(),ref_str(*Sw).c_str()); } }
    }
    trace+=changed?'+':'.'; if(changed){ changes++; quiet=0; stat("chain.change"); } else quiet++;
    if(changes>bound) violate("no-settle","%s: %ld strict changes, more than %ld are impossible for %d dimensions (%s)",w.c_str(),changes,bound,n,trace.c_str());
    own.v.pop_back(); ap_abstract0_free(man,Y); Y=nullptr; ap_abstract0_free(man,J); J=nullptr; 
    if(r.p(30)){ ap_abstract0_t* c=ap_abstract0_copy(man,W); ap_abstract0_free(man,W); W=c; }
    ap_abstract0_free(man,X); X=W; Sx=Sw; if(Sx&&real&&ref_univ_p(*Sx)) break;
  }
  LOG("chain changes=%ld %s",changes,trace.c_str()); stat("chain"); { string b="chainlen."+std::to_string(changes>20?20:changes); stat(b); }
}
