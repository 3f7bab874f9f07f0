// The C++ classes (apronxx) driven through the same histories as the C interface (C17).
// abstract0, manager... are thin wrappers around the C values: the handles of a universe are used
// in place as C++ objects, so every later check of the history sees what the C++ call left there.
#include "hist.hpp"
#include "apronxx.hh"
#include <sstream>
using namespace apron;
static abstract0& W(ap_abstract0_t*& p){ static_assert(sizeof(abstract0)==sizeof(void*),"abstract0 is a handle"); return reinterpret_cast<abstract0&>(p); }
struct NullInter:abstract0{ static const abstract0& n(){ return null; } };
struct mgr_:manager{ mgr_(ap_manager_t* m):manager(m){} };
static manager mgr(ap_manager_t* m){ return mgr_(ap_manager_copy(m)); }
// manager objects on their own: copies, assignments and self-assignments of the last reference
static void cxx_managers(ap_manager_t* man,const Dom* D,Rng& r,const string& w){
  stat("cxx.manager"); manager a=mgr_(D->mk()),b(a),c=mgr(man); string lib=a.get_library(),ver=a.get_version(); if(lib!=ap_manager_get_library(man)) violate("cxx-differ","%s: library name %s of a fresh manager",w.c_str(),lib.c_str());
  a.get_funopt(AP_FUNID_MEET).algorithm=7; vector<manager> pool{a,b,c}; int sole=0;
  for(int i=r.range(2,8);i-->0;) switch(r.below(6)){
    case 0: { manager& x=a; a=x; break; } case 1: a=b; break; case 2: b=a; break; case 3: { manager& x=b; b=x; break; } case 4: { pool.clear(); sole=1; manager t(b); b=t; break; } default: { a=mgr_(D->mk()); a.get_funopt(AP_FUNID_MEET).algorithm=7; manager& x=a; a=x; break; } }
  if(a.get_library()!=lib||b.get_library()!=lib||a.get_version()!=ver||a.get_funopt(AP_FUNID_MEET).algorithm!=7||b.get_funopt(AP_FUNID_MEET).algorithm!=7||c.get_funopt(AP_FUNID_MEET).algorithm!=ap_manager_get_funopt(man,AP_FUNID_MEET).algorithm) violate("cxx-differ","%s: a copied or assigned manager lost its identity",w.c_str());
  a.get_funopt(AP_FUNID_MEET).algorithm=0; for(int f:{0,(int)AP_FUNID_SIZE}) { bool t=false; try { a.get_funopt((ap_funid_t)f); } catch(std::out_of_range&){ t=true; } if(!t) violate("cxx-exception","%s: get_funopt(%d) returns",w.c_str(),f); }
  { abstract0 x(a,1,1,top()); manager y=x.get_manager(); a=c; b=c; if(!x.is_top(y)||y.get_library()!=lib) violate("cxx-differ","%s: a value lost its manager",w.c_str()); } }
// ---- arguments through the C++ classes ----------------------------------------------------------
static scalar sc_of(const Ext& e,int repr){
  if(e.inf) return scalar(infty(e.inf));
  if(repr==R_DBL){ double d=e.v.get_d(); if(Q(d)==e.v) return scalar(d); }
  if(repr==R_MPFR){ mpfr_t f; mpfr_init2(f,200); if(mpfr_set_q(f,e.v.get_mpq_t(),MPFR_RNDN)==0){ scalar s(f); mpfr_clear(f); return s; } mpfr_clear(f); }
  return scalar(e.v);
}
static coeff co_of(const Coef& k,Rng& r){
  if(!k.itv){ scalar s=sc_of(k.lo,k.repr); switch(r.below(3)){ case 0: return coeff(s); case 1: { coeff c; c=s; return c; } default: { coeff c(3.0,4.0); c.set(s); return c; } } }
  scalar a=sc_of(k.lo,k.repr),b=sc_of(k.hi,k.repr);
  switch(r.below(3)){ case 0: return coeff(a,b); case 1: return coeff(interval(a,b)); default: { coeff c(7); c.set(a,b); return c; } }
}
static linexpr0 le_of(const LinE& e,size_t dims,Rng& r){
  switch(r.below(4)){
  case 0: { linexpr0 l(e.sparse?AP_LINEXPR_SPARSE:AP_LINEXPR_DENSE,e.sparse?0:dims); for(auto&x:e.t) l[x.first]=co_of(x.second,r); l.get_cst()=co_of(e.c,r); return l; }
  case 1: { vector<coeff> v(dims); for(auto&x:e.t) v[x.first]=co_of(x.second,r); return linexpr0(v,co_of(e.c,r),e.sparse?AP_LINEXPR_SPARSE:AP_LINEXPR_DENSE); }
  case 2: if(e.sparse){ vector<coeff> v; vector<ap_dim_t> d; for(auto&x:e.t){ v.push_back(co_of(x.second,r)); d.push_back(x.first); } v.push_back(coeff()); d.push_back(0); return linexpr0(v.size()-1,v.data(),d.data(),co_of(e.c,r)); } /* fall through */
  default: { linexpr0 l(AP_LINEXPR_DENSE,dims),m; for(auto&x:e.t) l[x.first]=co_of(x.second,r); l.get_cst()=co_of(e.c,r); if(r.p(50)){ m=l; return m; } linexpr0 c(l); if(r.p(50)) c.resize(dims); return c; }
  }
}
static lincons0 lc_of(const Cons& c,size_t dims,Rng& r){
  linexpr0 l=le_of(c.e,dims,r); if(c.typ==AP_CONS_EQMOD) return lincons0((ap_constyp_t)c.typ,l,sc_of(Ext(c.mod),R_MPQ));
  if(r.p(50)) return lincons0((ap_constyp_t)c.typ,l); lincons0 x; x.get_constyp()=(ap_constyp_t)c.typ; x.set_linexpr(l); return x;
}
static lincons0_array lca_of(const vector<Cons>& v,size_t dims,Rng& r){
  if(r.p(50)){ vector<lincons0> t; for(auto&c:v) t.push_back(lc_of(c,dims,r)); return lincons0_array(t); }
  lincons0_array a(v.size()); for(size_t i=0;i<v.size();i++) a[i]=lc_of(v[i],dims,r); if(r.p(40)){ a.resize(v.size()+1); a.resize(v.size()); } if(r.p(30)){ lincons0_array b(1); b=a; return b; } return a;
}
// a builder only lives inside one full expression: every node is turned into a texpr0 at once
static texpr0 tx_of(const TexE& e,Rng& r){
  typedef texpr0::builder B;
  if(e.kind==0) return texpr0(B(co_of(e.c,r)));
  if(e.kind==1) return texpr0(B(dim(e.dim)));
  texpr0 a=tx_of(*e.a,r); auto rt=(ap_texpr_rtype_t)e.rt; auto rd=(ap_texpr_rdir_t)e.rd; bool nat= rt==AP_RTYPE_REAL&&rd==AP_RDIR_NEAREST&&r.p(60);
  if(e.b){ texpr0 b=tx_of(*e.b,r);
    switch(e.op){
    case AP_TEXPR_ADD: return texpr0(nat?B(a)+B(b):add(a,b,rt,rd)); case AP_TEXPR_SUB: return texpr0(nat?B(a)-B(b):sub(a,b,rt,rd)); case AP_TEXPR_MUL: return texpr0(nat?B(a)*B(b):mul(a,b,rt,rd));
    case AP_TEXPR_DIV: return texpr0(nat?B(a)/B(b):div(a,b,rt,rd)); case AP_TEXPR_MOD: return texpr0(nat?B(a)%B(b):mod(a,b,rt,rd)); case AP_TEXPR_POW: return texpr0(nat?(B(a)^B(b)):pow(a,b,rt,rd));
    } return texpr0(B((ap_texpr_op_t)e.op,a,b,rt,rd)); }
  switch(e.op){ case AP_TEXPR_NEG: if(nat) return texpr0(-B(a)); if(r.p(50)) return texpr0(neg(a,rt,rd)); break; case AP_TEXPR_CAST: if(rt==AP_RTYPE_INT&&r.p(50)) switch(rd){ case AP_RDIR_DOWN: return texpr0(floor(a)); case AP_RDIR_UP: return texpr0(ceil(a)); case AP_RDIR_ZERO: return texpr0(trunc(a)); default: break; } if(r.p(50)) return texpr0(cast(a,rt,rd)); break; case AP_TEXPR_SQRT: if(r.p(50)) return texpr0(sqrt(a,rt,rd)); break; }
  return texpr0(B((ap_texpr_op_t)e.op,a,rt,rd));
}
static tcons0 tc_of(int typ,const TexE& e,Rng& r){
  if(r.p(40)){ typedef texpr0::builder B; texpr0 t0=tx_of(e,r); B t(t0),z(0); switch(typ){ case AP_CONS_SUPEQ: return r.p(50)?t>=z:z<=t; case AP_CONS_SUP: return r.p(50)?t>z:z<t; case AP_CONS_EQ: return t==z; case AP_CONS_DISEQ: return t!=z; } }
  if(r.p(50)) return tcons0((ap_constyp_t)typ,tx_of(e,r)); tcons0 s; s.get_constyp()=(ap_constyp_t)typ; s.set_texpr(tx_of(e,r)); return s;
}
static texpr0 te_of(const TexE& e,Rng& r){ texpr0 t(tx_of(e,r)); if(r.p(30)){ texpr0 u(t); return u; } if(r.p(20)){ texpr0 u(texpr0::builder(1)); u=t; return u; } return t; }
static interval_array box_of(const Args& A,int n,Rng& r){
  interval_array b(n); for(int i=0;i<n;i++){ scalar lo=sc_of(A.box[i].first,A.boxc[i].repr),hi=sc_of(A.box[i].second,A.boxc[i].repr); if(r.p(50)) b[i]=interval(lo,hi); else { b[i].get_inf()=lo; b[i].get_sup()=hi; } }
  if(r.p(30)){ vector<interval> v=b; interval_array c(v); return c; } return b;
}
// ---- exceptions ---------------------------------------------------------------------------------
static int guard(std::function<void()> f,string& what){
  try { f(); return AP_EXC_NONE; }
  catch(timeout& e){ what=e.what(); return AP_EXC_TIMEOUT; } catch(not_implemented& e){ what=e.what(); return AP_EXC_NOT_IMPLEMENTED; }
  catch(std::length_error& e){ what=e.what(); return AP_EXC_OUT_OF_SPACE; } catch(std::overflow_error& e){ what=e.what(); return AP_EXC_OVERFLOW; }
  catch(std::invalid_argument& e){ what=e.what(); return AP_EXC_INVALID_ARGUMENT; }
  catch(Violation&){ throw; } catch(Discard&){ throw; }
  catch(std::exception& e){ violate("cxx-exception","a C++ call throws %s",e.what()); }
}
static void nolog(ap_manager_t* m,const char* what){ if(m->result.exclog){ int k=m->result.exclog->exn; violate("cxx-swallowed","the C++ %s returned normally although the library recorded %s",what,ap_name_of_exception[k]); } }
static string vals(ap_manager_t* m,ap_abstract0_t* v){ ap_abstract0_t* c=ap_abstract0_copy(m,v); ap_dimension_t d=ap_abstract0_dimension(m,c); string s=std::to_string(d.intdim)+"/"+std::to_string(d.realdim)+outstr([&](FILE*f){ ap_abstract0_fprint(f,m,c,NULL); }); ap_abstract0_free(m,c); return s; }
// ---- transformers -------------------------------------------------------------------------------
ap_abstract0_t* Run::cxx_perform(Uni& u,ap_manager_t* man,const Op& op,bool destr,const vector<ap_abstract0_t*>& x0,const Args& A,const vector<Slot>& ms){
  Rng r(op.seed^0xc17); manager m=mgr(man); int n=ms.empty()?0:ms[0].n(); size_t id=ms.empty()?0:ms[0].id, rd=ms.empty()?0:ms[0].rd;
  vector<ap_abstract0_t*> x=x0; ap_dim_t dims[64]; for(size_t i=0;i<A.dims.size();i++) dims[i]=A.dims[i]; vector<ap_dim_t> dv(dims,dims+A.dims.size()); size_t nd=dv.size();
  // the destination of a functional call: an unrelated value, or one of the operands (a copy of it)
  int alias=-1; ap_abstract0_t* dst=nullptr;
  if(!destr&&op.k>O_CONS){ if(!x.empty()&&r.p(30)){ alias=r.below(x.size()); x[alias]=ap_abstract0_copy(man,x[alias]); } else { size_t i=r.below(3),q=r.below(3); if(!i&&!q) q=1; dst=r.p(50)?ap_abstract0_top(man,i,q):ap_abstract0_bottom(man,i,q); } }
  else if(op.k<=O_CONS) dst=ap_abstract0_bottom(man,id,rd);
  ap_abstract0_t*& D= alias>=0? x[alias]:dst; string what; bool onman= man==u.man&&r.p(60)&&destr; // operators use the value's own manager
  string before= destr? string(): vals(man,D); ap_abstract0_t* dptr=D; clear_exc(man);
  const abstract0* I= A.dest>=0? &W(x[1]) : &NullInter::n();
  stat("cxx.call"); if(alias>=0) stat("cxx.alias");
  int k=guard([&]{
    switch(op.k){
    case O_TOP: if(r.p(50)) W(D).set(m,top(),id,rd); else W(D)=top(); break;
    case O_BOTTOM: if(r.p(50)) W(D).set(m,bottom(),id,rd); else W(D)=bottom(); break;
    case O_BOX: { interval_array b=box_of(A,n,r); if(r.p(50)) W(D).set(m,b); else if(r.p(50)) W(D)=b; else { abstract0 t(m,id,rd,b); W(D)=t; } break; }
    case O_CONS: { lincons0_array a=lca_of(A.cons,n,r); if(r.p(50)) W(D).set(m,a); else if(r.p(50)) W(D)=a; else { abstract0 t(m,id,rd,a); W(D)=t; } break; }
    case O_COPY: if(r.p(50)) W(D)=W(x[0]); else { abstract0 t(m,W(x[0])),t2(t); W(D).set(m,t2); } break;
    case O_MEET: case O_JOIN: { bool j=op.k==O_JOIN; if(destr){ if(onman){ if(j) W(x[0])+=W(x[1]); else W(x[0])*=W(x[1]); } else if(j) W(x[0]).join(m,W(x[1])); else W(x[0]).meet(m,W(x[1])); } else if(j) join(m,W(D),W(x[0]),W(x[1])); else meet(m,W(D),W(x[0]),W(x[1])); break; }
    case O_MEETARR: case O_JOINARR: { bool j=op.k==O_JOINARR; vector<const abstract0*> p; for(auto&y:x) p.push_back(&W(y)); if(r.p(50)){ if(j) join(m,W(D),p); else meet(m,W(D),p); } else { if(j) join(m,W(D),p.size(),p.data()); else meet(m,W(D),p.size(),p.data()); } break; }
    case O_MEETLIN: { lincons0_array a=lca_of(A.cons,n,r); if(destr){ if(onman) W(x[0])*=a; else W(x[0]).meet(m,a); } else meet(m,W(D),W(x[0]),a); break; }
    case O_MEETTC: { tcons0_array a(A.tex.size()); for(size_t i=0;i<A.tex.size();i++)a[i]=tc_of(A.tcops[i],A.tex[i],r); if(r.p(30)){ vector<tcons0> v=a; a=v; } if(destr){ if(onman) W(x[0])*=a; else W(x[0]).meet(m,a); } else meet(m,W(D),W(x[0]),a); break; }
    case O_ADDRAY: { vector<generator0> v; for(auto&g:A.gens){ if(r.p(50)) v.push_back(generator0((ap_gentyp_t)g.first,le_of(g.second,n,r))); else { generator0 t; t.get_gentyp()=(ap_gentyp_t)g.first; t.set_linexpr(le_of(g.second,n,r)); v.push_back(t); } } generator0_array a(v); if(r.p(30)){ generator0_array b(0); b=a; b.resize(a.size()); a=b; } if(destr){ if(onman) W(x[0])+=a; else W(x[0]).add_rays(m,a); } else add_rays(m,W(D),W(x[0]),a); break; }
    case O_ASSIGN: case O_SUBST: { bool s=op.k==O_SUBST; vector<linexpr0> v; v.reserve(nd); vector<const linexpr0*> p; for(auto&e:A.lin) v.push_back(le_of(e,n,r)); for(auto&e:v) p.push_back(&e); int f=nd==1?r.below(3):1+r.below(2);
      if(destr){ abstract0& X=W(x[0]); if(f==0){ if(s) X.substitute(m,dims[0],v[0],*I); else X.assign(m,dims[0],v[0],*I); } else if(f==1){ if(s) X.substitute(m,nd,dims,p.data(),*I); else X.assign(m,nd,dims,p.data(),*I); } else { if(s) X.substitute(m,dv,p,*I); else X.assign(m,dv,p,*I); } }
      else { abstract0& X=W(x[0]); if(f==0){ if(s) substitute(m,W(D),X,dims[0],v[0],*I); else assign(m,W(D),X,dims[0],v[0],*I); } else if(f==1){ if(s) substitute(m,W(D),X,nd,dims,p.data(),*I); else assign(m,W(D),X,nd,dims,p.data(),*I); } else { if(s) substitute(m,W(D),X,dv,p,*I); else assign(m,W(D),X,dv,p,*I); } } break; }
    case O_ASSIGNT: case O_SUBSTT: { bool s=op.k==O_SUBSTT; vector<texpr0> v; v.reserve(nd); vector<const texpr0*> p; for(auto&e:A.tex) v.push_back(te_of(e,r)); for(auto&e:v) p.push_back(&e); int f=nd==1?r.below(3):1+r.below(2);
      if(destr){ abstract0& X=W(x[0]); if(f==0){ if(s) X.substitute(m,dims[0],v[0],*I); else X.assign(m,dims[0],v[0],*I); } else if(f==1){ if(s) X.substitute(m,nd,dims,p.data(),*I); else X.assign(m,nd,dims,p.data(),*I); } else { if(s) X.substitute(m,dv,p,*I); else X.assign(m,dv,p,*I); } }
      else { abstract0& X=W(x[0]); if(f==0){ if(s) substitute(m,W(D),X,dims[0],v[0],*I); else assign(m,W(D),X,dims[0],v[0],*I); } else if(f==1){ if(s) substitute(m,W(D),X,nd,dims,p.data(),*I); else assign(m,W(D),X,nd,dims,p.data(),*I); } else { if(s) substitute(m,W(D),X,dv,p,*I); else assign(m,W(D),X,dv,p,*I); } } break; }
    case O_FORGET: { int f=nd==1?r.below(3):1+r.below(2); abstract0& X=W(x[0]); bool pj=A.project; if(destr){ if(f==0) X.forget(m,dims[0],pj); else if(f==1) X.forget(m,nd,dims,pj); else X.forget(m,dv,pj); } else { if(f==0) forget(m,W(D),X,dims[0],pj); else if(f==1) forget(m,W(D),X,nd,dims,pj); else forget(m,W(D),X,dv,pj); } break; }
    case O_ADDDIM: case O_REMDIM: { dimchange c(A.addi,A.addr,dv); if(r.p(40)){ dimchange c2; c2=c; c=c2; } abstract0& X=W(x[0]); bool add=op.k==O_ADDDIM; if(destr){ if(add) X.add_dimensions(m,c,A.project); else X.remove_dimensions(m,c); } else { if(add) add_dimensions(m,W(D),X,c,A.project); else remove_dimensions(m,W(D),X,c); } break; }
    case O_PERM: { vector<ap_dim_t> pv(A.perm.begin(),A.perm.end()); dimperm p(pv); if(r.p(30)){ dimperm i=-p; i.invert(); p=i; } if(r.p(30)){ dimperm id_{apron::id(pv.size())}; p=dimperm(p,id_); } abstract0& X=W(x[0]); if(destr) X.permute_dimensions(m,p); else permute_dimensions(m,W(D),X,p); break; }
    case O_EXPAND: if(destr) W(x[0]).expand(m,dims[0],A.n); else expand(m,W(D),W(x[0]),dims[0],A.n); break;
    case O_FOLD: if(destr){ if(r.p(50)) W(x[0]).fold(m,nd,dims); else W(x[0]).fold(m,dv); } else if(r.p(50)) fold(m,W(D),W(x[0]),nd,dims); else fold(m,W(D),W(x[0]),dv); break;
    case O_WIDEN: case O_WIDENTH: { ap_abstract0_t* j=ap_abstract0_join(man,false,x[0],x[1]); clear_exc(man); struct G{ ap_manager_t* m; ap_abstract0_t* j; ~G(){ if(j) ap_abstract0_free(m,j); } } g{man,j}; if(op.k==O_WIDEN) widening(m,W(D),W(x[0]),W(g.j)); else { lincons0_array a=lca_of(A.cons,n,r); widening(m,W(D),W(x[0]),W(g.j),a); } break; }
    case O_CLOSURE: if(destr) W(x[0]).closure(m); else closure(m,W(D),W(x[0])); break;
    } },what);
  if(k==AP_EXC_NONE){ nolog(man,OPN[op.k]); return destr? x[0] : (alias>=0? x[alias]:dst); }
  stat("cxx.thrown"); stat(string("cxx.")+ap_name_of_exception[k]);
  if(man->result.exclog) violate("cxx-exception","%s %s: after the C++ exception the manager still holds a recorded one",where(u,-1).c_str(),OPN[op.k]);
  if(destr){ ap_manager_raise_exception(man,(ap_exc_t)k,AP_FUNID_UNKNOWN,what.c_str()); return x[0]; }
  if(D!=dptr||(!limits&&vals(man,D)!=before)) violate("cxx-destination","%s %s: the C++ call threw (%s) but changed its destination",where(u,-1).c_str(),OPN[op.k],what.c_str());
  clear_exc(man); ap_abstract0_free(man,D);
  ap_abstract0_t* res=perform_c(u,man,op,false,x0,A,ms); // what the C interface gives instead
  bool same=false; for(ap_exclog_t* e=man->result.exclog;e;e=e->tail) if(e->exn==k) same=true;
  if(!same){ if(limits) ap_manager_raise_exception(man,(ap_exc_t)k,AP_FUNID_UNKNOWN,what.c_str()); else violate("cxx-exception","%s %s: the C++ call threw %s (%s), the same C call records nothing of the kind",where(u,-1).c_str(),OPN[op.k],ap_name_of_exception[k],what.c_str()); }
  return res;
}

// ---- queries, exports, copies, bytes, streams, expressions: C++ and C on equal copies --------------
static string lcs(const ap_lincons0_array_t* a){ return outstr([&](FILE*f){ ap_lincons0_array_fprint(f,(ap_lincons0_array_t*)a,NULL); }); }
static string gns(const ap_generator0_array_t* a){ return outstr([&](FILE*f){ ap_generator0_array_fprint(f,(ap_generator0_array_t*)a,NULL); }); }
static string tcs(const ap_tcons0_array_t* a){ return outstr([&](FILE*f){ ap_tcons0_array_fprint(f,(ap_tcons0_array_t*)a,NULL); }); }
static string ivs(const ap_interval_t* i){ return outstr([&](FILE*f){ ap_interval_fprint(f,(ap_interval_t*)i); }); }
static string les(const ap_linexpr0_t* e){ return outstr([&](FILE*f){ fprintf(f,"%d/%d ",e->discr,(int)e->size); ap_linexpr0_fprint(f,(ap_linexpr0_t*)e,NULL); }); }
static string txs(const ap_texpr0_t* e){ return outstr([&](FILE*f){ ap_texpr0_fprint(f,(ap_texpr0_t*)e,NULL); }); }
void Run::cxx_burst(Uni& u,int si,Rng& r){
  const Slot& s=M[si]; int n=s.n(); ap_manager_t* man=u.man; manager m=mgr(man); GenCfg g=cfg_for(s); int sj=live_like(r.below(M.size()),s); const Dom* D=u.d; clear_exc(man); if(r.p(12)) cxx_managers(man,D,r,where(u,si));
  int nb=r.range(1,5); while(nb-->0){
    int k=r.below(30); stat("cxx.query"); ap_abstract0_t *a=ap_abstract0_copy(man,u.v[si]),*b=ap_abstract0_copy(man,u.v[si]),*ya=ap_abstract0_copy(man,u.v[sj]),*yb=ap_abstract0_copy(man,u.v[sj]); clear_exc(man);
    string C,X,what; uint64_t sd=r.next(); const char* nm=""; abstract0 &B=W(b),&Y=W(yb); int xk=0; vector<int> ck;
    auto both=[&](const char* name,std::function<string(Rng&)> fc,std::function<string(Rng&)> fx){ nm=name; { Rng q(sd); C=fc(q); for(ap_exclog_t* e=man->result.exclog;e;e=e->tail) ck.push_back(e->exn); clear_exc(man); } { Rng q(sd); xk=guard([&]{ X=fx(q); },what); if(!xk) nolog(man,name); } };
    auto bs=[](bool v){ return string(v?"true":"false"); }; string cn= string(D->name).substr(0,5)=="polka"||D->refp?"":""; (void)cn;
    auto lin=[&](Rng& q){ GenCfg h=g; h.itvpct=gc.itvpct; return gen_lin(q,h,q.below(3)); };
    auto con=[&](Rng& q){ Cons c; c.e=tight_lin(q,s,q.below(3)); c.typ=q.p(60)?AP_CONS_SUPEQ:q.p(60)?AP_CONS_EQ:AP_CONS_SUP; return c; };
    switch(k){
    case 0: both("is_bottom",[&](Rng&){ return bs(ap_abstract0_is_bottom(man,a)); },[&](Rng&){ return bs(B.is_bottom(m)); }); break;
    case 1: both("is_top",[&](Rng&){ return bs(ap_abstract0_is_top(man,a)); },[&](Rng&){ return bs(B.is_top(m)); }); break;
    case 2: both("is_eq",[&](Rng&){ return bs(ap_abstract0_is_eq(man,a,ya)); },[&](Rng& q){ return bs(q.p(40)?B.is_eq(m,Y):q.p(50)?B==Y:!(B!=Y)); }); break;
    case 3: both("is_leq",[&](Rng&){ return bs(ap_abstract0_is_leq(man,a,ya)); },[&](Rng& q){ return bs(q.p(40)?B.is_leq(m,Y):q.p(50)?B<=Y:Y>=B); }); break;
    case 4: both("strict order",[&](Rng&){ return bs(ap_abstract0_is_leq(man,a,ya)&&!ap_abstract0_is_eq(man,a,ya)); },[&](Rng& q){ return bs(q.p(50)?B<Y:Y>B); }); break;
    case 5: both("sat lincons",[&](Rng& q){ Cons c=con(q); auto l=mk_lincons(c,n); bool v=ap_abstract0_sat_lincons(man,a,&l); ap_lincons0_clear(&l); return bs(v); },[&](Rng& q){ Cons c=con(q); return bs(B.sat(m,lc_of(c,n,q))); }); break;
    case 6: both("sat tcons",[&](Rng& q){ Cons c=con(q); auto t=ap_tcons0_make((ap_constyp_t)c.typ,mk_texpr(tex_of_lin(c.e)),NULL); bool v=ap_abstract0_sat_tcons(man,a,&t); ap_tcons0_clear(&t); return bs(v); },[&](Rng& q){ Cons c=con(q); return bs(B.sat(m,tc_of(c.typ,tex_of_lin(c.e),q))); }); break;
    case 7: if(n){ int d=r.below(n); Ext lo(gen_q(r,g)),hi(Q(lo.v+abs(gen_q(r,g)))); int rp=r.pick(g.reprs); both("sat interval",[&](Rng&){ auto i=mk_interval(lo,hi,rp); bool v=ap_abstract0_sat_interval(man,a,d,i); ap_interval_free(i); return bs(v); },[&](Rng&){ return bs(B.sat(m,(ap_dim_t)d,interval(sc_of(lo,rp),sc_of(hi,rp)))); }); } break;
    case 8: if(n){ int d=r.below(n); both("is_dimension_unconstrained",[&](Rng&){ return bs(ap_abstract0_is_dimension_unconstrained(man,a,d)); },[&](Rng&){ return bs(B.is_dimension_unconstrained(m,d)); }); } break;
    case 9: both("bound linexpr",[&](Rng& q){ auto l=mk_linexpr(lin(q),n); auto i=ap_abstract0_bound_linexpr(man,a,l); ap_linexpr0_free(l); string t=ivs(i); ap_interval_free(i); return t; },[&](Rng& q){ LinE e=lin(q); interval i=B.bound(m,le_of(e,n,q)); return ivs(i.get_ap_interval_t()); }); break;
    case 10: both("bound texpr",[&](Rng& q){ TexE e=gen_tex(q,g,3); auto t=mk_texpr(e); auto i=ap_abstract0_bound_texpr(man,a,t); ap_texpr0_free(t); string o=ivs(i); ap_interval_free(i); return o; },[&](Rng& q){ TexE e=gen_tex(q,g,3); interval i=B.bound(m,te_of(e,q)); return ivs(i.get_ap_interval_t()); }); break;
    case 11: if(n){ int d=r.below(n); both("bound dimension",[&](Rng&){ auto i=ap_abstract0_bound_dimension(man,a,d); string o=ivs(i); ap_interval_free(i); return o; },[&](Rng&){ interval i=B.bound(m,(ap_dim_t)d); return ivs(i.get_ap_interval_t()); }); } break;
    case 12: both("to_box",[&](Rng&){ auto t=ap_abstract0_to_box(man,a); string o; for(int i=0;i<n;i++) o+=ivs(t[i])+","; ap_interval_array_free(t,n); return o; },[&](Rng&){ interval_array t=B.to_box(m); string o; if((int)t.size()!=n) violate("cxx-differ","to_box returns %d intervals for %d dimensions",(int)t.size(),n); for(int i=0;i<n;i++) o+=ivs(t[i].get_ap_interval_t())+","; return o; }); break;
    case 13: case 14: both("to_lincons_array",[&](Rng&){ auto t=ap_abstract0_to_lincons_array(man,a); string o=lcs(&t); ap_lincons0_array_clear(&t); return o; },[&](Rng& q){ lincons0_array t=B.to_lincons_array(m); if(q.p(30)){ lincons0_array c(t); t=c; } if(q.p(20)){ vector<lincons0> v=t; t=v; } return lcs(t.get_ap_lincons0_array_t()); }); break;
    case 15: both("to_tcons_array",[&](Rng&){ auto t=ap_abstract0_to_tcons_array(man,a); string o=tcs(&t); ap_tcons0_array_clear(&t); return o; },[&](Rng& q){ tcons0_array t=B.to_tcons_array(m); if(q.p(30)){ tcons0_array c(t); t=c; } return tcs(t.get_ap_tcons0_array_t()); }); break;
    case 16: both("to_generator_array",[&](Rng&){ auto t=ap_abstract0_to_generator_array(man,a); string o=gns(&t); ap_generator0_array_clear(&t); return o; },[&](Rng& q){ generator0_array t=B.to_generator_array(m); if(q.p(30)){ generator0_array c(t); t=c; } return gns(t.get_ap_generator0_array_t()); }); break;
    case 17: both("get_dimension",[&](Rng&){ return std::to_string(s.id)+","+std::to_string(s.rd); },[&](Rng&){ auto d=B.get_dimension(m); return std::to_string(d.intdim)+","+std::to_string(d.realdim); }); break;
    case 18: both("size",[&](Rng&){ return std::to_string(ap_abstract0_size(man,a)); },[&](Rng&){ return std::to_string(B.size(m)); }); break;
    case 19: both("print",[&](Rng&){ return outstr([&](FILE*f){ ap_abstract0_fprint(f,man,a,NULL); }); },[&](Rng&){ return outstr([&](FILE*f){ B.print(m,NULL,f); }); }); break;
    case 20: both("serialize",[&](Rng&){ auto t=ap_abstract0_serialize_raw(man,a); string o; if(t.ptr){ o.assign((char*)t.ptr,t.size); ::free(t.ptr); } return o; },[&](Rng&){ std::unique_ptr<string> p(B.serialize(m)); string o=*p; if(!D->ser) return o; abstract0 z(m,1,1,top()); size_t eaten=0; string padded=o+"tail"; deserialize(m,z,padded,&eaten); if(eaten!=o.size()) violate("cxx-differ","deserialize consumed %d bytes of %d",(int)eaten,(int)o.size()); if(!(z==B)) violate("cxx-differ","deserialize(serialize(x)) differs from x"); return o; }); break;
    case 21: both("upkeep",[&](Rng& q){ switch(q.below(3)){ case 0: ap_abstract0_minimize(man,a); break; case 1: ap_abstract0_canonicalize(man,a); break; default: if(D->poly) ap_abstract0_approximate(man,a,q.range(-1,3)); } return string(); },[&](Rng& q){ switch(q.below(3)){ case 0: B.minimize(m); break; case 1: B.canonicalize(m); break; default: if(D->poly) B.approximate(m,q.range(-1,3)); } return string(); }); break;
    case 22: both("of_tcons",[&](Rng& q){ Cons c=con(q); ap_tcons0_array_t t=ap_tcons0_array_make(1); t.p[0]=ap_tcons0_make((ap_constyp_t)c.typ,mk_texpr(tex_of_lin(c.e)),NULL); ap_abstract0_t* z=ap_abstract0_of_tcons_array(man,s.id,s.rd,&t); ap_tcons0_array_clear(&t); string o=vals(man,z); ap_abstract0_free(man,z); return o; },
        [&](Rng& q){ Cons c=con(q); tcons0_array t(1); t[0]=tc_of(c.typ,tex_of_lin(c.e),q); if(q.p(50)){ abstract0 z(m,s.id,s.rd,t); return vals(man,z.get_ap_abstract0_t()); } abstract0 z(m,0,0,bottom()); z.set(m,t,s.id,s.rd); return vals(man,z.get_ap_abstract0_t()); }); break;
    case 23: { nm="stream"; string o1,o2; xk=guard([&]{ std::ostringstream o; o<<B<<m; o1=o.str(); std::ostringstream p; p<<W(a)<<m; o2=p.str(); },what); C=o1; X=o2; break; }
    case 24: { nm="copies"; { abstract0 p(B),q_(m,p); abstract0 t(m,2,0,bottom()); t=q_; if(r.p(50)) t.set(m,p); if(!(t==W(a))) violate("cxx-differ","%s: a C++ copy differs",where(u,si).c_str()); t=t; t*=t; manager m2(m); m2=m; if(t.get_manager().get_library()!=m.get_library()) violate("cxx-differ","library name"); } break; }
    case 25: case 26: { nm="linexpr0"; LinE e=lin(r); ap_linexpr0_t* l=mk_linexpr(e,n); linexpr0 x=le_of(e,n,r); ap_linexpr0_minimize(l); x.minimize(); string c1=les(l).substr(4),x1=les(x.get_ap_linexpr0_t()).substr(4); (void)c1; (void)x1;
        if(!ap_linexpr0_equal(l,x.get_ap_linexpr0_t())) violate("cxx-differ","%s: C++ linexpr0 %s, C %s",where(u,si).c_str(),les(x.get_ap_linexpr0_t()).c_str(),les(l).c_str());
        for(auto&t:e.t){ Ext lo,hi; coeff_bounds(x[t.first].get_ap_coeff_t(),lo,hi); if(ecmp(lo,t.second.lo)||ecmp(hi,t.second.hi)) violate("cxx-differ","%s: coefficient of x%d",where(u,si).c_str(),t.first); }
        size_t cnt=0; for(linexpr0::iterator i=x.begin();i.valid();i.next()){ Ext lo,hi; coeff_bounds(i.get_coeff().get_ap_coeff_t(),lo,hi); Ext l2=lo,h2=hi; l2=Ext(Q(0)); for(auto&t:e.t) if((ap_dim_t)t.first==i.get_dim()){ l2=t.second.lo; } if(ecmp(lo,l2)) violate("cxx-differ","%s: iterator at x%d",where(u,si).c_str(),(int)i.get_dim()); if(++cnt>1000) violate("cxx-differ","iterator does not end"); }
        if(n){ vector<ap_dim_t> dv; int ai=r.range(0,1),ar=r.range(0,2); for(int i=0;i<ai;i++) dv.push_back(r.range(0,s.id)); for(int i=0;i<ar;i++) dv.push_back(r.range(s.id,n)); std::sort(dv.begin(),dv.begin()+ai); std::sort(dv.begin()+ai,dv.end()); ap_dimchange_t* c=ap_dimchange_alloc(ai,ar); for(size_t i=0;i<dv.size();i++) c->dim[i]=dv[i]; dimchange dc(ai,ar,dv);
          ap_linexpr0_t* l2=ap_linexpr0_add_dimensions(l,c); linexpr0 x2(x,dc); if(r.p(50)){ x2=x; x2.add_dimensions(dc); } if(!ap_linexpr0_equal(l2,x2.get_ap_linexpr0_t())||!equal(x2,x2)) violate("cxx-differ","%s: linexpr0 add_dimensions",where(u,si).c_str());
          ap_dimchange_add_invert(c); dimchange inv=-dc; if(c->intdim!=inv.get_intdim()||c->realdim!=inv.get_realdim()) violate("cxx-differ","dimchange invert"); for(size_t i=0;i<dv.size();i++) if(c->dim[i]!=inv[i]) violate("cxx-differ","%s: dimchange invert",where(u,si).c_str()); ap_dimchange_free(c); ap_linexpr0_free(l2);
          ap_dimperm_t* p=ap_dimperm_alloc(n); vector<ap_dim_t> pv; for(int i=0;i<n;i++) pv.push_back(i); for(int i=n-1;i>0;i--) std::swap(pv[i],pv[r.below(i+1)]); for(int i=0;i<n;i++) p->dim[i]=pv[i]; dimperm dp(pv); ap_linexpr0_t* l3=ap_linexpr0_permute_dimensions(l,p); linexpr0 x3(x,dp); if(r.p(50)){ x3=x; x3.permute_dimensions(dp); } if(!ap_linexpr0_equal(l3,x3.get_ap_linexpr0_t())) violate("cxx-differ","%s: linexpr0 permute_dimensions",where(u,si).c_str());
          dimperm q1=dp; q1*=-dp; for(int i=0;i<n;i++) if((int)q1[i]!=i) violate("cxx-differ","%s: a permutation composed with its inverse",where(u,si).c_str()); ap_linexpr0_free(l3); ap_dimperm_free(p); }
        ap_linexpr0_free(l); std::ostringstream o; o<<x; break; }
    case 27: case 28: { nm="texpr0"; TexE e=gen_tex(r,g,4); ap_texpr0_t* t=mk_texpr(e); texpr0 x=te_of(e,r); auto root=x.root(); if(txs(t)!=txs(x.get_ap_texpr0_t())||!ap_texpr0_equal(t,x.get_ap_texpr0_t())) violate("cxx-differ","%s: C++ texpr0 %s, C %s",where(u,si).c_str(),txs(x.get_ap_texpr0_t()).c_str(),txs(t).c_str());
        if(x.depth()!=ap_texpr0_depth(t)||x.size()!=ap_texpr0_size(t)||x.max_dim()!=ap_texpr0_max_dim(t)||x.is_interval_linear()!=ap_texpr0_is_interval_linear(t)||x.is_interval_polynomial()!=ap_texpr0_is_interval_polynomial(t)||x.is_scalar()!=ap_texpr0_is_scalar(t)) violate("cxx-differ","%s: texpr0 measures",where(u,si).c_str());
        for(int i=0;i<n;i++) if(x.has_dim(i)!=ap_texpr0_has_dim(t,i)) violate("cxx-differ","%s: texpr0 has_dim",where(u,si).c_str());
        if(n){ TexE e2=gen_tex(r,g,2); ap_dim_t d=r.below(n); ap_texpr0_t* t2=mk_texpr(e2); ap_texpr0_t* t3=ap_texpr0_substitute(t,d,t2); texpr0 x2=te_of(e2,r); texpr0 x3(x,d,x2); if(r.p(50)){ x3=x; x3.substitute(d,x2); } if(!ap_texpr0_equal(t3,x3.get_ap_texpr0_t())) violate("cxx-differ","%s: texpr0 substitute",where(u,si).c_str()); ap_texpr0_free(t2); ap_texpr0_free(t3); }
        ap_texpr0_free(t); std::ostringstream o; o<<x; break; }
    case 29: { nm="coefficients"; Coef c=gen_coef(r,g); if(r.p(50)){ c.itv=true; if(!c.hi.inf&&!c.lo.inf&&r.p(70)) c.hi=Ext(Q(c.lo.v+abs(gen_q(r,g)))); } coeff x=co_of(c,r); ap_coeff_t* k0=ap_coeff_alloc(AP_COEFF_SCALAR); coeff_set(k0,c); auto ps=[](const ap_coeff_t* c){ return outstr([&](FILE*f){ ap_coeff_fprint(f,(ap_coeff_t*)c); }); };
        if(ps(k0)!=ps(x.get_ap_coeff_t())) violate("cxx-differ","%s: coefficient %s, C %s",where(u,si).c_str(),ps(x.get_ap_coeff_t()).c_str(),ps(k0).c_str()); coeff y=-x; ap_coeff_t* k1=ap_coeff_alloc(AP_COEFF_SCALAR); ap_coeff_neg(k1,k0); if(ps(k1)!=ps(y.get_ap_coeff_t())) violate("cxx-differ","%s: negated coefficient",where(u,si).c_str()); ap_coeff_free(k1); y.neg(); if(y!=x||x.is_zero()!=ap_coeff_zero(k0)) violate("cxx-differ","%s: double negation of %s",where(u,si).c_str(),ps(k0).c_str()); y.reduce(); ap_coeff_free(k0);
        if(c.itv){ interval i(sc_of(c.lo,c.repr),sc_of(c.hi,c.repr)),j=i; if(!(i==j)||!(i<=j)||i.is_bottom()) violate("cxx-differ","%s: interval comparison",where(u,si).c_str()); } std::ostringstream o; o<<x; break; }
    }
    if(xk){ bool same=false; for(int e:ck) if(e==xk) same=true; stat("cxx.thrown"); if(!same&&k!=23&&!limits) violate("cxx-exception","%s: C++ %s threw %s (%s), C records nothing of the kind",where(u,si).c_str(),nm,ap_name_of_exception[xk],what.c_str()); }
    else { if(!ck.empty()&&k<23) violate("cxx-swallowed","%s: C records %s for %s, the C++ call returned normally",where(u,si).c_str(),ap_name_of_exception[ck[0]],nm);
      if(C!=X) violate("cxx-differ","%s: %s gives %s through C++ and %s through C",where(u,si).c_str(),nm,X.c_str(),C.c_str()); }
    clear_exc(man); string va=vals(man,a),vb=vals(man,b); bool df=va!=vb&&!xk; if(df&&!strncmp(u.d->name,"ppl",3)){ df=!ap_abstract0_is_eq(man,a,b); clear_exc(man); /* PPL's constraint lists depend on earlier conversions */ } if(df) violate("cxx-differ","%s: after %s the C++ value is %s, the C value %s",where(u,si).c_str(),nm,vb.c_str(),va.c_str());
    ap_abstract0_free(man,a); ap_abstract0_free(man,b); ap_abstract0_free(man,ya); ap_abstract0_free(man,yb); clear_exc(man); LOG("cxx %d %s",k,xk?"threw":"");
  }
}
#include "cxx1.hpp"
