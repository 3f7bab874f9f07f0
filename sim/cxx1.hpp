// Level-1 C++ classes against the C interface: the same calls on equal values over named variables (included by cxx.cpp).
extern "C" {
#include "ap_global1.h"
}
namespace {
const char* NI[]={"i","k10","k2","n","p_","I","ii"}; const char* NR[]={"a","b","x10","x2","y","z","_t","Z"};
typedef vector<string> Names;
vector<var> vars(const Names& n){ vector<var> v; for(auto&s:n) v.push_back(var(s)); return v; }
vector<ap_var_t> cvars(const Names& n){ vector<ap_var_t> v; for(auto&s:n) v.push_back((ap_var_t)s.c_str()); return v; }
bool has(const Names& n,const string& x){ return std::find(n.begin(),n.end(),x)!=n.end(); }
Names shuf(Names n,Rng& r){ for(size_t i=n.size();i>1;i--) std::swap(n[i-1],n[r.below(i)]); return n; }
Names pickn(const char** pool,int np,int k,Rng& r){ Names n(pool,pool+np); n=shuf(n,r); n.resize(k); return n; }
Names merge(Names a,const Names& b){ a.insert(a.end(),b.begin(),b.end()); return a; }
string ens(const ap_environment_t* e){ string s=std::to_string(e->intdim)+"/"+std::to_string(e->realdim); for(size_t i=0;i<e->intdim+e->realdim;i++) s+=string(" ")+(char*)e->var_of_dim[i]; return s; }
string ens(const environment& e){ return ens(e.get_ap_environment_t()); }
ap_environment_t* cenv(const Names& i,const Names& r){ auto a=cvars(i),b=cvars(r); return ap_environment_alloc(a.data(),a.size(),b.data(),b.size()); }
string chs(const ap_dimchange_t* c){ string s; if(!c) return "0/0"; s=std::to_string(c->intdim)+"/"+std::to_string(c->realdim); for(size_t i=0;i<c->intdim+c->realdim;i++) s+=" "+std::to_string(c->dim[i]); return s; }
string pms(const ap_dimperm_t* p){ string s; for(size_t i=0;i<p->size;i++) s+=" "+std::to_string(p->dim[i]); return s; }
string chs(dimchange& c){ return chs(c.get_ap_dimchange_t()); } string pms(dimperm& p){ return pms(p.get_ap_dimperm_t()); }
environment xenv(const Names& ni,const Names& nr,Rng& r){
  auto a=vars(shuf(ni,r)),b=vars(shuf(nr,r));
  switch(r.below(6)){
  case 0: return environment(a,b);
  case 1: return environment(a.data(),a.size(),b.data(),b.size());
  case 2: { environment e; e=e.add(a,b); return e; }
  case 3: { environment e(a,vector<var>()); dimperm p; environment f=e.add(NULL,0,b.data(),b.size(),p); if(p.get_ap_dimperm_t()->size!=f.intdim()+f.realdim()) violate("cxx-differ","permutation of the wrong size"); return f; }
  case 4: { vector<var> t{var(std::string("0tmp")),var(std::string("zzz"))}; auto b2=b; b2.insert(b2.end(),t.begin(),t.end()); environment e(a,b2); environment f=r.p(50)?e.remove(t):e.remove(t.data(),t.size()); e=f; e=e; return e; }
  default: { if(b.empty()) return environment(a,b); auto b2=b; b2[0]=var(std::string("mm")); environment e(a,b2); vector<std::pair<var,var>> q{{var(std::string("mm")),b[0]}}; var o(std::string("mm")),n2(b[0]); dimperm p; switch(r.below(4)){ case 0: return e.rename(q); case 1: return e.rename(q,p); case 2: return e.rename(&o,&n2,1); default: return e.rename(&o,&n2,1,p); } }
  }
}
struct E1 { Names ni,nr; ap_environment_t* c; environment x; E1(const Names& i,const Names& r_,Rng& r):ni(i),nr(r_),x(xenv(i,r_,r)){ std::sort(ni.begin(),ni.end()); std::sort(nr.begin(),nr.end()); c=cenv(shuf(ni,r),shuf(nr,r)); if(ens(c)!=ens(x)) violate("cxx-differ","C++ environment {%s}, C environment {%s}",ens(x).c_str(),ens(c).c_str()); }
  ~E1(){ ap_environment_free(c); } E1(const E1&)=delete; int n() const { return ni.size()+nr.size(); } const string& nm(int d) const { return d<(int)ni.size()?ni[d]:nr[d-ni.size()]; } Names all() const { return merge(ni,nr); } };
string a1s(ap_manager_t* m,const ap_abstract1_t* v){ ap_abstract1_t c=ap_abstract1_copy(m,(ap_abstract1_t*)v); string s="{"+ens(c.env)+"} "+outstr([&](FILE*f){ ap_abstract1_fprint(f,m,&c); }); ap_abstract1_clear(m,&c); return s; }
// expressions and constraints over an environment, both ways
// the environment of an object about to be overwritten: the same, one of the same dimensions over other names, or another one
environment alt(const E1& e,Rng& r){ int k=r.below(10); if(k<4) return e.x; vector<var> i,q; size_t ni=k<8?e.ni.size():r.below(3),nr=k<8?e.nr.size():r.below(3); for(size_t j=0;j<ni;j++) i.push_back(var("ui"+std::to_string(j))); for(size_t j=0;j<nr;j++) q.push_back(var("ur"+std::to_string(j))); return environment(i,q); }
struct X1 {
  Run& R; GenCfg g; ap_manager_t* man;
  GenCfg cfg(const E1& e){ GenCfg h=g; h.intdim=e.ni.size(); h.realdim=e.nr.size(); return h; }
  ap_linexpr1_t cle(const LinE& l,const E1& e){ ap_linexpr1_t t; t.linexpr0=mk_linexpr(l,e.n()); t.env=ap_environment_copy(e.c); return t; }
  linexpr1 xle(const LinE& l,const E1& e,Rng& r){
    switch(r.below(4)){
    case 0: { linexpr0 z=le_of(l,e.n(),r); return linexpr1(e.x,z); }
    case 1: { linexpr1 z(e.x,l.sparse?AP_LINEXPR_SPARSE:AP_LINEXPR_DENSE,l.sparse?0:e.n()); for(auto&t:l.t) z[var(e.nm(t.first))]=co_of(t.second,r); z.get_cst()=co_of(l.c,r); return z; }
    case 2: { linexpr1 z(e.x,le_of(l,e.n(),r)),y(alt(e,r)); y=z; y=y; linexpr1 c(y); return c; }
    default: { linexpr1 z(e.x,le_of(l,e.n(),r)); z.get_linexpr0().get_cst()=co_of(l.c,r); linexpr1 y(z,e.x); y.extend_environment(e.x); return y; }
    }
  }
  ap_lincons1_t clc(const Cons& c,const E1& e){ ap_lincons1_t t; t.lincons0=mk_lincons(c,e.n()); t.env=ap_environment_copy(e.c); return t; }
  lincons1 xlc(const Cons& c,const E1& e,Rng& r){
    if(c.typ==AP_CONS_EQMOD&&r.p(50)) return lincons1((ap_constyp_t)c.typ,xle(c.e,e,r),sc_of(Ext(c.mod),R_MPQ));
    if(c.typ==AP_CONS_EQMOD||r.p(40)){ lincons0 z=lc_of(c,e.n(),r); return lincons1(e.x,z); }
    if(r.p(50)) return lincons1((ap_constyp_t)c.typ,xle(c.e,e,r));
    lincons1 z(e.x); z.get_constyp()=(ap_constyp_t)c.typ; z.set_linexpr(xle(c.e,e,r)); if(r.p(50)){ lincons1 y(alt(e,r),unsat()); y=z; y=y; return y; } return z;
  }
  ap_lincons1_array_t clca(const vector<Cons>& v,const E1& e){ ap_lincons1_array_t a; a.lincons0_array=mk_lincons_array(v,e.n()); a.env=ap_environment_copy(e.c); return a; }
  lincons1_array xlca(const vector<Cons>& v,const E1& e,Rng& r){
    int k=v.empty()?0:r.below(4);
    if(k==0){ lincons0_array z=lca_of(v,e.n(),r); return lincons1_array(e.x,z); }
    if(k==1){ lincons1_array a(e.x,v.size()); for(size_t i=0;i<v.size();i++) a.set(i,xlc(v[i],e,r)); if(r.p(40)){ a.resize(v.size()+1); a.resize(v.size()); } for(size_t i=0;i<v.size();i++){ lincons1 c=a.get(i); a.set(i,c); } return a; }
    vector<lincons1> t; for(auto&c:v) t.push_back(xlc(c,e,r));
    if(k==2){ lincons1_array a(alt(e,r),1+r.below(3)); a=t; vector<lincons1> b=a; return r.p(50)?lincons1_array(b):lincons1_array(b.size(),b.data()); }
    lincons1_array a(t); lincons1_array b(r.p(40)?a:lincons1_array(alt(e,r),r.p(60)?a.size():r.below(4))); b=a; b=b; lincons1_array c(b,e.x); return c;
  }
  ap_texpr1_t* ctx(const TexE& t,const E1& e){ ap_texpr1_t* p=(ap_texpr1_t*)malloc(sizeof(ap_texpr1_t)); p->texpr0=mk_texpr(t); p->env=ap_environment_copy(e.c); return p; }
  texpr1 xtx_(const TexE& e,const E1& E,Rng& r){
    typedef texpr1::builder B; auto rt=(ap_texpr_rtype_t)e.rt; auto rd=(ap_texpr_rdir_t)e.rd;
    if(e.kind==0) return texpr1(B(E.x,co_of(e.c,r)));
    if(e.kind==1) return r.p(50)?texpr1(B(E.x,var(E.nm(e.dim)))):texpr1(E.x,var(E.nm(e.dim)));
    texpr1 a=xtx_(*e.a,E,r); bool nat=rt==AP_RTYPE_REAL&&rd==AP_RDIR_NEAREST&&r.p(60);
    if(e.b){ texpr1 b=xtx_(*e.b,E,r);
      switch(e.op){
      case AP_TEXPR_ADD: return texpr1(nat?B(a)+B(b):add(a,b,rt,rd)); case AP_TEXPR_SUB: return texpr1(nat?B(a)-B(b):sub(a,b,rt,rd)); case AP_TEXPR_MUL: return texpr1(nat?B(a)*B(b):mul(a,b,rt,rd));
      case AP_TEXPR_DIV: return texpr1(nat?B(a)/B(b):div(a,b,rt,rd)); case AP_TEXPR_MOD: return texpr1(nat?B(a)%B(b):mod(a,b,rt,rd)); case AP_TEXPR_POW: return texpr1(nat?(B(a)^B(b)):pow(a,b,rt,rd));
      } return texpr1(B((ap_texpr_op_t)e.op,a,b,rt,rd)); }
    switch(e.op){ case AP_TEXPR_NEG: if(nat) return texpr1(-B(a)); if(r.p(50)) return texpr1(neg(a,rt,rd)); break; case AP_TEXPR_CAST: if(rt==AP_RTYPE_INT&&r.p(50)) switch(rd){ case AP_RDIR_DOWN: return texpr1(floor(a)); case AP_RDIR_UP: return texpr1(ceil(a)); case AP_RDIR_ZERO: return texpr1(trunc(a)); default: break; } if(r.p(50)) return texpr1(cast(a,rt,rd)); break; case AP_TEXPR_SQRT: if(r.p(50)) return texpr1(sqrt(a,rt,rd)); break; }
    return texpr1(B((ap_texpr_op_t)e.op,a,rt,rd));
  }
  texpr1 xtx(const TexE& e,const E1& E,Rng& r){ if(r.p(30)){ texpr0 z=te_of(e,r); return texpr1(E.x,z); } texpr1 t=xtx_(e,E,r); if(r.p(25)){ texpr1 u(texpr1::builder(alt(E,r),1)); u=t; u=u; return u; } if(r.p(20)) return texpr1(t.root()); return t; }
  ap_tcons1_t ctc(int typ,const TexE& t,const E1& e){ ap_texpr1_t* p=ctx(t,e); ap_tcons1_t c=ap_tcons1_make((ap_constyp_t)typ,p,NULL); ::free(p); return c; }
  tcons1 xtc(int typ,const TexE& e,const E1& E,Rng& r){
    texpr1 t0=xtx(e,E,r);
    if(r.p(40)){ typedef texpr1::builder B; texpr1 zz(B(E.x,0)); B t(t0),z(zz); switch(typ){ case AP_CONS_SUPEQ: return r.p(50)?t>=z:z<=t; case AP_CONS_SUP: return r.p(50)?t>z:z<t; case AP_CONS_EQ: return t==z; case AP_CONS_DISEQ: return t!=z; } }
    if(r.p(50)) return tcons1((ap_constyp_t)typ,t0); tcons1 s(E.x); s.get_constyp()=(ap_constyp_t)typ; s.set_texpr(t0); if(r.p(50)){ tcons1 y(alt(E,r),unsat()); y=s; y=y; tcons1 z(y,E.x); return z; } return s;
  }
  tcons1_array xtca(const vector<int>& ty,const vector<TexE>& v,const E1& e,Rng& r){
    if(v.empty()||r.p(30)){ tcons1_array a(e.x,v.size()); for(size_t i=0;i<v.size();i++) a.set(i,xtc(ty[i],v[i],e,r)); if(r.p(40)&&v.size()){ a.resize(v.size()+1); a.resize(v.size()); } return a; }
    vector<tcons1> t; for(size_t i=0;i<v.size();i++) t.push_back(xtc(ty[i],v[i],e,r)); if(r.p(30)){ tcons1_array a(alt(e,r),1+r.below(3)); a=t; vector<tcons1> b=a; return tcons1_array(b.size(),b.data()); } tcons1_array a(t),b(r.p(40)?a:tcons1_array(alt(e,r),r.p(60)?a.size():r.below(4))); b=a; b=b; return tcons1_array(b,e.x);
  }
  ap_tcons1_array_t ctca(const vector<int>& ty,const vector<TexE>& v,const E1& e){ ap_tcons1_array_t a; a.tcons0_array=ap_tcons0_array_make(v.size()); for(size_t i=0;i<v.size();i++) a.tcons0_array.p[i]=ap_tcons0_make((ap_constyp_t)ty[i],mk_texpr(v[i]),NULL); a.env=ap_environment_copy(e.c); return a; }
  generator1 xge(int ty,const LinE& l,const E1& e,Rng& r){ if(r.p(40)) return generator1((ap_gentyp_t)ty,xle(l,e,r)); if(r.p(40)){ generator0 z((ap_gentyp_t)ty,le_of(l,e.n(),r)); return generator1(e.x,z); } generator1 z(e.x); z.get_gentyp()=(ap_gentyp_t)ty; z.set_linexpr(xle(l,e,r)); generator1 y(alt(e,r),AP_GEN_LINE); y=z; y=y; return generator1(y,e.x); }
  generator1_array xga(const vector<pair<int,LinE>>& v,const E1& e,Rng& r){
    if(v.empty()||r.p(30)){ generator1_array a(e.x,v.size()); for(size_t i=0;i<v.size();i++) a.set(i,xge(v[i].first,v[i].second,e,r)); return a; }
    vector<generator1> t; for(auto&x:v) t.push_back(xge(x.first,x.second,e,r)); if(r.p(30)){ generator1_array a(alt(e,r),1+r.below(3)); a=t; vector<generator1> b=a; return generator1_array(b.size(),b.data()); } generator1_array a(t),b(r.p(40)?a:generator1_array(alt(e,r),r.p(60)?a.size():r.below(4))); b=a; b=b; return generator1_array(b,e.x);
  }
};
// C objects released on every way out
struct Bin { vector<std::function<void()>> f; ~Bin(){ for(size_t i=f.size();i--;) f[i](); } void operator()(std::function<void()> x){ f.push_back(x); } };
string l1s(ap_linexpr1_t* e){ return "{"+ens(e->env)+"} "+outstr([&](FILE*f){ ap_linexpr1_fprint(f,e); }); }
string t1s(ap_texpr1_t* e){ return "{"+ens(e->env)+"} "+outstr([&](FILE*f){ ap_texpr1_fprint(f,e); }); }
string lcas(ap_lincons1_array_t* e){ return "{"+ens(e->env)+"} "+outstr([&](FILE*f){ ap_lincons1_array_fprint(f,e); }); }
string tcas(ap_tcons1_array_t* e){ return "{"+ens(e->env)+"} "+outstr([&](FILE*f){ ap_tcons1_array_fprint(f,e); }); }
string gas(ap_generator1_array_t* e){ return "{"+ens(e->env)+"} "+outstr([&](FILE*f){ ap_generator1_array_fprint(f,e); }); }
}
static int gx(std::function<void()> f,string& what){ bool oor=false; int k=guard([&]{ try { f(); } catch(std::out_of_range& e){ what=e.what(); oor=true; } },what); return oor?100:k; }

// environments alone: both interfaces on the same variable lists, including lists that must be refused
static void cxx_envs(Rng& r,const string& w){
  stat("cxx1.env"); Names i1=pickn(NI,7,r.below(4),r),r1=pickn(NR,8,r.below(5),r),i2=pickn(NI,7,r.below(4),r),r2=pickn(NR,8,r.below(5),r); if(r.p(15)&&!i1.empty()&&std::find(i2.begin(),i2.end(),i1[0])==i2.end()) r2.push_back(i1[0]);
  E1 A(i1,r1,r),B(i2,r2,r); string what; Bin bin;
  auto same=[&](const char* nm,ap_environment_t* c,int k,const string& x){ string cs=c?ens(c):"refused",xs=k?"refused":x; if(cs!=xs) violate("cxx-differ","%s: %s({%s},{%s}) is {%s} in C++, {%s} in C",w.c_str(),nm,ens(A.c).c_str(),ens(B.c).c_str(),xs.c_str(),cs.c_str()); };
  { Names bi=B.ni,br=B.nr; if(r.p(20)&&!bi.empty()) br.push_back(bi[0]); ap_dimperm_t p; auto ci=cvars(bi),cr=cvars(br); ap_environment_t* c=ap_environment_add_perm(A.c,ci.data(),ci.size(),cr.data(),cr.size(),&p); auto vi=vars(bi),vr=vars(br); dimperm q; string o; int f=r.below(4);
    int k=gx([&]{ environment z= f==0?A.x.add(vi,vr):f==1?A.x.add(vi.data(),vi.size(),vr.data(),vr.size()):f==2?A.x.add(vi,vr,q):A.x.add(vi.data(),vi.size(),vr.data(),vr.size(),q); o=ens(z); },what); same("add",c,k,o);
    if(c){ if(!k&&f>=2&&pms(q)!=pms(&p)) violate("cxx-differ","%s: add: permutation%s in C++,%s in C",w.c_str(),pms(q).c_str(),pms(&p).c_str()); ap_dimperm_clear(&p); ap_environment_free(c); } stat(k?"cxx1.refused":"cxx1.accepted"); }
  { Names d=A.all(); d=shuf(d,r); d.resize(r.below(d.size()+1)); if(r.p(25)) d.push_back(B.n()?B.nm(r.below(B.n())):"nope"); auto cd=cvars(d); ap_environment_t* c=ap_environment_remove(A.c,cd.data(),cd.size()); auto vd=vars(d); string o; int k=gx([&]{ environment z=r.p(50)?A.x.remove(vd):A.x.remove(vd.data(),vd.size()); o=ens(z); },what); same("remove",c,k,o); if(c) ap_environment_free(c); }
  { Names o=A.all(); o=shuf(o,r); o.resize(r.below(o.size()+1)); Names nn; for(size_t i=0;i<o.size();i++) nn.push_back(r.p(60)?"w"+std::to_string(i):r.p(60)?A.nm(r.below(A.n())):B.n()?B.nm(r.below(B.n())):"q"); if(r.p(10)){ o.push_back("nope"); nn.push_back("nope2"); } auto co=cvars(o),cn=cvars(nn); ap_dimperm_t p; ap_environment_t* c=ap_environment_rename(A.c,co.data(),cn.data(),co.size(),&p);
    vector<std::pair<var,var>> q; for(size_t i=0;i<o.size();i++) q.push_back({var(o[i]),var(nn[i])}); auto vo=vars(o),vn=vars(nn); dimperm dp; int f=r.below(4); string t; int k=gx([&]{ environment z=f==0?A.x.rename(q):f==1?A.x.rename(q,dp):f==2?A.x.rename(vo.data(),vn.data(),vo.size()):A.x.rename(vo.data(),vn.data(),vo.size(),dp); t=ens(z); },what); same("rename",c,k,t);
    if(c){ if(!k&&f%2&&pms(dp)!=pms(&p)) violate("cxx-differ","%s: rename: permutation%s in C++,%s in C",w.c_str(),pms(dp).c_str(),pms(&p).c_str()); ap_dimperm_clear(&p); ap_environment_free(c); } }
  { ap_dimchange_t *c1=NULL,*c2=NULL; ap_environment_t* c=ap_environment_lce(A.c,B.c,&c1,&c2); dimchange d1,d2; string t; bool ch=r.p(50); int k=gx([&]{ environment z=ch?lce(A.x,B.x,d1,d2):lce(A.x,B.x); t=ens(z); },what); same("lce",c,k,t); if(!k&&ch&&(chs(d1)!=chs(c1)||chs(d2)!=chs(c2))) violate("cxx-differ","%s: lce: dimension changes %s, %s in C++, %s, %s in C",w.c_str(),chs(d1).c_str(),chs(d2).c_str(),chs(c1).c_str(),chs(c2).c_str()); if(c1) ap_dimchange_free(c1); if(c2) ap_dimchange_free(c2); if(c) ap_environment_free(c); }
  { int n=r.range(1,4); vector<environment> v; vector<ap_environment_t*> cv; for(int i=0;i<n;i++){ bool a=r.p(50); v.push_back(a?A.x:B.x); cv.push_back(a?A.c:B.c); } ap_dimchange_t** t=NULL; ap_environment_t* c=ap_environment_lce_array(cv.data(),n,&t); vector<dimchange> dc(n+r.below(2)); string o; int f=r.below(4); int k=gx([&]{ environment z=f==0?lce(v):f==1?lce(v.data(),n):f==2?lce(v,dc):lce(v.data(),dc.data(),n); o=ens(z); },what); same("lce of an array",c,k,o);
    for(int i=0;i<n;i++){ if(c&&!k&&f>=2&&chs(dc[i])!=chs(t?t[i]:NULL)) violate("cxx-differ","%s: lce of an array: change %d",w.c_str(),i); if(t&&t[i]) ap_dimchange_free(t[i]); } if(t) ::free(t); if(c) ap_environment_free(c); }
  { ap_dimchange_t* c=ap_environment_dimchange(A.c,B.c); string t; int k=gx([&]{ dimchange d=get_dimchange(A.x,B.x); t=chs(d); },what); string cs=c?chs(c):"refused"; if(cs!=(k?"refused":t)) violate("cxx-differ","%s: get_dimchange({%s},{%s}): %s in C++, %s in C",w.c_str(),ens(A.c).c_str(),ens(B.c).c_str(),k?"refused":t.c_str(),cs.c_str()); if(c) ap_dimchange_free(c); }
  bool eq=ap_environment_is_eq(A.c,B.c),le=ap_environment_is_leq(A.c,B.c),ge=ap_environment_is_leq(B.c,A.c);
  if((A.x==B.x)!=eq||(A.x!=B.x)==eq||(A.x<=B.x)!=le||(A.x>=B.x)!=ge||cmp(A.x,B.x)!=ap_environment_compare(A.c,B.c)||A.x.intdim()!=A.c->intdim||A.x.realdim()!=A.c->realdim) violate("cxx-differ","%s: comparison of {%s} and {%s}",w.c_str(),ens(A.c).c_str(),ens(B.c).c_str());
  Names q=merge(A.all(),B.all()); q.push_back("nope"); for(auto&s:q){ ap_dim_t d=ap_environment_dim_of_var(A.c,(ap_var_t)s.c_str()),x1=AP_DIM_MAX,x2=AP_DIM_MAX; var v(s); int k1=gx([&]{ x1=A.x.get_dim(v); },what),k2=gx([&]{ x2=A.x[v]; },what); if(A.x.contains(v)!=(d!=AP_DIM_MAX)||x1!=d||x2!=d||(k1!=0)!=(d==AP_DIM_MAX)||(k2!=0)!=(d==AP_DIM_MAX)) violate("cxx-differ","%s: dimension of %s in {%s}",w.c_str(),s.c_str(),ens(A.c).c_str()); }
  vector<var> gv=A.x.get_vars(); if((int)gv.size()!=A.n()) violate("cxx-differ","%s: get_vars",w.c_str()); for(int d=0;d<A.n();d++) if((string)A.x.get_var(d)!=A.nm(d)||(string)A.x[(ap_dim_t)d]!=A.nm(d)||!(gv[d]==var(A.nm(d)))) violate("cxx-differ","%s: name of dimension %d of {%s}",w.c_str(),d,ens(A.c).c_str());
  if(!gx([&]{ A.x.get_var(A.n()); },what)) violate("cxx-differ","%s: get_var beyond the last dimension returns",w.c_str());
  for(int d=0;d+1<A.n();d++){ var a(A.nm(d)),b(A.nm(d+1)); int c=strcmp(A.nm(d).c_str(),A.nm(d+1).c_str()); if((a<b)!=(c<0)||(a>b)!=(c>0)||(a<=b)!=(c<=0)||(a>=b)!=(c>=0)||(a==b)!=(c==0)||(a!=b)!=(c!=0)) violate("cxx-differ","%s: order of the names %s and %s",w.c_str(),A.nm(d).c_str(),A.nm(d+1).c_str()); a=b; a=a; if(!(a==b)) violate("cxx-differ","%s: assigned name",w.c_str()); }
  environment P(A.x),Q2; Q2=P; P=Q2; if(P.get_ap_environment_t()!=A.x.get_ap_environment_t()) violate("cxx-differ","%s: a copied environment is another object",w.c_str()); std::ostringstream o; o<<A.x; string t=outstr([&](FILE*f){ A.x.print(f); }),ct=outstr([&](FILE*f){ ap_environment_fdump(f,A.c); }); (void)t; (void)ct;
}

void Run::cxx_burst1(Uni& u,int si,Rng& r){
  const Slot& s=M[si]; ap_manager_t* man=u.man; manager m=mgr(man); const Dom* D=u.d; string w=where(u,si);
  if(s.id>6||s.rd>6) return; if(r.p(25)) cxx_envs(r,w);
  X1 X{*this,cfg_for(s),man}; Bin bin; string what; clear_exc(man);
  size_t c0,x0; E1 E(pickn(NI,7,s.id,r),pickn(NR,8,s.rd,r),r); c0=E.c->count; x0=E.x.get_ap_environment_t()->count;
  { ap_abstract1_t a; a.abstract0=ap_abstract0_copy(man,u.v[si]); a.env=ap_environment_copy(E.c); struct GA{ ap_manager_t* m; ap_abstract1_t* p; ~GA(){ ap_abstract1_clear(m,p); } } ga{man,&a};
    ap_abstract0_t* hb=ap_abstract0_copy(man,u.v[si]); abstract1 B(m,E.x,W(hb)); ap_abstract0_free(man,hb); int sj=live_like(r.below(M.size()),s); clear_exc(man);
    int nb=r.range(1,6); bool ok=true;
    while(nb-->0&&ok){
      // the current environment may differ from E after a few operations
      Names ni,nr; for(size_t i=0;i<a.env->intdim+a.env->realdim;i++) (i<a.env->intdim?ni:nr).push_back((char*)a.env->var_of_dim[i]); if(ni.size()>6||nr.size()>6) break; E1 C(ni,nr,r); int n=C.n();
      Names si_,sr_; for(auto&x:ni) if(r.p(75)) si_.push_back(x); for(auto&x:nr) if(r.p(75)) sr_.push_back(x); bool bad=r.p(8); if(bad){ si_=ni; sr_=nr; string z="zz9"; while(std::find(nr.begin(),nr.end(),z)!=nr.end()||std::find(ni.begin(),ni.end(),z)!=ni.end()) z+="9"; sr_.push_back(z); } E1 S(si_,sr_,r); const E1& F= r.p(bad?100:30)?S:C; int fn=F.n(); // expressions live in F
      GenCfg gf=X.cfg(F); auto lin=[&](Rng& q){ return gen_lin(q,gf,q.below(3)); }; auto con=[&](Rng& q){ Cons c; c.e=lin(q); c.typ=q.p(60)?AP_CONS_SUPEQ:q.p(60)?AP_CONS_EQ:AP_CONS_SUP; if(q.p(6)&&!c.e.c.itv&&D->refp){ c.typ=AP_CONS_EQMOD; c.mod=Q(q.range(1,5)); } return c; };
      Names cur=C.all(); auto anyv=[&](Rng& q){ return (q.p(6)||cur.empty())?string("nope"):cur[q.below(cur.size())]; };
      auto distinct=[&](Rng& q,int k){ Names t=shuf(cur,q); if((int)t.size()>k) t.resize(k); if(q.p(5)) t.push_back("nope"); return t; };
      uint64_t sd=r.next(); string Cs,Xs; const char* nm="?"; vector<int> ck; int xk=0; stat("cxx1.call");
      auto takeck=[&]{ for(ap_exclog_t* e=man->result.exclog;e;e=e->tail) ck.push_back(e->exn); clear_exc(man); };
      auto verdict=[&]{ LOG("cxx1 %s%s",nm,xk?" threw":"");
        if(xk){ stat("cxx1.thrown"); bool same=false; for(int e:ck) if(e==xk) same=true; if(!same&&!limits) violate("cxx-exception","%s: C++ %s threw %d (%s), C records nothing of the kind",w.c_str(),nm,xk,what.c_str()); if(man->result.exclog) violate("cxx-exception","%s: after %s threw the manager still holds a recorded exception",w.c_str(),nm); if(limits) ok=false; }
        else { if(!ck.empty()&&!limits) violate("cxx-swallowed","%s: C records %s for %s, the C++ call returned normally",w.c_str(),ap_name_of_exception[ck[0]],nm); if(!ck.empty()) ok=false; } };
      bool pplform=!strncmp(D->name,"ppl",3); // PPL's constraint lists depend on which conversions already happened: values, not texts, are compared there
      auto diff=[&](const string& x,const string& y,const ap_abstract1_t* p,const ap_abstract1_t* q){ if(x==y) return false; if(!pplform) return true; bool e=ap_environment_is_eq(p->env,q->env)&&ap_abstract1_is_eq(man,(ap_abstract1_t*)p,(ap_abstract1_t*)q); clear_exc(man); return !e; };
      auto query=[&](const char* name,std::function<string(Rng&)> fc,std::function<string(Rng&)> fx){ nm=name; { Rng q(sd); Cs=fc(q); takeck(); } { Rng q(sd); xk=gx([&]{ Xs=fx(q); },what); if(!xk) nolog(man,name); } verdict(); if(ok&&!xk&&Cs!=Xs&&!(pplform&&((!strncmp(name,"to_",3)&&strcmp(name,"to_box"))||!strcmp(name,"print")||!strcmp(name,"serialize")))) violate("cxx-differ","%s: level-1 %s gives %s through C++ and %s through C",w.c_str(),nm,Xs.c_str(),Cs.c_str()); if(ok&&diff(a1s(man,&a),a1s(man,B.get_ap_abstract1_t()),&a,B.get_ap_abstract1_t())) violate("cxx-differ","%s: after the level-1 query %s the C++ value is %s, the C value %s",w.c_str(),nm,a1s(man,B.get_ap_abstract1_t()).c_str(),a1s(man,&a).c_str()); clear_exc(man); };
      // fc(q,destr): the C result; fx(q,dst,in place): the C++ call
      auto oper=[&](const char* name,bool inok,std::function<ap_abstract1_t(Rng&,bool)> fc,std::function<void(Rng&,abstract1*)> fx){
        nm=name; bool inpl=inok&&r.p(50); stat(inpl?"cxx1.inplace":"cxx1.functional");
        ap_abstract1_t rc; { Rng q(sd); rc=fc(q,inpl); takeck(); }
        if(inpl){ a=rc; { Rng q(sd); xk=gx([&]{ fx(q,NULL); },what); if(!xk) nolog(man,name); } verdict(); if(ok){ string sa=a1s(man,&a),sb=a1s(man,B.get_ap_abstract1_t()); clear_exc(man); if(diff(sa,sb,&a,B.get_ap_abstract1_t())) violate("cxx-differ","%s: in-place level-1 %s%s leaves %s in C++, %s in C",w.c_str(),nm,xk?" (thrown)":"",sb.c_str(),sa.c_str()); } return; }
        struct GR{ ap_manager_t* m; ap_abstract1_t* p; ~GR(){ if(p->abstract0) ap_abstract1_clear(m,p); } } gr{man,&rc};
        string before=a1s(man,B.get_ap_abstract1_t()); clear_exc(man);
        struct GB{ ap_manager_t* m; ap_abstract1_t v; ~GB(){ ap_abstract1_clear(m,&v); } } keep{man,ap_abstract1_copy(man,B.get_ap_abstract1_t())}; clear_exc(man);
        auto touched=[&](const string& sb){ if(sb==before) return false; bool e=ap_environment_is_eq(keep.v.env,B.get_ap_abstract1_t()->env)&&ap_abstract1_is_eq(man,&keep.v,B.get_ap_abstract1_t()); clear_exc(man); return !e; }; // another constraint order is fine
        if(r.p(35)){ // the source is also the destination
          { Rng q(sd); xk=gx([&]{ fx(q,&B); },what); if(!xk) nolog(man,name); } verdict(); if(!ok) return; string sb=a1s(man,B.get_ap_abstract1_t()),sc=a1s(man,&rc); clear_exc(man); if(xk){ if(sb!=before) violate("cxx-destination","%s: level-1 %s threw (%s) but changed its destination",w.c_str(),nm,what.c_str()); return; }
          if(diff(sb,sc,B.get_ap_abstract1_t(),&rc)) violate("cxx-differ","%s: level-1 %s into its own operand gives %s in C++, %s in C",w.c_str(),nm,sb.c_str(),sc.c_str()); std::swap(a,rc); return; }
        E1 T(pickn(NI,7,r.below(3),r),pickn(NR,8,r.below(3),r),r); if(T.n()==0){ /* an empty environment is fine too */ }
        { abstract1 dst(m,T.x,top()); string db=a1s(man,dst.get_ap_abstract1_t()); { Rng q(sd); xk=gx([&]{ fx(q,&dst); },what); if(!xk) nolog(man,name); } verdict(); if(ok){
          string sb=a1s(man,B.get_ap_abstract1_t()),sd_=a1s(man,dst.get_ap_abstract1_t()),sc=a1s(man,&rc); clear_exc(man);
          if(touched(sb)) violate("cxx-argument","%s: functional level-1 %s changed its operand from %s to %s",w.c_str(),nm,before.c_str(),sb.c_str());
          if(xk){ if(sd_!=db) violate("cxx-destination","%s: level-1 %s threw (%s) but changed its destination",w.c_str(),nm,what.c_str()); }
          else { if(diff(sd_,sc,dst.get_ap_abstract1_t(),&rc)) violate("cxx-differ","%s: level-1 %s gives %s in C++, %s in C",w.c_str(),nm,sd_.c_str(),sc.c_str());
            if(dst.get_environment()!=environment(dst.get_environment())||ens(dst.get_environment())!=ens(rc.env)) violate("cxx-differ","%s: environment of the result of %s",w.c_str(),nm);
            if(r.p(60)){ switch(r.below(3)){ case 0: B=dst; break; case 1: B.set(m,dst); break; default: { abstract1 t(m,dst),t2(t); t2=t2; B=t2; } } std::swap(a,rc); } } } }
        if(T.c->count!=1||T.x.get_ap_environment_t()->count!=1) violate("cxx-ownership","%s: %s left %d references to the environment of its old destination",w.c_str(),nm,(int)T.x.get_ap_environment_t()->count-1); };
      // the second operand: a value of another slot, in the same or (unify) another environment
      auto second=[&](const E1& e2,std::function<void(ap_abstract1_t&,abstract1&)> f){ ap_abstract0_t* h= (e2.ni.size()==(size_t)M[sj].id&&e2.nr.size()==(size_t)M[sj].rd)? ap_abstract0_copy(man,u.v[sj]) : r.p(70)?ap_abstract0_top(man,e2.ni.size(),e2.nr.size()):ap_abstract0_bottom(man,e2.ni.size(),e2.nr.size()); clear_exc(man); ap_abstract1_t y; y.abstract0=h; y.env=ap_environment_copy(e2.c); struct GY{ ap_manager_t* m; ap_abstract1_t* p; ~GY(){ ap_abstract1_clear(m,p); } } gy{man,&y};
        if(n&&e2.n()&&r.p(50)){ GenCfg g2=X.cfg(e2); vector<Cons> cv; for(int i=r.range(1,3);i-->0;){ Cons c; c.e=gen_lin(r,g2,r.below(3)); cv.push_back(c); } auto l=X.clca(cv,e2); ap_abstract1_t z=ap_abstract1_meet_lincons_array(man,false,&y,&l); ap_lincons1_array_clear(&l); std::swap(z,y); ap_abstract1_clear(man,&z); clear_exc(man); }
        ap_abstract0_t* h2=ap_abstract0_copy(man,y.abstract0); abstract1 Y(m,e2.x,W(h2)); ap_abstract0_free(man,h2); clear_exc(man); string b=a1s(man,&y); clear_exc(man); f(y,Y); string b2=a1s(man,Y.get_ap_abstract1_t()); clear_exc(man); if(ok&&diff(b,b2,&y,Y.get_ap_abstract1_t())) violate("cxx-argument","%s: level-1 %s changed its second operand from %s to %s",w.c_str(),nm,b.c_str(),b2.c_str()); };
      auto clear_lca=[&](ap_lincons1_array_t& t){ ap_lincons1_array_clear(&t); };
      auto cons=[&](Rng& q){ vector<Cons> v; for(int i=q.range(0,3);i-->0;) v.push_back(con(q)); return v; };
      auto bs=[](bool v){ return string(v?"true":"false"); };
      int k=r.below(46);
      switch(k){
      case 0: query("is_bottom",[&](Rng&){ return bs(ap_abstract1_is_bottom(man,&a)); },[&](Rng&){ return bs(B.is_bottom(m)); }); break;
      case 1: query("is_top",[&](Rng&){ return bs(ap_abstract1_is_top(man,&a)); },[&](Rng&){ return bs(B.is_top(m)); }); break;
      case 2: case 3: second(F,[&](ap_abstract1_t& y,abstract1& Y){ if(r.p(50)) query("is_eq",[&](Rng&){ return bs(ap_abstract1_is_eq(man,&a,&y)); },[&](Rng& q){ return bs(q.p(40)?B.is_eq(m,Y):q.p(50)?B==Y:!(B!=Y)); }); else query("is_leq",[&](Rng&){ return bs(ap_abstract1_is_leq(man,&a,&y)); },[&](Rng& q){ return bs(q.p(40)?B.is_leq(m,Y):q.p(50)?B<=Y:Y>=B); }); }); break;
      case 4: second(C,[&](ap_abstract1_t& y,abstract1& Y){ query("strict order",[&](Rng&){ return bs(ap_abstract1_is_leq(man,&a,&y)&&!ap_abstract1_is_eq(man,&a,&y)); },[&](Rng& q){ return bs(q.p(50)?B<Y:Y>B); }); }); break;
      case 5: query("sat lincons",[&](Rng& q){ auto c=X.clc(con(q),F); bool v=ap_abstract1_sat_lincons(man,&a,&c); ap_lincons1_clear(&c); return bs(v); },[&](Rng& q){ Cons c=con(q); lincons1 l=X.xlc(c,F,q); return bs(B.sat(m,l)); }); break;
      case 6: query("sat tcons",[&](Rng& q){ TexE t=gen_tex(q,gf,3); auto c=X.ctc(AP_CONS_SUPEQ,t,F); bool v=ap_abstract1_sat_tcons(man,&a,&c); ap_tcons1_clear(&c); return bs(v); },[&](Rng& q){ TexE t=gen_tex(q,gf,3); return bs(B.sat(m,X.xtc(AP_CONS_SUPEQ,t,F,q))); }); break;
      case 7: { string v=anyv(r); Ext lo(gen_q(r,gf)),hi(Q(lo.v+abs(gen_q(r,gf)))); int rp=r.pick(gf.reprs); query("sat interval",[&](Rng&){ auto i=mk_interval(lo,hi,rp); bool b=ap_abstract1_sat_interval(man,&a,(ap_var_t)v.c_str(),i); ap_interval_free(i); return bs(b); },[&](Rng&){ return bs(B.sat(m,var(v),interval(sc_of(lo,rp),sc_of(hi,rp)))); }); break; }
      case 8: { string v=anyv(r); query("is_variable_unconstrained",[&](Rng&){ return bs(ap_abstract1_is_variable_unconstrained(man,&a,(ap_var_t)v.c_str())); },[&](Rng&){ return bs(B.is_variable_unconstrained(m,var(v))); }); break; }
      case 9: query("bound linexpr",[&](Rng& q){ auto l=X.cle(lin(q),F); auto i=ap_abstract1_bound_linexpr(man,&a,&l); ap_linexpr1_clear(&l); string t=ivs(i); ap_interval_free(i); return t; },[&](Rng& q){ LinE e=lin(q); linexpr1 l=X.xle(e,F,q); interval i=B.bound(m,l); return ivs(i.get_ap_interval_t()); }); break;
      case 10: query("bound texpr",[&](Rng& q){ auto t=X.ctx(gen_tex(q,gf,3),F); auto i=ap_abstract1_bound_texpr(man,&a,t); ap_texpr1_free(t); string o=ivs(i); ap_interval_free(i); return o; },[&](Rng& q){ TexE e=gen_tex(q,gf,3); interval i=B.bound(m,X.xtx(e,F,q)); return ivs(i.get_ap_interval_t()); }); break;
      case 11: { string v=anyv(r); query("bound variable",[&](Rng&){ auto i=ap_abstract1_bound_variable(man,&a,(ap_var_t)v.c_str()); string o=ivs(i); ap_interval_free(i); return o; },[&](Rng&){ interval i=B.bound(m,var(v)); return ivs(i.get_ap_interval_t()); }); break; }
      case 12: query("to_box",[&](Rng&){ auto t=ap_abstract1_to_box(man,&a); string o; if(t.p) for(int i=0;i<n;i++) o+=ivs(t.p[i])+","; ap_box1_clear(&t); return o; },[&](Rng&){ interval_array t=B.to_box(m); string o; if((int)t.size()!=n) violate("cxx-differ","level-1 to_box returns %d intervals for %d variables",(int)t.size(),n); for(int i=0;i<n;i++) o+=ivs(t[i].get_ap_interval_t())+","; return o; }); break;
      case 13: query("to_lincons_array",[&](Rng&){ auto t=ap_abstract1_to_lincons_array(man,&a); string o=lcas(&t); ap_lincons1_array_clear(&t); return o; },[&](Rng& q){ lincons1_array t=B.to_lincons_array(m); if(q.p(30)){ lincons1_array c(t); t=c; } if(q.p(20)&&t.size()){ vector<lincons1> v=t; t=v; } if(t.get_environment()!=C.x) violate("cxx-differ","environment of the exported constraints"); return lcas(t.get_ap_lincons1_array_t()); }); break;
      case 14: query("to_tcons_array",[&](Rng&){ auto t=ap_abstract1_to_tcons_array(man,&a); string o=tcas(&t); ap_tcons1_array_clear(&t); return o; },[&](Rng& q){ tcons1_array t=B.to_tcons_array(m); if(q.p(30)){ tcons1_array c(t); t=c; } if(q.p(20)&&t.size()){ vector<tcons1> v=t; t=v; } return tcas(t.get_ap_tcons1_array_t()); }); break;
      case 15: query("to_generator_array",[&](Rng&){ auto t=ap_abstract1_to_generator_array(man,&a); string o=gas(&t); ap_generator1_array_clear(&t); return o; },[&](Rng& q){ generator1_array t=B.to_generator_array(m); if(q.p(30)){ generator1_array c(t); t=c; } if(q.p(20)&&t.size()){ vector<generator1> v=t; t=v; } return gas(t.get_ap_generator1_array_t()); }); break;
      case 16: query("print",[&](Rng&){ return outstr([&](FILE*f){ ap_abstract1_fprint(f,man,&a); }); },[&](Rng&){ B.size(m); return outstr([&](FILE*f){ B.print(m,f); }); }); break;
      case 17: query("upkeep",[&](Rng& q){ switch(q.below(3)){ case 0: ap_abstract1_minimize(man,&a); break; case 1: ap_abstract1_canonicalize(man,&a); break; default: if(D->poly) ap_abstract1_approximate(man,&a,q.range(-1,3)); } return string(); },[&](Rng& q){ switch(q.below(3)){ case 0: B.minimize(m); break; case 1: B.canonicalize(m); break; default: if(D->poly) B.approximate(m,q.range(-1,3)); } return string(); }); break;
      case 18: query("serialize",[&](Rng&){ auto t=ap_abstract1_serialize_raw(man,&a); string o; if(t.ptr){ o.assign((char*)t.ptr,t.size); ::free(t.ptr); } return o; },[&](Rng&){ std::unique_ptr<string> p(B.serialize(m)); return *p; }); if(ok) query("deserialize",[&](Rng&){ size_t z=4; ap_abstract1_t t=ap_abstract1_deserialize_raw(man,(void*)"abcd",&z); ap_abstract1_clear(man,&t); return string(); },[&](Rng&){ size_t z; deserialize(m,B,"abcd",&z); return string(); }); break;
      case 19: query("environment",[&](Rng&){ return ens(a.env); },[&](Rng&){ environment e=B.get_environment(); manager mm=B.get_manager(); const abstract0& b0=B.get_abstract0(); auto d=b0.get_dimension(m); if(d.intdim!=e.intdim()||d.realdim!=e.realdim()||mm.get_library()!=m.get_library()) violate("cxx-differ","%s: accessors of a level-1 value",w.c_str()); std::ostringstream o; o<<B; return ens(e); }); break;
      case 20: { bool t=r.p(50); oper(t?"top":"bottom",false,[&](Rng&,bool){ return t?ap_abstract1_top(man,F.c):ap_abstract1_bottom(man,F.c); },[&](Rng& q,abstract1* d){ switch(q.below(3)){ case 0: if(t) d->set(m,F.x,top()); else d->set(m,F.x,bottom()); break; case 1: if(t){ abstract1 z(m,F.x,top()); *d=z; } else { abstract1 z(m,F.x,bottom()); d->set(m,z); } break; default: { abstract1 z(m,F.x,top()); z=bottom(); z=top(); z.set(m,bottom()); if(t) z.set(m,top()); *d=z; } } }); break; }
      case 21: { Names v=shuf(F.all(),r); v.resize(r.below(v.size()+1)); if(r.p(6)) v.push_back("nope"); vector<pair<Ext,Ext>> bx; for(size_t i=0;i<v.size();i++){ Ext lo(gen_q(r,gf)),hi(Q(lo.v+abs(gen_q(r,gf)))); if(r.p(20)) lo=Ext::minf(); if(r.p(20)) hi=Ext::pinf(); bx.push_back({lo,hi}); }
        oper("of_box",false,[&](Rng&,bool){ auto cv=cvars(v); vector<ap_interval_t*> iv; for(auto&b:bx) iv.push_back(mk_interval(b.first,b.second,R_MPQ)); auto t=ap_abstract1_of_box(man,F.c,cv.data(),iv.data(),v.size()); for(auto i:iv) ap_interval_free(i); return t; },
          [&](Rng& q,abstract1* d){ interval_array b(v.size()); for(size_t i=0;i<v.size();i++) b[i]=interval(sc_of(bx[i].first,R_MPQ),sc_of(bx[i].second,R_MPQ)); auto vv=vars(v); switch(q.below(4)){ case 0: d->set(m,F.x,vv,b); break; case 1: d->set(m,F.x,vv.data(),b); break; case 2: { abstract1 z(m,F.x,vv,b); *d=z; break; } default: { abstract1 z(m,F.x,vv.data(),b); *d=z; } } }); break; }
      case 22: oper("of_lincons_array",false,[&](Rng& q,bool){ auto l=X.clca(cons(q),F); auto t=ap_abstract1_of_lincons_array(man,F.c,&l); clear_lca(l); return t; },[&](Rng& q,abstract1* d){ auto v=cons(q); lincons1_array l=X.xlca(v,F,q); switch(q.below(3)){ case 0: d->set(m,l); break; case 1: { abstract1 z(m,l); *d=z; break; } default: { abstract1 z(m,F.x,top()); z=l; *d=z; } } }); break;
      case 23: { vector<int> ty; vector<TexE> tv; for(int i=r.range(0,2);i-->0;){ ty.push_back(r.p(60)?AP_CONS_SUPEQ:AP_CONS_EQ); tv.push_back(gen_tex(r,gf,3)); } oper("of_tcons_array",false,[&](Rng&,bool){ auto l=X.ctca(ty,tv,F); auto t=ap_abstract1_of_tcons_array(man,F.c,&l); ap_tcons1_array_clear(&l); return t; },[&](Rng& q,abstract1* d){ tcons1_array l=X.xtca(ty,tv,F,q); switch(q.below(3)){ case 0: d->set(m,l); break; case 1: { abstract1 z(m,l); *d=z; break; } default: { abstract1 z(m,F.x,top()); z=l; *d=z; } } }); break; }
      case 24: case 25: { bool j=r.p(50); second(F.n()==C.n()||r.p(10)?F:C,[&](ap_abstract1_t& y,abstract1& Y){ oper(j?"join":"meet",true,[&](Rng&,bool de){ return j?ap_abstract1_join(man,de,&a,&y):ap_abstract1_meet(man,de,&a,&y); },[&](Rng& q,abstract1* d){ if(d){ if(j) join(m,*d,B,Y); else meet(m,*d,B,Y); } else if(q.p(50)){ if(j) B.join(m,Y); else B.meet(m,Y); } else { if(j) B+=Y; else B*=Y; } }); }); break; }
      case 26: { Names i2,r2; for(auto&x:ni) if(r.p(50)) i2.push_back(x); for(auto&x:nr) if(r.p(50)) r2.push_back(x); for(int i=r.below(2);i-->0;){ string x=NR[r.below(8)]; if(!has(nr,x)&&!has(r2,x)&&!has(i2,x)&&(!has(ni,x)||r.p(3))) r2.push_back(x); } if(r.p(6)&&!ni.empty()&&std::find(i2.begin(),i2.end(),ni[0])==i2.end()) r2.push_back(ni[0]); E1 U2(i2,r2,r); second(U2,[&](ap_abstract1_t& y,abstract1& Y){ oper("unify",true,[&](Rng&,bool de){ return ap_abstract1_unify(man,de,&a,&y); },[&](Rng&,abstract1* d){ if(d) unify(m,*d,B,Y); else B.unify(m,Y); }); }); break; }
      case 27: { bool j=r.p(50); second(C,[&](ap_abstract1_t& y,abstract1& Y){ int cnt=r.range(1,3); vector<int> which; for(int i=0;i<cnt;i++) which.push_back(r.below(2)); oper(j?"join of an array":"meet of an array",false,[&](Rng&,bool){ vector<ap_abstract1_t> t; for(int x:which) t.push_back(x?y:a); return j?ap_abstract1_join_array(man,t.data(),cnt):ap_abstract1_meet_array(man,t.data(),cnt); },[&](Rng& q,abstract1* d){ vector<const abstract1*> p; for(int x:which) p.push_back(x?&Y:&B); if(q.p(50)){ if(j) join(m,*d,p); else meet(m,*d,p); } else { if(j) join(m,*d,p.size(),p.data()); else meet(m,*d,p.size(),p.data()); } }); }); break; }
      case 28: case 29: oper("meet lincons",true,[&](Rng& q,bool de){ auto l=X.clca(cons(q),F); auto t=ap_abstract1_meet_lincons_array(man,de,&a,&l); clear_lca(l); return t; },[&](Rng& q,abstract1* d){ auto v=cons(q); lincons1_array l=X.xlca(v,F,q); if(d) meet(m,*d,B,l); else if(q.p(50)) B.meet(m,l); else B*=l; }); break;
      case 30: { vector<int> ty; vector<TexE> tv; for(int i=r.range(0,2);i-->0;){ ty.push_back(r.p(60)?AP_CONS_SUPEQ:AP_CONS_EQ); tv.push_back(gen_tex(r,gf,3)); } oper("meet tcons",true,[&](Rng&,bool de){ auto l=X.ctca(ty,tv,F); auto t=ap_abstract1_meet_tcons_array(man,de,&a,&l); ap_tcons1_array_clear(&l); return t; },[&](Rng& q,abstract1* d){ tcons1_array l=X.xtca(ty,tv,F,q); if(d) meet(m,*d,B,l); else if(q.p(50)) B.meet(m,l); else B*=l; }); break; }
      case 31: { vector<pair<int,LinE>> gv; for(int i=r.range(0,2);i-->0;){ LinE e; e.c=Coef(Q(0)); for(int d=0;d<fn;d++) if(r.p(50)) e.t.push_back({d,Coef(Q(r.range(-3,3)))}); bool allr=true; for(auto&t:e.t) if(t.first<(int)F.ni.size()&&t.second.lo.v!=0) allr=false; gv.push_back({allr&&r.p(50)?AP_GEN_LINE:AP_GEN_RAY,e}); }
        oper("add_rays",true,[&](Rng&,bool de){ ap_generator1_array_t t=ap_generator1_array_make(F.c,gv.size()); for(size_t i=0;i<gv.size();i++) t.generator0_array.p[i]=ap_generator0_make((ap_gentyp_t)gv[i].first,mk_linexpr(gv[i].second,fn)); auto z=ap_abstract1_add_ray_array(man,de,&a,&t); ap_generator1_array_clear(&t); return z; },[&](Rng& q,abstract1* d){ generator1_array t=X.xga(gv,F,q); if(d) add_rays(m,*d,B,t); else if(q.p(50)) B.add_rays(m,t); else B+=t; }); break; }
      case 32: case 33: case 34: { bool sub=r.p(40),tex=r.p(50); Names v=distinct(r,r.range(1,2)); if(v.empty()) v.push_back("nope"); size_t nv=v.size(); vector<LinE> le; vector<TexE> te; for(size_t i=0;i<nv;i++){ le.push_back(lin(r)); te.push_back(gen_tex(r,gf,3)); } bool inter=r.p(40);
        second(C,[&](ap_abstract1_t& y,abstract1& Y){ oper(sub?(tex?"substitute texpr":"substitute linexpr"):(tex?"assign texpr":"assign linexpr"),true,
          [&](Rng&,bool de){ auto cv=cvars(v); ap_abstract1_t* I=inter?&y:NULL; ap_abstract1_t z; if(tex){ vector<ap_texpr1_t> t; for(auto&e:te){ auto p=X.ctx(e,F); t.push_back(*p); ::free(p); } z=sub?ap_abstract1_substitute_texpr_array(man,de,&a,cv.data(),t.data(),nv,I):ap_abstract1_assign_texpr_array(man,de,&a,cv.data(),t.data(),nv,I); for(auto&x:t){ ap_texpr0_free(x.texpr0); ap_environment_free(x.env); } } else { vector<ap_linexpr1_t> t; for(auto&e:le) t.push_back(X.cle(e,F)); z=sub?ap_abstract1_substitute_linexpr_array(man,de,&a,cv.data(),t.data(),nv,I):ap_abstract1_assign_linexpr_array(man,de,&a,cv.data(),t.data(),nv,I); for(auto&x:t) ap_linexpr1_clear(&x); } return z; },
          [&](Rng& q,abstract1* d){ auto vv=vars(v); int f=nv==1?q.below(3):1+q.below(2); struct N1:abstract1{ static const abstract1& n(){ return null; } }; const abstract1& I=inter?Y:N1::n();
            #define CALL(P,v0) do{ if(d){ if(f==0){ if(sub) substitute(m,*d,B,vv[0],v0[0],I); else assign(m,*d,B,vv[0],v0[0],I); } else if(f==1){ if(sub) substitute(m,*d,B,nv,vv.data(),P.data(),I); else assign(m,*d,B,nv,vv.data(),P.data(),I); } else { if(sub) substitute(m,*d,B,vv,P,I); else assign(m,*d,B,vv,P,I); } } \
              else { if(f==0){ if(sub) B.substitute(m,vv[0],v0[0],I); else B.assign(m,vv[0],v0[0],I); } else if(f==1){ if(sub) B.substitute(m,nv,vv.data(),P.data(),I); else B.assign(m,nv,vv.data(),P.data(),I); } else { if(sub) B.substitute(m,vv,P,I); else B.assign(m,vv,P,I); } } }while(0)
            if(tex){ vector<texpr1> t; vector<const texpr1*> p; t.reserve(nv); for(auto&e:te) t.push_back(X.xtx(e,F,q)); for(auto&x:t) p.push_back(&x); CALL(p,t); } else { vector<linexpr1> t; vector<const linexpr1*> p; t.reserve(nv); for(auto&e:le) t.push_back(X.xle(e,F,q)); for(auto&x:t) p.push_back(&x); CALL(p,t); } }); }); break; }
      case 35: { Names v=distinct(r,r.range(1,2)); if(v.empty()) break; bool pj=r.p(50); oper("forget",true,[&](Rng&,bool de){ auto cv=cvars(v); return ap_abstract1_forget_array(man,de,&a,cv.data(),cv.size(),pj); },[&](Rng& q,abstract1* d){ auto vv=vars(v); int f=v.size()==1?q.below(3):1+q.below(2); if(d){ if(f==0) forget(m,*d,B,vv[0],pj); else if(f==1) forget(m,*d,B,vv.size(),vv.data(),pj); else forget(m,*d,B,vv,pj); } else { if(f==0) B.forget(m,vv[0],pj); else if(f==1) B.forget(m,vv.size(),vv.data(),pj); else B.forget(m,vv,pj); } }); break; }
      case 36: case 37: { Names i2,r2; for(auto&x:ni) if(r.p(75)) i2.push_back(x); for(auto&x:nr) if(r.p(75)) r2.push_back(x); for(int i=r.below(3);i-->0;){ bool in=D->intok&&s.id&&r.p(30); string x=in?NI[r.below(7)]:NR[r.below(8)]; Names& t=in?i2:r2; if(!has(i2,x)&&!has(r2,x)&&t.size()<5) t.push_back(x); } if(r.p(5)&&!i2.empty()){ r2.push_back(i2.back()); i2.pop_back(); } bool pj=r.p(40); E1 N2(i2,r2,r);
        oper("change_environment",true,[&](Rng&,bool de){ return ap_abstract1_change_environment(man,de,&a,N2.c,pj); },[&](Rng&,abstract1* d){ if(d) change_environment(m,*d,B,N2.x,pj); else B.change_environment(m,N2.x,pj); }); break; }
      case 38: oper("minimize_environment",true,[&](Rng&,bool de){ return ap_abstract1_minimize_environment(man,de,&a); },[&](Rng&,abstract1* d){ if(d) minimize_environment(m,*d,B); else B.minimize_environment(m); }); break;
      case 39: case 40: { Names o=distinct(r,r.range(1,3)); Names nn; for(size_t i=0;i<o.size();i++) nn.push_back(r.p(50)?"w"+std::to_string(r.below(5)):r.p(50)&&n?C.nm(r.below(n)):NR[r.below(8)]); oper("rename",true,[&](Rng&,bool de){ auto co=cvars(o),cn=cvars(nn); return ap_abstract1_rename_array(man,de,&a,co.data(),cn.data(),co.size()); },[&](Rng& q,abstract1* d){ auto vo=vars(o),vn=vars(nn); if(d){ if(q.p(50)) rename(m,*d,B,vo,vn); else rename(m,*d,B,vo.size(),vo.data(),vn.data()); } else if(q.p(50)) B.rename(m,vo,vn); else B.rename(m,vo.size(),vo.data(),vn.data()); }); break; }
      case 41: { string v=anyv(r); Names nn; for(int i=r.range(0,2);i-->0;) nn.push_back(r.p(90)?"e"+std::to_string(i):NR[r.below(8)]); oper("expand",true,[&](Rng&,bool de){ auto cn=cvars(nn); return ap_abstract1_expand(man,de,&a,(ap_var_t)v.c_str(),cn.data(),cn.size()); },[&](Rng& q,abstract1* d){ auto vn=vars(nn); var vv(v); if(d){ if(q.p(50)) expand(m,*d,B,vv,vn); else expand(m,*d,B,vv,vn.size(),vn.data()); } else if(q.p(50)) B.expand(m,vv,vn); else B.expand(m,vv,vn.size(),vn.data()); }); break; }
      case 42: { const Names& pool=(nr.size()>=2||r.p(5))?nr:ni; Names t=shuf(pool,r); if(t.empty()) break; t.resize(r.range(1,std::min<int>(3,t.size()))); if(r.p(5)) t.push_back("nope"); oper("fold",true,[&](Rng&,bool de){ auto cv=cvars(t); return ap_abstract1_fold(man,de,&a,cv.data(),cv.size()); },[&](Rng& q,abstract1* d){ auto vv=vars(t); if(d){ if(q.p(50)) fold(m,*d,B,vv); else fold(m,*d,B,vv.size(),vv.data()); } else if(q.p(50)) B.fold(m,vv); else B.fold(m,vv.size(),vv.data()); }); break; }
      case 43: { bool th=r.p(40)&&D->thr; if(!D->widen) break; second(C,[&](ap_abstract1_t& y0,abstract1& Y0){ ap_abstract1_is_bottom(man,&a); ap_abstract1_is_bottom(man,B.get_ap_abstract1_t()); ap_abstract1_t y=ap_abstract1_join(man,false,&a,&y0); clear_exc(man); /* both left operands know whether they are empty */ struct GY{ ap_manager_t* m; ap_abstract1_t* p; ~GY(){ ap_abstract1_clear(m,p); } } gy{man,&y}; ap_abstract0_t* h=ap_abstract0_copy(man,y.abstract0); abstract1 Y(m,C.x,W(h)); ap_abstract0_free(man,h); clear_exc(man);
        oper(th?"widening with thresholds":"widening",false,[&](Rng& q,bool){ if(!th) return ap_abstract1_widening(man,&a,&y); auto l=X.clca(cons(q),F); auto t=ap_abstract1_widening_threshold(man,&a,&y,&l); clear_lca(l); return t; },[&](Rng& q,abstract1* d){ if(!th){ widening(m,*d,B,Y); return; } auto v=cons(q); lincons1_array l=X.xlca(v,F,q); widening(m,*d,B,Y,l); }); }); break; }
      case 44: oper("closure",true,[&](Rng&,bool de){ return ap_abstract1_closure(man,de,&a); },[&](Rng&,abstract1* d){ if(d) closure(m,*d,B); else B.closure(m); }); break;
      case 45: { nm="level-1 expressions"; // expressions on their own: environments, accessors, substitution
        { LinE l=lin(r); ap_linexpr1_t c=X.cle(l,F); bin([c]{ auto t=c; ap_linexpr1_clear(&t); }); linexpr1 x=X.xle(l,F,r); auto ne=[&](const char* q){ violate("cxx-differ","%s: level-1 expression %s in C++, %s in C: %s",w.c_str(),l1s(x.get_ap_linexpr1_t()).c_str(),l1s(&c).c_str(),q); };
          if(!ap_linexpr0_equal(c.linexpr0,x.get_ap_linexpr1_t()->linexpr0)) ne("value"); if(ens(x.get_environment())!=ens(c.env)) ne("environment"); if(x.is_integer()!=ap_linexpr1_is_integer(&c)||x.is_real()!=ap_linexpr1_is_real(&c)||x.get_type()!=ap_linexpr1_type(&c)||x.is_linear()!=ap_linexpr1_is_linear(&c)||x.is_quasilinear()!=ap_linexpr1_is_quasilinear(&c)) ne("measures");
          const linexpr1& xc=x; for(auto&t:l.t){ Ext lo,hi; coeff_bounds((r.p(50)?x[var(F.nm(t.first))]:xc[var(F.nm(t.first))]).get_ap_coeff_t(),lo,hi); if(ecmp(lo,t.second.lo)||ecmp(hi,t.second.hi)) ne("coefficient"); } if(!gx([&]{ x[var(string("nope"))]=coeff(1); },what)) ne("unknown variable accepted");
          int cnt=0; for(linexpr1::iterator i=x.begin();i.valid();i.next()){ if((string)i.get_var()!=F.nm(i.get_dim())) ne("iterator"); i.get_coeff()=i.get_coeff(); if(++cnt>100) ne("endless iterator"); } for(linexpr1::const_iterator i=xc.begin();i.valid();++i) if((string)i.get_var()!=F.nm(i.get_dim())) ne("const iterator");
          ap_linexpr1_t c2; bool e=ap_linexpr1_extend_environment(&c2,&c,C.c); linexpr1 x2(x); int kx=gx([&]{ if(r.p(50)) x2.extend_environment(C.x); else { linexpr1 t(x,C.x); x2=t; } },what); if(e!=(kx!=0)) ne("extension accepted by one interface only"); if(!e){ if(!ap_linexpr0_equal(c2.linexpr0,x2.get_ap_linexpr1_t()->linexpr0)||ens(x2.get_environment())!=ens(c2.env)) ne("extended"); ap_linexpr1_clear(&c2); } else stat("cxx1.refused"); x.minimize(); std::ostringstream o; o<<x; texpr1 tl(x); }
        { Cons cc=con(r); ap_lincons1_t c=X.clc(cc,F); bin([c]{ auto t=c; ap_lincons1_clear(&t); }); lincons1 x=X.xlc(cc,F,r); auto ps=[](const ap_lincons1_t* p){ return "{"+ens(p->env)+"} "+outstr([&](FILE*f){ ap_lincons1_fprint(f,(ap_lincons1_t*)p); }); }; auto ne=[&](const char* q){ violate("cxx-differ","%s: level-1 constraint %s in C++, %s in C: %s",w.c_str(),ps(x.get_ap_lincons1_t()).c_str(),ps(&c).c_str(),q); };
          if(ps(&c)!=ps(x.get_ap_lincons1_t())) ne("value"); if(x.is_unsat()!=ap_lincons1_is_unsat(&c)) ne("is_unsat"); linexpr1 le=x.get_linexpr(); if(!ap_linexpr0_equal(le.get_ap_linexpr1_t()->linexpr0,c.lincons0.linexpr0)) ne("expression"); if(x.has_modulo()!=(cc.typ==AP_CONS_EQMOD)) ne("has_modulo");
          ap_lincons1_t c2; bool e=ap_lincons1_extend_environment(&c2,const_cast<ap_lincons1_t*>(x.get_ap_lincons1_t()),C.c); lincons1 x2(x); int kx=gx([&]{ if(r.p(50)) x2.extend_environment(C.x); else { lincons1 t(x,C.x); x2=t; } },what); if(e!=(kx!=0)) ne("extension accepted by one interface only"); if(!e){ if(ps(&c2)!=ps(x2.get_ap_lincons1_t())) ne("extended"); ap_lincons1_clear(&c2); } tcons1 t(x); ap_tcons1_t tc=ap_tcons1_from_lincons1(x.get_ap_lincons1_t()); string s1=outstr([&](FILE*f){ ap_tcons1_fprint(f,&tc); }),s2=outstr([&](FILE*f){ t.print(f); }); ap_tcons1_clear(&tc); if(s1!=s2) ne("converted"); tcons1 t2(F.x); t2=x; std::ostringstream o; o<<x<<t2; x=unsat(); if(!x.is_unsat()) ne("unsat"); }
        { TexE te=gen_tex(r,gf,4); ap_texpr1_t* c=X.ctx(te,F); bin([c]{ ap_texpr1_free(c); }); texpr1 x=X.xtx(te,F,r); auto ne=[&](const char* q){ violate("cxx-differ","%s: level-1 tree %s in C++, %s in C: %s",w.c_str(),t1s(x.get_ap_texpr1_t()).c_str(),t1s(c).c_str(),q); }; if(t1s(c)!=t1s(x.get_ap_texpr1_t())) ne("value"); if(x.depth()!=ap_texpr0_depth(c->texpr0)||x.size()!=ap_texpr0_size(c->texpr0)||x.is_interval_cst()!=ap_texpr1_is_interval_cst(c)||x.is_interval_linear()!=ap_texpr1_is_interval_linear(c)||x.is_interval_polynomial()!=ap_texpr1_is_interval_polynomial(c)||x.is_interval_polyfrac()!=ap_texpr1_is_interval_polyfrac(c)||x.is_scalar()!=ap_texpr1_is_scalar(c)) ne("measures");
          for(auto&v:F.all()) if(x.has_var(var(v))!=ap_texpr1_has_var(c,(ap_var_t)v.c_str())) ne("has_var"); texpr1 cp(x); if(!cp.equal(x)) ne("copy");
          if(fn){ TexE t2=gen_tex(r,gf,2); string v=r.p(8)?string("nope"):F.nm(r.below(fn)); ap_texpr1_t* d=X.ctx(t2,F); ap_texpr1_t* z=ap_texpr1_substitute(c,(ap_var_t)v.c_str(),d); ap_texpr1_free(d); texpr1 y=X.xtx(t2,F,r),y2(x); int kx=gx([&]{ if(r.p(50)) y2.substitute(var(v),y); else { texpr1 t(x,var(v),y); y2=t; } },what); if((z==NULL)!=(kx!=0)) ne("substitution accepted by one interface only"); if(z){ if(t1s(z)!=t1s(y2.get_ap_texpr1_t())) ne("substitute"); ap_texpr1_free(z); } }
          ap_texpr1_t* e2=ap_texpr1_extend_environment(c,C.c); texpr1 x2(x); int kx=gx([&]{ if(r.p(50)) x2.extend_environment(C.x); else { texpr1 t(x,C.x); x2=t; } },what); if((e2==NULL)!=(kx!=0)) ne("extension accepted by one interface only"); if(e2){ if(t1s(e2)!=t1s(x2.get_ap_texpr1_t())) ne("extended"); ap_texpr1_free(e2); } std::ostringstream o; o<<x; }
        { vector<Cons> v=cons(r); v.push_back(con(r)); ap_lincons1_array_t c=X.clca(v,F); bin([c]{ auto t=c; ap_lincons1_array_clear(&t); }); lincons1_array x=X.xlca(v,F,r); if(lcas(&c)!=lcas(x.get_ap_lincons1_array_t())) violate("cxx-differ","%s: constraint array %s in C++, %s in C",w.c_str(),lcas(x.get_ap_lincons1_array_t()).c_str(),lcas(&c).c_str()); ap_lincons1_array_t c2; bool e=ap_lincons1_array_extend_environment(&c2,&c,C.c); int kx=gx([&]{ x.extend_environment(C.x); },what); if(e!=(kx!=0)) violate("cxx-differ","%s: array extension accepted by one interface only",w.c_str()); if(!e){ if(lcas(&c2)!=lcas(x.get_ap_lincons1_array_t())) violate("cxx-differ","%s: extended constraint array",w.c_str()); ap_lincons1_array_clear(&c2); } }
        break; }
      }
      if(ok&&ens(B.get_environment())!=ens(a.env)) violate("cxx-differ","%s: after level-1 %s the C++ value lives in {%s}, the C value in {%s}",w.c_str(),nm,ens(B.get_environment()).c_str(),ens(a.env).c_str());
      for(size_t i=bin.f.size();i--;) bin.f[i](); bin.f.clear(); clear_exc(man);
    }
  }
  if(E.c->count!=c0) violate("cxx-ownership","%s: %d references to the C environment remain",w.c_str(),(int)E.c->count); if(E.x.get_ap_environment_t()->count!=x0) violate("cxx-ownership","%s: the environment of the C++ values has %d references left, %d expected",w.c_str(),(int)E.x.get_ap_environment_t()->count,(int)x0);
  clear_exc(man);
}
