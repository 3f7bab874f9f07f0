#include <ppl.hh>
#include "ref.hpp"
namespace P=Parma_Polyhedra_Library;
using namespace Parma_Polyhedra_Library;
struct RefImpl { NNC_Polyhedron h; RefImpl(int n,bool e):h(n,e?EMPTY:UNIVERSE){} RefImpl(const NNC_Polyhedron&x):h(x){} };
static Ref mk(const NNC_Polyhedron& h){ Ref r; r.p=std::make_shared<RefImpl>(h); return r; }
thread_local bool ref_quasi=false;
Ref ref_univ(int d,bool e){ Ref r; r.p=std::make_shared<RefImpl>(d,e); return r; }
Ref ref_copy(const Ref& a){ return a? mk(a.p->h):Ref(); }
static mpz_class toLE(const LinE& e,Linear_Expression& le,int shift=0){ // returns common denominator
  mpz_class den=e.c.lo.v.get_den(); for(auto&x:e.t){ mpz_class d=x.second.lo.v.get_den(); mpz_lcm(den.get_mpz_t(),den.get_mpz_t(),d.get_mpz_t()); }
  Q c=e.c.lo.v*den; le=Linear_Expression(); le+=c.get_num();
  for(auto&x:e.t){ Q k=x.second.lo.v*den; if(k!=0){ mpz_class n=k.get_num(); le+=n*Variable(x.first+shift); } }
  return den;
}
bool ref_add(Ref& a,const vector<Cons>& cs,bool closed){
  int n=a.p->h.space_dimension(); bool ok=true;
  for(auto&c0:cs){ Cons c=c0;
    if(ref_quasi&&(c.e.c.itv||c.e.c.lo.inf)){ if(c.e.c.lo.inf>0||c.e.c.hi.inf<0||(!c.e.c.lo.inf&&!c.e.c.hi.inf&&c.e.c.lo.v>c.e.c.hi.v)){ ok=false; continue; } Ext lo=c.e.c.lo,hi=c.e.c.itv?c.e.c.hi:lo; bool sc=true; for(auto&x:c.e.t) if(x.second.itv||x.second.lo.inf) sc=false; if(!sc||!c.e.c.itv){ ok=false; continue; }
      if(c.typ!=AP_CONS_EQ&&c.typ!=AP_CONS_SUPEQ&&c.typ!=AP_CONS_SUP){ ok=false; continue; }
      vector<Cons> two; if(c.typ==AP_CONS_EQ&&!lo.inf){ Cons d=c; d.typ=AP_CONS_SUPEQ; for(auto&x:d.e.t) x.second=Coef(Q(-x.second.lo.v)); d.e.c=Coef(Q(-lo.v)); two.push_back(d); } if(!hi.inf){ Cons d=c; if(c.typ==AP_CONS_EQ) d.typ=AP_CONS_SUPEQ; d.e.c=Coef(Q(hi.v)); two.push_back(d); }
      if(!ref_add(a,two,closed)) ok=false; continue; }
    bool inf=c.e.c.itv||c.e.c.lo.inf; for(auto&x:c.e.t) if(x.second.itv||x.second.lo.inf) inf=true;
    if(inf||(c.typ!=AP_CONS_EQ&&c.typ!=AP_CONS_SUPEQ&&c.typ!=AP_CONS_SUP)){ ok=false; continue; }
    Linear_Expression le; toLE(c.e,le); le.set_space_dimension(n);
    if(c.typ==AP_CONS_EQ) a.p->h.add_constraint(le==0); else if(c.typ==AP_CONS_SUP&&(!closed||c.e.t.empty())) a.p->h.add_constraint(le>0); else a.p->h.add_constraint(le>=0);
  } return ok;
}
Ref ref_meet(const Ref&a,const Ref&b){ Ref r=ref_copy(a); r.p->h.intersection_assign(b.p->h); return r; }
Ref ref_hull(const Ref&a,const Ref&b){ Ref r=ref_copy(a); r.p->h.poly_hull_assign(b.p->h); return r; }
static Generator gen(const pair<int,LinE>& g,int n){ LinE e=g.second; Linear_Expression le; if(g.first!=AP_GEN_VERTEX) e.c=Coef(Q(0)); else e.c=Coef(Q(0)); mpz_class den=toLE(e,le); le.set_space_dimension(n);
  switch(g.first){ case AP_GEN_RAY: return Generator::ray(le); case AP_GEN_LINE: return Generator::line(le); default: return Generator::point(le,den); } }
static bool zero(const LinE& e){ for(auto&x:e.t) if(x.second.lo.v!=0) return false; return true; }
Ref ref_rays(const Ref&a,const vector<pair<int,LinE>>& g){ Ref r=ref_copy(a); if(r.p->h.is_empty()) return r; for(auto&x:g) if(x.first==AP_GEN_VERTEX||!zero(x.second)) r.p->h.add_generator(gen(x,r.p->h.space_dimension())); return r; }
Ref ref_of_gens(int d,const vector<pair<int,LinE>>& gs){ Ref r=ref_univ(d,true); for(auto&g:gs) if(g.first==AP_GEN_VERTEX) r.p->h.add_generator(gen(g,d)); if(r.p->h.is_empty()) return r; for(auto&g:gs) if(g.first!=AP_GEN_VERTEX&&!zero(g.second)) r.p->h.add_generator(gen(g,d)); return r; }
static void permute(NNC_Polyhedron& h,const vector<int>& to){ // to[i]=new index or -1
  P::Partial_Function f; for(size_t i=0;i<to.size();i++) if(to[i]>=0) f.insert(i,to[i]); h.map_space_dimensions(f); }
bool ref_assign(Ref& a,const vector<int>& dims,const vector<LinE>& es,const Ref* dest,bool subst){
  vector<LinE> los=es,his=es; if(ref_quasi) for(size_t i=0;i<es.size();i++){ for(auto&x:es[i].t) if(x.second.itv||x.second.lo.inf) return false; const Coef&c=es[i].c; if(!c.itv&&c.lo.inf) return false; if(c.itv){ if(c.lo.inf>0||c.hi.inf<0||(!c.lo.inf&&!c.hi.inf&&c.lo.v>c.hi.v)) return false; los[i].c=Coef(c.lo.inf?Q(0):Q(c.lo.v)); his[i].c=Coef(c.hi.inf?Q(0):Q(c.hi.v)); } }
  else for(auto&e:es) if(!e.scalar()) return false;
  NNC_Polyhedron& h=a.p->h; int n=h.space_dimension(), k=dims.size();
  if(h.is_empty()) return true;
  auto lim=[&](int i){ const Coef&c=es[i].c; { Linear_Expression le; mpz_class den=toLE(los[i],le); le.set_space_dimension(n+k); if(!c.itv) { h.add_constraint(den*Variable(n+i)==le); return; } if(!c.lo.inf) h.add_constraint(den*Variable(n+i)>=le); }
    Linear_Expression le; mpz_class den=toLE(his[i],le); le.set_space_dimension(n+k); if(!c.hi.inf) h.add_constraint(den*Variable(n+i)<=le); };
  // variables x0..xn-1 and k fresh ones f_i
  h.add_space_dimensions_and_embed(k);
  if(!subst){
    for(int i=0;i<k;i++){ lim(i); }
    vector<int> to(n+k); for(int i=0;i<n+k;i++) to[i]=i; for(int i=0;i<k;i++){ to[dims[i]]=-1; to[n+i]=dims[i]; }
    permute(h,to);
  } else {
    // swap: the old value's dim d becomes f_i, x_d is fresh, then f_i = e_i(x)
    vector<int> to(n+k); for(int i=0;i<n+k;i++) to[i]=i; for(int i=0;i<k;i++){ to[dims[i]]=n+i; to[n+i]=dims[i]; }
    permute(h,to);
    for(int i=0;i<k;i++){ lim(i); }
    h.remove_higher_space_dimensions(n);
  }
  if(dest&&*dest) h.intersection_assign(dest->p->h);
  return true;
}
void ref_forget(Ref& a,const vector<int>& dims,bool project){ Variables_Set s; for(int d:dims) s.insert(Variable(d)); a.p->h.unconstrain(s); if(project) for(int d:dims) a.p->h.add_constraint(Variable(d)==0); }
void ref_adddims(Ref& a,const vector<int>& at,bool project){
  NNC_Polyhedron& h=a.p->h; int n=h.space_dimension(),k=at.size();
  if(project) h.add_space_dimensions_and_project(k); else h.add_space_dimensions_and_embed(k);
  vector<int> to(n+k); vector<int> newidx; int j=0; int out=0;
  for(int i=0;i<=n;i++){ while(j<k&&at[j]==i){ to[n+j]=out++; j++; } if(i<n) to[i]=out++; }
  permute(h,to);
}
void ref_remdims(Ref& a,const vector<int>& at){ Variables_Set s; for(int d:at) s.insert(Variable(d)); a.p->h.remove_space_dimensions(s); }
void ref_permute(Ref& a,const vector<int>& perm){ permute(a.p->h,perm); }
void ref_expand(Ref& a,int dim,int k,int at){
  NNC_Polyhedron& h=a.p->h; int n=h.space_dimension(); h.expand_space_dimension(Variable(dim),k);
  vector<int> to(n+k); for(int i=0;i<n;i++) to[i]= i<at? i: i+k; for(int j=0;j<k;j++) to[n+j]=at+j; permute(h,to);
}
void ref_fold(Ref& a,const vector<int>& dims){ Variables_Set s; for(size_t i=1;i<dims.size();i++) s.insert(Variable(dims[i])); a.p->h.fold_space_dimensions(s,Variable(dims[0])); }
void ref_closure(Ref& a){ (void)a.p->h.is_empty(), a.p->h.topological_closure_assign(); }
#include <algorithm>
// constraints and assignments with interval coefficients: the reference is a union of polyhedra
static bool iok(const Coef&c){ if(!c.itv) return !c.lo.inf; return c.lo.inf<=0&&c.hi.inf>=0&&(c.lo.inf||c.hi.inf||c.lo.v<=c.hi.v); }
bool ref_add_itv(vector<Ref>& D,const Cons& c,bool closed){
  if(c.typ!=AP_CONS_EQ&&c.typ!=AP_CONS_SUPEQ&&c.typ!=AP_CONS_SUP) return false; if(!iok(c.e.c)) return false;
  std::map<int,int> occ; for(auto&x:c.e.t){ if(!iok(x.second)||occ[x.first]++) return false; }
  vector<int> iv; for(size_t i=0;i<c.e.t.size();i++) if(c.e.t[i].second.itv) iv.push_back(i);
  int m=1; for(size_t i=0;i<iv.size();i++) m*=3; if(m*(int)D.size()>81) return false;
  vector<Ref> out; bool any=false;
  for(auto&r0:D) for(int z=0;z<m;z++){ Ref r=ref_copy(r0); NNC_Polyhedron& h=r.p->h; LinE up,lo; up.c=lo.c=Coef(Q(0)); bool ui=false,li=false; int q=z; size_t k=0;
    if(c.e.c.itv){ if(c.e.c.hi.inf) ui=true; else up.c=Coef(Q(c.e.c.hi.v)); if(c.e.c.lo.inf) li=true; else lo.c=Coef(Q(c.e.c.lo.v)); } else up.c=lo.c=Coef(Q(c.e.c.lo.v));
    for(size_t i=0;i<c.e.t.size();i++){ auto&x=c.e.t[i]; if(k<iv.size()&&iv[k]==(int)i){ int s=q%3; q/=3; k++; Variable v(x.first); if(s==0){ h.add_constraint(v==0); continue; } if(s==1) h.add_constraint(v>0); else h.add_constraint(v<0);
        const Ext&u=s==1?x.second.hi:x.second.lo,&l=s==1?x.second.lo:x.second.hi; if(u.inf) ui=true; else up.t.push_back({x.first,Coef(Q(u.v))}); if(l.inf) li=true; else lo.t.push_back({x.first,Coef(Q(l.v))}); }
      else { up.t.push_back(x); lo.t.push_back(x); } }
    vector<Cons> cs; if(!ui){ Cons a; a.e=up; a.typ=c.typ==AP_CONS_SUP?AP_CONS_SUP:AP_CONS_SUPEQ; cs.push_back(a); }
    if(c.typ==AP_CONS_EQ&&!li){ Cons a; a.typ=AP_CONS_SUPEQ; a.e=lo; for(auto&x:a.e.t) x.second=Coef(Q(-x.second.lo.v)); a.e.c=Coef(Q(-lo.c.lo.v)); cs.push_back(a); }
    if(!ref_add(r,cs,closed)) return false; any=true; if(!ref_empty(r)) out.push_back(r); }
  (void)any; D.swap(out); return true; }
bool ref_assign_itv(vector<Ref>& D,const vector<int>& dims,const vector<LinE>& es,const Ref* dest,bool subst,int n){
  int k=dims.size(); vector<int> sw,rm; for(int i=0;i<n+k;i++) sw.push_back(i); for(int i=0;i<k;i++){ std::swap(sw[dims[i]],sw[n+i]); rm.push_back(n+i); }
  for(auto&r:D){ r.p->h.add_space_dimensions_and_embed(k); if(subst) ref_permute(r,sw); }
  for(int i=0;i<k;i++){ Cons c; c.typ=AP_CONS_EQ; c.e=es[i]; c.e.t.push_back({n+i,Coef(Q(-1))}); if(!ref_add_itv(D,c,false)) return false; }
  for(auto&r:D){ if(!subst) ref_permute(r,sw); ref_remdims(r,rm); if(dest) r=ref_meet(r,*dest); }
  return true; }
bool ref_union(const vector<Ref>& v,const Ref& r){ P::Pointset_Powerset<NNC_Polyhedron> ps(r.p->h.space_dimension(),EMPTY); for(auto&x:v) ps.add_disjunct(x.p->h); P::Pointset_Powerset<NNC_Polyhedron> q(r.p->h.space_dimension(),EMPTY); q.add_disjunct(r.p->h); return ps.geometrically_covers(q); }
bool ref_eq(const Ref&a,const Ref&b){ return a.p->h==b.p->h; }
bool ref_leq(const Ref&a,const Ref&b){ return b.p->h.contains(a.p->h); }
bool ref_empty(const Ref&a){ return a.p->h.is_empty(); }
bool ref_univ_p(const Ref&a){ return a.p->h.is_universe(); }
bool ref_has(const Ref&a,const Pt& p){ LinE e; for(size_t i=0;i<p.size();i++) if(p[i]!=0) e.t.push_back({(int)i,Coef(p[i])}); Ref r=ref_of_gens(p.size(),{{(int)AP_GEN_VERTEX,e}}); return ref_leq(r,a); }
void ref_bounds(const Ref& a,const LinE& e,bool& empty,Ext& lo,Ext& hi){
  empty=a.p->h.is_empty(); lo=Ext::minf(); hi=Ext::pinf(); if(empty) return;
  Linear_Expression le; mpz_class den=toLE(e,le); le.set_space_dimension(a.p->h.space_dimension()); Coefficient n,d; bool b;
  if(a.p->h.maximize(le,n,d,b)){ Q x(n,d); x.canonicalize(); hi=Ext(Q(x/den)); }
  if(a.p->h.minimize(le,n,d,b)){ Q x(n,d); x.canonicalize(); lo=Ext(Q(x/den)); }
}
size_t ref_complexity(const Ref& a){ return a.p->h.minimized_constraints().space_dimension(); }
#include <sstream>
string ref_str(const Ref& a){ std::ostringstream o; using namespace P::IO_Operators; o<<a.p->h.minimized_constraints(); return o.str(); }

Ref ref_abs(const Ref& a,int kind){
  int n=a.p->h.space_dimension(); if(a.p->h.is_empty()) return ref_univ(n,true);
  NNC_Polyhedron h(n,UNIVERSE); NNC_Polyhedron src=a.p->h; (void)src.is_empty(), src.topological_closure_assign();
  if(kind==3){ // span of all generators
    NNC_Polyhedron g=src; Generator_System gs=src.minimized_generators(); Generator_System lines; bool first=true; Linear_Expression p0; Coefficient d0;
    for(auto i=gs.begin();i!=gs.end();++i) if(i->is_point()||i->is_closure_point()){ Linear_Expression e; for(int k=0;k<n;k++) e+=i->coefficient(Variable(k))*Variable(k); if(first){ p0=e; d0=i->divisor(); first=false; } else { Linear_Expression d=e*d0-p0*i->divisor(); d.set_space_dimension(n); if(!d.all_homogeneous_terms_are_zero()) lines.insert(Generator::line(d)); } }
      else { Linear_Expression e; for(int k=0;k<n;k++) e+=i->coefficient(Variable(k))*Variable(k); e.set_space_dimension(n); if(!e.all_homogeneous_terms_are_zero()) lines.insert(Generator::line(e)); }
    for(auto i=lines.begin();i!=lines.end();++i) g.add_generator(*i);
    return mk(g);
  }
  auto dir=[&](const Linear_Expression& le){ Coefficient num,den; bool mx; if(src.maximize(le,num,den,mx)) h.add_constraint(le*den<=num); };
  for(int i=0;i<n;i++) for(int si=-1;si<=1;si+=2){ dir(si*Variable(i)); if(kind==2) for(int j=0;j<i;j++) for(int sj=-1;sj<=1;sj+=2) dir(si*Variable(i)+sj*Variable(j)); }
  return mk(h);
}
bool ref_same(bool exact,const Ref& a,const Ref& b){
  if(ref_eq(a,b)) return true; if(exact) return false;
  int n=a.p->h.space_dimension(); struct R4{ bool ae,be; Ext al,ah,bl,bh; }; vector<R4> v; Q mag=1;
  for(int i=0;i<n;i++) for(int j=i;j<n;j++) for(int s=-1;s<=1;s+=2){ if(j==i&&s>0) continue; LinE e; e.t.push_back({i,Coef(Q(1))}); if(j!=i) e.t.push_back({j,Coef(Q(s))}); R4 x; ref_bounds(a,e,x.ae,x.al,x.ah); ref_bounds(b,e,x.be,x.bl,x.bh); v.push_back(x);
    for(const Ext* t:{&x.al,&x.ah,&x.bl,&x.bh}) if(!t->inf&&abs(t->v)>mag) mag=abs(t->v); }
  Q tol=mag/1000000000; auto cl=[&](const Ext&x,const Ext&y){ if(x.inf||y.inf) return ecmp(x,y)==0; return abs(Q(x.v-y.v))<=tol; };
  bool ae=ref_empty(a),be=ref_empty(b); if(ae!=be){ for(auto&x:v){ const Ext&l=ae?x.bl:x.al,&h=ae?x.bh:x.ah; if(!l.inf&&!h.inf&&abs(Q(h.v-l.v))<=tol) return true; } return false; }
  for(auto&x:v) if(!cl(x.al,x.bl)||!cl(x.ah,x.bh)) return false; return true;
}
