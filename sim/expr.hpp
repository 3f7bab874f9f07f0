// Concrete semantics of APRON expressions and constraints over exact points, plus generation.
#pragma once
#include "base.hpp"
extern "C" {
#include "ap_global0.h"
}
#undef mpq_set_num
enum Repr { R_MPQ=0, R_DBL=1, R_MPFR=2 };
struct Ext { int inf; Q v; Ext():inf(0),v(0){} Ext(const Q&x):inf(0),v(x){} static Ext pinf(){Ext e;e.inf=1;return e;} static Ext minf(){Ext e;e.inf=-1;return e;} };
static inline int ecmp(const Ext&a,const Ext&b){ if(a.inf!=b.inf) return a.inf<b.inf?-1:1; if(a.inf) return 0; return cmp(a.v,b.v); }
static inline string es(const Ext&a){ return a.inf>0?"+oo":a.inf<0?"-oo":a.v.get_str(); }

struct Coef { bool itv=false; Ext lo,hi; int repr=R_MPQ; 
  Coef(){} Coef(const Q& x,int r=R_MPQ):itv(false),lo(x),hi(x),repr(r){}
  Q pick(Rng& r) const {
    if(!itv) return lo.v;
    int k=r.below(4);
    if(lo.inf==0 && hi.inf==0){ if(k==0) return lo.v; if(k==1) return hi.v; if(k==2) return (lo.v+hi.v)/2; return lo.v+(hi.v-lo.v)*q(r.range(0,4),4); }
    if(lo.inf==0) return k==0? lo.v : Q(lo.v+r.range(0,20));
    if(hi.inf==0) return k==0? hi.v : Q(hi.v-r.range(0,20));
    return q(r.range(-20,20));
  }
};
void scalar_set(ap_scalar_t* s,const Ext& e,int repr);
bool scalar_get(const ap_scalar_t* s,Ext& e);
ap_interval_t* mk_interval(const Ext&lo,const Ext&hi,int repr);
void coeff_set(ap_coeff_t* c,const Coef& k);
void coeff_bounds(const ap_coeff_t* c,Ext& lo,Ext& hi);

struct LinE { vector<pair<int,Coef>> t; Coef c; bool sparse=true;
  bool scalar() const { if(c.itv) return false; for(auto&x:t) if(x.second.itv) return false; return true; }
  Q eval(const Pt& p,Rng& r) const { Q s=c.pick(r); for(auto&x:t) s+=x.second.pick(r)*p[x.first]; return s; }
  Q coef(int d) const { for(auto&x:t) if(x.first==d) return x.second.lo.v; return 0; }
  void bounds(const Pt& p,Ext& lo,Ext& hi) const;
};
struct Cons { int typ=AP_CONS_SUPEQ; LinE e; Q mod; };
// may p satisfy c for some choice of interval coefficients?
bool cons_may(const Cons& c,const Pt& p);
ap_linexpr0_t* mk_linexpr(const LinE& e,size_t dims);
ap_lincons0_t mk_lincons(const Cons& c,size_t dims);
ap_lincons0_array_t mk_lincons_array(const vector<Cons>& v,size_t dims);
LinE from_linexpr(const ap_linexpr0_t* e);
Cons from_lincons(const ap_lincons0_t* c);
string lins(const LinE& e); string conss(const Cons& c);

struct TexE { int kind=0; /*0 cst 1 dim 2 node*/ Coef c; int dim=0; int op=0,rt=AP_RTYPE_REAL,rd=AP_RDIR_RND; std::shared_ptr<TexE> a,b; };
ap_texpr0_t* mk_texpr(const TexE& e);
optional<Q> tex_eval(const TexE& e,const Pt& p,Rng& r);
string texs(const TexE& e);
bool tex_maybe_int(const TexE& e,int intdim);
TexE tex_of_lin(const LinE& e); optional<LinE> tex_lin(const TexE& e); // the same function as a linear form, if it is one
optional<Q> round_to(const Q& x,int rt,int rd,Rng& r);

struct GenCfg { int intdim=0,realdim=0; vector<int> reprs{R_MPQ}; bool dyadic=false; int itvpct=0; int maxc=8; bool fltround=true; bool bigc=false; bool nonlin=true; };
Q gen_q(Rng& r,const GenCfg& g,bool integer=false);
Coef gen_coef(Rng& r,const GenCfg& g,bool integer=false);
LinE gen_lin(Rng& r,const GenCfg& g,int shape); // shape: 0 any, 1 octagonal, 2 single variable
TexE gen_tex(Rng& r,const GenCfg& g,int depth);
Pt gen_pt(Rng& r,const GenCfg& g);
