// Checks that a history can call for at any point: tests against each other, exports, printing on
// faulty streams, serialization with restarts, misuse, widening chains.
#include <fcntl.h>
#include "hist.hpp"
#include <fenv.h>
#include <unistd.h>
#include <sys/wait.h>
#include <errno.h>
#include <signal.h>
static bool is(const Dom* d,const char* s){ return strcmp(d->name,s)==0; }
static bool pre(const Dom* d,const char* s){ return strncmp(d->name,s,strlen(s))==0; }
static Ext scal(const ap_scalar_t* s,bool& nan){ Ext e; if(!scalar_get(s,e)) nan=true; return e; }
static void itv_get(ap_interval_t* b,Ext& lo,Ext& hi,bool& nan){ lo=scal(b->inf,nan); hi=scal(b->sup,nan); }
static LinE dimlin(int d){ LinE e; e.t.push_back({d,Coef(q(1))}); e.c=Coef(q(0)); return e; }
bool octagonal(const LinE& e){ int k=0; for(auto&x:e.t){ if(x.second.itv) return false; if(x.second.lo.v!=0){ k++; if(abs(x.second.lo.v)!=1) return false; } } return k<=2; }
static bool unary(const LinE& e){ int k=0; for(auto&x:e.t){ if(x.second.itv) return false; if(x.second.lo.v!=0) k++; } return k<=1; }
static LinE scalarize(LinE e){ for(auto&x:e.t) if(x.second.itv||x.second.lo.inf) x.second=Coef(q(1)); if(e.c.itv||e.c.lo.inf) e.c=Coef(q(0)); return e; }
// is a `true' / tight answer expected for this linear form?
bool complete_for(const Dom* D,const LinE& e){ if(!D->exact) return false; if(pre(D,"oct")) return octagonal(e); return true; }

// ---- C14 --------------------------------------------------------------------------------------
void Run::queries(Uni& u,int si,Rng& r){
  const Slot& s=M[si]; const Dom* D=u.d; int n=s.n(); bool real=s.id==0; string w=where(u,si);
  int sj=live_like((int)r.below(M.size()),s); ap_manager_t* man=u.man;
  auto So=sys(u,man,u.v[si]); auto To=sys(u,man,u.v[sj]); exc(u,"export"); if(!So||!To) return; Ref S=*So,T=*To;
  ap_abstract0_t* v=u.v[si]; ap_abstract0_t* x=u.v[sj]; bool cp=r.p(50); if(cp){ v=ap_abstract0_copy(man,v); x= si==sj&&r.p(50)? v : ap_abstract0_copy(man,x); }
  bool ex=D->exact&&real; int k=r.range(2,5);
  auto eager=[&](bool){ return !D->poly||man->result.flag_exact||(ap_manager_get_funopt(man,AP_FUNID_IS_BOTTOM).algorithm>=0&&ap_manager_get_funopt(man,AP_FUNID_IS_TOP).algorithm>=0); }; // a lazy polyhedron (algorithm<0) may answer "unknown" (false, not exact) without converting
  auto wit=[&](const Ref& R,const vector<Pt>& pts_,const char* what){ for(auto&p:pts_) if(!ref_has(R,p)) violate("contradiction","%s: %s, yet %s is outside {%s}",w.c_str(),what,pts(p).c_str(),ref_str(R).c_str()); };
  while(k--) { int kind=r.below(14); stat("query"); stat("query."+std::to_string(kind));
    switch(kind){
    case 0: { bool b=ap_abstract0_is_bottom(man,v); if(b&&real&&!ref_empty(S)) violate("contradiction","%s: is_bottom is true for {%s}",w.c_str(),ref_str(S).c_str()); if(b&&!s.w.empty()) violate("contradiction","%s: is_bottom is true but %s belongs to it",w.c_str(),pts(s.w[0]).c_str()); if(!b&&ex&&eager(b)&&ref_empty(S)) violate("incomplete","%s: is_bottom is false for an empty value",w.c_str()); break; }
    case 1: { bool b=ap_abstract0_is_top(man,v); if(b&&real&&!ref_univ_p(S)) violate("contradiction","%s: is_top is true for {%s}",w.c_str(),ref_str(S).c_str()); if(!b&&ex&&eager(b)&&ref_univ_p(S)) violate("incomplete","%s: is_top is false for a universe value",w.c_str()); break; }
    case 2: case 3: { bool b=ap_abstract0_is_leq(man,v,x); if(b&&real&&!ref_leq(S,T)) violate("contradiction","%s: is_leq says {%s} is included in {%s}",w.c_str(),ref_str(S).c_str(),ref_str(T).c_str()); if(b) wit(T,s.w,"is_leq is true"); if(!b&&ex&&ref_leq(S,T)) violate("incomplete","%s: is_leq is false for {%s} and {%s}",w.c_str(),ref_str(S).c_str(),ref_str(T).c_str()); if(!b&&si==sj&&D->exact) violate("incomplete","%s: is_leq is false for a value and itself",w.c_str()); break; }
    case 4: { bool b=ap_abstract0_is_eq(man,v,x); if(b&&real&&!ref_eq(S,T)) violate("contradiction","%s: is_eq says {%s} equals {%s}",w.c_str(),ref_str(S).c_str(),ref_str(T).c_str()); if(b){ wit(T,s.w,"is_eq is true"); wit(S,M[sj].w,"is_eq is true"); } if(!b&&ex&&ref_eq(S,T)) violate("incomplete","%s: is_eq is false for {%s} and {%s}",w.c_str(),ref_str(S).c_str(),ref_str(T).c_str());
      if(D->exact){ bool c=ap_abstract0_is_leq(man,v,x)&&ap_abstract0_is_leq(man,x,v); if(b!=c) violate("contradiction","%s: is_eq is %d but inclusion both ways is %d",w.c_str(),b,c); } break; }
    case 5: case 6: { Cons c; c.e=scalarize(tight_lin(r,s,r.below(3))); int t=r.below(100); c.typ=t<50?AP_CONS_SUPEQ:t<70?AP_CONS_EQ:t<90?AP_CONS_SUP:AP_CONS_DISEQ; 
      if(r.p(40)&&real&&!ref_empty(S)){ bool em; Ext lo,hi; LinE e0=c.e; e0.c=Coef(q(0)); ref_bounds(S,e0,em,lo,hi); if(!em&&!lo.inf){ c.e.c=Coef(Q(-lo.v+(r.p(60)?Q(0):r.p(50)?q(1,1000):q(-1,1000))),r.pick(gc.reprs)); if(!D->exact) c.e.c.repr=R_MPQ; } }
      ap_lincons0_t l=mk_lincons(c,n); bool b=ap_abstract0_sat_lincons(man,v,&l); ap_lincons0_clear(&l);
      ap_tcons0_t tc=ap_tcons0_make((ap_constyp_t)c.typ,mk_texpr(tex_of_lin(c.e)),NULL); bool b2=ap_abstract0_sat_tcons(man,v,&tc); ap_tcons0_clear(&tc);
      bool truth=true,known=true; if(c.typ==AP_CONS_DISEQ){ Ref m=ref_copy(S); Cons e=c; e.typ=AP_CONS_EQ; ref_add(m,{e},false); truth=ref_empty(m); } else { Ref t=ref_univ(n); if(!ref_add(t,{c},false)) known=false; else truth=ref_leq(S,t); }
      if(known&&real){ if(b&&!truth) violate("contradiction","%s: sat_lincons is true for %s on {%s}",w.c_str(),conss(c).c_str(),ref_str(S).c_str()); if(b2&&!truth) violate("contradiction","%s: sat_tcons is true for %s on {%s}",w.c_str(),conss(c).c_str(),ref_str(S).c_str());
        if(!b&&truth&&ex&&complete_for(D,c.e)&&c.typ!=AP_CONS_DISEQ&&!(is(D,"pkeq")&&c.typ!=AP_CONS_EQ)) { if(is(D,"polka")&&c.typ==AP_CONS_SUP){ if(cur->seed%1==0) violate("incomplete-strict","%s: sat_lincons is false for %s on {%s}",w.c_str(),conss(c).c_str(),ref_str(S).c_str()); } else violate("incomplete","%s: sat_lincons is false for %s on {%s}",w.c_str(),conss(c).c_str(),ref_str(S).c_str()); } }
      if(b||b2) for(auto&p:s.w) if(!cons_may(c,p)) violate("contradiction","%s: sat is true for %s, false at %s",w.c_str(),conss(c).c_str(),pts(p).c_str()); break; }
    case 7: { if(!n) break; int d=r.below(n); bool em; Ext lo,hi; ref_bounds(S,dimlin(d),em,lo,hi); ap_interval_t* b=ap_abstract0_bound_dimension(man,v,d); bool nan=false; Ext l,h; itv_get(b,l,h,nan); bool bot=ap_interval_is_bottom(b); ap_interval_free(b); if(nan) break;
      if(real){ if(bot){ if(!em) violate("contradiction","%s: bound of x%d is empty for {%s}",w.c_str(),d,ref_str(S).c_str()); } else if(!em&&(ecmp(l,lo)>0||ecmp(h,hi)<0)) violate("contradiction","%s: bound of x%d is [%s,%s], less than its range [%s,%s] in {%s}",w.c_str(),d,es(l).c_str(),es(h).c_str(),es(lo).c_str(),es(hi).c_str(),ref_str(S).c_str());
        else if(ex&&!em&&(ecmp(l,lo)!=0||ecmp(h,hi)!=0)) violate("incomplete","%s: bound of x%d is [%s,%s], its range is [%s,%s] in {%s}",w.c_str(),d,es(l).c_str(),es(h).c_str(),es(lo).c_str(),es(hi).c_str(),ref_str(S).c_str());
        if(ex&&em&&!bot) violate("incomplete","%s: bound of x%d is not empty for an empty value",w.c_str(),d);
        // a bound that was answered must satisfy sat_interval
        if(!bot&&!em){ ap_interval_t* i=mk_interval(l,h,R_MPQ); bool si_=ap_abstract0_sat_interval(man,v,d,i); ap_interval_free(i); if(!si_&&ex) violate("contradiction","%s: bound of x%d is [%s,%s] but sat_interval denies it",w.c_str(),d,es(l).c_str(),es(h).c_str()); }
        if(!em){ Ext l2=lo,h2=hi; if(!l2.inf) l2.v+=r.p(50)?Q(0):q(1,1000); if(!h2.inf) h2.v-=r.p(50)?Q(0):q(1,1000); if(r.p(30)) l2=Ext::minf(); if(r.p(30)) h2=Ext::pinf(); if(ecmp(l2,h2)<=0){ ap_interval_t* i=mk_interval(l2,h2,R_MPQ); bool b2=ap_abstract0_sat_interval(man,v,d,i); ap_interval_free(i); bool truth=ecmp(l2,lo)<=0&&ecmp(h2,hi)>=0; if(b2&&!truth) violate("contradiction","%s: sat_interval is true for x%d in [%s,%s] on {%s}",w.c_str(),d,es(l2).c_str(),es(h2).c_str(),ref_str(S).c_str()); if(!b2&&truth&&ex) violate("incomplete","%s: sat_interval is false for x%d in [%s,%s] on {%s}",w.c_str(),d,es(l2).c_str(),es(h2).c_str(),ref_str(S).c_str()); } } }
      break; }
    case 8: { LinE e=scalarize(gen_lin(r,cfg_for(s),r.below(3))); bool em; Ext lo,hi; ref_bounds(S,e,em,lo,hi); auto le=mk_linexpr(e,n); ap_interval_t* b=ap_abstract0_bound_linexpr(man,v,le); ap_linexpr0_free(le); bool nan=false; Ext l,h; itv_get(b,l,h,nan); bool bot=ap_interval_is_bottom(b); ap_interval_free(b); if(nan||!real) break;
      auto te=mk_texpr(tex_of_lin(e)); ap_interval_t* b2=ap_abstract0_bound_texpr(man,v,te); ap_texpr0_free(te); Ext l2,h2; itv_get(b2,l2,h2,nan); bool bot2=ap_interval_is_bottom(b2); ap_interval_free(b2); if(nan) break;
      if(em){ if(ex&&!bot) violate("incomplete","%s: bound of %s is not empty for an empty value",w.c_str(),lins(e).c_str()); break; }
      if(bot||bot2) violate("contradiction","%s: bound of %s is empty for {%s}",w.c_str(),lins(e).c_str(),ref_str(S).c_str());
      if(ecmp(l,lo)>0||ecmp(h,hi)<0) violate("contradiction","%s: bound_linexpr of %s is [%s,%s], less than its range [%s,%s] in {%s}",w.c_str(),lins(e).c_str(),es(l).c_str(),es(h).c_str(),es(lo).c_str(),es(hi).c_str(),ref_str(S).c_str());
      if(ecmp(l2,lo)>0||ecmp(h2,hi)<0) violate("contradiction","%s: bound_texpr of %s is [%s,%s], less than its range [%s,%s] in {%s}",w.c_str(),lins(e).c_str(),es(l2).c_str(),es(h2).c_str(),es(lo).c_str(),es(hi).c_str(),ref_str(S).c_str());
      if(ex&&complete_for(D,e)&&(ecmp(l,lo)!=0||ecmp(h,hi)!=0)) violate("incomplete","%s: bound_linexpr of %s is [%s,%s], its range is [%s,%s] in {%s}",w.c_str(),lins(e).c_str(),es(l).c_str(),es(h).c_str(),es(lo).c_str(),es(hi).c_str(),ref_str(S).c_str()); break; }
    case 9: { if(!n) break; int d=r.below(n); bool b=ap_abstract0_is_dimension_unconstrained(man,v,d); if(real&&!ref_empty(S)){ Ref f=ref_copy(S); ref_forget(f,{d},false); bool truth=ref_eq(f,S); if(b&&!truth) violate("contradiction","%s: x%d is said unconstrained in {%s}",w.c_str(),d,ref_str(S).c_str()); if(!b&&truth&&ex) violate("incomplete","%s: x%d is said constrained in {%s}",w.c_str(),d,ref_str(S).c_str()); } break; }
    case 10: { ap_abstract0_t* j=ap_abstract0_join(man,false,v,x); bool lo=D->exact||pre(D,"box"); bool b1=ap_abstract0_is_leq(man,v,j),b2=ap_abstract0_is_leq(man,x,j); ap_abstract0_free(man,j); if(lo&&(!b1||!b2)) violate("order","%s: an argument is not included in its join",w.c_str()); break; }
    case 11: { ap_abstract0_t* m=ap_abstract0_meet(man,false,v,x); bool lo=D->exact||pre(D,"box"); bool b1=ap_abstract0_is_leq(man,m,v),b2=ap_abstract0_is_leq(man,m,x); ap_abstract0_free(man,m); if(lo&&(!b1||!b2)) violate("order","%s: a meet is not included in its arguments",w.c_str()); break; }
    case 12: { ap_abstract0_t* j=ap_abstract0_join(man,false,v,x); ap_abstract0_t* wd=ap_abstract0_widening(man,v,j); bool lo=D->exact||pre(D,"box"); bool b1=ap_abstract0_is_leq(man,v,wd),b2=ap_abstract0_is_leq(man,x,wd); ap_abstract0_free(man,j); ap_abstract0_free(man,wd); if(lo&&(!b1||!b2)) violate("order","%s: an argument is not included in its widening",w.c_str()); break; }
    case 13: { if(!D->exact||!real) break; ap_abstract0_t* c=ap_abstract0_copy(man,v); auto a=ap_abstract0_to_lincons_array(man,c); ap_abstract0_t* y=ap_abstract0_of_lincons_array(man,s.id,s.rd,&a); ap_lincons0_array_clear(&a); ap_abstract0_free(man,c); bool b1=ap_abstract0_is_eq(man,v,y),b2=ap_abstract0_is_eq(man,y,v); int h1=ap_abstract0_hash(man,v),h2=ap_abstract0_hash(man,y); ap_abstract0_free(man,y); if(!b1||!b2) violate("contradiction","%s: value {%s} and the value rebuilt from its constraints are not equal (%d,%d)",w.c_str(),ref_str(S).c_str(),b1,b2); if(h1!=h2&&!pre(D,"ppl")&&u.d->refp==false&&false) violate("contradiction","%s: equal values have different hashes",w.c_str()); break; }
    }
  }
  if(cp){ if(x!=v) ap_abstract0_free(man,x); ap_abstract0_free(man,v); }
  exc(u,"query");
  auto S2=sys(u,man,u.v[si]); exc(u,"export"); if(S2&&real&&!ref_same(D->exact,*S2,S)) violate("query-disturbs","%s: tests changed the value from {%s} to {%s}",w.c_str(),ref_str(S).c_str(),ref_str(*S2).c_str());
}
// ---- C15 --------------------------------------------------------------------------------------
void Run::exports(Uni& u,int si,Rng& r){
  const Slot& s=M[si]; const Dom* D=u.d; int n=s.n(); bool real=s.id==0; string w=where(u,si); ap_manager_t* man=u.man; bool ex=D->exact&&real;
  auto So=sys(u,man,u.v[si]); exc(u,"export"); if(!So) return; Ref S=*So;
  ap_abstract0_t* v=u.v[si]; bool cp=r.p(40); if(cp) v=ap_abstract0_copy(man,v);
  int k=r.range(1,4);
  auto contains=[&](ap_abstract0_t* y,const char* how,bool equal){ auto Y=sys(u,man,y); stat("rebuild");
    if(Y&&real){ if(!ref_leq(S,*Y)) violate("rebuild-smaller","%s: value rebuilt from %s is {%s}, it was {%s}",w.c_str(),how,ref_str(*Y).c_str(),ref_str(S).c_str()); if(equal&&!ref_leq(*Y,S)) violate("rebuild-larger","%s: value rebuilt from %s is {%s}, it was {%s}",w.c_str(),how,ref_str(*Y).c_str(),ref_str(S).c_str()); }
    if(Y) for(auto&p:s.w) if(!ref_has(*Y,p)) violate("rebuild-smaller","%s: value rebuilt from %s lost %s",w.c_str(),how,pts(p).c_str()); };
  while(k--){ int kind=r.below(7); stat("export."+std::to_string(kind));
    switch(kind){
    case 0: case 1: { auto a=ap_abstract0_to_lincons_array(man,v); ap_abstract0_t* y; if(kind==0) y=ap_abstract0_of_lincons_array(man,s.id,s.rd,&a); else { y=ap_abstract0_top(man,s.id,s.rd); for(size_t i=a.size;i-->0;){ ap_lincons0_array_t o={&a.p[i],1}; y=ap_abstract0_meet_lincons_array(man,true,y,&o); } } ap_lincons0_array_clear(&a); contains(y,kind?"constraints one by one":"constraints",ex); ap_abstract0_free(man,y); break; }
    case 2: { auto a=ap_abstract0_to_tcons_array(man,v); ap_abstract0_t* y=ap_abstract0_of_tcons_array(man,s.id,s.rd,&a); ap_tcons0_array_clear(&a); contains(y,"tree constraints",ex); ap_abstract0_free(man,y); break; }
    case 3: { ap_interval_t** b=ap_abstract0_to_box(man,v); bool nan=false; bool bot=false; for(int i=0;i<n;i++){ if(ap_interval_is_bottom(b[i])) bot=true; }
      for(int i=0;i<n;i++){ Ext l,h; itv_get(b[i],l,h,nan); bool em; Ext lo,hi; ref_bounds(S,dimlin(i),em,lo,hi); if(nan||!real) continue; if(em){ if(ex&&!bot) violate("box-not-tight","%s: box of an empty value is not empty",w.c_str()); continue; } if(bot||ecmp(l,lo)>0||ecmp(h,hi)<0) violate("box-smaller","%s: box of x%d is [%s,%s], its range is [%s,%s]",w.c_str(),i,es(l).c_str(),es(h).c_str(),es(lo).c_str(),es(hi).c_str()); if(ex&&(ecmp(l,lo)!=0||ecmp(h,hi)!=0)) violate("box-not-tight","%s: box of x%d is [%s,%s], its range is [%s,%s] in {%s}",w.c_str(),i,es(l).c_str(),es(h).c_str(),es(lo).c_str(),es(hi).c_str(),ref_str(S).c_str());
        ap_interval_t* bd=ap_abstract0_bound_dimension(man,v,i); Ext l2,h2; itv_get(bd,l2,h2,nan); ap_interval_free(bd); if(ex&&(ecmp(l,l2)||ecmp(h,h2))) violate("box-differs","%s: box of x%d is [%s,%s], bound_dimension says [%s,%s]",w.c_str(),i,es(l).c_str(),es(h).c_str(),es(l2).c_str(),es(h2).c_str()); }
      for(auto&p:s.w) for(int i=0;i<n;i++){ bool nn=false; Ext l,h; itv_get(b[i],l,h,nn); if(!nn&&(ecmp(l,Ext(p[i]))>0||ecmp(h,Ext(p[i]))<0)) violate("box-smaller","%s: box of x%d excludes %s",w.c_str(),i,pts(p).c_str()); }
      ap_abstract0_t* y=ap_abstract0_of_box(man,s.id,s.rd,b); ap_interval_array_free(b,n); contains(y,"its box",false); ap_abstract0_free(man,y); break; }
    case 4: { auto a=ap_abstract0_to_generator_array(man,v); string gtxt=outstr([&](FILE*f){ ap_generator0_array_fprint(f,&a,NULL); }); bool ni=exc(u,"to_generator_array"); vector<pair<int,LinE>> g; bool ok=!ni; for(size_t i=0;i<a.size;i++){ int ty=a.p[i].gentyp; if(ty!=AP_GEN_LINE&&ty!=AP_GEN_RAY&&ty!=AP_GEN_VERTEX) ok=false; else g.push_back({ty,from_linexpr(a.p[i].linexpr0)}); } ap_generator0_array_clear(&a); if(!ok) break; stat("generators");
      Ref G=ref_of_gens(n,g), C=ref_copy(S); ref_closure(C); if(ex&&(D->refp||is(D,"pkeq")||pre(D,"box"))){ ref_closure(G); if(!ref_eq(G,C)) violate("generators-differ","%s: generators span {%s}, constraints say {%s}; exported %s",w.c_str(),ref_str(G).c_str(),ref_str(C).c_str(),gtxt.c_str()); } break; }
    case 5: { string a=outstr([&](FILE*f){ auto l=ap_abstract0_to_lincons_array(man,v); ap_lincons0_array_fprint(f,&l,NULL); ap_lincons0_array_clear(&l); }), b=outstr([&](FILE*f){ auto l=ap_abstract0_to_lincons_array(man,v); ap_lincons0_array_fprint(f,&l,NULL); ap_lincons0_array_clear(&l); }); if(a!=b) violate("export-unstable","%s: exporting twice gives\n%s\nthen\n%s",w.c_str(),a.c_str(),b.c_str()); break; }
    case 6: { // through another domain of the same library family: constraints moved into a box and back contain the value
      ap_dimension_t dm=ap_abstract0_dimension(man,v); if((int)dm.intdim!=s.id||(int)dm.realdim!=s.rd) violate("dimension","%s: dimension is (%d,%d)",w.c_str(),(int)dm.intdim,(int)dm.realdim); break; }
    }
    exc(u,"export");
  }
  if(cp) ap_abstract0_free(man,v);
  auto S2=sys(u,man,u.v[si]); exc(u,"export"); if(S2&&real&&!ref_same(D->exact,*S2,S)) violate("export-disturbs","%s: exporting changed the value from {%s} to {%s}",w.c_str(),ref_str(S).c_str(),ref_str(*S2).c_str());
  auto G=r.p(30)&&D->refp&&real?sys(u,man,u.v[si],true):optional<Ref>(); exc(u,"export"); if(G){ Ref C=ref_copy(S); ref_closure(C); Ref g=*G; ref_closure(g); if(!ref_eq(g,C)) violate("generators-differ","%s: after exports, generators span {%s}, constraints say {%s}",w.c_str(),ref_str(g).c_str(),ref_str(C).c_str()); }
}
// ---- C11 --------------------------------------------------------------------------------------
// the closed form is the only one that does not depend on which caches are filled
static string rawtext(ap_manager_t* man,ap_abstract0_t* v){ return outstr([&](FILE*f){ ap_abstract0_t* c=ap_abstract0_copy(man,v); (void)ap_abstract0_is_bottom(man,c); auto l=ap_abstract0_to_lincons_array(man,c); ap_lincons0_array_fprint(f,&l,NULL); ap_lincons0_array_clear(&l); ap_abstract0_free(man,c); }); }
// reads values one after another from a byte string, in a manager of its own
int deser_main(const char* domname){
  int keep=dup(1), nul=open("/dev/null",O_WRONLY); dup2(nul,1); const Dom* D=dom(domname); string in; char b[4096]; ssize_t k; while((k=read(0,b,sizeof b))>0) in.append(b,k);
  ap_manager_t* m=D->mk(); size_t off=0; string out; char* p=(char*)malloc(in.size()+1); memcpy(p,in.data(),in.size());
  while(off<in.size()){ size_t sz=0; ap_abstract0_t* v=ap_abstract0_deserialize_raw(m,p+off,&sz); if(!v||!sz){ out+="failed"; break; } out+=std::to_string(sz)+":"+rawtext(m,v)+"\n"; ap_abstract0_free(m,v); off+=sz; }
  free(p); ap_manager_free(m); for(size_t o=0;o<out.size();){ ssize_t k=write(keep,out.data()+o,out.size()-o); if(k<=0) return 1; o+=k; } return 0;
}
static string run_fresh(const char* dn,const string& in){
  int pi[2],po[2]; if(pipe(pi)||pipe(po)) return "pipe"; pid_t pid=fork();
  if(!pid){ dup2(pi[0],0); dup2(po[1],1); close(pi[0]); close(pi[1]); close(po[0]); close(po[1]); execl("/proc/self/exe","sim","deser",dn,(char*)NULL); _exit(127); }
  close(pi[0]); close(po[1]); size_t o=0; while(o<in.size()){ ssize_t k=write(pi[1],in.data()+o,in.size()-o); if(k<=0) break; o+=k; } close(pi[1]); string out; char b[4096]; ssize_t k; while((k=read(po[0],b,sizeof b))>0||(k<0&&errno==EINTR)) if(k>0) out.append(b,k); close(po[0]); int st; waitpid(pid,&st,0); if(st) out+="status "+std::to_string(st); return out;
}
void Run::serial(Uni& u,int si,Rng& r){
  const Slot& s=M[si]; const Dom* D=u.d; ap_manager_t* man=u.man; string w=where(u,si); (void)s;
  string t0=rawtext(man,u.v[si]); ap_membuf_t b=ap_abstract0_serialize_raw(man,u.v[si]); if(exc(u,"serialize_raw")||!b.ptr) return; stat("serialize");
  size_t off=r.below(16); char* p=(char*)malloc(b.size+off); memcpy(p+off,b.ptr,b.size); // any alignment, nothing readable behind
  ap_manager_t* m= r.p(50)? man : r.p(50)? man2 : D->mk(); bool fresh=m!=man&&m!=man2; size_t sz=0; ap_abstract0_t* v=ap_abstract0_deserialize_raw(m,p+off,&sz); 
  if(!v) violate("deserialize","%s: null result",w.c_str());
  if(sz!=b.size) violate("deserialize-size","%s: %d bytes written, %d bytes reported read",w.c_str(),(int)b.size,(int)sz);
  ap_dimension_t d1=ap_abstract0_dimension(m,v); if((int)d1.intdim!=M[si].id||(int)d1.realdim!=M[si].rd) violate("deserialize","%s: dimension (%d,%d)",w.c_str(),(int)d1.intdim,(int)d1.realdim);
  string t1=rawtext(m,v); auto same=[&](ap_manager_t* ma,ap_abstract0_t* a,ap_manager_t* mb,ap_abstract0_t* b2){ if(D->exact) return false; auto x=sys(u,ma,a), y=sys(u,mb,b2); return x&&y&&ref_same(false,*x,*y); };
  if(t0!=t1&&!same(man,u.v[si],m,v)) violate("deserialize","%s: value was\n%s\nread back as\n%s",w.c_str(),t0.c_str(),t1.c_str());
  if(r.p(50)){ ap_membuf_t b2=ap_abstract0_serialize_raw(m,v); if(b2.size!=b.size||memcmp(b2.ptr,b.ptr,b.size)) violate("deserialize","%s: serializing the value read back gives other bytes",w.c_str()); free(b2.ptr); }
  string t2=rawtext(man,u.v[si]); if(t2!=t0&&!same(man,u.v[si],m,v)) violate("serialize-disturbs","%s: value was\n%s\nafter serialization\n%s",w.c_str(),t0.c_str(),t2.c_str());
  free(p); free(b.ptr); ap_abstract0_free(m,v); clear_exc(m); if(fresh) ap_manager_free(m); exc(u,"deserialize_raw");
}
void Run::restart(Uni& u,Rng& r){
  const Dom* D=u.d; if(!D->ser) return; string buf; vector<int> order; for(size_t i=0;i<u.v.size();i++) if(u.v[i]) order.push_back(i); if(order.empty()) return;
  for(int i=order.size()-1;i>0;i--) std::swap(order[i],order[r.below(i+1)]);
  string want; vector<optional<Ref>> before; for(int i:order){ before.push_back(sys(u,u.man,u.v[i])); ap_membuf_t b=ap_abstract0_serialize_raw(u.man,u.v[i]); want+=std::to_string(b.size)+":"+rawtext(u.man,u.v[i])+"\n"; buf.append((char*)b.ptr,b.size); free(b.ptr); } 
  for(int i:order){ ap_abstract0_free(u.man,u.v[i]); u.v[i]=nullptr; } clear_exc(u.man); ap_manager_free(u.man); u.man=D->mk(); for(int i=0;i<AP_EXC_SIZE;i++) ap_manager_set_abort_if_exception(u.man,(ap_exc_t)i,false);
  char* p=(char*)malloc(buf.size()); memcpy(p,buf.data(),buf.size()); size_t off=0; LOG("restart: %d values, %d bytes",(int)order.size(),(int)buf.size()); stat("restart"); string got;
  for(int i:order){ size_t sz=0; if(off>=buf.size()) violate("restart","%s: the reported sizes run past the buffer",where(u,i).c_str()); u.v[i]=ap_abstract0_deserialize_raw(u.man,p+off,&sz); if(!u.v[i]) violate("restart","%s: null value",where(u,i).c_str()); got+=std::to_string(sz)+":"+rawtext(u.man,u.v[i])+"\n"; off+=sz; }
  free(p); if(off!=buf.size()) violate("restart","%s: %d bytes written, %d read",where(u,-1).c_str(),(int)buf.size(),(int)off);
  if(got!=want){ bool same=!D->exact; for(size_t k=0;k<order.size()&&same;k++){ auto y=sys(u,u.man,u.v[order[k]]); if(!before[k]||!y||!ref_same(false,*before[k],*y)) same=false; } if(!same) violate("restart","%s: values were\n%s\nread back as\n%s",where(u,-1).c_str(),want.c_str(),got.c_str()); }
  exc(u,"deserialize_raw"); 
  if(r.p(8)){ stat("restart.process"); string t=run_fresh(D->name,buf); if(t!=got) violate("restart-process","%s: values read here are\n%s\na fresh process reads\n%s",where(u,-1).c_str(),got.c_str(),t.c_str()); }
}
// ---- C12 --------------------------------------------------------------------------------------
struct Cookie { string got; size_t failat; bool failed=false; int mode=0; size_t writes=0; };
static ssize_t ck_write(void* c,const char* b,size_t n){ Cookie* k=(Cookie*)c; k->writes++; if(k->failed){ errno=ENOSPC; return 0; } size_t room=k->failat-k->got.size(); if(n<=room){ k->got.append(b,n); return n; } k->failed=true; k->got.append(b,k->mode==1?room:0); errno=ENOSPC; return k->mode==1?(ssize_t)room:0; }
static int ck_close(void* c){ return ((Cookie*)c)->mode==2&&((Cookie*)c)->failed?-1:0; }
static void through(Cookie& k,int buf,size_t bufsz,std::function<void(FILE*)> f){ cookie_io_functions_t io={NULL,ck_write,NULL,ck_close}; FILE* s=fopencookie(&k,"w",io); vector<char> mem(bufsz+16); setvbuf(s,mem.data(),buf,buf==_IONBF?0:bufsz); f(s); fclose(s); }
void Run::printing(Uni& u,int si,Rng& r){
  const Slot& s=M[si]; const Dom* D=u.d; ap_manager_t* man=u.man; int n=s.n(); string w=where(u,si); GenCfg g=cfg_for(s); g.itvpct=30; if(g.reprs.size()==1) g.reprs={R_MPQ,R_DBL,R_MPFR};
  vector<string> nms; for(int i=0;i<n;i++) nms.push_back(string("v")+char('a'+i)+(i%2?"long_name":"")); vector<char*> nm; for(auto&x:nms) nm.push_back((char*)x.c_str()); nm.push_back(NULL);
  char** names=r.p(50)?nm.data():NULL; ap_abstract0_t* v=u.v[si]; int sj=live_like((int)r.below(M.size()),s); ap_abstract0_t* x=u.v[sj];
  std::function<void(FILE*)> f; string what; int kind=r.below(11);
  vector<std::function<void()>> cleanup; bool dump=false;
  switch(kind){
  case 0: case 1: f=[=](FILE*o){ ap_abstract0_fprint(o,man,v,names); }; what="fprint"; break;
  case 2: f=[=](FILE*o){ ap_abstract0_fdump(o,man,v); }; what="fdump"; dump=true; break;
  case 3: f=[=](FILE*o){ ap_abstract0_fprintdiff(o,man,v,x,names); }; what="fprintdiff"; break;
  case 4: { auto e=mk_linexpr(gen_lin(r,g,0),n); cleanup.push_back([=]{ ap_linexpr0_free(e); }); f=[=](FILE*o){ ap_linexpr0_fprint(o,e,names); }; what="linexpr0_fprint"; break; }
  case 5: { auto e=mk_texpr(gen_tex(r,g,3)); cleanup.push_back([=]{ ap_texpr0_free(e); }); f=[=](FILE*o){ ap_texpr0_fprint(o,e,names); }; what="texpr0_fprint"; break; }
  case 6: { vector<Cons> cs; for(int i=0;i<3;i++) cs.push_back(gen_cons(r,s)); auto a=new ap_lincons0_array_t(mk_lincons_array(cs,n)); cleanup.push_back([=]{ ap_lincons0_array_clear(a); delete a; }); f=[=](FILE*o){ ap_lincons0_array_fprint(o,a,names); }; what="lincons0_array_fprint"; break; }
  case 7: { auto a=new ap_generator0_array_t(ap_abstract0_to_generator_array(man,v)); cleanup.push_back([=]{ ap_generator0_array_clear(a); delete a; }); f=[=](FILE*o){ ap_generator0_array_fprint(o,a,names); }; what="generator0_array_fprint"; break; }
  case 8: { auto a=new ap_tcons0_array_t(ap_tcons0_array_make(2)); for(int i=0;i<2;i++) a->p[i]=ap_tcons0_make(AP_CONS_SUPEQ,mk_texpr(gen_tex(r,g,2)),NULL); cleanup.push_back([=]{ ap_tcons0_array_clear(a); delete a; }); f=[=](FILE*o){ ap_tcons0_array_fprint(o,a,names); }; what="tcons0_array_fprint"; break; }
  case 9: { ap_interval_t** b=ap_abstract0_to_box(man,v); cleanup.push_back([=]{ ap_interval_array_free(b,n); }); f=[=](FILE*o){ for(int i=0;i<n;i++) ap_interval_fprint(o,b[i]); }; what="interval_fprint"; break; }
  case 10: { Coef c=gen_coef(r,g); auto k=ap_coeff_alloc(AP_COEFF_SCALAR); coeff_set(k,c); cleanup.push_back([=]{ ap_coeff_free(k); }); f=[=](FILE*o){ ap_coeff_fprint(o,k); fputc('\n',o); }; what="coeff_fprint"; break; }
  }
  exc(u,"print"); stat("print."+what);
  auto So=s.id==0?sys(u,man,v):optional<Ref>(); string t0=rawtext(man,v);
  ap_abstract0_t* cpy=nullptr; string tc; if(kind<=1&&r.p(40)){ cpy=ap_abstract0_copy(man,v); tc=outstr([&](FILE*o){ ap_abstract0_fprint(o,man,cpy,names); }); ap_abstract0_free(man,cpy); }
  if(dump) outstr(f); /* a dump computes what it shows: the first one fills the caches */ string ref=outstr(f);
  if(!strncmp(D->name,"ppl",3)) for(int i=0;i<5;i++){ string t=outstr(f); bool same=t==ref; ref=t; if(same) break; } /* PPL reorders its constraints lazily */
  if(!tc.empty()&&tc!=ref&&strncmp(D->name,"ppl",3)) violate("print-differs","%s: a copy prints as\n%s\nthe value as\n%s",w.c_str(),tc.c_str(),ref.c_str());
  int tries=r.range(2,5);
  while(tries--){
    Cookie k; static const size_t bs[]={1,2,3,7,16,64,256,4096}; size_t b=bs[r.below(8)]; int mode=r.below(3)==0?_IONBF:r.p(50)?_IOLBF:_IOFBF; k.mode=r.below(3); bool fail=r.p(60); k.failat=fail? r.below(ref.size()+2) : (size_t)-1; bool willfail=fail&&k.failat<ref.size();
    fexcept_t fe; int rm=fegetround(); (void)fe;
    through(k,mode,b,f); if(willfail) stat("fault.stream"); stat("fault.split",k.writes>1);
    if(fegetround()!=rm) violate("print-fpu","%s: %s changed the rounding mode",w.c_str(),what.c_str());
    if(!willfail){ if(k.got!=ref) violate("print-differs","%s: %s wrote %d bytes to a stream with another buffering:\n%s\ninstead of\n%s",w.c_str(),what.c_str(),(int)k.got.size(),k.got.c_str(),ref.c_str()); }
    else if(k.got.compare(0,k.got.size(),ref,0,k.got.size())) violate("print-differs","%s: %s on a stream failing at byte %d wrote\n%s\nnot a prefix of\n%s",w.c_str(),what.c_str(),(int)k.failat,k.got.c_str(),ref.c_str());
    exc(u,"print");
  }
  string again=outstr(f); if(again!=ref) violate("print-differs","%s: %s after other printing wrote\n%s\ninstead of\n%s",w.c_str(),what.c_str(),again.c_str(),ref.c_str());
  for(auto&c:cleanup) c();
  auto S2=s.id==0?sys(u,man,v):optional<Ref>(); if(So&&S2&&!ref_same(D->exact,*So,*S2)) violate("print-disturbs","%s: printing changed the value from {%s} to {%s}",w.c_str(),ref_str(*So).c_str(),ref_str(*S2).c_str());
  if(!D->refp&&D->exact){ string t1=rawtext(man,v); if(t1!=t0) violate("print-disturbs","%s: printing changed the exported constraints from\n%s\nto\n%s",w.c_str(),t0.c_str(),t1.c_str()); }
  exc(u,"print"); (void)dump;
}
