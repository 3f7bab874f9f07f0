// Steps that are not plain domain operations: upkeep, queries, exports, limits, restarts, faults.
#include "hist.hpp"
#include <fenv.h>
static bool is(const Dom* d,const char* s){ return strcmp(d->name,s)==0; }
static bool pre(const Dom* d,const char* s){ return strncmp(d->name,s,strlen(s))==0; }
void Run::special(const Op& op){
  Rng r(op.seed); const Dom* D=U[0].d;
  int a=live(op.a);
  switch(op.k){
  case O_MAINT: if(a<0) return; LOG("maint s%d",a); for(size_t i=0;i<U.size();i++) if(U[i].maint||U.size()==1){ Rng m(op.seed+i); int k=m.range(1,3); while(k--) maint(U[i],U[i].man,U[i].v[a],m); exc(U[i],"upkeep"); probe(U[i],a,m,"after upkeep"); } compare(a,"after upkeep"); return;
  case O_LIMIT: { static const size_t cs[]={0,1,1,2,1,1}; static const size_t os[]={0,4,8,16,40,100,1}; limc=r.p(60)?cs[r.below(6)]:0; limo=r.p(60)?os[r.below(7)]:0; if(!limc&&!limo) limc=1; LOG("limit coeff=%d obj=%d",(int)limc,(int)limo); stat("limit.set"); return; }
  case O_UNLIMIT: limc=limo=0; LOG("unlimit"); return;
  case O_OPTALGO: { for(size_t i=0;i<U.size();i++){ if(i==0&&U.size()>1) continue; Rng m(op.seed+i); int f0=m.range(1,AP_FUNID_SIZE-1),f1=f0+1; if(m.p(40)) f0=1,f1=AP_FUNID_SIZE; /* one function, or all of them */ int alg=m.range(-1,1); bool ew=m.p(20),bw=m.p(20); if(sc.geti("anyalg")&&pre(D,"box")&&m.p(50)) alg=100+m.range(0,3); if(flagmode||sc.geti("anyalg")||(D->poly&&!is(D,"pkeq"))) for(int f=f0;f<f1;f++){ if((U.size()>1||limits)&&f==AP_FUNID_WIDENING) continue; /* documented to select another widening */ ap_funopt_t o=ap_manager_get_funopt(U[i].man,(ap_funid_t)f); o.algorithm=alg; o.flag_exact_wanted=ew; o.flag_best_wanted=bw; ap_manager_set_funopt(U[i].man,(ap_funid_t)f,&o); } } return; }
  case O_QUERY: if(a<0) return; for(size_t i=0;i<U.size();i++){ Rng m(op.seed); queries(U[i],a,m); } return;
  case O_EXPORT: if(a<0) return; for(size_t i=0;i<U.size();i++){ Rng m(op.seed); exports(U[i],a,m); } return;
#ifdef SIM_CXX
  case O_CXX: if(a<0) return; { Rng m(op.seed); if(m.p(50)) cxx_burst(U[U.size()-1],a,m); else cxx_burst1(U[U.size()-1],a,m); shadows("after C++ calls"); } return;
#endif
  case O_SERIAL: if(a<0||!D->ser) return; for(size_t i=0;i<U.size();i++){ Rng m(op.seed); serial(U[i],a,m); } return;
  case O_RESTART: { size_t i=U.size()-1; restart(U[i],r); return; }
  case O_PRINT: if(a<0) return; for(size_t i=0;i<U.size();i++){ Rng m(op.seed); printing(U[i],a,m); } return;
  case O_MISUSE: if(a<0) return; { Rng m(op.seed); misuse(U[U.size()-1],a,m); shadows("after misuse"); } return;
  case O_CHAIN: if(!D->widen) return; for(size_t i=0;i<U.size();i++) chain(U[i],op); return;
  case O_APPROX: { if(a<0) return; for(auto&u:U){ Rng m(op.seed); static const int algs[]={-1,-1,0,1,2,3,10,11,12}; int alg=algs[m.below(9)]; if(!pre(D,"polka")) alg=0; else { pk_set_approx(u.man,m.range(1,12)); stat("approx."+std::to_string(alg)); } ap_abstract0_approximate(u.man,u.v[a],alg); exc(u,"approximate"); } M[a].ref=Ref(); M[a].refok=false; for(auto&u:U){ u.shadow[a]=Ref(); probe(u,a,r,"after approximate"); } return; }
  case O_RENEW: { // the last universe gets a new manager; its values stay
      Uni& u=U[U.size()-1]; ap_manager_t* m=D->mk(); for(int i=0;i<AP_EXC_SIZE;i++) ap_manager_set_abort_if_exception(m,(ap_exc_t)i,false); ap_manager_free(u.man); u.man=m; LOG("renew manager"); stat("renew"); return; }
  }
}
