#include "dom.hpp"
extern "C" {
#define DECL(l,f) ap_manager_t* f##__##l(void);
ap_manager_t* pk_manager_alloc(bool); ap_manager_t* pkeq_manager_alloc(void);
ap_manager_t* ap_ppl_poly_manager_alloc(bool); ap_manager_t* ap_ppl_grid_manager_alloc(void);
ap_manager_t* ap_pkgrid_manager_alloc(ap_manager_t*,ap_manager_t*);
struct pk_internal_t; struct pk_internal_t* pk_manager_get_internal(ap_manager_t*); void pk_set_max_coeff_size(struct pk_internal_t*,size_t); void pk_set_approximate_max_coeff_size(struct pk_internal_t*,size_t);
#define BOX(l) ap_manager_t* box_manager_alloc__##l(void);
#define OCT(l) ap_manager_t* oct_manager_alloc__##l(void);
#define AVO(l) ap_manager_t* avo_manager_alloc__##l(void);
#define T1P(l) ap_manager_t* t1p_manager_alloc__##l(void);
#define FPP(l) ap_manager_t* fpp_manager_alloc__##l(void);
BOX(boxD) BOX(boxMPQ) BOX(boxMPFR) OCT(octD) OCT(octMPQ) OCT(octMPFR) OCT(octDl) OCT(octMPZ) OCT(octIll) OCT(octRll)
AVO(avoD) AVO(avoMPQ) AVO(avoMPZ) AVO(avoIll) AVO(avoMPFR) T1P(t1pD) T1P(t1pMPQ) T1P(t1pMPFR) FPP(fppD)
}
static ap_manager_t* mk_pk(){ return pk_manager_alloc(false); }
static ap_manager_t* mk_pks(){ return pk_manager_alloc(true); }
#ifdef HAVE_ppl
static ap_manager_t* mk_ppl(){ return ap_ppl_poly_manager_alloc(false); }
static ap_manager_t* mk_ppls(){ return ap_ppl_poly_manager_alloc(true); }
#endif
#ifdef HAVE_pkgrid
static ap_manager_t* mk_pkgrid(){ ap_manager_t* a=pk_manager_alloc(true); ap_manager_t* b=ap_ppl_grid_manager_alloc(); ap_manager_t* r=ap_pkgrid_manager_alloc(a,b); ap_manager_free(a); ap_manager_free(b); return r; }
#endif
const vector<Dom>& domains(){
  static const vector<Dom> v={
  //name      lib        mk                           exact int real convex wid thr ser poly refp fp ints maxdim
#ifdef HAVE_boxD
  {"boxD",   "boxD",   box_manager_alloc__boxD,     false,true,true,true, true,true,false,false,false,true,false,6},
#endif
#ifdef HAVE_boxMPQ
  {"boxMPQ", "boxMPQ", box_manager_alloc__boxMPQ,   true, true,true,true, true,true,false,false,false,false,false,6},
#endif
#ifdef HAVE_boxMPFR
  {"boxMPFR","boxMPFR",box_manager_alloc__boxMPFR,  false,true,true,true, true,true,false,false,false,true,false,6},
#endif
#ifdef HAVE_octD
  {"octD",   "octD",   oct_manager_alloc__octD,     false,true,true,true, true,true,true, false,false,true,false,5},
#endif
#ifdef HAVE_octMPQ
  {"octMPQ", "octMPQ", oct_manager_alloc__octMPQ,   true, true,true,true, true,true,true, false,false,false,false,5},
#endif
#ifdef HAVE_octMPFR
  {"octMPFR","octMPFR",oct_manager_alloc__octMPFR,  false,true,true,true, true,true,true, false,false,true,false,5},
#endif
#ifdef HAVE_octDl
  {"octDl",  "octDl",  oct_manager_alloc__octDl,    false,true,true,true, true,true,true, false,false,true,false,5},
#endif
#ifdef HAVE_octMPZ
  {"octMPZ", "octMPZ", oct_manager_alloc__octMPZ,   false,true,true,true,true,true,true, false,false,false,true,5},
#endif
#ifdef HAVE_octIll
  {"octIll", "octIll", oct_manager_alloc__octIll,   false,true,true,true,true,true,true, false,false,false,true,5},
#endif
#ifdef HAVE_octRll
  {"octRll", "octRll", oct_manager_alloc__octRll,   false,true,true,true, true,true,true, false,false,false,true,5},
#endif
#ifdef HAVE_avoD
  {"avoD",   "avoD",   avo_manager_alloc__avoD,     false,true,true,false,true,true,true, false,false,true,false,4},
#endif
#ifdef HAVE_avoMPQ
  {"avoMPQ", "avoMPQ", avo_manager_alloc__avoMPQ,   true, true,true,false,true,true,true, false,false,false,false,4},
#endif
#ifdef HAVE_avoMPZ
  {"avoMPZ", "avoMPZ", avo_manager_alloc__avoMPZ,   false,true,true,false,true,true,true, false,false,false,true,4},
#endif
#ifdef HAVE_avoIll
  {"avoIll", "avoIll", avo_manager_alloc__avoIll,   false,true,true,false,true,true,true, false,false,false,true,4},
#endif
#ifdef HAVE_avoMPFR
  {"avoMPFR","avoMPFR",avo_manager_alloc__avoMPFR,  false,true,true,false,true,true,true, false,false,true,false,4},
#endif
#ifdef HAVE_polkaMPQ
  {"polka",  "polkaMPQ",mk_pk,                      true, true,true,true, true,true,false,true, true, false,false,5},
  {"polkaS", "polkaMPQ",mk_pks,                     true, true,true,true, true,true,false,true, true, false,false,5},
  {"pkeq",   "polkaMPQ",pkeq_manager_alloc,         true, true,true,true, true,false,false,true, false,false,false,5},
#endif
#ifdef HAVE_ppl
  {"ppl",    "ppl",    mk_ppl,                      true, true,true,true, true,true,false,false,true, false,false,5},
  {"pplS",   "ppl",    mk_ppls,                     true, true,true,true, true,true,false,false,true, false,false,5},
  {"grid",   "ppl",    ap_ppl_grid_manager_alloc,   true, true,true,false,true,false,false,false,false,false,false,5},
#endif
#ifdef HAVE_pkgrid
  {"pkgrid", "pkgrid", mk_pkgrid,                   false,true,true,false,true,false,false,false,false,false,false,4},
#endif
#ifdef HAVE_t1pD
  {"t1pD",   "t1pD",   t1p_manager_alloc__t1pD,     false,true,true,false,true,false,false,false,false,true,false,4},
#endif
#ifdef HAVE_t1pMPQ
  {"t1pMPQ", "t1pMPQ", t1p_manager_alloc__t1pMPQ,   false,true,true,false,true,false,false,false,false,true,false,4},
#endif
#ifdef HAVE_t1pMPFR
  {"t1pMPFR","t1pMPFR",t1p_manager_alloc__t1pMPFR,  false,true,true,false,true,false,false,false,false,true,false,4},
#endif
#ifdef HAVE_fppD
  {"fppD",   "fppD",   fpp_manager_alloc__fppD,     false,true,true,true, true,false,false,false,false,true,false,4},
#endif
  };
  return v;
}
const Dom* dom(const string& n){ for(auto&d:domains()) if(n==d.name) return &d; return nullptr; }
void clear_exc(ap_manager_t* m){ ap_exclog_free(m->result.exclog); m->result.exclog=NULL; m->result.exn=AP_EXC_NONE; }
vector<ExcRec> take_exc(ap_manager_t* m){
  vector<ExcRec> v; for(ap_exclog_t* e=m->result.exclog;e;e=e->tail) v.push_back({(int)e->exn,(int)e->funid,e->msg?e->msg:""});
  clear_exc(m); return v;
}
void pk_set_approx(ap_manager_t* m,size_t size){
#ifdef HAVE_polkaMPQ
  pk_set_approximate_max_coeff_size(pk_manager_get_internal(m),size);
#endif
}
void pk_set_limits(ap_manager_t* m,size_t coeff,size_t obj){
#ifdef HAVE_polkaMPQ
  pk_set_max_coeff_size(pk_manager_get_internal(m),coeff);
#endif
  for(int i=1;i<AP_FUNID_SIZE;i++){ ap_funopt_t o=ap_manager_get_funopt(m,(ap_funid_t)i); o.max_object_size=obj; ap_manager_set_funopt(m,(ap_funid_t)i,&o); }
}
