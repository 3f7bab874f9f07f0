#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include "ap_global0.h"
#include "pk.h"
#include "pkeq.h"
#include "oct.h"
#include "box.h"
static int bad=0;
#define CHECK(c) do{ if(!(c)){ printf("FAILED: %s (line %d)\n",#c,__LINE__); bad=1; } }while(0)
static void noabort(ap_manager_t* m){ for(int i=0;i<AP_EXC_SIZE;i++) ap_manager_set_abort_if_exception(m,i,false); }
/* c0*x0+...+c(n-1)*x(n-1)+cst TYP 0 */
static ap_lincons0_t cons(int typ,int n,const double* c,double cst){
  ap_linexpr0_t* e=ap_linexpr0_alloc(AP_LINEXPR_DENSE,n);
  for(int i=0;i<n;i++) ap_coeff_set_scalar_double(&e->p.coeff[i],c[i]);
  ap_coeff_set_scalar_double(&e->cst,cst);
  return ap_lincons0_make(typ,e,NULL); }
static ap_linexpr0_t* lin(int n,const double* c,double cst){ ap_lincons0_t l=cons(AP_CONS_SUPEQ,n,c,cst); return l.linexpr0; }
static ap_abstract0_t* meet1(ap_manager_t* m,ap_abstract0_t* a,int typ,int n,const double* c,double cst){
  ap_lincons0_array_t t=ap_lincons0_array_make(1); t.p[0]=cons(typ,n,c,cst);
  ap_abstract0_t* r=ap_abstract0_meet_lincons_array(m,true,a,&t); ap_lincons0_array_clear(&t); return r; }
static bool sat(ap_manager_t* m,ap_abstract0_t* a,int typ,int n,const double* c,double cst){
  ap_lincons0_t l=cons(typ,n,c,cst); bool r=ap_abstract0_sat_lincons(m,a,&l); ap_lincons0_clear(&l); return r; }
/* is the point still allowed? */
static bool has(ap_manager_t* m,ap_abstract0_t* a,int n,const double* p){
  ap_abstract0_t* b=ap_abstract0_copy(m,a); double c[16];
  for(int i=0;i<n;i++){ for(int j=0;j<n;j++) c[j]=i==j; b=meet1(m,b,AP_CONS_EQ,n,c,-p[i]); }
  bool r=!ap_abstract0_is_bottom(m,b); ap_abstract0_free(m,b); return r; }
#define V(...) ((const double[]){__VA_ARGS__})
static void limits(ap_manager_t* m,size_t coeff,size_t obj){ pk_set_max_coeff_size(pk_manager_get_internal(m),coeff);
  for(int i=1;i<AP_FUNID_SIZE;i++){ ap_funopt_t o=ap_manager_get_funopt(m,i); o.max_object_size=obj; ap_manager_set_funopt(m,i,&o); } }
/* deterministic pseudo-random generator */
static unsigned long long rs_=88172645463325252ULL;
static unsigned rnd(unsigned n){ rs_^=rs_<<13; rs_^=rs_>>7; rs_^=rs_<<17; return n?(unsigned)((rs_>>11)%n):0; }
static ap_abstract0_t* rebuild(ap_manager_t* m,ap_abstract0_t* a){ ap_abstract0_t* c=ap_abstract0_copy(m,a); ap_lincons0_array_t t=ap_abstract0_to_lincons_array(m,c);
  ap_dimension_t d=ap_abstract0_dimension(m,c); ap_abstract0_t* r=ap_abstract0_of_lincons_array(m,d.intdim,d.realdim,&t); ap_lincons0_array_clear(&t); ap_abstract0_free(m,c); return r; }
static ap_lincons0_array_t rndcons(int k,int n,int maxc,int maxk,int oct){ ap_lincons0_array_t t=ap_lincons0_array_make(k);
  for(int i=0;i<k;i++){ double c[16]; for(int j=0;j<n;j++) c[j]=0; if(oct){ c[rnd(n)]=rnd(2)?1:-1; c[rnd(n)]=rnd(2)?1:-1; } else for(int j=0;j<n;j++) if(rnd(2)) c[j]=(int)rnd(2*maxc+1)-maxc;
    t.p[i]=cons(rnd(6)?AP_CONS_SUPEQ:AP_CONS_EQ,n,c,(int)rnd(2*maxk+1)-(rnd(3)?maxk/4:maxk)); } return t; }
