#include "expr.hpp"
void scalar_set(ap_scalar_t* s,const Ext& e,int repr){
  if(e.inf){ ap_scalar_set_infty(s,e.inf); return; }
  if(repr==R_DBL){ double d=e.v.get_d(); if(Q(d)==e.v){ ap_scalar_set_double(s,d); return; } }
  if(repr==R_MPFR){ mpfr_t f; mpfr_init2(f,200); if(mpfr_set_q(f,e.v.get_mpq_t(),MPFR_RNDN)==0){ ap_scalar_set_mpfr(s,f); mpfr_clear(f); return; } mpfr_clear(f); }
  Q t=e.v; ap_scalar_set_mpq(s,t.get_mpq_t());
}
bool scalar_get(const ap_scalar_t* s,Ext& e){
  e=Ext(); int i=ap_scalar_infty((ap_scalar_t*)s); if(i){ e.inf=i; return true; }
  switch(s->discr){
  case AP_SCALAR_DOUBLE: if(s->val.dbl!=s->val.dbl) return false; e.v=Q(s->val.dbl); return true;
  case AP_SCALAR_MPQ: mpq_set(e.v.get_mpq_t(),s->val.mpq); e.v.canonicalize(); return true;
  case AP_SCALAR_MPFR: if(mpfr_nan_p(s->val.mpfr)) return false; mpfr_get_q(e.v.get_mpq_t(),s->val.mpfr); return true;
  } return false;
}
ap_interval_t* mk_interval(const Ext&lo,const Ext&hi,int repr){ ap_interval_t* i=ap_interval_alloc(); scalar_set(i->inf,lo,repr); scalar_set(i->sup,hi,repr); return i; }
void coeff_set(ap_coeff_t* c,const Coef& k){
  if(!k.itv){ ap_coeff_reinit(c,AP_COEFF_SCALAR,AP_SCALAR_DOUBLE); scalar_set(c->val.scalar,k.lo,k.repr); }
  else { ap_coeff_reinit(c,AP_COEFF_INTERVAL,AP_SCALAR_DOUBLE); scalar_set(c->val.interval->inf,k.lo,k.repr); scalar_set(c->val.interval->sup,k.hi,k.repr); }
}
void coeff_bounds(const ap_coeff_t* c,Ext& lo,Ext& hi){
  if(c->discr==AP_COEFF_SCALAR){ if(!scalar_get(c->val.scalar,lo)) lo=Ext::minf(); hi=lo; }
  else { if(!scalar_get(c->val.interval->inf,lo)) lo=Ext::minf(); if(!scalar_get(c->val.interval->sup,hi)) hi=Ext::pinf(); }
}
static Ext eadd(const Ext&a,const Ext&b){ if(a.inf) return a; if(b.inf) return b; return Ext(a.v+b.v); }
static Ext emulq(const Ext&a,const Q& k){ if(k==0) return Ext(Q(0)); if(a.inf){ Ext r; r.inf=a.inf*(k>0?1:-1); return r; } return Ext(a.v*k); }
void LinE::bounds(const Pt& p,Ext& lo,Ext& hi) const {
  lo=c.lo; hi=c.hi;
  for(auto&x:t){ Ext l=emulq(x.second.lo,p[x.first]), h=emulq(x.second.hi,p[x.first]); if(p[x.first]<0) std::swap(l,h); lo=eadd(lo,l); hi=eadd(hi,h); }
}
bool cons_may(const Cons& c,const Pt& p){
  Ext lo,hi; c.e.bounds(p,lo,hi);
  switch(c.typ){
  case AP_CONS_EQ: return ecmp(lo,Ext(Q(0)))<=0 && ecmp(hi,Ext(Q(0)))>=0;
  case AP_CONS_SUPEQ: return ecmp(hi,Ext(Q(0)))>=0;
  case AP_CONS_SUP: return ecmp(hi,Ext(Q(0)))>0;
  case AP_CONS_DISEQ: return !(lo.inf==0&&hi.inf==0&&lo.v==0&&hi.v==0);
  case AP_CONS_EQMOD: { if(lo.inf||hi.inf) return true; if(c.mod==0) return lo.v<=0&&hi.v>=0; Q m=abs(c.mod); Q k=qceil(lo.v/m); return k*m<=hi.v; }
  } return true;
}
ap_linexpr0_t* mk_linexpr(const LinE& e,size_t dims){
  size_t spare=e.sparse&&e.c.repr%2?1+e.t.size():0; // sparse expressions with unused slots at the end (they stay valid)
  ap_linexpr0_t* l=ap_linexpr0_alloc(e.sparse?AP_LINEXPR_SPARSE:AP_LINEXPR_DENSE,e.sparse?spare:dims);
  for(auto&x:e.t) coeff_set(ap_linexpr0_coeffref(l,x.first),x.second);
  coeff_set(&l->cst,e.c); return l;
}
ap_lincons0_t mk_lincons(const Cons& c,size_t dims){
  ap_scalar_t* m=NULL; if(c.typ==AP_CONS_EQMOD){ m=ap_scalar_alloc(); scalar_set(m,Ext(c.mod),R_MPQ); }
  return ap_lincons0_make((ap_constyp_t)c.typ,mk_linexpr(c.e,dims),m);
}
ap_lincons0_array_t mk_lincons_array(const vector<Cons>& v,size_t dims){ ap_lincons0_array_t a=ap_lincons0_array_make(v.size()); for(size_t i=0;i<v.size();i++) a.p[i]=mk_lincons(v[i],dims); return a; }
LinE from_linexpr(const ap_linexpr0_t* e){
  LinE r; r.sparse=e->discr==AP_LINEXPR_SPARSE;
  auto cv=[](const ap_coeff_t* c){ Coef k; coeff_bounds(c,k.lo,k.hi); k.itv=(c->discr==AP_COEFF_INTERVAL)&&(ecmp(k.lo,k.hi)!=0); return k; };
  r.c=cv(&e->cst);
  for(size_t i=0;i<e->size;i++){ 
    const ap_coeff_t* c; ap_dim_t d;
    if(e->discr==AP_LINEXPR_DENSE){ d=i; c=&e->p.coeff[i]; } else { d=e->p.linterm[i].dim; c=&e->p.linterm[i].coeff; }
    if(d==AP_DIM_MAX) continue;
    if(ap_coeff_zero((ap_coeff_t*)c)) continue;
    r.t.push_back({(int)d,cv(c)});
  } return r;
}
Cons from_lincons(const ap_lincons0_t* c){ Cons k; k.typ=c->constyp; k.e=from_linexpr(c->linexpr0); if(c->scalar){ Ext e; if(scalar_get(c->scalar,e)&&!e.inf) k.mod=e.v; } return k; }
static string coefs(const Coef&c){ if(!c.itv) return es(c.lo); return "["+es(c.lo)+","+es(c.hi)+"]"; }
string lins(const LinE& e){ string s; for(auto&x:e.t) s+=coefs(x.second)+"*x"+std::to_string(x.first)+" + "; return s+coefs(e.c); }
string conss(const Cons& c){ static const char* n[]={"=0",">=0",">0","=0 mod","!=0"}; string s=lins(c.e)+" "+n[c.typ]; if(c.typ==AP_CONS_EQMOD) s+=" "+qs(c.mod); return s; }

ap_texpr0_t* mk_texpr(const TexE& e){
  if(e.kind==0){ ap_coeff_t* c=ap_coeff_alloc(AP_COEFF_SCALAR); coeff_set(c,e.c); ap_texpr0_t* t=ap_texpr0_cst(c); ap_coeff_free(c); return t; }
  if(e.kind==1) return ap_texpr0_dim(e.dim);
  if(e.b) return ap_texpr0_binop((ap_texpr_op_t)e.op,mk_texpr(*e.a),mk_texpr(*e.b),(ap_texpr_rtype_t)e.rt,(ap_texpr_rdir_t)e.rd);
  return ap_texpr0_unop((ap_texpr_op_t)e.op,mk_texpr(*e.a),(ap_texpr_rtype_t)e.rt,(ap_texpr_rdir_t)e.rd);
}
string texs(const TexE& e){
  static const char* on[]={"+","-","*","/","%","^","neg","cast","sqrt"}; static const char* tn[]={"","i","f","d","l","q"}; static const char* dn[]={"n","0","u","d","?"};
  if(e.kind==0) return coefs(e.c); if(e.kind==1) return "x"+std::to_string(e.dim);
  int rd=0; switch(e.rd){case AP_RDIR_NEAREST:rd=0;break;case AP_RDIR_ZERO:rd=1;break;case AP_RDIR_UP:rd=2;break;case AP_RDIR_DOWN:rd=3;break;default:rd=4;}
  string o=string(on[e.op])+tn[e.rt]+(e.rt?dn[rd]:"");
  if(e.b) return "("+texs(*e.a)+" "+o+" "+texs(*e.b)+")"; return o+"("+texs(*e.a)+")";
}
optional<Q> round_to(const Q& x,int rt,int rd,Rng& r){
  if(rt==AP_RTYPE_REAL) return x;
  if(rd==AP_RDIR_RND){ static const int all[]={AP_RDIR_NEAREST,AP_RDIR_ZERO,AP_RDIR_UP,AP_RDIR_DOWN}; rd=all[r.below(4)]; }
  if(rt==AP_RTYPE_INT){
    switch(rd){
    case AP_RDIR_ZERO: return qtrunc(x); case AP_RDIR_UP: return qceil(x); case AP_RDIR_DOWN: return qfloor(x);
    default: { Q f=qfloor(x), d=x-f; if(d<q(1,2)) return f; if(d>q(1,2)) return Q(f+1); mpz_class n=f.get_num(); return mpz_even_p(n.get_mpz_t())? f : Q(f+1); } }
  }
  int prec,emin,emax; switch(rt){ case AP_RTYPE_SINGLE:prec=24;emin=-148;emax=128;break; case AP_RTYPE_DOUBLE:prec=53;emin=-1073;emax=1024;break; case AP_RTYPE_EXTENDED:prec=64;emin=-16444;emax=16384;break; default:prec=113;emin=-16493;emax=16384; }
  // an operation that overflows its format has no specified value: such points are not followed
  if(x!=0 && (long)mpz_sizeinbase(x.get_num_mpz_t(),2)-(long)mpz_sizeinbase(x.get_den_mpz_t(),2)>=emax-1) return {};
  mpfr_rnd_t m = rd==AP_RDIR_ZERO?MPFR_RNDZ: rd==AP_RDIR_UP?MPFR_RNDU: rd==AP_RDIR_DOWN?MPFR_RNDD:MPFR_RNDN;
  mpfr_exp_t oemin=mpfr_get_emin(),oemax=mpfr_get_emax(); mpfr_set_emin(emin); mpfr_set_emax(emax);
  mpfr_t f; mpfr_init2(f,prec); int i=mpfr_set_q(f,x.get_mpq_t(),m); i=mpfr_check_range(f,i,m); mpfr_subnormalize(f,i,m);
  optional<Q> res; if(mpfr_number_p(f)){ Q v; mpfr_get_q(v.get_mpq_t(),f); res=v; }
  mpfr_clear(f); mpfr_set_emin(oemin); mpfr_set_emax(oemax); return res;
}
optional<Q> tex_eval(const TexE& e,const Pt& p,Rng& r){
  if(e.kind==0) return e.c.pick(r);
  if(e.kind==1) return p[e.dim];
  auto a=tex_eval(*e.a,p,r); if(!a) return {}; optional<Q> b; if(e.b){ b=tex_eval(*e.b,p,r); if(!b) return {}; }
  Q v;
  switch(e.op){
  case AP_TEXPR_ADD: v=*a+*b; break; case AP_TEXPR_SUB: v=*a-*b; break; case AP_TEXPR_MUL: v=*a * *b; break;
  case AP_TEXPR_DIV: if(*b==0) return {}; v=*a / *b; break;
  case AP_TEXPR_MOD: if(*b==0) return {}; { Q m=abs(*b); v=*a-m*qtrunc(*a/m); } return v;
  case AP_TEXPR_POW: { if(!isint(*b)||*b<0||*b>8) return {}; long n=b->get_num().get_si(); v=1; for(long i=0;i<n;i++) v*=*a; break; }
  case AP_TEXPR_NEG: return Q(-*a);
  case AP_TEXPR_CAST: v=*a; break;
  case AP_TEXPR_SQRT: { if(*a<0) return {}; mpz_class n,d; if(mpz_perfect_square_p(a->get_num_mpz_t())&&mpz_perfect_square_p(a->get_den_mpz_t())){ mpz_sqrt(n.get_mpz_t(),a->get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(),a->get_den_mpz_t()); v=Q(n,d); v.canonicalize(); break; }
      if(e.rt==AP_RTYPE_REAL||e.rt==AP_RTYPE_INT) return {}; // irrational: not representable as an exact point
      // correctly rounded square root in the target format, via directed bounds at high precision
      mpfr_t f; mpfr_init2(f,400); mpfr_set_q(f,a->get_mpq_t(),MPFR_RNDD); mpfr_sqrt(f,f,MPFR_RNDD); mpfr_get_q(v.get_mpq_t(),f); mpfr_clear(f); break; }
  }
  if(qbits(v)>2000) return {};
  return round_to(v,e.rt,e.rd,r);
}
bool tex_maybe_int(const TexE& e,int intdim){
  if(e.kind==0) return !e.c.itv && isint(e.c.lo.v);
  if(e.kind==1) return e.dim<intdim;
  if(e.rt==AP_RTYPE_INT) return true;
  switch(e.op){ case AP_TEXPR_NEG: return tex_maybe_int(*e.a,intdim); case AP_TEXPR_ADD: case AP_TEXPR_SUB: case AP_TEXPR_MUL: return e.rt==AP_RTYPE_REAL&&tex_maybe_int(*e.a,intdim)&&tex_maybe_int(*e.b,intdim); }
  return false;
}
static std::shared_ptr<TexE> sp(const TexE& t){ return std::make_shared<TexE>(t); }
static TexE tnode(int op,const TexE&a,const TexE&b,int rt=AP_RTYPE_REAL,int rd=AP_RDIR_RND){ TexE t; t.kind=2; t.op=op; t.a=sp(a); t.b=sp(b); t.rt=rt; t.rd=rd; return t; }
static TexE tun(int op,const TexE&a,int rt=AP_RTYPE_REAL,int rd=AP_RDIR_RND){ TexE t; t.kind=2; t.op=op; t.a=sp(a); t.rt=rt; t.rd=rd; return t; }
static TexE tcst(const Coef&c){ TexE t; t.kind=0; t.c=c; return t; }
static TexE tdim(int d){ TexE t; t.kind=1; t.dim=d; return t; }
TexE tex_of_lin(const LinE& e){ TexE s=tcst(e.c); for(auto&x:e.t) s=tnode(AP_TEXPR_ADD,s,tnode(AP_TEXPR_MUL,tcst(x.second),tdim(x.first))); return s; }

static Coef scale(const Coef& c,const Q& k){ if(!c.itv) return Coef(Q(c.lo.v*k)); Ext l=c.lo,h=c.hi; l.v*=k; h.v*=k; if(k<0){ l.inf=-l.inf; h.inf=-h.inf; std::swap(l,h); } Coef o(Q(0)); o.itv=true; o.lo=l; o.hi=h; return o; }
static Coef plus(const Coef& a,const Coef& b){ if(!a.itv&&!b.itv) return Coef(Q(a.lo.v+b.lo.v)); Ext al=a.lo,ah=a.itv?a.hi:a.lo,bl=b.lo,bh=b.itv?b.hi:b.lo; Coef o(Q(0)); o.itv=true; o.lo=al.inf||bl.inf?Ext::minf():Ext(Q(al.v+bl.v)); o.hi=ah.inf||bh.inf?Ext::pinf():Ext(Q(ah.v+bh.v)); return o; }
optional<LinE> tex_lin(const TexE& e){
  LinE o; o.c=Coef(Q(0));
  if(e.kind==0){ const Coef&c=e.c; if(!c.itv&&c.lo.inf) return {}; if(c.itv&&(c.lo.inf>0||c.hi.inf<0||(!c.lo.inf&&!c.hi.inf&&c.lo.v>c.hi.v))) return {}; o.c=c; return o; }
  if(e.kind==1){ o.t.push_back({e.dim,Coef(Q(1))}); return o; }
  if(e.rt!=AP_RTYPE_REAL) return {};
  auto a=tex_lin(*e.a); if(!a) return {};
  auto times=[&](const LinE& x,const Q& k)->optional<LinE>{ LinE y; if(k==0&&x.c.itv) return {}; y.c=scale(x.c,k); for(auto&t:x.t) y.t.push_back({t.first,Coef(Q(t.second.lo.v*k))}); return y; };
  auto cst=[&](const LinE& x,Q& k){ for(auto&t:x.t) if(t.second.lo.v!=0) return false; if(x.c.itv) return false; k=x.c.lo.v; return true; };
  if(e.op==AP_TEXPR_NEG) return times(*a,Q(-1));
  if(e.op!=AP_TEXPR_ADD&&e.op!=AP_TEXPR_SUB&&e.op!=AP_TEXPR_MUL&&e.op!=AP_TEXPR_DIV) return {};
  auto b=tex_lin(*e.b); if(!b) return {}; Q k;
  if(e.op==AP_TEXPR_MUL){ if(cst(*b,k)) return times(*a,k); if(cst(*a,k)) return times(*b,k); return {}; }
  if(e.op==AP_TEXPR_DIV){ if(cst(*b,k)&&k!=0) return times(*a,Q(1/k)); return {}; }
  if(e.op==AP_TEXPR_SUB){ b=times(*b,Q(-1)); if(!b) return {}; }
  map<int,Q> m; for(auto&t:a->t) m[t.first]+=t.second.lo.v; for(auto&t:b->t) m[t.first]+=t.second.lo.v; for(auto&x:m) o.t.push_back({x.first,Coef(x.second)}); o.c=plus(a->c,b->c); return o;
}

Q gen_q(Rng& r,const GenCfg& g,bool integer){
  int k=r.below(10);
  long n = k<5? r.range(-4,4) : k<8? r.range(-20,20) : r.range(-g.maxc*8,g.maxc*8);
  if(g.bigc && r.p(15)){ mpz_class b=r.range(1,1000); b<<= r.range(1,90); if(r.p(50)) b=-b; if(integer||r.p(50)) return Q(b); Q x(b,r.range(2,999)); x.canonicalize(); return x; }
  if(integer||r.p(55)) return q(n);
  if(g.dyadic) return q(n,1L<<r.range(0,4));
  static const int dens[]={2,3,4,5,7,10}; return q(n,dens[r.below(6)]);
}
Coef gen_coef(Rng& r,const GenCfg& g,bool integer){
  Coef c(gen_q(r,g,integer),r.pick(g.reprs));
  if(r.p(g.itvpct)){ c.itv=true; Q w=abs(gen_q(r,g,integer)); c.hi=Ext(c.lo.v+w); if(r.p(8)) c.hi=Ext::pinf(); else if(r.p(8)){ c.lo=Ext::minf(); } }
  return c;
}
LinE gen_lin(Rng& r,const GenCfg& g,int shape){
  LinE e; int n=g.intdim+g.realdim; e.sparse=r.p(50);
  if(n){
    if(shape==2||shape==1){ int k= shape==2?1: r.range(1,std::min(2,n)); int d=r.below(n); Coef one(q(r.p(50)?1:-1),r.pick(g.reprs)); if(shape==2&&r.p(30)) one=Coef(gen_q(r,g,false),r.pick(g.reprs)); if(!(one.lo.v==0)) e.t.push_back({d,one});
      if(k==2){ int d2=(d+1+r.below(n-1))%n; e.t.push_back({d2,Coef(q(r.p(50)?1:-1),r.pick(g.reprs))}); } }
    else for(int d=0;d<n;d++) if(r.p(n<=2?70:45)){ Coef c=gen_coef(r,g,r.p(60)); if(c.itv||c.lo.v!=0) e.t.push_back({d,c}); }
  }
  std::sort(e.t.begin(),e.t.end(),[](const pair<int,Coef>&a,const pair<int,Coef>&b){return a.first<b.first;});
  e.c=gen_coef(r,g); return e;
}
TexE gen_tex(Rng& r,const GenCfg& g,int depth){
  int n=g.intdim+g.realdim;
  if(depth<=0||r.p(15)){ if(n&&r.p(65)) return tdim(r.below(n)); GenCfg h=g; return tcst(gen_coef(r,h)); }
  static const int rds[]={AP_RDIR_NEAREST,AP_RDIR_ZERO,AP_RDIR_UP,AP_RDIR_DOWN,AP_RDIR_RND};
  int rt=AP_RTYPE_REAL, rd=rds[r.below(5)];
  if(g.fltround&&r.p(35)){ static const int rts[]={AP_RTYPE_SINGLE,AP_RTYPE_DOUBLE,AP_RTYPE_SINGLE,AP_RTYPE_DOUBLE,AP_RTYPE_EXTENDED,AP_RTYPE_QUAD}; rt=rts[r.below(6)]; }
  TexE a=gen_tex(r,g,depth-1);
  int k=r.below(g.nonlin?12:6);
  if(k<=3||k==4){ TexE b=gen_tex(r,g,depth-1); int op=r.p(50)?AP_TEXPR_ADD:AP_TEXPR_SUB; if(rt==AP_RTYPE_REAL&&tex_maybe_int(a,g.intdim)&&tex_maybe_int(b,g.intdim)&&r.p(40)) rt=AP_RTYPE_INT; return tnode(op,a,b,rt,rd); }
  if(k==5) return tun(AP_TEXPR_NEG,a);
  if(k<=7){ TexE b=r.p(60)?tcst(gen_coef(r,g)):gen_tex(r,g,depth-1); if(rt==AP_RTYPE_REAL&&tex_maybe_int(a,g.intdim)&&tex_maybe_int(b,g.intdim)&&r.p(40)) rt=AP_RTYPE_INT; return tnode(AP_TEXPR_MUL,a,b,rt,rd); }
  if(k==8){ TexE b=r.p(60)?tcst(Coef(q(r.range(1,6)))):gen_tex(r,g,depth-1); if(rt==AP_RTYPE_REAL&&tex_maybe_int(a,g.intdim)&&tex_maybe_int(b,g.intdim)&&r.p(60)) rt=AP_RTYPE_INT; return tnode(AP_TEXPR_DIV,a,b,rt,rd); }
  if(k==9){ TexE b=r.p(70)?tcst(Coef(q(r.range(1,6)))):gen_tex(r,g,depth-1); int t=(tex_maybe_int(a,g.intdim)&&tex_maybe_int(b,g.intdim))?AP_RTYPE_INT:AP_RTYPE_REAL; return tnode(AP_TEXPR_MOD,a,b,t,rd); }
  if(k==10){ if(r.p(50)) return tun(AP_TEXPR_CAST,a,AP_RTYPE_INT,rd); return tun(AP_TEXPR_CAST,a,rt,rd); }
  if(r.p(50)){ TexE b=r.p(50)?tnode(AP_TEXPR_MUL,a,a):a; return tun(AP_TEXPR_SQRT,b,rt,rd); }
  return tnode(AP_TEXPR_POW,a,tcst(Coef(q(r.range(0,3)))),AP_RTYPE_REAL,rd);
}
Pt gen_pt(Rng& r,const GenCfg& g){ Pt p; for(int i=0;i<g.intdim+g.realdim;i++) p.push_back(gen_q(r,g,i<g.intdim)); return p; }
