// One step of a history: choose arguments, predict the effect on the known points and on the
// exact reference, run the operation in every universe, and check the outcome.
#include "hist.hpp"
#include <fenv.h>
static const size_t WCAP=8;
static void addw(vector<Pt>& w,const Pt& p){ for(auto&x:p) if(qbits(x)>600) return; if(w.size()>=WCAP) return; for(auto&x:w) if(x==p) return; w.push_back(p); }
static bool is(const Dom* d,const char* s){ return strcmp(d->name,s)==0; }
static bool pre(const Dom* d,const char* s){ return strncmp(d->name,s,strlen(s))==0; }
vector<Pt> Run::midpoints(const Slot& s,const vector<Pt>& w,Rng& r){ // points of the convex hull, integer coordinates kept integral
  vector<Pt> o; const Dom* D=U[0].d; if(!D->convex||pre(D,"t1p")||w.size()<2) return o;
  for(int k=0;k<2;k++){ const Pt&a=w[r.below(w.size())],&b=w[r.below(w.size())]; Q t=q(r.range(1,3),4); Pt p; bool ok=true; for(int i=0;i<s.n();i++){ Q x=a[i]+(b[i]-a[i])*t; if(i<s.id&&!isint(x)) ok=false; p.push_back(x); } if(ok) o.push_back(p); }
  return o;
}
void Run::put(int d,const Slot& R,vector<ap_abstract0_t*> vals){
  for(size_t i=0;i<U.size();i++){ if(U[i].v[d]) ap_abstract0_free(U[i].man,U[i].v[d]); U[i].v[d]=vals[i]; U[i].shadow[d]=Ref(); }
  M[d]=R; M[d].live=true;
}
static vector<int> distinct(Rng& r,int n,int k){ vector<int> a; for(int i=0;i<n;i++) a.push_back(i); for(int i=n-1;i>0;i--) std::swap(a[i],a[r.below(i+1)]); a.resize(std::min(n,k)); return a; }
void Run::step(const Op& op){
  cur=&op; Rng r(op.seed); const Dom* D=U[0].d; Slot R; vector<int> xs; Args A; bool grid=is(D,"grid")||is(D,"pkgrid");
  g_lastop=OPN[op.k];
  if(op.k>=O_MAINT){ special(op); return; }
  int d=slot(op.d);
  if(op.k<=O_CONS){ R.id=gc.intdim; R.rd=gc.realdim; if(M[d].live&&r.p(25)){ R.id=M[d].id; R.rd=M[d].rd; } }
  else {
    int a=live(op.a); if(a<0) return; xs.push_back(a);
    if(op.k==O_FREE){ for(auto&u:U){ ap_abstract0_free(u.man,u.v[a]); u.v[a]=nullptr; u.shadow[a]=Ref(); } M[a]=Slot(); LOG("free s%d",a); return; }
    R=M[a];
    bool two= op.k==O_MEET||op.k==O_JOIN||op.k==O_WIDEN||op.k==O_WIDENTH;
    if(two){ int b=(op.fl&1)?a:live_like(op.b,M[a]); xs.push_back(b); }
    if(op.k==O_MEETARR||op.k==O_JOINARR){ int k=r.range(1,4); for(int i=1;i<k;i++) xs.push_back(r.p(20)?a:live_like(i==1?op.b:op.c+i,M[a])); }
  }
  if(flagmode){ for(int s:xs) if(M[s].id==0){ auto t=sys(U[0],man2,U[0].v[s]); clear_exc(man2); M[s].refok=(bool)t; if(t) M[s].ref=*t; } if(!xs.empty()){ R.ref=M[xs[0]].ref; R.refok=M[xs[0]].refok; } }
  GenCfg g=cfg_for(R); int n=R.n(); vector<Pt> W=R.w; vector<Pt> nw; bool refdone=true; Ref ref=R.refok?ref_copy(R.ref):Ref(); bool resync=false;
  bool strict=is(D,"polkaS")||is(D,"pplS");
  auto mayrefok=[&]{ return useref&&R.id==0; };
  switch(op.k){
  case O_TOP: for(int i=0;i<3;i++) addw(nw,gen_pt(r,g)); ref=mayrefok()?ref_univ(n):Ref(); break;
  case O_BOTTOM: ref=mayrefok()?ref_univ(n,true):Ref(); break;
  case O_BOX: { vector<Pt> ps; int k=r.range(1,3); for(int i=0;i<k;i++) ps.push_back(gen_pt(r,g)); vector<Cons> cs;
      for(int i=0;i<n;i++){ Ext lo(ps[0][i]),hi(ps[0][i]); for(auto&p:ps){ if(p[i]<lo.v) lo=Ext(p[i]); if(p[i]>hi.v) hi=Ext(p[i]); } if(r.p(40)) hi=Ext(hi.v+abs(gen_q(r,g,i<g.intdim))); if(r.p(40)) lo=Ext(lo.v-abs(gen_q(r,g,i<g.intdim))); if(r.p(15)) lo=Ext::minf(); if(r.p(15)) hi=Ext::pinf();
        A.box.push_back({lo,hi}); A.boxc.push_back(Coef(Q(0),r.pick(g.reprs))); LinE e; e.t.push_back({i,Coef(q(1))}); if(!lo.inf){ Cons c; c.e=e; c.e.c=Coef(Q(-lo.v)); cs.push_back(c);} if(!hi.inf){ Cons c; c.e.t.push_back({i,Coef(q(-1))}); c.e.c=Coef(hi.v); cs.push_back(c); } }
      for(auto&p:ps) addw(nw,p); for(auto&p:midpoints(R,ps,r)) if(!grid||true) addw(nw,p);
      if(grid){ nw.clear(); for(auto&p:ps) addw(nw,p); }
      if(mayrefok()){ ref=ref_univ(n); ref_add(ref,cs,true); } break; }
  case O_CONS: case O_MEETLIN: {
      if(op.k==O_CONS){ R.w.clear(); int k=r.range(1,4); for(int i=0;i<k;i++) addw(R.w,gen_pt(r,g)); W=R.w; ref=mayrefok()?ref_univ(n):Ref(); }
      int k= op.k==O_CONS? r.range(1,n+3): r.p(70)?r.range(1,2):r.range(0,n+2); for(int i=0;i<k;i++) A.cons.push_back(gen_cons(r,R));
      for(auto&p:W){ bool ok=true; for(auto&c:A.cons) if(!cons_may(c,p)) ok=false; if(ok) addw(nw,p); }
      if(ref){ if(!ref_add(ref,A.cons,!strict)) resync=true; } break; }
  case O_COPY: nw=W; break;
  case O_MEET: case O_MEETARR: { for(auto&p:W){ bool ok=true; for(size_t i=1;i<xs.size();i++){ bool in=false; for(auto&y:M[xs[i]].w) if(y==p) in=true; if(!in) ok=false; } if(ok) addw(nw,p); }
      for(size_t i=1;i<xs.size();i++){ if(ref&&M[xs[i]].refok) ref=ref_meet(ref,M[xs[i]].ref); else resync=true; } break; }
  case O_JOIN: case O_JOINARR: { vector<Pt> all; size_t cap=WCAP/xs.size(); for(int s:xs){ size_t c=0; for(auto&p:M[s].w) if(c++<std::max<size_t>(cap,2)) addw(all,p); } nw=all; if(D->convex&&!grid) for(auto&p:midpoints(R,all,r)) addw(nw,p);
      for(size_t i=1;i<xs.size();i++){ if(ref&&M[xs[i]].refok) ref=ref_hull(ref,M[xs[i]].ref); else resync=true; } break; }
  case O_WIDEN: case O_WIDENTH: { // usual protocol: widen the old value with its join with the new one
      vector<Pt> all; for(int s:xs) for(auto&p:M[s].w) addw(all,p); nw=all; resync=true; if(op.k==O_WIDENTH){ int k=r.range(0,4); for(int i=0;i<k;i++){ Cons c=gen_cons(r,R); if(c.typ!=AP_CONS_SUPEQ&&c.typ!=AP_CONS_SUP) c.typ=AP_CONS_SUPEQ; for(auto&x:c.e.t) if(x.second.itv) x.second=Coef(q(1)); if(c.e.c.itv) c.e.c=Coef(Q(0)); A.cons.push_back(c); } } break; }
  case O_MEETTC: { int k=r.range(1,2); for(int i=0;i<k;i++){ TexE e; int typ=r.p(70)?AP_CONS_SUPEQ:r.p(50)?AP_CONS_EQ:r.p(50)?AP_CONS_SUP:AP_CONS_DISEQ;
        if(r.p(30)){ Cons c=gen_cons(r,R); e=tex_of_lin(c.e); typ=c.typ==AP_CONS_EQMOD?AP_CONS_EQ:c.typ; }
        else { e=gen_tex(r,g,3); if(!W.empty()&&r.p(80)){ const Pt& p=W[r.below(W.size())]; auto v=tex_eval(e,p,r); if(v&&qbits(*v)<200){ TexE t; t.kind=2; t.op=AP_TEXPR_SUB; t.a=std::make_shared<TexE>(e); TexE c; Q off=typ==AP_CONS_EQ?Q(0):Q(abs(gen_q(r,g))); c.c=Coef(Q(*v-off)); t.b=std::make_shared<TexE>(c); t.rt=AP_RTYPE_REAL; t.rd=AP_RDIR_RND; e=t; } } }
        A.tex.push_back(e); A.tcops.push_back(typ); }
      for(auto&p:W){ bool ok=true; for(size_t i=0;i<A.tex.size();i++){ auto v=tex_eval(A.tex[i],p,r); if(!v){ ok=false; break; } int t=A.tcops[i]; if(!(t==AP_CONS_EQ?*v==0:t==AP_CONS_SUPEQ?*v>=0:t==AP_CONS_SUP?*v>0:*v!=0)){ ok=false; break; } } if(ok) addw(nw,p); }
      resync=true; if(flagmode&&ref){ vector<Cons> cs; bool ok=true; for(size_t i=0;i<A.tex.size();i++){ auto l=tex_lin(A.tex[i]); if(!l||(A.tcops[i]!=AP_CONS_EQ&&A.tcops[i]!=AP_CONS_SUPEQ&&A.tcops[i]!=AP_CONS_SUP)){ ok=false; break; } Cons c; c.e=*l; c.typ=A.tcops[i]; cs.push_back(c); } if(ok&&ref_add(ref,cs,!strict)) resync=false; } break; }
  case O_ADDRAY: { int k=r.range(1,2); nw=W; for(int i=0;i<k;i++){ LinE e; e.sparse=r.p(50); int ty=r.p(70)?AP_GEN_RAY:AP_GEN_LINE; for(int j=0;j<n;j++) if(r.p(60)){ Q x=gen_q(r,g,true); if(r.p(50)) x=q(r.range(-1,1)); if(x!=0) e.t.push_back({j,Coef(x,r.pick(g.reprs))}); } if(e.t.empty()&&n) e.t.push_back({(int)r.below(n),Coef(q(1))}); e.c=Coef(Q(0)); A.gens.push_back({ty,e});
        if(!W.empty()){ Pt p=W[r.below(W.size())]; Q l=ty==AP_GEN_RAY?q(r.range(0,9)):q(r.range(-9,9)); for(auto&x:e.t) p[x.first]+=l*x.second.lo.v; if(nw.size()>=WCAP-1&&!nw.empty()) nw.pop_back(); addw(nw,p); } }
      if(ref) ref=ref_rays(ref,A.gens); break; }
  case O_ASSIGN: case O_SUBST: case O_ASSIGNT: case O_SUBSTT: {
      if(!n) return; bool tex=op.k==O_ASSIGNT||op.k==O_SUBSTT, sub=op.k==O_SUBST||op.k==O_SUBSTT; int k=r.p(65)?1:r.range(1,std::min(3,n)); A.dims=distinct(r,n,k);
      for(int dd:A.dims){ if(tex){ TexE e; if(r.p(25)) e=tex_of_lin(gen_lin(r,g,0)); else e=gen_tex(r,g,3); if(dd<R.id&&!tex_maybe_int(e,R.id)){ TexE t; t.kind=2; t.op=AP_TEXPR_CAST; t.a=std::make_shared<TexE>(e); t.rt=AP_RTYPE_INT; static const int rds[]={AP_RDIR_ZERO,AP_RDIR_UP,AP_RDIR_DOWN,AP_RDIR_NEAREST}; t.rd=rds[r.below(4)]; e=t; } A.tex.push_back(e); }
        else { LinE e=gen_lin(r,g,r.p(50)?0:r.p(50)?1:2); if(dd<R.id) { for(auto&x:e.t) if(!x.second.itv) x.second.lo.v=qfloor(x.second.lo.v); if(!e.c.itv) e.c.lo.v=qfloor(e.c.lo.v); }
               // make a useful share invertible (x := a*x + ..)
               if(r.p(40)){ bool has=false; for(auto&x:e.t) if(x.first==dd) has=true; if(!has){ e.t.push_back({dd,Coef(q(r.p(70)?1:-1))}); std::sort(e.t.begin(),e.t.end(),[](const pair<int,Coef>&a,const pair<int,Coef>&b){return a.first<b.first;}); } }
               A.lin.push_back(e); } }
      if((op.fl&2)){ int t=live_like(op.c,M[xs[0]],-1); if(t>=0){ xs.push_back(t); A.dest=t; } }
      auto eval=[&](size_t i,const Pt& p)->optional<Q>{ if(tex) return tex_eval(A.tex[i],p,r); for(auto&x:A.lin[i].t) if(x.second.itv&&(x.second.lo.inf&&x.second.hi.inf)){} return A.lin[i].eval(p,r); };
      auto allowed=[&](const Pt& p){ for(int i=0;i<R.id;i++) if(!isint(p[i])) return false; if(A.dest<0) return true; for(auto&y:M[A.dest].w) if(y==p) return true; return false; };
      if(!sub){ for(auto&p:W) for(int t=0;t<(int)(W.size()<4?2:1);t++){ Pt z=p; bool ok=true; for(size_t i=0;i<A.dims.size();i++){ auto v=eval(i,p); if(!v){ ok=false; break; } z[A.dims[i]]=*v; } if(ok&&allowed(z)) addw(nw,z); } }
      else {
        vector<Pt> cand=W; if(A.dest>=0) for(auto&p:M[A.dest].w) cand.push_back(p);
        auto inw=[&](const Pt& z){ for(auto&y:W) if(y==z) return true; return false; };
        for(auto&p:W){ // p' with p'[d:=e(p')] = p : free choice of p'[d] when e does not need it, else solve a single linear one
          if(!tex&&A.dims.size()==1&&A.lin[0].scalar()){ int dd=A.dims[0]; Q a=A.lin[0].coef(dd); Q rest=A.lin[0].c.lo.v; for(auto&x:A.lin[0].t) if(x.first!=dd) rest+=x.second.lo.v*p[x.first]; Pt z=p; if(a!=0){ z[dd]=(p[dd]-rest)/a; } else { if(rest!=p[dd]) continue; z[dd]=gen_q(r,g,dd<R.id); } cand.push_back(z); }
          else for(int t=0;t<2;t++){ Pt z=p; for(int dd:A.dims) z[dd]=gen_q(r,g,dd<R.id); cand.push_back(z); } }
        for(auto&z:cand){ Pt p=z; bool ok=true; for(size_t i=0;i<A.dims.size();i++){ auto v=eval(i,z); if(!v){ ok=false; break; } p[A.dims[i]]=*v; } if(ok&&inw(p)&&allowed(z)) addw(nw,z); } }
      if(tex&&flagmode){ A.lin.clear(); for(auto&t:A.tex){ auto l=tex_lin(t); if(!l) break; A.lin.push_back(*l); } if(A.lin.size()!=A.tex.size()) resync=true; else stat("tex.linear"); }
      if(tex&&(!flagmode||resync)) resync=true; else if(ref){ const Ref* dst=nullptr; if(A.dest>=0){ if(M[A.dest].refok) dst=&M[A.dest].ref; else resync=true; } if(!resync&&!ref_assign(ref,A.dims,A.lin,dst,sub)) resync=true; } break; }
  case O_FORGET: { if(!n) return; A.dims=distinct(r,n,r.range(1,n)); if(!r.p(20)) A.dims.resize(1); A.project=r.p(40); for(auto&p:W) for(int t=0;t<2;t++){ Pt z=p; for(int dd:A.dims) z[dd]=A.project?Q(0):(t==0?gen_q(r,g,dd<R.id):p[dd]); addw(nw,z); } if(ref) ref_forget(ref,A.dims,A.project); break; }
  case O_ADDDIM: { int ai=gc.intdim>0&&R.id<gc.intdim+2?r.range(0,2):0, ar=r.range(0,2); if(ai+ar==0) ar=1; if(n+ai+ar>D->maxdim) return; A.addi=ai; A.addr=ar; A.project=r.p(50);
      vector<int> pi,pr; for(int i=0;i<ai;i++) pi.push_back(r.range(0,R.id)); for(int i=0;i<ar;i++) pr.push_back(r.range(R.id,n)); std::sort(pi.begin(),pi.end()); std::sort(pr.begin(),pr.end()); A.dims=pi; A.dims.insert(A.dims.end(),pr.begin(),pr.end());
      for(auto&p:W){ Pt z; int j=0; for(int i=0;i<=n;i++){ while(j<(int)A.dims.size()&&A.dims[j]==i){ z.push_back(A.project?Q(0):gen_q(r,g,j<ai)); j++; } if(i<n) z.push_back(p[i]); } addw(nw,z); }
      // integer and real insertions at the boundary: integer ones come first by construction
      R.id+=ai; R.rd+=ar; if(ref) ref_adddims(ref,A.dims,A.project); break; }
  case O_REMDIM: { if(n<2) return; int k=r.range(1,std::min(2,n-1)); A.dims=distinct(r,n,k); std::sort(A.dims.begin(),A.dims.end()); for(int x:A.dims) (x<R.id?A.addi:A.addr)++; if(R.rd-A.addr+R.id-A.addi<1) return;
      for(auto&p:W){ Pt z; for(int i=0;i<n;i++) if(std::find(A.dims.begin(),A.dims.end(),i)==A.dims.end()) z.push_back(p[i]); addw(nw,z); } R.id-=A.addi; R.rd-=A.addr; if(ref) ref_remdims(ref,A.dims); break; }
  case O_PERM: { if(!n) return; auto p1=distinct(r,R.id,R.id), p2=distinct(r,R.rd,R.rd); for(int x:p1) A.perm.push_back(x); for(int x:p2) A.perm.push_back(x+R.id); for(auto&p:W){ Pt z(n); for(int i=0;i<n;i++) z[A.perm[i]]=p[i]; addw(nw,z); } if(ref) ref_permute(ref,A.perm); break; }
  case O_EXPAND: { if(!n) return; A.dims={(int)r.below(n)}; A.n=r.range(1,2); if(r.p(10)) A.n=0; if(n+A.n>D->maxdim) return; int dd=A.dims[0]; bool in=dd<R.id; int at=in?R.id:n;
      for(auto&p:W) for(int t=0;t<2;t++){ Pt z=p; for(int i=0;i<A.n;i++){ Q v=p[dd]; if(t) for(auto&y:W){ bool same=true; for(int j=0;j<n;j++) if(j!=dd&&y[j]!=p[j]) same=false; if(same&&r.p(60)) v=y[dd]; } z.insert(z.begin()+at+i,v); } addw(nw,z); }
      (in?R.id:R.rd)+=A.n; if(ref) ref_expand(ref,dd,A.n,at); break; }
  case O_FOLD: { int lo=0,hi=0; if(R.rd>=2&&(R.id<2||r.p(50))){ lo=R.id; hi=n; } else if(R.id>=2){ lo=0; hi=R.id; } else return; auto v=distinct(r,hi-lo,r.range(2,std::min(3,hi-lo))); for(int&x:v) x+=lo; std::sort(v.begin(),v.end()); if(r.p(15)) v.resize(1); A.dims=v;
      for(auto&p:W) for(int s:v){ Pt z; for(int i=0;i<n;i++){ if(i==v[0]) z.push_back(p[s]); else if(std::find(v.begin()+1,v.end(),i)==v.end()) z.push_back(p[i]); } addw(nw,z); }
      (lo<R.id&&lo==0&&hi==R.id&&R.id?R.id:R.rd)-=(int)v.size()-1; if(ref) ref_fold(ref,v); break; }
  case O_CLOSURE: nw=W; if(ref){ ref_closure(ref); } if(strict&&ref){} break;
  }
  Ref xref; if(flagmode&&ref&&!resync&&R.id==0) xref=ref_copy(ref);
  if(absref&&ref&&refdone&&!resync){ // operations for which the domain promises its best abstraction
    auto shape=[&](const LinE& e,int maxt){ int k=0; Q f; for(auto&x:e.t){ if(x.second.itv||x.second.lo.inf) return false; if(x.second.lo.v!=0){ k++; if(absref==2){ if(abs(x.second.lo.v)!=1) return false; } } } return !e.c.itv&&!e.c.lo.inf&&k<=maxt; };
    bool ok=false;
    switch(op.k){
    case O_TOP: case O_BOTTOM: case O_COPY: case O_MEET: case O_MEETARR: case O_JOIN: case O_JOINARR: case O_FORGET: case O_ADDDIM: case O_REMDIM: case O_PERM: case O_EXPAND: case O_FOLD: case O_CLOSURE: ok=true; break;
    case O_BOX: ok=absref!=3; break;
    case O_CONS: case O_MEETLIN: ok=true; for(auto&c:A.cons){ if(!shape(c.e,absref==1?1:absref==2?2:99)||c.typ==AP_CONS_DISEQ) ok=false; if(absref==3&&c.typ!=AP_CONS_EQ) ok=false; } break;
    case O_ASSIGN: ok=A.dest<0||(absref<3&&M[A.dest].refok&&ref_empty(M[A.dest].ref)); if(absref==2&&A.dims.size()!=1) ok=false; for(auto&e:A.lin) if(!shape(e,absref==1?99:absref==2?1:99)) ok=false; break;
    case O_SUBST: ok=absref==3; for(auto&e:A.lin) if(!shape(e,99)) ok=false; break;
    }
    if(!ok) resync=true; else { ref=ref_abs(ref,absref); stat("absref"); }
  }
  if(!ref||R.id>0){ refdone=false; }
  R.w=nw; 
  { string xss; for(int x:xs) xss+=" s"+std::to_string(x); LOG("%s%s -> s%d (%d,%d) w=%d%s%s%s",OPN[op.k],xss.c_str(),d,R.id,R.rd,(int)nw.size(),A.dims.empty()?"":" dims=",[&]{string s;for(int x:A.dims)s+=std::to_string(x)+",";return s;}().c_str(),A.project?" project":"");
    if(g_verbose){ for(auto&c:A.cons) LOG("   cons %s",conss(c).c_str()); for(auto&e:A.lin) LOG("   lin %s",lins(e).c_str()); for(size_t i=0;i<A.tex.size();i++) LOG("   tex %s %s",texs(A.tex[i]).c_str(),i<A.tcops.size()?std::to_string(A.tcops[i]).c_str():""); for(auto&e:A.gens) LOG("   gen %d %s",e.first,lins(e.second).c_str()); for(size_t i=0;i<A.box.size();i++) LOG("   box x%d [%s,%s]",(int)i,es(A.box[i].first).c_str(),es(A.box[i].second).c_str()); for(auto&p:nw) LOG("   point %s",pts(p).c_str()); } }
  stat(string("op.")+OPN[op.k]);
  if(flagmode&&!A.tex.empty()) A.lin.clear();
  vector<Slot> ms; if(xs.empty()) ms.push_back(R); else ms.push_back(M[xs[0]]); ms.push_back(R);
  vector<ap_abstract0_t*> out; bool ni=false;
  bool destr_op= op.k>=O_MEET&&op.k!=O_MEETARR&&op.k!=O_JOINARR&&op.k!=O_WIDEN&&op.k!=O_WIDENTH;
  for(size_t ui=0;ui<U.size();ui++){ Uni& u=U[ui]; Rng mr(op.seed^(0x77+ui*0x1001));
    if(u.maint) for(int s:xs) if(mr.p(u.maint)){ int k=mr.range(1,2); while(k--) maint(u,u.man,u.v[s],mr); exc(u,"upkeep"); }
    ap_abstract0_t* res;
    if(limits&&(limc||limo)){
      bool keep=Rng(op.seed^0x99).p(sc.geti("sustain",0));
      res=limited_attempt(u,op,xs,A,ms,keep);
      if(keep){ out.push_back(res); resync=true; continue; }
      if(op.k==O_WIDEN||op.k==O_WIDENTH){}
    }
    vector<ap_abstract0_t*> ins; for(int s:xs) ins.push_back(u.v[s]);
    bool destr=destr_op&&u.inplace&&mr.p(u.inplace);
    if(destr){
      bool same=!xs.empty()&&d==xs[0]; bool aliased=false; for(size_t i=1;i<xs.size();i++) if(xs[i]==xs[0]) aliased=true;
      ap_abstract0_t* mine=u.v[xs[0]];
      if(same&&!(aliased)) { u.v[d]=nullptr; }
      else { mine=ap_abstract0_copy(u.man,mine); if(aliased&&A.dest<0&&mr.p(50)) for(size_t i=1;i<ins.size();i++) if(xs[i]==xs[0]) ins[i]=mine; }
      ins[0]=mine; stat("inplace"); if(aliased) stat("inplace.aliased");
      res=perform(u,u.man,op,true,ins,A,ms);
    } else res=perform(u,u.man,op,false,ins,A,ms);
    if(!res) violate("null-result","%s: null result",where(u,d).c_str());
    bool fe=ap_manager_get_flag_exact(u.man), fb=ap_manager_get_flag_best(u.man);
    if(exc(u,OPN[op.k])) ni=true;
    if(flagmode&&!ni){ vector<Ref> dj; if(!xref&&(fe||fb)&&R.id==0) disjuncts(op,A,xs,R.n(),dj); flags(u,d,op,res,xref,xs,A.dims,fe,fb,dj); }
    if(u.maint&&mr.p(u.maint)){ maint(u,u.man,res,mr); exc(u,"upkeep"); }
    out.push_back(res);
  }
  if(ni){ stat("notimpl"); resync=true; }
  R.ref=Ref(); R.refok=false;
  if(useref&&!flagmode&&R.id==0&&refdone&&!resync){ R.ref=ref; R.refok=true; }
  put(d,R,out);
  for(auto&u:U) probe(u,d,r,"result");
  if(flagmode){ Rng fr(op.seed^0xf1a9); for(int z=fr.range(0,3);z>0;z--) flagq(U[0],live(fr.below(M.size())),fr); }
  bool semwiden=is(D,"polka"); // faces cut off by strict constraints have no canonical constraint
  bool octgen=false; // a non-octagonal constraint is only approximated, and how well depends on the closure cached at that moment
  if(pre(D,"oct")&&(op.k==O_MEETLIN||op.k==O_CONS||op.k==O_MEETTC)){ if(op.k==O_MEETTC) octgen=true; for(auto&c:A.cons){ int k=0; for(auto&x:c.e.t){ if(x.second.itv) octgen=true; else if(x.second.lo.v!=0){ k++; if(abs(x.second.lo.v)!=1) octgen=true; } } if(k>2) octgen=true; } }
  if(eq&&(ni||octgen||(op.k==O_WIDEN||op.k==O_WIDENTH)&&!semwiden)){ // results may legitimately depend on the representation: restart from one value
    for(size_t i=1;i<U.size();i++){ ap_abstract0_free(U[i].man,U[i].v[d]); U[i].v[d]=ap_abstract0_copy(U[i].man,U[0].v[d]); } clear_exc(man2);
  } else compare(d,"result");
  if(useref&&!flagmode&&!M[d].refok&&M[d].id==0){ auto s=sys(U[0],U[0].man,U[0].v[d]); exc(U[0],"export"); if(s){ M[d].ref=*s; M[d].refok=true; } }
  if(useshadow){ shadows("afterwards"); for(auto&u:U) if(M[d].id==0){ auto s=sys(u,u.man,u.v[d]); exc(u,"export"); if(s) u.shadow[d]=*s; } }
}
static Ext scal0(const ap_scalar_t* s,bool& nan){ Ext e; if(!scalar_get(s,e)) nan=true; return e; }
// C18: what the exact and best flags claim about a result
// the exact result of an operation with interval coefficients, as a union of polyhedra
void Run::disjuncts(const Op& op,const Args& A,const vector<int>& xs,int n,vector<Ref>& out){
  bool cons=op.k==O_CONS||op.k==O_MEETLIN||op.k==O_MEETTC,as=op.k==O_ASSIGN||op.k==O_SUBST||op.k==O_ASSIGNT||op.k==O_SUBSTT; if(!cons&&!as) return;
  vector<Ref> D; if(op.k==O_CONS) D.push_back(ref_univ(n)); else { if(xs.empty()||!M[xs[0]].refok) return; D.push_back(ref_copy(M[xs[0]].ref)); }
  if(cons){ vector<Cons> cs=A.cons; if(op.k==O_MEETTC){ cs.clear(); for(size_t i=0;i<A.tex.size();i++){ auto l=tex_lin(A.tex[i]); if(!l) return; Cons c; c.e=*l; c.typ=A.tcops[i]; cs.push_back(c); } } for(auto&c:cs) if(!ref_add_itv(D,c,!(is(U[0].d,"polkaS")||is(U[0].d,"pplS")))) return; }
  else { vector<LinE> es=A.lin; if(op.k==O_ASSIGNT||op.k==O_SUBSTT){ es.clear(); for(auto&t:A.tex){ auto l=tex_lin(t); if(!l) return; es.push_back(*l); } } const Ref* dst=nullptr; if(A.dest>=0){ if(!M[A.dest].refok) return; dst=&M[A.dest].ref; }
    if(!ref_assign_itv(D,A.dims,es,dst,op.k==O_SUBST||op.k==O_SUBSTT,n)) return; }
  if(D.empty()) D.push_back(ref_univ(n,true)); out=D; }
void Run::flags(Uni& u,int d,const Op& op,ap_abstract0_t* res,const Ref& X0,const vector<int>& xs,const vector<int>& dims,bool fe,bool fb,const vector<Ref>& dj){
  stat("flags.judged"); if(fe) stat("flags.exact"); else if(fb) stat("flags.best"); else { stat("flags.none"); return; }
  Ref X; if(X0) X=X0; else if(!dj.empty()){ X=ref_copy(dj[0]); for(auto&x:dj) X=ref_hull(X,x); stat("flags.disjuncts"); }
  if(!X||op.k==O_WIDEN||op.k==O_WIDENTH) return;
  auto r=sys(u,man2,res); clear_exc(man2); if(!r) return; string w=where(u,d);
  bool eqx=ref_eq(*r,X);
  if(fe){ stat(string("flagexact.")+u.d->name+"."+OPN[op.k]);
    if(!eqx) violate("flag-exact","%s: flagged exact, but the value is {%s} and the exact result {%s}",w.c_str(),ref_str(*r).c_str(),ref_str(X).c_str());
    if(!X0&&!ref_union(dj,*r)) violate("flag-exact-union","%s: flagged exact, but {%s} has points outside the exact result",w.c_str(),ref_str(*r).c_str());
    if(op.k==O_JOIN||op.k==O_JOINARR){ vector<Ref> v; for(int s:xs) v.push_back(M[s].ref); if(!ref_union(v,*r)) { string t; for(auto&x:v) t+=" {"+ref_str(x)+"}"; violate("flag-exact-union","%s: flagged exact, but {%s} has points outside the joined%s",w.c_str(),ref_str(*r).c_str(),t.c_str()); } } }
  if(fe&&op.k==O_FOLD){ vector<Ref> v; int n=M[xs[0]].n(); for(int s:dims){ Ref t=ref_copy(M[xs[0]].ref); vector<int> p; for(int i=0;i<n;i++) p.push_back(i); std::swap(p[s],p[dims[0]]); ref_permute(t,p); ref_remdims(t,vector<int>(dims.begin()+1,dims.end())); v.push_back(t); }
    if(!ref_union(v,*r)) violate("flag-exact-union","%s: flagged exact, but {%s} has points outside the union of the folded projections",w.c_str(),ref_str(*r).c_str()); }
  if(fb&&!eqx&&strcmp(u.d->name,"octMPZ")){ stat(string("flagbest.")+u.d->name+"."+OPN[op.k]); Ref B=ref_copy(X); if(flagabs) B=ref_abs(X,flagabs); else if(!is(u.d,"polkaS")&&!is(u.d,"pplS")) ref_closure(B);
    if(!ref_leq(*r,B)&&(u.d->exact||!ref_same(false,*r,B))) violate("flag-best","%s: flagged best, but the value is {%s} and the best {%s}",w.c_str(),ref_str(*r).c_str(),ref_str(B).c_str()); }
}
// the same for queries: false and exact means false, a best bound is attained
void Run::flagq(Uni& u,int si,Rng& r){
  const Slot& m=M[si]; if(!m.live||m.id||!m.n()) return; ap_manager_t* man=u.man; ap_abstract0_t* v=u.v[si]; int n=m.n(); string w=where(u,si);
  auto S=sys(u,man2,v); clear_exc(man2); if(!S) return; int k=r.below(11); int sj=si; if(k==2||k==3) sj=live_like(r.below(M.size()),m); auto T=sj==si?S:sys(u,man2,u.v[sj]); clear_exc(man2); if(!T) return;
  bool ans=true,isb=false,truth=true; Ext lo,hi; LinE e; bool nan=false; const char* qn=""; string arg; bool fe=false,fb=false; auto fl=[&]{ fe=ap_manager_get_flag_exact(man); fb=ap_manager_get_flag_best(man); };
  Cons c; c.e=tight_lin(r,m,r.below(3)); c.typ=r.p(60)?AP_CONS_SUPEQ:r.p(70)?AP_CONS_EQ:AP_CONS_SUP; if(r.p(70)){ for(auto&x:c.e.t) if(x.second.itv) x.second=Coef(Q(1)); if(c.e.c.itv) c.e.c=Coef(Q(0)); }
  auto under=[&](const vector<Cons>& cs){ Ref t=ref_univ(n); return ref_add(t,cs,false)&&ref_leq(*S,t); };
  auto bnd=[&](ap_interval_t* i){ lo=scal0(i->inf,nan); hi=scal0(i->sup,nan); isb=true; };
  switch(k){
  case 0: ans=ap_abstract0_is_bottom(man,v); fl(); truth=ref_empty(*S); qn="is_bottom"; break;
  case 1: ans=ap_abstract0_is_top(man,v); fl(); truth=ref_univ_p(*S); qn="is_top"; break;
  case 2: ans=ap_abstract0_is_leq(man,v,u.v[sj]); fl(); truth=ref_leq(*S,*T); qn="is_leq"; break;
  case 3: ans=ap_abstract0_is_eq(man,v,u.v[sj]); fl(); truth=ref_eq(*S,*T); qn="is_eq"; break;
  case 4: case 5: { if(!c.e.scalar()) return; if(k==4){ ap_lincons0_t l=mk_lincons(c,n); ans=ap_abstract0_sat_lincons(man,v,&l); fl(); ap_lincons0_clear(&l); qn="sat_lincons"; } else { ap_tcons0_t t=ap_tcons0_make((ap_constyp_t)c.typ,mk_texpr(tex_of_lin(c.e)),NULL); ans=ap_abstract0_sat_tcons(man,v,&t); fl(); ap_tcons0_clear(&t); qn="sat_tcons"; } truth=under({c}); arg=conss(c); break; }
  case 6: { int d=r.below(n); Q a=q(r.range(-9,4)),b=a+q(r.range(0,12)); ap_interval_t* i=mk_interval(Ext(a),Ext(b),R_MPQ); ans=ap_abstract0_sat_interval(man,v,d,i); fl(); ap_interval_free(i); Cons c1; c1.typ=AP_CONS_SUPEQ; c1.e.t.push_back({d,Coef(q(1))}); c1.e.c=Coef(Q(-a)); Cons c2=c1; c2.e.t[0].second=Coef(q(-1)); c2.e.c=Coef(b); truth=under({c1,c2}); qn="sat_interval"; arg=conss(c1)+conss(c2); break; }
  case 7: { int d=r.below(n); ans=ap_abstract0_is_dimension_unconstrained(man,v,d); fl(); Ref t=ref_copy(*S); ref_forget(t,{d},false); truth=!ref_empty(*S)&&ref_eq(t,*S); qn="is_dimension_unconstrained"; break; }
  case 8: { int d=r.below(n); ap_interval_t* i=ap_abstract0_bound_dimension(man,v,d); fl(); bnd(i); ap_interval_free(i); e.c=Coef(Q(0)); e.t.push_back({d,Coef(q(1))}); qn="bound_dimension"; break; }
  case 9: case 10: { for(auto&x:c.e.t) if(x.second.itv||x.second.lo.inf) return; e=c.e; ap_interval_t* i; if(k==9){ auto l=mk_linexpr(e,n); i=ap_abstract0_bound_linexpr(man,v,l); fl(); ap_linexpr0_free(l); qn="bound_linexpr"; } else { TexE tx=tex_of_lin(e); if(r.p(50)){ GenCfg g=cfg_for(m); tx=gen_tex(r,g,3); auto l=tex_lin(tx); if(!l) return; e=*l; } ap_texpr0_t* t=mk_texpr(tx); i=ap_abstract0_bound_texpr(man,v,t); fl(); ap_texpr0_free(t); qn="bound_texpr"; } bnd(i); ap_interval_free(i); arg=lins(e); break; }
  }
  bool ni=exc(u,qn); if(ni){ stat("notimpl"); return; } stat("flagquery"); if(fe||fb) stat(string(fe?"flagqueryexact.":"flagquerybest.")+u.d->name+"."+qn);
  if(!isb){ if(fe&&ans!=truth) violate(!ans&&c.typ==AP_CONS_SUP&&(k==4||k==5)&&(!strcmp(u.d->name,"polka")||!strcmp(u.d->name,"pkeq"))||(!ans&&k==3&&is(u.d,"polkaS"))?"flag-exact-strict":"flag-exact-query","%s: %s %s answers %d, flagged exact, for {%s} and {%s}",w.c_str(),qn,arg.c_str(),ans,ref_str(*S).c_str(),ref_str(*T).c_str()); return; }
  if(!(fe||fb)||nan) return; 
  bool em; Ext l2,h2; LinE e0=e; e0.c=Coef(Q(0)); ref_bounds(*S,e0,em,l2,h2);
  if(em){ if(ecmp(lo,hi)<=0) violate("flag-exact-query","%s: %s of an empty value is [%s,%s], flagged %s",w.c_str(),qn,es(lo).c_str(),es(hi).c_str(),fe?"exact":"best"); return; }
  const Coef&k0=e.c; Ext cl=k0.lo,ch=k0.itv?k0.hi:k0.lo; if(!l2.inf){ if(cl.inf) l2=Ext::minf(); else l2.v+=cl.v; } if(!h2.inf){ if(ch.inf) h2=Ext::pinf(); else h2.v+=ch.v; }
  Q mag=1; for(auto*x:{&l2,&h2,&cl,&ch}) if(!x->inf&&abs(x->v)>mag) mag=abs(x->v); for(auto&x:e.t){ bool em2; Ext a,b; LinE f; f.c=Coef(Q(0)); f.t.push_back({x.first,Coef(q(1))}); ref_bounds(*S,f,em2,a,b); for(auto*y:{&a,&b}) if(!y->inf&&abs(Q(y->v*x.second.lo.v))>mag) mag=abs(Q(y->v*x.second.lo.v)); }
  Q tol=u.d->exact?Q(0):Q(mag/1000000000); auto near=[&](const Ext&x,const Ext&y){ if(x.inf||y.inf) return ecmp(x,y)==0; return abs(Q(x.v-y.v))<=tol; };
  if(!near(lo,l2)||!near(hi,h2)) violate(fe?"flag-exact-query":"flag-best-query","%s: %s %s is [%s,%s], flagged %s, but the range is [%s,%s] for {%s}",w.c_str(),qn,arg.c_str(),es(lo).c_str(),es(hi).c_str(),fe?"exact":"best",es(l2).c_str(),es(h2).c_str(),ref_str(*S).c_str());
}
thread_local Hook* g_hook=nullptr;
void Run::exec(){
  struct G{ Run*r; ~G(){} } gg{this};
  for(size_t i=0;i<sc.ops.size();i++){ opi=i; const Op& op=sc.ops[i]; if(op.k==O_FPU){ if(g_hook) g_hook->alien(op); continue; } step(op);
    if(g_hook){ int d=slot(op.d); string v; if(M[d].live) for(auto&u:U) if(u.v[d]){ ap_abstract0_t* c=ap_abstract0_copy(u.man,u.v[d]); v+=outstr([&](FILE*f){ ap_abstract0_fprint(f,u.man,c,NULL); }); ap_abstract0_free(u.man,c); exc(u,"print"); } g_hook->after(op,v); } }
  opi=sc.ops.size(); cur=nullptr;
  for(size_t s=0;s<M.size();s++) if(M[s].live){ Rng r(sc.seed+s); compare(s,"at end"); for(auto&u:U) probe(u,s,r,"at end"); }
  shadows("at end");
  freeall();
}
