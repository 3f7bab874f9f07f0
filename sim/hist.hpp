// Level-0 histories: one or more universes executing the same operations on real library code.
#pragma once
#include "sim.hpp"
struct Slot { bool live=false; int id=0,rd=0; vector<Pt> w; Ref ref; bool refok=false; int n() const {return id+rd;} };
struct Args { vector<Cons> cons; vector<int> dims; vector<LinE> lin; vector<TexE> tex; vector<pair<int,LinE>> gens; vector<int> perm; bool project=false; int n=0; int dest=-1; vector<int> tcops; vector<pair<Ext,Ext>> box; vector<Coef> boxc; int addi=0,addr=0; };
struct Uni {
  const Dom* d=nullptr; ap_manager_t* man=nullptr; vector<ap_abstract0_t*> v; string tag;
  int inplace=0; int maint=0; int cxx=0; int probecopy=100; // percent of probes done on a copy
  vector<Ref> shadow; 
};
struct Run {
  const Scenario& sc; vector<Uni> U; vector<Slot> M; GenCfg gc; int opi=0; const Op* cur=nullptr;
  ap_manager_t* man2=nullptr;         // pristine manager of the same domain
  bool eq=false;                      // universes must denote equal sets
  int absref=0; /* the reference is abstracted to: 1 boxes 2 octagons 3 affine subspaces */ bool useref=false, useshadow=false, exactdom=false, flagmode=false; int flagabs=0;
  int probes=1; bool limits=false; size_t limc=0,limo=0;
  Rng mrng{1};
  explicit Run(const Scenario& s);
  ~Run();
  void exec();
  void step(const Op& op);
  // resolution and generation
  int slot(int x) const { return x%(int)M.size(); }
  int live(int x) const; int live_like(int x,const Slot& m,int skip=-1) const;
  GenCfg cfg_for(const Slot& s) const;
  LinE tight_lin(Rng& r,const Slot& s,int shape);
  Cons gen_cons(Rng& r,const Slot& s);
  // real calls
  ap_abstract0_t* perform(Uni& u,ap_manager_t* man,const Op& op,bool destr,const vector<ap_abstract0_t*>& x,const Args& A,const vector<Slot>& ms);
  ap_abstract0_t* perform_c(Uni& u,ap_manager_t* man,const Op& op,bool destr,const vector<ap_abstract0_t*>& x,const Args& A,const vector<Slot>& ms);
  ap_abstract0_t* cxx_perform(Uni& u,ap_manager_t* man,const Op& op,bool destr,const vector<ap_abstract0_t*>& x,const Args& A,const vector<Slot>& ms);
  void cxx_burst(Uni& u,int si,Rng& r); void cxx_burst1(Uni& u,int si,Rng& r);
  // checks
  void probe(Uni& u,int si,Rng& r,const char* when);
  void probe_value(Uni& u,ap_manager_t* man,ap_abstract0_t* v,const vector<Pt>& w,int id,int rd,Rng& r,const string& when,int routes);
  void queries(Uni& u,int si,Rng& r);
  void exports(Uni& u,int si,Rng& r);
  void maint(Uni& u,ap_manager_t* man,ap_abstract0_t* v,Rng& r);
  optional<Ref> sys(Uni& u,ap_manager_t* man,ap_abstract0_t* v,bool viagen=false);
  void compare(int si,const char* when); void flagq(Uni& u,int si,Rng& r); void flags(Uni& u,int d,const Op& op,ap_abstract0_t* res,const Ref& X,const vector<int>& xs,const vector<int>& dims,bool fe,bool fb,const vector<Ref>& dj); void disjuncts(const Op& op,const Args& A,const vector<int>& xs,int n,vector<Ref>& out);
  void shadows(const char* when);
  bool exc(Uni& u,const char* what,bool limited=false); // true: something was not implemented
  ap_abstract0_t* limited_attempt(Uni& u,const Op& op,const vector<int>& xs,const Args& A,const vector<Slot>& ms,bool keep);
  void serial(Uni& u,int si,Rng& r); void restart(Uni& u,Rng& r); void printing(Uni& u,int si,Rng& r); void misuse(Uni& u,int si,Rng& r); void chain(Uni& u,const Op& op);
  void freeall();
  void put(int d,const Slot& R,vector<ap_abstract0_t*> vals);
  void special(const Op& op);
  vector<Pt> midpoints(const Slot& s,const vector<Pt>& w,Rng& r);
  string where(const Uni& u,int si) const;
};
string outstr(std::function<void(FILE*)> f);
// called between the operations of a history (C06, C07)
struct Hook { virtual ~Hook(){} virtual void alien(const Op&){} virtual void after(const Op&,const string& values){} };
extern thread_local Hook* g_hook;
Scenario gen(uint64_t seed,const string& prof); void run(const Scenario&); void run_level1(const Scenario&);
Scenario gen_fpu(uint64_t,const string&); void run_fpu(const Scenario&);
