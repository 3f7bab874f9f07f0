#pragma once
#include "dom.hpp"
#include "ref.hpp"
enum OpK { O_TOP,O_BOTTOM,O_BOX,O_CONS,O_COPY,O_FREE,O_MEET,O_JOIN,O_MEETARR,O_JOINARR,O_MEETLIN,O_MEETTC,O_ADDRAY,
  O_ASSIGN,O_SUBST,O_ASSIGNT,O_SUBSTT,O_FORGET,O_ADDDIM,O_REMDIM,O_PERM,O_EXPAND,O_FOLD,O_WIDEN,O_WIDENTH,O_CLOSURE,
  O_MAINT,O_QUERY,O_EXPORT,O_LIMIT,O_UNLIMIT,O_OPTALGO,O_SERIAL,O_RESTART,O_RENEW,O_PRINT,O_MISUSE,O_CHAIN,O_FPU,O_APPROX,O_CXX,O_E_ENV,O_E_EXPR,O_E_UNIFY,O_E_CHENV,O_E_MINENV,O_E_RENAME,O_N };
extern const char* OPN[O_N];
struct Op { int k=0; int d=0,a=0,b=0,c=0; uint64_t seed=0; unsigned fl=0; };
struct Scenario { string profile; uint64_t seed=0; map<string,string> cfg; vector<Op> ops;
  long geti(const string& k,long def=0) const { auto i=cfg.find(k); return i==cfg.end()?def:atol(i->second.c_str()); }
  string gets(const string& k,const string& def="") const { auto i=cfg.find(k); return i==cfg.end()?def:i->second; } };
string scen_text(const Scenario& s);
bool scen_parse(const string& text,Scenario& s);
// statistics of a run / batch: plain counters by name, merged by addition
typedef map<string,uint64_t> Stats;
extern thread_local Stats g_stats;
static inline void stat(const string& k,uint64_t n=1){ g_stats[k]+=n; }
// workloads
struct Workload { const char* profile; Scenario (*gen)(uint64_t seed,const string& profile); void (*run)(const Scenario&); };
const vector<Workload>& workloads();
