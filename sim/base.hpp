// Shared basics of the simulator: PRNG, exact numbers, log, violations.
#pragma once
#include <gmpxx.h>
#include <mpfr.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <optional>
#include <memory>
typedef mpq_class Q;
typedef std::vector<Q> Pt;
using std::string; using std::vector; using std::map; using std::pair; using std::optional;

static inline uint64_t mix64(uint64_t z){ z+=0x9e3779b97f4a7c15ULL; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed=1):s(mix64(seed^0x5157a3b1c9d8e7f6ULL)){}
  uint64_t next(){ s+=0x9e3779b97f4a7c15ULL; uint64_t z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
  uint64_t below(uint64_t n){ return n? next()%n : 0; }
  int range(int lo,int hi){ return lo+(int)below((uint64_t)(hi-lo+1)); }
  bool p(int percent){ return (int)below(100)<percent; }
  template<class T> const T& pick(const vector<T>& v){ return v[below(v.size())]; }
};
static inline Q q(long n,long d=1){ Q r(n,d); r.canonicalize(); return r; }
static inline bool isint(const Q& x){ return x.get_den()==1; }
static inline size_t qbits(const Q& x){ return mpz_sizeinbase(x.get_num_mpz_t(),2)+mpz_sizeinbase(x.get_den_mpz_t(),2); }
static inline Q qfloor(const Q& x){ mpz_class r; mpz_fdiv_q(r.get_mpz_t(),x.get_num_mpz_t(),x.get_den_mpz_t()); return Q(r); }
static inline Q qceil(const Q& x){ mpz_class r; mpz_cdiv_q(r.get_mpz_t(),x.get_num_mpz_t(),x.get_den_mpz_t()); return Q(r); }
static inline Q qtrunc(const Q& x){ mpz_class r; mpz_tdiv_q(r.get_mpz_t(),x.get_num_mpz_t(),x.get_den_mpz_t()); return Q(r); }
static inline string qs(const Q& x){ return x.get_str(); }
static inline string pts(const Pt& p){ string s="("; for(size_t i=0;i<p.size();i++){ if(i)s+=","; s+=p[i].get_str(); } return s+")"; }

struct Violation { string cls, msg; };        // cls: stable class used while minimising
[[noreturn]] static inline void violate(const string& cls,const char* fmt,...){
  char b[4096]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  throw Violation{cls,b};
}
struct Discard { string why; };               // run abandoned on purpose (never an alarm)

// ---- per-run log: a running hash, optionally echoed -------------------------------------
extern thread_local uint64_t g_loghash; extern bool g_verbose; extern thread_local string g_lastop;
void logf_(const char* fmt,...) __attribute__((format(printf,1,2)));
#define LOG(...) logf_(__VA_ARGS__)

// ---- simulated clock: edges of instrumented library code executed -----------------------
extern uint64_t g_steps, g_step_budget;
