// The domains under simulation, each number representation under its own symbol suffix.
#pragma once
#include "expr.hpp"
struct Dom {
  const char* name; const char* lib;
  ap_manager_t* (*mk)();
  bool exact;      // exact rational arithmetic: on real dims operations have a canonical result
  bool intok,realok;
  bool convex;     // joins contain convex combinations
  bool widen, thr; // widening / widening with thresholds
  bool ser;        // serialization implemented
  bool poly;       // polka-style limits apply
  bool refp;       // comparable, operation by operation, with the PPL reference
  bool fp;         // uses floating point (needs upward rounding)
  bool ints;       // number representation holds integers only / small numbers only
  int maxdim;
};
const vector<Dom>& domains();
const Dom* dom(const string& n);
void clear_exc(ap_manager_t* m);
// takes the exception log of the last operation: list of kinds; clears it
struct ExcRec { int exn; int funid; string msg; };
vector<ExcRec> take_exc(ap_manager_t* m);
void pk_set_approx(ap_manager_t*,size_t); void pk_set_limits(ap_manager_t* m,size_t coeff,size_t obj);
