// Independent exact reference for polyhedra over the reals: PPL's NNC polyhedra used directly
// (not through /repo's PPL wrapper).
#pragma once
#include "expr.hpp"
#include <memory>
struct RefImpl;
struct Ref {
  std::shared_ptr<RefImpl> p; // null: no reference for this value
  explicit operator bool() const { return (bool)p; }
};
extern thread_local bool ref_quasi; // accept interval constant terms (as a choice of any value in the interval)
Ref ref_univ(int dims,bool empty=false);
Ref ref_copy(const Ref& a);
// constraints; returns false when some constraint is not representable (interval, modulo, disequality)
bool ref_add(Ref& a,const vector<Cons>& cs,bool closed);
Ref ref_meet(const Ref&a,const Ref&b); Ref ref_hull(const Ref&a,const Ref&b);
Ref ref_rays(const Ref&a,const vector<pair<int,LinE>>& g); // kind AP_GEN_RAY/LINE/VERTEX
bool ref_assign(Ref& a,const vector<int>& dims,const vector<LinE>& es,const Ref* dest,bool subst);
void ref_forget(Ref& a,const vector<int>& dims,bool project);
void ref_adddims(Ref& a,const vector<int>& at,bool project); // at: as in ap_dimchange_t
void ref_remdims(Ref& a,const vector<int>& at);
void ref_permute(Ref& a,const vector<int>& perm); // new index of old dim i is perm[i]
void ref_expand(Ref& a,int dim,int n,int at); // copies inserted starting at index `at`
void ref_fold(Ref& a,const vector<int>& dims);
bool ref_add_itv(vector<Ref>& D,const Cons& c,bool closed); bool ref_assign_itv(vector<Ref>& D,const vector<int>& dims,const vector<LinE>& es,const Ref* dest,bool subst,int n);
void ref_closure(Ref& a); bool ref_union(const vector<Ref>& v,const Ref& r); // is r the union of v?
Ref ref_abs(const Ref& a,int kind); // best closed abstraction: 1 box, 2 octagon, 3 affine subspace
bool ref_eq(const Ref&a,const Ref&b); bool ref_leq(const Ref&a,const Ref&b); bool ref_empty(const Ref& a); bool ref_univ_p(const Ref& a);
bool ref_has(const Ref& a,const Pt& p);
// bounds of a scalar linear expression
void ref_bounds(const Ref& a,const LinE& e,bool& empty,Ext& lo,Ext& hi);
Ref ref_of_gens(int dims,const vector<pair<int,LinE>>& gens);
string ref_str(const Ref& a); size_t ref_complexity(const Ref& a);
// equal, or (inexact arithmetic: a closure kept or recomputed rounds differently) equal up to rounding in every octagonal direction
bool ref_same(bool exact,const Ref& a,const Ref& b);
