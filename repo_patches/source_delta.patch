From cea41fcc72a1fdff4e94f7d7fbd4299dc7dc2c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 01/63] fix: join_array of polyhedra with three or more
 identical handles The removal of duplicate pointers skipped over the element
 it had just moved, so a handle present three times was dualized twice.

---
 newpolka/pk_meetjoin.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/newpolka/pk_meetjoin.c b/newpolka/pk_meetjoin.c
index 745badb..a3da0ea 100644
--- a/newpolka/pk_meetjoin.c
+++ b/newpolka/pk_meetjoin.c
@@ -652,13 +652,15 @@ pk_t* pk_join_array(ap_manager_t* man, pk_t** po, size_t size)
   qsort(tpoly,size,sizeof(pk_t*),poly_cmp);
 
   /* remove doublons */
-  for(i=0;i<size-1;i++){
+  for(i=0;i+1<size;){
     if (tpoly[i]==tpoly[i+1]){
       if (i<size-2){
 	memmove(&tpoly[i+1],&tpoly[i+2],(size-i-2)*sizeof(pk_t*));
       }
       size--;
     }
+    else
+      i++;
   }
   /* dual */
   for (i=0;i<size;i++)
-- 
2.43.0


From 0d013f9c5e39ba36fa2956f1fe3cb842c0f7eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 02/63] fix: power of an infinite bound lost its sign bound_pow
 returned +oo for every infinite argument, so a lower bound -oo became +oo;
 x^0 is 1.

---
 num/bound_def.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/num/bound_def.h b/num/bound_def.h
index 0769e56..91dfebe 100644
--- a/num/bound_def.h
+++ b/num/bound_def.h
@@ -363,9 +363,15 @@ static inline void bound_sqrt(bound_t up, bound_t down, bound_t b)
 }
 static inline void bound_pow(bound_t up, bound_t down, bound_t b, unsigned long n)
 {
-  if (bound_infty(b)) {
-    bound_set_infty(up, 1);
-    bound_set_infty(down, 1);
+  if (n==0) {
+    bound_set_int(up, 1);
+    bound_set_int(down, 1);
+  }
+  else if (bound_infty(b)) {
+    /* an odd power keeps the sign of the infinity */
+    int sgn = (n & 1) ? bound_sgn(b) : 1;
+    bound_set_infty(up, sgn);
+    bound_set_infty(down, sgn);
   }
   else if (num_pow(bound_numref(up), bound_numref(down), bound_numref(b), n)) {
     bound_set_infty(up,1);
-- 
2.43.0


From 350678d7be6a55127acbb598468796d9b2e60fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 03/63] fix: polyhedra and PPL managers did not set the FPU
 rounding mode Tree expressions with floating-point rounding are evaluated
 through doubles whatever the number type of the domain, and are unsound
 unless the FPU rounds towards +oo. The box and octagon managers already set
 it.

---
 newpolka/pk_internal.c | 4 ++++
 ppl/ppl_grid.cc        | 4 ++++
 ppl/ppl_poly.cc        | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/newpolka/pk_internal.c b/newpolka/pk_internal.c
index 843215f..beef4aa 100644
--- a/newpolka/pk_internal.c
+++ b/newpolka/pk_internal.c
@@ -197,6 +197,10 @@ ap_manager_t* pk_manager_alloc(bool strict)
   ap_manager_t* man;
   void** funptr;
 
+  if (!ap_fpu_init()) {
+    fprintf(stderr,"pk_manager_alloc cannot change the FPU rounding mode\n");
+  }
+
   pk = pk_internal_alloc(strict);
   pk_set_approximate_max_coeff_size(pk, 1);
   man = ap_manager_alloc(strict ? "polka, strict mode" : "polka, loose mode",
diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index 8f4a651..d2184a0 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -1266,6 +1266,10 @@ extern "C" ap_manager_t* ap_ppl_grid_manager_alloc(void)
   ppl_internal_t* ppl;
   ap_manager_t* man;
 
+  if (!ap_fpu_init()) {
+    fprintf(stderr,"ap_ppl_grid_manager_alloc cannot change the FPU rounding mode\n");
+  }
+
   ppl = ap_ppl_internal_alloc(false);
   man = ap_manager_alloc("PPL::Grid",
 			 PPL_VERSION,
diff --git a/ppl/ppl_poly.cc b/ppl/ppl_poly.cc
index 189ac84..b1ed21a 100644
--- a/ppl/ppl_poly.cc
+++ b/ppl/ppl_poly.cc
@@ -1214,6 +1214,10 @@ extern "C" ap_manager_t* ap_ppl_poly_manager_alloc(bool strict)
   ppl_internal_t* ppl;
   ap_manager_t* man;
 
+  if (!ap_fpu_init()) {
+    fprintf(stderr,"ap_ppl_poly_manager_alloc cannot change the FPU rounding mode\n");
+  }
+
   ppl = ap_ppl_internal_alloc(strict);
   const char* name = (strict ?
 		      "PPL::Polyhedron, strict mode" :
-- 
2.43.0


From 7a38e0be59f5c5f29e1ada6bdcee8ca85e322f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 04/63] fix: PPL loose polyhedra claimed to satisfy strict
 constraints met with equality

---
 ppl/ppl_poly.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ppl/ppl_poly.cc b/ppl/ppl_poly.cc
index b1ed21a..5f8c819 100644
--- a/ppl/ppl_poly.cc
+++ b/ppl/ppl_poly.cc
@@ -485,8 +485,7 @@ bool ap_ppl_poly_sat_lincons(ap_manager_t* man, PPL_Poly* a,
 	  r = (l>=0); 
           break;
 	case AP_CONS_SUP:
-          if (intern->strict) r = (l>0);
-          else { exact = false; r = (l>=0); }
+          r = (l>0);
 	  break;
 	case AP_CONS_EQMOD:
 	  exact = exact && (num_sgn(lincons.num)==0);
-- 
2.43.0


From ccd7ab4401455b286f2026951fb4543809b7e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 05/63] fix: PPL grids mis-bounded expressions and raised on
 forgetting in an empty grid

---
 ppl/ppl_grid.cc | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index d2184a0..43571fa 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -65,6 +65,8 @@ void PPL_Grid::reduce()
 
 void PPL_Grid::forget_dim(size_t dim)
 {
+  /* PPL refuses to add a line or a parameter to an empty grid */
+  if (p->is_empty()) return;
 #ifndef PPL_0_9
   if (intdim>dim) p->add_grid_generator(Grid_Generator::parameter(Variable(dim)));
   else p->add_grid_generator(Grid_Generator::grid_line(Variable(dim)));
@@ -517,8 +519,7 @@ bool ap_ppl_grid_sat_lincons(ap_manager_t* man, PPL_Grid* a,
 	  r = (l>=0); 
           break;
 	case AP_CONS_SUP:
-          exact = false;
-          r = (l>=0); 
+          r = (l>0); 
           break;
 	case AP_CONS_EQMOD:
 	  exact = exact && (num_sgn(lincons.num)==0);
@@ -586,6 +587,20 @@ bool ap_ppl_grid_is_dimension_unconstrained(ap_manager_t* man,
 /* II.4 Extraction of properties */
 /* ============================================================ */
 
+/* If l has a single value n/d on the (non-empty) grid, returns true and
+   stores n and d; otherwise, l is unbounded on the grid.
+   Only the homogeneous part of l is handed to PPL: Grid::maximize forgets to
+   scale the inhomogeneous term by the divisor of the grid point */
+static bool ap_ppl_grid_value(const Grid* p, const Linear_Expression& l,
+			      Coefficient& n, Coefficient& d)
+{
+  Coefficient cst = l.inhomogeneous_term();
+  bool ok;
+  if (!p->maximize(l-cst,n,d,ok)) return false;
+  n += cst*d;
+  return true;
+}
+
 extern "C"
 ap_interval_t* ap_ppl_grid_bound_linexpr(ap_manager_t* man,
 					 PPL_Grid* a,
@@ -606,7 +621,6 @@ ap_interval_t* ap_ppl_grid_bound_linexpr(ap_manager_t* man,
       Coefficient sup_n,sup_d;
       Linear_Expression l;
       mpz_class den;
-      bool ok;
       bool exact = true;
 
       itv_linexpr_init(&linexpr,0);
@@ -625,8 +639,8 @@ ap_interval_t* ap_ppl_grid_bound_linexpr(ap_manager_t* man,
 	  ap_scalar_set_infty(r->sup,1);
 	}
 	else {
-	  ap_ppl_of_linexpr(intern->itv,l,den,expr,1);
-	  if (a->p->maximize(l,sup_n,sup_d,ok)) {
+	  ap_ppl_of_itv_linexpr(l,den,&linexpr,+1);
+	  if (ap_ppl_grid_value(a->p,l,sup_n,sup_d)) {
 	    sup_d *= den;
 	    ap_ppl_mpz2_to_scalar(r->sup,sup_n,sup_d);
 	  }
@@ -637,10 +651,8 @@ ap_interval_t* ap_ppl_grid_bound_linexpr(ap_manager_t* man,
 	  ap_scalar_set_infty(r->inf,-1);
 	}
 	else {
-	  if (!itv_linexpr_is_scalar(&linexpr)){
-	    ap_ppl_of_itv_linexpr(l,den,&linexpr,-1);
-	  }
-	  if (a->p->minimize(l,sup_n,sup_d,ok)) {
+	  ap_ppl_of_itv_linexpr(l,den,&linexpr,-1);
+	  if (ap_ppl_grid_value(a->p,l,sup_n,sup_d)) {
 	    sup_d *= den;
 	    ap_ppl_mpz2_to_scalar(r->inf,sup_n,sup_d);
 	  }
-- 
2.43.0


From 229c452c6086b8fa786e973f034415fdd1462f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 06/63] fix: linear equalities mistook interval coefficients in
 assignments for scalars

---
 newpolka/pkeq.c | 50 ++++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/newpolka/pkeq.c b/newpolka/pkeq.c
index fbe6e99..3719e1b 100644
--- a/newpolka/pkeq.c
+++ b/newpolka/pkeq.c
@@ -338,31 +338,25 @@ pkeq_t* equality_asssub_linexpr(bool assign,
     return destructive ? pa : pk_bottom(man,pa->intdim,pa->realdim);
   }
   /* Choose the right technique */
-  switch (linexpr->cst.discr){
-  case AP_COEFF_SCALAR:
-    {
-      po = poly_asssub_linexpr_det(assign,man,destructive,pa,dim,linexpr);
-      poly_chernikova(man,po,"of the result");
-      if (pk->exn) goto _equality_asssub_linexpr_error;
-      equality_reduce(man,po);
-      if (pk->exn) goto _equality_asssub_linexpr_error;
-      /* Is the result exact or best ? */
-      if (pk->funopt->flag_best_wanted || pk->funopt->flag_exact_wanted){
-	man->result.flag_best = man->result.flag_exact = 
-	  (dim < pa->intdim || !ap_linexpr0_is_real(linexpr, pa->intdim)) ?
-	  false :
-	  true;
-      }
-      else {
-	man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
-      }
+  if (ap_linexpr0_is_linear(linexpr)){
+    po = poly_asssub_linexpr_det(assign,man,destructive,pa,dim,linexpr);
+    poly_chernikova(man,po,"of the result");
+    if (pk->exn) goto _equality_asssub_linexpr_error;
+    equality_reduce(man,po);
+    if (pk->exn) goto _equality_asssub_linexpr_error;
+    /* Is the result exact or best ? */
+    if (pk->funopt->flag_best_wanted || pk->funopt->flag_exact_wanted){
+      man->result.flag_best = man->result.flag_exact = 
+	(dim < pa->intdim || !ap_linexpr0_is_real(linexpr, pa->intdim)) ?
+	false :
+	true;
     }
-    break;
-  case AP_COEFF_INTERVAL:
+    else {
+      man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
+    }
+  }
+  else {
     po = pkeq_forget_array(man,destructive,pa,&dim,1,false);
-    break;
-  default:
-    abort();
   }
   return po;
  _equality_asssub_linexpr_error:
@@ -404,7 +398,7 @@ pkeq_t* equality_asssub_linexpr_array(bool assign,
   tdimforget = malloc(size*sizeof(ap_dim_t));
   sizeforget = 0;
   for (i=0; i<size; i++){
-    if (texpr[i]->cst.discr==AP_COEFF_SCALAR){
+    if (ap_linexpr0_is_linear(texpr[i])){
       tdimp[sizep] = tdim[i];
       texprp[sizep] = texpr[i];
       sizep++;
@@ -414,12 +408,18 @@ pkeq_t* equality_asssub_linexpr_array(bool assign,
     }
   }
   if (sizep>0){
+    if (sizeforget && !assign){
+      /* the expressions may depend on the forgotten dimensions:
+	 forget before substituting */
+      pa = pkeq_forget_array(man,destructive,pa,tdimforget,sizeforget,false);
+      destructive = true;
+    }
     po = poly_asssub_linexpr_array_det(assign,man,destructive,pa,tdimp,texprp,sizep);
     poly_chernikova(man,po,"of the result");
     if (pk->exn) goto _equality_asssub_linexpr_array_error;
     equality_reduce(man,po);
     if (pk->exn) goto _equality_asssub_linexpr_array_error;
-    if (sizeforget){
+    if (sizeforget && assign){
       po = pkeq_forget_array(man,true,po,tdimforget,sizeforget,false);
     }
   }
-- 
2.43.0


From d32e282a8fa4816b0f084d7857809cf4ad7dc642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 07/63] fix: linear equalities kept inequalities when a
 conversion failed

After an overflow or an out-of-space failure only one representation is
available and equality_reduce left the constraints unreduced.
---
 newpolka/pkeq.c | 54 +++++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/newpolka/pkeq.c b/newpolka/pkeq.c
index 3719e1b..0391321 100644
--- a/newpolka/pkeq.c
+++ b/newpolka/pkeq.c
@@ -79,29 +79,43 @@ void pk_matrix_reduce(pk_matrix_t* mat)
 static
 void equality_reduce(ap_manager_t* man, pkeq_t* po)
 {
-  assert((!po->C && !po->F) || (po->C && po->F));
+  pk_internal_t* pk = (pk_internal_t*)man->internal;
+  size_t nbeq;
+
+  if (!po->C && !po->F) return;
   if (po->C && po->F){
-    if (po->C->nbrows > po->nbeq + 1){
-      pk_internal_t* pk = (pk_internal_t*)man->internal;
-
-      po->C->nbrows = po->nbeq + 1;
-      pk_matrix_fill_constraint_top(pk,po->C,po->nbeq);
-      pk_matrix_reduce(po->C);
-      pk_matrix_free(po->F); po->F = NULL;
-      if (po->satC){
-	satmat_free(po->satC);
-	po->satC = NULL;
-      }
-      if (po->satF){
-	satmat_free(po->satF);
-	po->satF = NULL;
-      }
-      poly_chernikova(man,po,"of result");
-      if (pk->exn){
-	pk->exn = AP_EXC_NONE;
-	poly_set_top(pk,po);
+    if (po->C->nbrows <= po->nbeq + 1) return;
+    nbeq = po->nbeq;
+  }
+  else if (po->C){
+    /* The conversion to generators failed (overflow or out of space):
+       keep the explicit equalities */
+    size_t i;
+    nbeq = 0;
+    for (i=0; i<po->C->nbrows; i++){
+      if (numint_sgn(po->C->p[i][0])==0){
+	pk_matrix_exch_rows(po->C,i,nbeq);
+	nbeq++;
       }
     }
+    pk_matrix_resize_rows_lazy(po->C,nbeq+1);
+  }
+  else {
+    /* The conversion to constraints failed */
+    poly_set_top(pk,po);
+    return;
+  }
+  po->C->nbrows = nbeq + 1;
+  po->C->_sorted = false;
+  pk_matrix_fill_constraint_top(pk,po->C,nbeq);
+  pk_matrix_reduce(po->C);
+  if (po->F){ pk_matrix_free(po->F); po->F = NULL; }
+  if (po->satC){ satmat_free(po->satC); po->satC = NULL; }
+  if (po->satF){ satmat_free(po->satF); po->satF = NULL; }
+  poly_chernikova(man,po,"of result");
+  if (pk->exn){
+    pk->exn = AP_EXC_NONE;
+    poly_set_top(pk,po);
   }
 }
 void pkeq_canonicalize(ap_manager_t* man, pkeq_t* po)
-- 
2.43.0


From f2721f5831adbf3974f8bb9c8254631206ea720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 08/63] fix: polyhedra substitution whose conversion fails
 returned a wrong value

The top element was stored while the roles of constraints and generators
were exchanged, so the result was the origin.
---
 newpolka/pk_assign.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/newpolka/pk_assign.c b/newpolka/pk_assign.c
index d5ab720..9c5bb40 100644
--- a/newpolka/pk_assign.c
+++ b/newpolka/pk_assign.c
@@ -470,12 +470,14 @@ pk_t* poly_asssub_linexpr_array_det(bool assign,
   if (pk->exn){
     pk->exn = AP_EXC_NONE;
     man->result.flag_best = man->result.flag_exact = false;
+    if (!assign) poly_dual(pa);
     poly_set_top(pk,po);
-    goto _poly_asssub_linexpr_array_det_exit;
+    return po;
   }
   /* Return empty if empty */
   if (!pa->C && !pa->F){
     man->result.flag_best = man->result.flag_exact = true;
+    if (!assign) poly_dual(pa);
     poly_set_bottom(pk,po);
     return po;
   }
@@ -514,7 +516,6 @@ pk_t* poly_asssub_linexpr_array_det(bool assign,
   }
   po->F = mat;
   po->status = 0;
- _poly_asssub_linexpr_array_det_exit:
   if (!assign){
     poly_dual(pa);
     if (!destructive) poly_dual(po);
@@ -784,9 +785,10 @@ pk_t* poly_asssub_linexpr_det(bool assign,
     poly_obtain_F_dual(man,pa,"of the argument",assign);
     if (pk->exn){
       pk->exn = AP_EXC_NONE;
+      if (!assign) poly_dual(pa);
       poly_set_top(pk,po);
       man->result.flag_best = man->result.flag_exact = false;
-      goto  _poly_asssub_linear_linexpr_exit;
+      return po;
     }
     if (destructive){
       /* If side-effect, free everything but generators */
@@ -824,7 +826,6 @@ pk_t* poly_asssub_linexpr_det(bool assign,
     po->nbline = 0;
   }
   po->status = 0;
- _poly_asssub_linear_linexpr_exit:
   if (!assign){
     poly_dual(pa);
     if (!destructive) poly_dual(po);
-- 
2.43.0


From 149b216679f5d5e9d02683811c45f159299a146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 09/63] fix: polyhedra operations after a failed conversion

When the conversion of an operand fails (overflow or out of space), the
strict algorithms went on with the missing representation or saturation
matrix, left the exception pending in the manager, which made the next
operations fail, and left a permuted matrix marked as sorted. Use the
lazy algorithm on such operands, and clear the pending exception.
---
 newpolka/pk_cherni.c   |  1 +
 newpolka/pk_internal.h |  1 +
 newpolka/pk_meetjoin.c | 31 +++++++++++++++++++++----------
 newpolka/pk_project.c  |  1 +
 4 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/newpolka/pk_cherni.c b/newpolka/pk_cherni.c
index 06974b3..55265ec 100644
--- a/newpolka/pk_cherni.c
+++ b/newpolka/pk_cherni.c
@@ -390,6 +390,7 @@ size_t cherni_conversion(pk_internal_t* pk,
   return nbline;
 
  cherni_conversion_exit0:
+  con->_sorted = false; /* redundant constraints may have been exchanged */
   bitstring_free(bitstringp);
   return 0;
 }
diff --git a/newpolka/pk_internal.h b/newpolka/pk_internal.h
index 119f004..f8793f0 100644
--- a/newpolka/pk_internal.h
+++ b/newpolka/pk_internal.h
@@ -93,6 +93,7 @@ static inline pk_internal_t* pk_init_from_manager(ap_manager_t* man, ap_funid_t
 {
   pk_internal_t* pk = (pk_internal_t*)man->internal;
   pk->funid = funid;
+  pk->exn = AP_EXC_NONE; /* no exception pending from a previous operation */
   pk->funopt = &man->option.funopt[funid];
   man->result.flag_exact = man->result.flag_best = false;
   return pk;
diff --git a/newpolka/pk_meetjoin.c b/newpolka/pk_meetjoin.c
index a3da0ea..4a4470b 100644
--- a/newpolka/pk_meetjoin.c
+++ b/newpolka/pk_meetjoin.c
@@ -117,6 +117,8 @@ bool poly_meet_matrix(bool meet,
 	    (meet ? po->C : po->F) ? "constraints to generators" : "generators to constraints");
     ap_manager_raise_exception(man,pk->exn,pk->funid,str);
   }
+  pk->exn = AP_EXC_NONE;
+  man->result.flag_best = man->result.flag_exact = false;
   return true;
 }
 
@@ -244,7 +246,7 @@ void poly_meet(bool meet,
   _poly_meet_entry0:
     poly_obtain_sorted_C(pk,pa);
     poly_obtain_sorted_C(pk,pb);
-    poly_meet_matrix(meet,lazy,man,po,pa,pb->C);
+    poly_meet_matrix(meet,true,man,po,pa,pb->C);
   }
   /* strict behaviour */
   else {
@@ -357,6 +359,7 @@ pk_t* poly_meet_array(bool meet,
     pk_matrix_t* C;
     size_t nbrows;
     size_t i,j;
+    bool minimized = true; /* are all the polyhedra minimized ? */
 
     man->result.flag_best = true;
     man->result.flag_exact = meet;
@@ -379,6 +382,7 @@ pk_t* poly_meet_array(bool meet,
 	  if (!meet) poly_dual(poly);
 	  return poly;
 	}
+	minimized = false;
       }
       if (!po[i]->C){
 	/* one polyhedron is empty */
@@ -417,8 +421,8 @@ pk_t* poly_meet_array(bool meet,
       }
       return poly;
     }
-    /* 2.1. lazy behaviour */
-    if (lazy){
+    /* 2.1. lazy behaviour (also if some minimization failed) */
+    if (lazy || !minimized){
       C = pk_matrix_alloc(nbrows,pk->dec+intdim+realdim,true);
       C->nbrows = 0;
       C->_sorted = true;
@@ -525,7 +529,7 @@ void poly_meet_itv_lincons_array(bool lazy,
 				 itv_lincons_array_t* array)
 {
   pk_matrix_t* mat;
-  bool quasilinear;
+  bool quasilinear,failure;
   pk_internal_t* pk = (pk_internal_t*)man->internal;
 
   quasilinear = itv_lincons_array_is_quasilinear(array);
@@ -543,6 +547,13 @@ void poly_meet_itv_lincons_array(bool lazy,
       poly_set_top(pk,po);
       return;
     }
+    if (!quasilinear){
+      /* no generators to bound the coefficients: ignore the constraints */
+      poly_set(po,pa);
+      man->result.flag_best = man->result.flag_exact = false;
+      return;
+    }
+    lazy = true;
   }
   /* if pa is bottom, return bottom */
   if ( !pa->C && !pa->F){
@@ -562,10 +573,9 @@ void poly_meet_itv_lincons_array(bool lazy,
   bool exact = pk_matrix_set_itv_lincons_array(pk,&mat,array,po->intdim,po->realdim,true);
   pk_matrix_sort_rows(pk,mat);
   if (!lazy) poly_obtain_satC(pa);
-  poly_meet_matrix(true,lazy,man,po,pa,mat);
+  failure = poly_meet_matrix(true,lazy,man,po,pa,mat);
   pk_matrix_free(mat);
-  if (pk->exn){
-    pk->exn = AP_EXC_NONE;
+  if (failure){
     man->result.flag_exact = man->result.flag_best = false;
   }
   else {
@@ -688,7 +698,7 @@ void poly_add_ray_array(bool lazy,
 			ap_manager_t* man,
 			pk_t* po, pk_t* pa, ap_generator0_array_t* array)
 {
-  bool exact;
+  bool exact,failure;
   pk_matrix_t* mat;
 
   pk_internal_t* pk = (pk_internal_t*)man->internal;
@@ -708,6 +718,7 @@ void poly_add_ray_array(bool lazy,
       poly_set_top(pk,po);
       return;
     }
+    lazy = true;
   }
   /* if pa is bottom, return bottom */
   if ( !pa->C && !pa->F){
@@ -720,11 +731,11 @@ void poly_add_ray_array(bool lazy,
   if (!lazy) poly_obtain_satF(pa);
   poly_dual(po);
   if (po!=pa) poly_dual(pa);
-  poly_meet_matrix(false,lazy,man,po,pa,mat);
+  failure = poly_meet_matrix(false,lazy,man,po,pa,mat);
   poly_dual(po);
   if (po!=pa) poly_dual(pa);
   pk_matrix_free(mat);
-  man->result.flag_exact = exact;
+  if (!failure) man->result.flag_exact = exact;
 }
 
 pk_t* pk_add_ray_array(ap_manager_t* man, bool destructive, pk_t* pa, ap_generator0_array_t* array)
diff --git a/newpolka/pk_project.c b/newpolka/pk_project.c
index 9da508a..3b35abc 100644
--- a/newpolka/pk_project.c
+++ b/newpolka/pk_project.c
@@ -53,6 +53,7 @@ void poly_projectforget_array(bool project,
       poly_set_top(pk,po);
       return;
     }
+    lazy = true;
   }
   /* if empty, return empty */
   if (!pa->F){
-- 
2.43.0


From 2fb5937dc9ffac15a788273aa546965bb0862353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 10/63] fix: in-place meet with a polyhedron not yet known to
 be empty crashed

Minimization of the first operand may discover that it is empty.
---
 newpolka/pk_meetjoin.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/newpolka/pk_meetjoin.c b/newpolka/pk_meetjoin.c
index 4a4470b..1b2b24f 100644
--- a/newpolka/pk_meetjoin.c
+++ b/newpolka/pk_meetjoin.c
@@ -304,6 +304,9 @@ void poly_meet(bool meet,
 	pk->exn = AP_EXC_NONE;
 	goto _poly_meet_entry0;
       }
+      /* Particular cases: pa may have been discovered to be empty */
+      if (poly_meet_particularcases(meet,lazy,man,po,pa,pb))
+	return;
     }
     /* Now, pa is the start polyhedron */
     poly_obtain_satC(pa);
-- 
2.43.0


From 8b541f0784cbf2e938adb50b3a6820534a3e2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 11/63] fix: convert minimized linear equalities before
 reducing them

equality_reduce expects both representations; a minimized value has one.
---
 newpolka/pkeq.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newpolka/pkeq.c b/newpolka/pkeq.c
index 0391321..6bd4657 100644
--- a/newpolka/pkeq.c
+++ b/newpolka/pkeq.c
@@ -82,6 +82,8 @@ void equality_reduce(ap_manager_t* man, pkeq_t* po)
   pk_internal_t* pk = (pk_internal_t*)man->internal;
   size_t nbeq;
 
+  poly_chernikova(man,po,"of result");
+  pk->exn = AP_EXC_NONE;
   if (!po->C && !po->F) return;
   if (po->C && po->F){
     if (po->C->nbrows <= po->nbeq + 1) return;
-- 
2.43.0


From 53b42db627f75382357b2dff03e2e2a2b907abe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 12/63] fix: octagonal approximation of polyhedra used the
 opposite upper bounds

vector_set_linexpr_bound forgot to negate the constant of the expression
when it stores expr <= bound.
---
 newpolka/pk_user.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newpolka/pk_user.c b/newpolka/pk_user.c
index f7a2198..37da2c1 100644
--- a/newpolka/pk_user.c
+++ b/newpolka/pk_user.c
@@ -118,7 +118,7 @@ bool vector_set_linexpr_bound(pk_internal_t* pk,
   numint_init(cst);
   numint_mul(cst,numrat_numref(numrat),vec[0]);
   if (mode>=0){
-    numint_sub(vec[polka_cst],vec[polka_cst],cst);
+    numint_sub(vec[polka_cst],cst,vec[polka_cst]);
     for (i=pk->dec; i<size; i++){
       numint_neg(vec[i],vec[i]);
     }
-- 
2.43.0


From 95966aeb93a296fdfac4359874bccc5955c7fb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 13/63] fix: lower bounds of native floating-point powers were
 rounded upwards

Without -frounding-math the compiler simplifies -((-x)*y) into x*y.
---
 num/numflt_native.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/num/numflt_native.h b/num/numflt_native.h
index dbc1d05..af862d5 100644
--- a/num/numflt_native.h
+++ b/num/numflt_native.h
@@ -160,14 +160,17 @@ static inline int  numflt_pow(numflt_t up, numflt_t down, numflt_t b, unsigned l
 {
   /* we cannot rely on pow, we implement a simple fast power */
   numflt_native u, d, fu, fd;
+  /* volatile prevents the compiler from simplifying -((-x)*y) into x*y,
+     which would round the lower bounds towards +oo */
+  volatile numflt_native t;
   int sign;
   if (*b < 0) { fu = fd = -*b; sign = n&1;}
   else { fu = fd = *b; sign = 0; }
   u = d = 1;
   while (n) {
-    if (n & 1) { u *= fu; d = - ((-d) * fd); }
+    if (n & 1) { u *= fu; t = (-d) * fd; d = -t; }
     fu = fu * fu;
-    fd = - ((-fd) * fd);
+    t = (-fd) * fd; fd = -t;
     n >>= 1;
   }
   if (sign) {
-- 
2.43.0


From 2677e779f64416942f114cb01c19001f2358a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 14/63] fix: bounds deduced from constraints with interval
 coefficients were rounded inwards

The quotient, rounded towards +oo, was negated afterwards.
---
 itv/itv_linearize.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 5864539..8fb4b32 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -245,10 +245,10 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 			  intern->boxize_lincons_itv->sup);
 	      } else { /* 1B */
 		/* We compute -E/m */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_itv->inf);
 		bound_div(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_eval->sup,
-			  intern->boxize_lincons_itv->inf);
-		bound_neg(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_bound);
 	      }
 	    }
@@ -260,10 +260,10 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 			  intern->boxize_lincons_itv->inf);
 	      } else { /* 4B */
 		/* We compute -e/M */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_itv->sup);
 		bound_div(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_eval->inf,
-			  intern->boxize_lincons_itv->sup);
-		bound_neg(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_bound);
 	      }
 	    }
@@ -291,10 +291,10 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 	    if (sgnitv<0){ /* 2 */
 	      if (sgnE>=0){ /* 2B */
 		/* We compute -E/M */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_itv->sup);
 		bound_div(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_eval->sup,
-			  intern->boxize_lincons_itv->sup);
-		bound_neg(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_bound);
 	      } else { /* 2A */
 		/* We compute E/m */
@@ -306,10 +306,10 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 	    else { /* 3 */
 	      if (sgne>=0){ /* 3B */
 		/* We compute -e/m */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_itv->inf);
 		bound_div(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_eval->inf,
-			  intern->boxize_lincons_itv->inf);
-		bound_neg(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_bound);
 	      }
 	      else { /* 3A */
-- 
2.43.0


From 82c5d6580d9828cac7b190e223b6df13b8bf7074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 15/63] fix: quasilinearisation marked an interval constant as
 scalar When a variable with an interval coefficient has a constant value, the
 constant of the expression becomes an interval; the flag telling it is a
 scalar was kept, and polyhedra then used a wrong bound or divided by zero.

---
 itv/itv_linearize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 8fb4b32..940cb69 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -541,6 +541,7 @@ bool ITVFUN(itv_quasilinearize_linexpr)(itv_internal_t* intern, itv_linexpr_t* l
       /* If a variable has a constant value, simplification */
       itv_mul_num(itv,itv,bound_numref(env[dim]->sup));
       itv_add(linexpr->cst,linexpr->cst,itv);
+      linexpr->equality = linexpr->equality && itv_is_point(intern,linexpr->cst);
 
       size--;
       itv_linterm_t tmp = linexpr->linterm[i];
-- 
2.43.0


From a5ec55697f768b4fcd9eea5b72d9749140217ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 16/63] fix: polyhedra satisfaction tests of strict constraints
 were incomplete

In loose mode a ray orthogonal to a strict constraint made the test answer
false, and a constraint over integer dimensions was both tightened and
tested as strict ({x>=1} did not satisfy x>0).
---
 newpolka/pk_test.c | 6 +++---
 newpolka/pk_user.c | 7 ++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/newpolka/pk_test.c b/newpolka/pk_test.c
index de1b33f..c82f195 100644
--- a/newpolka/pk_test.c
+++ b/newpolka/pk_test.c
@@ -129,7 +129,7 @@ bool do_generators_sat_vector(pk_internal_t* pk, pk_matrix_t* F, numint_t* tab,
 	else {
 	  /* ray or vertex */
 	  if (is_strict && sign==0 &&
-	      (pk->strict ? numint_sgn(F->p[i][polka_eps])>0 : true))
+	      (pk->strict ? numint_sgn(F->p[i][polka_eps])>0 : numint_sgn(F->p[i][polka_cst])>0))
 	    return false;
 	}
       }
@@ -300,7 +300,7 @@ bool pk_sat_lincons(ap_manager_t* man, pk_t* po, ap_lincons0_t* lincons0)
   if (sat){
     sat = do_generators_sat_vector(pk,po->F,
 				   pk->poly_numintp,
-				   lincons0->constyp==AP_CONS_SUP);
+				   pk->poly_itv_lincons.constyp==AP_CONS_SUP);
   }
   man->result.flag_exact = man->result.flag_best =
     sat ?
@@ -355,7 +355,7 @@ bool pk_sat_tcons(ap_manager_t* man, pk_t* po, ap_tcons0_t* cons)
   if (sat){
     sat = do_generators_sat_vector(pk,po->F,
 				   pk->poly_numintp,
-				   cons->constyp==AP_CONS_SUP);
+				   pk->poly_itv_lincons.constyp==AP_CONS_SUP);
   }
   man->result.flag_exact = man->result.flag_best = sat;
   return sat;
diff --git a/newpolka/pk_user.c b/newpolka/pk_user.c
index 37da2c1..ddd5deb 100644
--- a/newpolka/pk_user.c
+++ b/newpolka/pk_user.c
@@ -266,10 +266,15 @@ bool vector_set_itv_lincons_sat(pk_internal_t* pk,
       }
       else if (integer && vector_is_integer(pk, vec, intdim, realdim)){
 	numint_sub_uint(vec[polka_cst], vec[polka_cst], 1);
+	cons->constyp = AP_CONS_SUPEQ;
       }
     }
-    if (integer)
+    if (integer){
       vector_normalize_constraint_int(pk,vec,intdim,realdim);
+      if (cons->constyp == AP_CONS_SUP && pk->strict &&
+	  numint_sgn(vec[polka_eps])==0)
+	cons->constyp = AP_CONS_SUPEQ; /* tightened */
+    }
     return true;
   }
   else {
-- 
2.43.0


From b1be3d4100f4d3d7e085b9b2cdf472535bcf89ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 17/63] fix: closure of an empty strict PPL polyhedron could be
 non-empty

PPL's topological_closure_assign relaxes the constraints even if the
polyhedron is empty but not yet known to be.
---
 ppl/ppl_poly.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ppl/ppl_poly.cc b/ppl/ppl_poly.cc
index 5f8c819..cb6bc5c 100644
--- a/ppl/ppl_poly.cc
+++ b/ppl/ppl_poly.cc
@@ -1196,7 +1196,8 @@ PPL_Poly* ap_ppl_poly_closure(ap_manager_t* man, bool destructive, PPL_Poly* a)
   man->result.flag_exact = man->result.flag_best = true;
   try {
     PPL_Poly* r = destructive ? a : new PPL_Poly(man,*a);
-    r->p->topological_closure_assign();
+    /* PPL does not notice emptiness that is not known yet */
+    if (!r->p->is_empty()) r->p->topological_closure_assign();
     return r;
   }
   CATCH_WITH_POLY(AP_FUNID_CLOSURE,a);
-- 
2.43.0


From e59c62d241c3f708cbb5c0ef70cf6ba7e188d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 18/63] fix: serialized multiple-precision floats lost their
 exponent

---
 num/numflt_mpfr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/num/numflt_mpfr.h b/num/numflt_mpfr.h
index 5ffc470..ba0ae74 100644
--- a/num/numflt_mpfr.h
+++ b/num/numflt_mpfr.h
@@ -312,7 +312,7 @@ static inline size_t numflt_serialize(void* dst, numflt_t src)
   assert(((unsigned)count)==count);
   assert(((int)e)==e);
   num_dump_word32((char*)dst+1,(unsigned)count);
-  num_dump_word32((char*)dst+5,(unsigned)count);
+  num_dump_word32((char*)dst+5,(unsigned)e);
   return count+9;
 
 }
-- 
2.43.0


From 64c40cd6b93603f97810081b06b92de79aa9ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 19/63] fix: deserializing an absolute-value octagon reported
 too small a size

---
 avoct/avo_print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avoct/avo_print.c b/avoct/avo_print.c
index 99e1411..ba2d613 100755
--- a/avoct/avo_print.c
+++ b/avoct/avo_print.c
@@ -220,7 +220,7 @@ avo_t* avo_deserialize_raw(ap_manager_t* man, void* ptr, size_t* size)
 		r->closed = avo_hmat_alloc(pr,dim);
 		*size = 10 + bound_deserialize_array(r->closed,(char*)ptr+10,avo_matsize(dim));
 		r->nsc = avo_hmat_alloc(pr,dim);
-		*size = 10 + bound_deserialize_array(r->nsc,(char*)ptr+(*size),avo_matsize(dim));
+		*size = *size + bound_deserialize_array(r->nsc,(char*)ptr+(*size),avo_matsize(dim));
 		break;
 	  default: assert(0);
   }
-- 
2.43.0


From df8c0c4a85bc7b6a469050ade2900ee08bc3083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 20/63] fix: dimension of another library's value was read with
 the wrong functions

---
 apron/ap_abstract0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index a5cd333..83ddd1b 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -719,7 +719,7 @@ ap_abstract0_t* ap_abstract0_of_box(ap_manager_t* man,
 ap_dimension_t ap_abstract0_dimension(ap_manager_t* man, ap_abstract0_t* a)
 {
   ap_abstract0_checkman1(AP_FUNID_DIMENSION,man,a);
-  ap_dimension_t (*ptr)(ap_manager_t*,void*) = man->funptr[AP_FUNID_DIMENSION];
+  ap_dimension_t (*ptr)(ap_manager_t*,void*) = a->man->funptr[AP_FUNID_DIMENSION];
   return ptr(a->man,a->value);
 }
 
-- 
2.43.0


From d8d1c352c0ede5812e09b4165ee91e5fc1d76197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 21/63] fix: dimension 0 was accepted in expressions over
 values without dimension

---
 apron/ap_abstract0.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 83ddd1b..c559849 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -243,7 +243,7 @@ ap_dim_t ap_abstract0_check_linexpr_check(ap_dimension_t dimension,
   ap_dim_t dim;
 
   nbdims = dimension.intdim+dimension.realdim;
-  dim = 0;
+  dim = AP_DIM_MAX;
   switch (expr->discr){
   case AP_LINEXPR_DENSE:
     if (expr->size > nbdims){
@@ -264,7 +264,6 @@ ap_dim_t ap_abstract0_check_linexpr_check(ap_dimension_t dimension,
 	break;
       }
     }
-    if (!dim) dim = AP_DIM_MAX;
     break;
   default:
     abort();
-- 
2.43.0


From 8334b3d307558f29d9fa35c91e26d0f81f19b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 22/63] fix: result of an invalid fold had a wrong, possibly
 huge, dimension

---
 apron/ap_abstract0.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index c559849..0b77c8f 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -1377,9 +1377,12 @@ ap_abstract0_t* ap_abstract0_fold(ap_manager_t* man,
   else {
   _ap_abstract0_fold_exc:
     if (destructive) _ap_abstract0_free(a);
+    /* the array may be empty or longer than the number of dimensions */
+    size_t nbint = (size>0 && tdim[0]<dimension.intdim) ? size-1 : 0;
+    size_t nbreal = (size>0 && tdim[0]>=dimension.intdim) ? size-1 : 0;
     return ap_abstract0_top(man,
-			    dimension.intdim - ( (size>0 && tdim[0]<dimension.intdim) ? (size-1) : 0),
-			    dimension.realdim - ( (size>0 && tdim[0]<dimension.intdim) ? 0 : (size-1)));
+			    dimension.intdim>=nbint ? dimension.intdim-nbint : 0,
+			    dimension.realdim>=nbreal ? dimension.realdim-nbreal : 0);
   }
 }
 /* ============================================================ */
-- 
2.43.0


From 4c5e5132ec294083eacd63e0fc785fd541db2e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 23/63] fix: unsorted, duplicate or ill-typed dimension changes
 were accepted

The sortedness test skipped the first element, and real dimensions could be
inserted or removed among the integer ones.
---
 apron/ap_abstract0.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 0b77c8f..10658a9 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -465,9 +465,15 @@ bool ap_abstract0_check_ap_dimchange_add(ap_funid_t funid, ap_manager_t* man,
     }
   }
   size = dimchange->intdim+dimchange->realdim;
+  for (i=dimchange->intdim; i<size; i++){
+    if (dimchange->dim[i]<dimension.intdim){
+      res = false;
+      break;
+    }
+  }
   if (res && size>0){
     /* Check sortedness */
-    ap_dim_t dim = 0;
+    ap_dim_t dim = dimchange->dim[0];
     for (i=1; i<size; i++){
       if (dim>dimchange->dim[i]){
 	res = false;
@@ -500,9 +506,15 @@ bool ap_abstract0_check_ap_dimchange_remove(ap_funid_t funid, ap_manager_t* man,
     }
   }
   size = dimchange->intdim+dimchange->realdim;
+  for (i=dimchange->intdim; i<size; i++){
+    if (dimchange->dim[i]<dimension.intdim){
+      res = false;
+      break;
+    }
+  }
   if (res && size>0){
     /* Check sortedness */
-    ap_dim_t dim = 0;
+    ap_dim_t dim = dimchange->dim[0];
     for (i=1; i<dimchange->intdim+dimchange->realdim; i++){
       if (dim>=dimchange->dim[i]){
 	res = false;
-- 
2.43.0


From 99426e4de47cef847899a12e1147b95223ebf629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 24/63] fix: permutations mapping two dimensions to the same
 one were accepted

---
 apron/ap_abstract0.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 10658a9..16d9747 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -539,13 +539,16 @@ bool ap_abstract0_check_dimperm(ap_funid_t funid, ap_manager_t* man,
   size_t i;
   size_t size = dimension.intdim+dimension.realdim;
   bool res = (dimension.intdim+dimension.realdim==perm->size);
-  if (res){
+  if (res && size>0){
+    char* seen = (char*)calloc(size,1);
     for (i=0; i<perm->size; i++){
-      if (perm->dim[i]>=size){
+      if (perm->dim[i]>=size || seen[perm->dim[i]]){
 	res = false;
 	break;
       }
+      seen[perm->dim[i]] = 1;
     }
+    free(seen);
   }
   if (!res){
     ap_manager_raise_exception(man,
-- 
2.43.0


From 23967f0931dbd245bb80a61d835ddac9384e6522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 25/63] fix: results of rejected calls were flagged exact

Building the top value returned after an invalid argument overwrote the
flags cleared when the exception was recorded.
---
 apron/ap_abstract0.c | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 16d9747..5c5538a 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -90,6 +90,15 @@ The %luth abstract value of the array is of type %s and not of the type %s expec
   return true;
 }
 
+/* Result of a call rejected with an exception: top is returned, but it is not
+   the exact or best result of anything */
+static ap_abstract0_t* ap_abstract0_exc_top(ap_manager_t* man, size_t intdim, size_t realdim)
+{
+  ap_abstract0_t* res = ap_abstract0_top(man,intdim,realdim);
+  man->result.flag_exact = man->result.flag_best = false;
+  return res;
+}
+
 /* ====================================================================== */
 /* 0.2 Checking compatibility of arguments: abstract values */
 /* ====================================================================== */
@@ -575,7 +584,7 @@ ap_abstract0_t* ap_abstract0_copy(ap_manager_t* man, ap_abstract0_t* a)
   }
   else {
     ap_dimension_t dimension = _ap_abstract0_dimension(a);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -963,7 +972,7 @@ ap_abstract0_t* ap_abstract0_meetjoin(ap_funid_t funid,
   else {
     ap_dimension_t dimension = _ap_abstract0_dimension(a1);
     if (destructive) _ap_abstract0_free(a1);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -993,7 +1002,7 @@ ap_abstract0_t* ap_abstract0_meetjoin_array(ap_funid_t funid, ap_manager_t* man,
     if (size>0){
       dimension = _ap_abstract0_dimension(tab[0]);
     }
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -1018,7 +1027,7 @@ ap_abstract0_t* ap_abstract0_meet_lincons_array(ap_manager_t* man,
   }
   else {
     if (destructive) _ap_abstract0_free(a);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -1037,7 +1046,7 @@ ap_abstract0_t* ap_abstract0_meet_tcons_array(ap_manager_t* man,
   }
   else {
     if (destructive) _ap_abstract0_free(a);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -1056,7 +1065,7 @@ ap_abstract0_t* ap_abstract0_add_ray_array(ap_manager_t* man,
   }
   else {
     if (destructive) _ap_abstract0_free(a);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -1098,7 +1107,7 @@ ap_abstract0_t* ap_abstract0_asssub_linexpr_array(ap_funid_t funid,
     }
     else {
       if (destructive) _ap_abstract0_free(a);
-      return ap_abstract0_top(man,
+      return ap_abstract0_exc_top(man,
 			      dimension.intdim,
 			      dimension.realdim);
     }
@@ -1158,7 +1167,7 @@ ap_abstract0_t* ap_abstract0_asssub_texpr_array(ap_funid_t funid,
     }
     else {
       if (destructive) _ap_abstract0_free(a);
-      return ap_abstract0_top(man,
+      return ap_abstract0_exc_top(man,
 			      dimension.intdim,
 			      dimension.realdim);
     }
@@ -1215,7 +1224,7 @@ ap_abstract0_t* ap_abstract0_forget_array(ap_manager_t* man,
     }
     else {
       if (destructive) _ap_abstract0_free(a);
-      return ap_abstract0_top(man,
+      return ap_abstract0_exc_top(man,
 			      dimension.intdim,
 			      dimension.realdim);
     }
@@ -1250,7 +1259,7 @@ ap_abstract0_t* ap_abstract0_add_dimensions(ap_manager_t* man,
     }
     else {
       if (destructive) _ap_abstract0_free(a);
-      return ap_abstract0_top(man,
+      return ap_abstract0_exc_top(man,
 			      dimension.intdim+dimchange->intdim,
 			      dimension.realdim+dimchange->realdim);
     }
@@ -1279,7 +1288,7 @@ ap_abstract0_t* ap_abstract0_remove_dimensions(ap_manager_t* man,
     }
     else {
       if (destructive) _ap_abstract0_free(a);
-      return ap_abstract0_top(man,
+      return ap_abstract0_exc_top(man,
 			      dimension.intdim>=dimchange->intdim ? dimension.intdim-dimchange->intdim : 0,
 			      dimension.realdim>=dimchange->realdim ? dimension.realdim-dimchange->realdim : 0);
     }
@@ -1299,7 +1308,7 @@ ap_abstract0_t* ap_abstract0_permute_dimensions(ap_manager_t* man,
   }
   else {
     if (destructive) _ap_abstract0_free(a);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -1332,7 +1341,7 @@ ap_abstract0_t* ap_abstract0_expand(ap_manager_t* man,
     }
     else {
       if (destructive) _ap_abstract0_free(a);
-      return ap_abstract0_top(man,
+      return ap_abstract0_exc_top(man,
 			      dimension.intdim + (dim<dimension.intdim ? n : 0),
 			      dimension.realdim + (dim<dimension.intdim ? 0 : n));
     }
@@ -1395,7 +1404,7 @@ ap_abstract0_t* ap_abstract0_fold(ap_manager_t* man,
     /* the array may be empty or longer than the number of dimensions */
     size_t nbint = (size>0 && tdim[0]<dimension.intdim) ? size-1 : 0;
     size_t nbreal = (size>0 && tdim[0]>=dimension.intdim) ? size-1 : 0;
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim>=nbint ? dimension.intdim-nbint : 0,
 			    dimension.realdim>=nbreal ? dimension.realdim-nbreal : 0);
   }
@@ -1414,7 +1423,7 @@ ap_abstract0_t* ap_abstract0_widening(ap_manager_t* man,
   }
   else {
     ap_dimension_t dimension = _ap_abstract0_dimension(a1);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -1433,7 +1442,7 @@ ap_abstract0_t* ap_abstract0_closure(ap_manager_t* man, bool destructive, ap_abs
   }
   else {
     if (destructive) _ap_abstract0_free(a);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -1577,7 +1586,7 @@ ap_abstract0_t* ap_abstract0_widening_threshold(ap_manager_t* man,
     return ap_abstract0_cons(man,value);
   }
   else {
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
-- 
2.43.0


From 7408a8da1fcc2009085f1b6c3cdac180e18a6ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 26/63] fix: hash, top test, closure and approximation of
 polyhedra mishandled a conversion stopped by a limit

---
 newpolka/pk_approximate.c    | 6 ++++++
 newpolka/pk_closure.c        | 1 +
 newpolka/pk_representation.c | 7 ++++++-
 newpolka/pk_test.c           | 8 +++++++-
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/newpolka/pk_approximate.c b/newpolka/pk_approximate.c
index 8fe5ff4..6c4c74b 100644
--- a/newpolka/pk_approximate.c
+++ b/newpolka/pk_approximate.c
@@ -455,5 +455,11 @@ void pk_approximate(ap_manager_t* man, pk_t* po, int algorithm)
     }
     break;
   }
+  if (pk->exn){
+    /* a conversion failed: the polyhedron is left as it was, or is only
+       approximated by removing constraints */
+    pk->exn = AP_EXC_NONE;
+    man->result.flag_exact = man->result.flag_best = false;
+  }
   assert(poly_check(pk,po));
 }
diff --git a/newpolka/pk_closure.c b/newpolka/pk_closure.c
index 720c441..5e2ebd7 100644
--- a/newpolka/pk_closure.c
+++ b/newpolka/pk_closure.c
@@ -40,6 +40,7 @@ pk_t* pk_closure(ap_manager_t* man, bool destructive, pk_t* pa)
   }
   po = destructive ? pa : poly_alloc(pa->intdim,pa->realdim);
   if (pk->exn){
+    pk->exn = AP_EXC_NONE;
     poly_set_top(pk,po);
     man->result.flag_best = man->result.flag_exact = false;
     return po;
diff --git a/newpolka/pk_representation.c b/newpolka/pk_representation.c
index ec6a870..f397278 100644
--- a/newpolka/pk_representation.c
+++ b/newpolka/pk_representation.c
@@ -366,8 +366,13 @@ int pk_hash(ap_manager_t* man, pk_t* po)
   ap_funopt_t opt = ap_manager_get_funopt(man,AP_FUNID_CANONICALIZE);
 
   poly_chernikova3(man,po,NULL);
-  assert(poly_check(pk,po));
   res = 5*po->intdim + 7*po->realdim;
+  if (pk->exn){
+    pk->exn = AP_EXC_NONE;
+    man->result.flag_exact = man->result.flag_best = false;
+    return res;
+  }
+  assert(poly_check(pk,po));
   if (po->C!=NULL){
     res += po->C->nbrows*11 +  po->F->nbrows*13;
     for (i=0; i<po->C->nbrows; i += (po->C->nbrows+3)/4){
diff --git a/newpolka/pk_test.c b/newpolka/pk_test.c
index c82f195..890840e 100644
--- a/newpolka/pk_test.c
+++ b/newpolka/pk_test.c
@@ -64,8 +64,14 @@ bool pk_is_top(ap_manager_t* man, pk_t* po)
   pk_internal_t* pk = pk_init_from_manager(man,AP_FUNID_IS_TOP);
   man->result.flag_exact = man->result.flag_best = true;
 
-  if (pk->funopt->algorithm>=0)
+  if (pk->funopt->algorithm>=0){
     poly_chernikova(man,po,NULL);
+    if (pk->exn){
+      pk->exn = AP_EXC_NONE;
+      man->result.flag_exact = man->result.flag_best = false;
+      return false;
+    }
+  }
   if (!po->C && !po->F)
     return false;
   else if (po->C && po->F)
-- 
2.43.0


From 6a48bb9e2ff785c134035dd90bd919c6b404c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 27/63] fix: conversion to an environment that is not larger
 wrote past the end

When the first environment is not included in the second one, more insertions
than the difference of sizes could be written before it was noticed; a name
following the last one of the second environment could be missed.
---
 apron/ap_environment.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index d679c0a..0faaa23 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -295,19 +295,22 @@ static bool env_lce_dimchange(env_t* e1, env_t* e,
 			      ap_dimchange_t* dimchange1,
 			      size_t offsetwrite, size_t offsetread)
 {
-  size_t i,i1,k1;
-  int sgn=0;
+  size_t i,i1,k1,kmax;
+  int sgn;
 
   if (e1->size>e->size) return true;
+  kmax = e->size - e1->size;
   i = 0;
   k1 = 0;
   for (i1=0; i1<e1->size; i1++){
+    sgn = 1;
     while (i<e->size){
       sgn = ap_var_operations->compare(e1->var_of_dim[i1],e->var_of_dim[i]);
       i++;
       if (sgn<0) return true;
       if (sgn==0) break;
       /* here, a new dimension to insert */
+      if (k1>=kmax) return true;
       dimchange1->dim[offsetwrite+k1] = offsetread+i1;
       k1++;
     }
-- 
2.43.0


From fd859169dbfab035f08ed18d2d002c9d76718925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 28/63] fix: failed removal of variables from an environment
 leaked the other part

---
 apron/ap_environment.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index 0faaa23..cdd5ea1 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -562,6 +562,8 @@ ap_environment_t* ap_environment_remove(ap_environment_t* env,
   denv2.envreal = env_remove(&denv1.envreal, tvarreal, realdim);
   if (denv2.envint.size==UINT_MAX ||
       denv2.envreal.size==UINT_MAX){
+    if (denv2.envint.size!=UINT_MAX) env_clear(&denv2.envint);
+    if (denv2.envreal.size!=UINT_MAX) env_clear(&denv2.envreal);
     res = NULL;
   } else {
     res = environment_of_denv(&denv2);
-- 
2.43.0


From 0760fcb97ba4b5d9df6120a6e877d635ac449b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 29/63] fix: least common environment of an array of
 environments

The array of the caller was sorted and its duplicates removed, so that the
conversions no longer corresponded to (and could be fewer than) its elements,
which callers go through; the environment was returned without a new reference
when the array had one element or two equal ones, unlike in the other cases;
conversions were returned for equal environments and leaked, or left
uninitialised, for incompatible ones.
---
 apron/ap_environment.c | 63 +++++++++---------------------------------
 1 file changed, 13 insertions(+), 50 deletions(-)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index cdd5ea1..e1ff284 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -893,18 +893,11 @@ ap_environment_t* ap_environment_lce(ap_environment_t* env1,
   the array (*ptdimchange)[0] with malloc.
 
 */
-static int env_cmp(const void* a, const void* b)
-{
-  ap_environment_t* pa = *((ap_environment_t*const*)a);
-  ap_environment_t* pb = *((ap_environment_t*const*)b);
-  return (pa>pb ? 1 : (pa==pb ? 0 : -1));
-}
-
 ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
 					   size_t size,
 					   ap_dimchange_t*** ptdimchange)
 {
-  size_t i, intrealdim;
+  size_t i;
   denv_t* tdenv;
   env_t** te;
   size_t* tindex;
@@ -914,32 +907,6 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
 
   assert(size>=1);
 
-  qsort(tenv,size,sizeof(ap_environment_t*),env_cmp);
-  /* remove doublons */
-  for(i=0;i<size-1;i++){
-    if (tenv[i]==tenv[i+1]){
-      if (i<size-2){
-	memmove(&tenv[i+1],&tenv[i+2],(size-i-2)*sizeof(ap_environment_t*));
-      }
-      size--;
-    }
-  }
-  if (size==1){
-    *ptdimchange = malloc(sizeof(ap_dim_t*));
-    (*ptdimchange)[0] = NULL;
-    return tenv[0];
-  }
-  if (size==2){
-    if (ap_environment_is_eq(tenv[0],tenv[1])){
-      *ptdimchange = NULL;
-      return tenv[0];
-    }
-    else {
-      *ptdimchange = malloc(2*sizeof(ap_dimchange_t*));
-      return ap_environment_lce(tenv[0],tenv[1],&(*ptdimchange)[0],&(*ptdimchange)[1]);
-    }
-  }
-
   /* Compute env */
   tdenv = malloc(size*sizeof(denv_t));
   for (i=0;i<size;i++){
@@ -960,8 +927,6 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
   free(te);
   free(tindex);
 
-  intrealdim = denv.envint.size + denv.envreal.size;
-
   /* Compute transformations */
   *ptdimchange = malloc(size*sizeof(ap_dimchange_t*));
   change = false;
@@ -983,25 +948,23 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
     }
   }
   free(tdenv);
-  if (j>0){
-    env_clear(&denv.envint);
-    env_clear(&denv.envreal);
-    if (!change){
-      free(*ptdimchange);
-      *ptdimchange=NULL;
-    }
-    return ap_environment_copy(tenv[j]);
-  }
-  else {
+  {
     ap_environment_t* env = environment_of_denv(&denv);
-    if (ap_environment_check(env)){
+    bool error = ap_environment_check(env);
+    if (error || !change){
       for (i=0;i<size;i++){
-	if ((*ptdimchange)[i]) free((*ptdimchange)[i]);
+	if ((*ptdimchange)[i]) ap_dimchange_free((*ptdimchange)[i]);
       }
       free(*ptdimchange);
-      *ptdimchange=NULL;
+      *ptdimchange = NULL;
+    }
+    if (error){
+      ap_environment_free(env);
+      return NULL;
+    }
+    if (j>=0){
       ap_environment_free(env);
-      env = NULL;
+      return ap_environment_copy(tenv[j]);
     }
     return env;
   }
-- 
2.43.0


From 4ef841d4881f31b53de80bd4624e0a20fe56d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 30/63] fix: failed renaming in an environment left the
 permutation uninitialised

---
 apron/ap_environment.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index e1ff284..5172c3b 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -997,8 +997,11 @@ ap_environment_t* ap_environment_rename(ap_environment_t* env,
     ap_dim_t dim = ap_environment_dim_of_var(env,tvar1[j]);
     if (dim==AP_DIM_MAX){
       ap_environment_free(res);
+      perm->dim = NULL;
+      perm->size = 0;
       return NULL;
     }
+    if (res->var_of_dim[dim]) ap_var_operations->free(res->var_of_dim[dim]);
     res->var_of_dim[dim] = ap_var_operations->copy(tvar2[j]);
   }
   for (i=0; i<nbdims; i++){
-- 
2.43.0


From fc69cfa30388dd3399f7a7e8abddeb5c58aa0dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 31/63] fix: box over an unknown variable freed the intervals
 with a wrong size

---
 apron/ap_abstract1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 07fea65..9241aff 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -366,7 +366,7 @@ ap_abstract1_t ap_abstract1_of_box(ap_manager_t* man,
     ap_dim_t dim = ap_environment_dim_of_var(env,tvar[i]);
     if (dim==AP_DIM_MAX){
       ap_abstract1_raise_invalid_var(man,AP_FUNID_OF_BOX,tvar[i]);
-      ap_interval_array_free(itv,size);
+      ap_interval_array_free(itv,env->intdim+env->realdim);
       return ap_abstract1_top(man,env);
     }
     ap_interval_set(itv[dim],tinterval[i]);
-- 
2.43.0


From c2b8ddfdca0b29fe9174fc6fbe0210c7f48c64e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 32/63] fix: difference of values over distinct environments
 was printed after the exception

---
 apron/ap_abstract1.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 9241aff..819794a 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -277,6 +277,7 @@ void ap_abstract1_fprintdiff(FILE* stream,
     ap_manager_raise_exception(man,AP_EXC_INVALID_ARGUMENT,AP_FUNID_FPRINTDIFF,
 			       "the 2 abstract values are not defined on the same environment");
     fprintf(stream,"unknown diff\n");
+    return;
   }
   name_of_dim = ap_environment_name_of_dim_alloc(a1->env);
   ap_abstract0_fprintdiff(stream,man,a1->abstract0, a2->abstract0, name_of_dim->p);
-- 
2.43.0


From 5544f4c676b7e77f8649fa9459aaedcb5f65f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 33/63] fix: empty environments of rejected level 1 calls
 leaked

---
 apron/ap_abstract1.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 819794a..7a2c7c8 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -320,7 +320,12 @@ ap_abstract1_t ap_abstract1_deserialize_raw(ap_manager_t* man, void* ptr, size_t
   (void)ptr;
   (void)size;
   ap_manager_raise_exception(man,AP_EXC_NOT_IMPLEMENTED,AP_FUNID_DESERIALIZE_RAW,"");
-  return ap_abstract1_top(man,ap_environment_alloc_empty());
+  {
+    ap_environment_t* env = ap_environment_alloc_empty();
+    ap_abstract1_t res = ap_abstract1_top(man,env);
+    ap_environment_free(env);
+    return res;
+  }
 }
 
 
@@ -681,7 +686,9 @@ ap_abstract1_t ap_abstract1_meetjoin_array(ap_funid_t funid, ap_manager_t* man,
     free(ntab);
   }
   else {
-    res = ap_abstract1_top(man, size==0 ? ap_environment_alloc_empty() : tab[0].env);
+    ap_environment_t* env = size==0 ? ap_environment_alloc_empty() : ap_environment_copy(tab[0].env);
+    res = ap_abstract1_top(man,env);
+    ap_environment_free(env);
   }
   return res;
 }
-- 
2.43.0


From c2ab9767519848c0bbfcd47d22d1ef760614fabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 34/63] fix: in-place conversion to the same environment leaked
 a reference to it

---
 apron/ap_abstract1.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 7a2c7c8..f26fb08 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -60,13 +60,10 @@ ap_abstract1_t ap_abstract1_consres2(bool destructive, ap_abstract1_t* a,
 {
   ap_abstract1_t res;
   if (destructive){
-    if (value==a->abstract0 && env==a->env)
-      res = *a;
-    else {
-      res.abstract0 = value;
-      res.env = env;
-      ap_environment_free(a->env);
-    }
+    res.abstract0 = value;
+    res.env = env;
+    /* the reference of a is always released, env may be the same environment */
+    ap_environment_free(a->env);
   }
   else {
     res.abstract0 = value;
-- 
2.43.0


From ad966233b325f164667fc8b3d23475d5b6de30a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 35/63] fix: expansion to names already in use freed or leaked
 the value

The value was consumed, or its expansion computed, before the names were
checked.
---
 apron/ap_abstract1.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index f26fb08..b8d486d 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -1127,9 +1127,6 @@ ap_abstract1_t ap_abstract1_expand(ap_manager_t* man,
     if (destructive) ap_abstract1_clear(man,a);
     return res;
   }
-  /* Doing the expansion at level 0 */
-  value = ap_abstract0_expand(man,destructive,a->abstract0,dim,size);
-
   /* Building the resulting environment and permutation to apply */
   nenv =
     (dim<a->env->intdim) ?
@@ -1142,6 +1139,9 @@ ap_abstract1_t ap_abstract1_expand(ap_manager_t* man,
     goto ap_abstract1_expand_exit;
   }
 
+  /* Doing the expansion at level 0 */
+  value = ap_abstract0_expand(man,destructive,a->abstract0,dim,size);
+
   /* Apply permutation and return */
   value = ap_abstract0_permute_dimensions(man,true,value,&perm);
   ap_dimperm_clear(&perm);
-- 
2.43.0


From 2d038b245d1ef0eff9d8be8a29b74085e02afcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 36/63] fix: invalid level 1 folds leaked or returned a value
 not matching its environment

Folding a variable with itself, or an integer with a real one, is rejected at
level 0 only, after the resulting environment has been computed without the
first variable or with a wrong number of integer ones.
---
 apron/ap_abstract1.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index b8d486d..ef50a0e 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -1200,6 +1200,14 @@ ap_abstract1_t ap_abstract1_fold(ap_manager_t* man,
     if (tdim[i]==AP_DIM_MAX){
       ap_abstract1_raise_invalid_var(man,AP_FUNID_FOLD,tvar[i]);
       free(tdim);
+      ap_environment_free(nenv);
+      goto ap_abstract1_fold_exit;
+    }
+    if (tdim[i]==dim || (tdim[i]<a->env->intdim)!=(dim<a->env->intdim)){
+      ap_manager_raise_exception(man,AP_EXC_INVALID_ARGUMENT,AP_FUNID_FOLD,
+				 "variables to fold are not distinct or not of the same type");
+      free(tdim);
+      ap_environment_free(nenv);
       goto ap_abstract1_fold_exit;
     }
   }
-- 
2.43.0


From 55365fdf415116779c577621f393c55309bff1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 37/63] fix: widening with foreign thresholds reported another
 function

---
 apron/ap_abstract1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index ef50a0e..f1f54ec 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -1304,7 +1304,7 @@ ap_abstract1_t ap_abstract1_widening_threshold(ap_manager_t* man,
     if (dimchange==NULL){
       ap_manager_raise_exception(man,
 				 AP_EXC_INVALID_ARGUMENT,
-				 AP_FUNID_MEET_LINCONS_ARRAY,
+				 AP_FUNID_WIDENING,
 				 "\
 environment of array of constraints is not a subset \
 of the environment of the abstract value\
-- 
2.43.0


From c932cd6c4e96b1285c188c9662ca0d6d50ebe1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 38/63] fix: results of rejected level 1 calls were flagged
 exact

As at level 0, building the result overwrote the flags cleared when the
exception was recorded.
---
 apron/ap_abstract1.c | 48 ++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index f1f54ec..b78dbab 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -72,6 +72,15 @@ ap_abstract1_t ap_abstract1_consres2(bool destructive, ap_abstract1_t* a,
   return res;
 }
 
+/* Result of a call rejected with an exception: top is returned, but it is not
+   the exact or best result of anything */
+static ap_abstract1_t ap_abstract1_exc_top(ap_manager_t* man, ap_environment_t* env)
+{
+  ap_abstract1_t res = ap_abstract1_top(man,env);
+  man->result.flag_exact = man->result.flag_best = false;
+  return res;
+}
+
 void ap_abstract1_raise_invalid_var(ap_manager_t* man,
 				    ap_funid_t funid,
 				    ap_var_t var)
@@ -319,7 +328,7 @@ ap_abstract1_t ap_abstract1_deserialize_raw(ap_manager_t* man, void* ptr, size_t
   ap_manager_raise_exception(man,AP_EXC_NOT_IMPLEMENTED,AP_FUNID_DESERIALIZE_RAW,"");
   {
     ap_environment_t* env = ap_environment_alloc_empty();
-    ap_abstract1_t res = ap_abstract1_top(man,env);
+    ap_abstract1_t res = ap_abstract1_exc_top(man,env);
     ap_environment_free(env);
     return res;
   }
@@ -370,7 +379,7 @@ ap_abstract1_t ap_abstract1_of_box(ap_manager_t* man,
     if (dim==AP_DIM_MAX){
       ap_abstract1_raise_invalid_var(man,AP_FUNID_OF_BOX,tvar[i]);
       ap_interval_array_free(itv,env->intdim+env->realdim);
-      return ap_abstract1_top(man,env);
+      return ap_abstract1_exc_top(man,env);
     }
     ap_interval_set(itv[dim],tinterval[i]);
   }
@@ -654,7 +663,7 @@ ap_abstract1_t ap_abstract1_meetjoin(ap_funid_t funid, ap_manager_t* man, bool d
     res = ap_abstract1_consres(destructive, a1, value);
   }
   else {
-    res = ap_abstract1_top(man,a1->env);
+    res = ap_abstract1_exc_top(man,a1->env);
     if (destructive) ap_abstract1_clear(man,a1);
   }
   return res;
@@ -684,7 +693,7 @@ ap_abstract1_t ap_abstract1_meetjoin_array(ap_funid_t funid, ap_manager_t* man,
   }
   else {
     ap_environment_t* env = size==0 ? ap_environment_alloc_empty() : ap_environment_copy(tab[0].env);
-    res = ap_abstract1_top(man,env);
+    res = ap_abstract1_exc_top(man,env);
     ap_environment_free(env);
   }
   return res;
@@ -716,6 +725,7 @@ ap_abstract1_t ap_abstract1_meet_lincons_array(ap_manager_t* man,
 				 AP_FUNID_MEET_LINCONS_ARRAY,
 				 "environment of array of constraints is not a subset of the environment of the abstract value");
       res = destructive ? *a : ap_abstract1_copy(man,a);
+      man->result.flag_exact = man->result.flag_best = false;
       return res;
     }
     array0 = ap_lincons0_array_add_dimensions(&array->lincons0_array,dimchange);
@@ -749,6 +759,7 @@ ap_abstract1_t ap_abstract1_meet_tcons_array(ap_manager_t* man,
 				 AP_FUNID_MEET_TCONS_ARRAY,
 				 "environment of array of constraints is not a subset of the environment of the abstract value");
       res = destructive ? *a : ap_abstract1_copy(man,a);
+      man->result.flag_exact = man->result.flag_best = false;
       return res;
     }
     array0 = ap_tcons0_array_add_dimensions(&array->tcons0_array,dimchange);
@@ -781,7 +792,7 @@ ap_abstract1_t ap_abstract1_add_ray_array(ap_manager_t* man,
 				 AP_EXC_INVALID_ARGUMENT,
 				 AP_FUNID_ADD_RAY_ARRAY,
 				 "environment of array of generators is not a subset of the environment of the abstract value");
-      res = ap_abstract1_top(man,a->env);
+      res = ap_abstract1_exc_top(man,a->env);
       if (destructive) ap_abstract1_clear(man,a);
       return res;
     }
@@ -858,7 +869,7 @@ ap_abstract1_t ap_abstract1_asssub_linexpr_array(ap_funid_t funid,
     }
     else {
     ap_abstract1_asssub_linexpr_array_exit:
-      res = ap_abstract1_top(man,a->env);
+      res = ap_abstract1_exc_top(man,a->env);
       if (destructive) ap_abstract1_clear(man,a);
     }
     if (tlinexpr0!=NULL){
@@ -944,7 +955,7 @@ ap_abstract1_t ap_abstract1_asssub_texpr_array(ap_funid_t funid,
     }
     else {
     ap_abstract1_asssub_texpr_array_exit:
-      res = ap_abstract1_top(man,a->env);
+      res = ap_abstract1_exc_top(man,a->env);
       if (destructive) ap_abstract1_clear(man,a);
     }
     if (ttexpr0!=NULL){
@@ -990,7 +1001,7 @@ ap_abstract1_t ap_abstract1_forget_array(ap_manager_t* man,
     tdim[i] = ap_environment_dim_of_var(a->env,tvar[i]);
     if (tdim[i]==AP_DIM_MAX){
       ap_abstract1_raise_invalid_var(man,AP_FUNID_FORGET_ARRAY,tvar[i]);
-      res = ap_abstract1_top(man,a->env);
+      res = ap_abstract1_exc_top(man,a->env);
       if (destructive) ap_abstract1_clear(man,a);
       goto ap_abstract1_forget_array_exit;
     }
@@ -1020,7 +1031,7 @@ ap_abstract1_t ap_abstract1_change_environment(ap_manager_t* man,
     ap_manager_raise_exception(man,AP_EXC_INVALID_ARGUMENT,
 			       AP_FUNID_CHANGE_ENVIRONMENT,
 			       "the abstract value and the new environment are incompatible");
-    res = ap_abstract1_top(man,nenv);
+    res = ap_abstract1_exc_top(man,nenv);
     if (destructive) ap_abstract1_clear(man,a);
     return res;
   }
@@ -1085,7 +1096,7 @@ ap_abstract1_t ap_abstract1_rename_array(ap_manager_t* man,
 			       AP_EXC_INVALID_ARGUMENT,
 			       AP_FUNID_RENAME_ARRAY,
 			       "renaming specification invalid");
-    res = ap_abstract1_top(man,a->env);
+    res = ap_abstract1_exc_top(man,a->env);
     if (destructive) ap_abstract1_clear(man,a);
   }
   else {
@@ -1123,7 +1134,7 @@ ap_abstract1_t ap_abstract1_expand(ap_manager_t* man,
   if (dim==AP_DIM_MAX){
     ap_abstract1_raise_invalid_var(man,AP_FUNID_EXPAND,var);
   ap_abstract1_expand_exit:
-    res = ap_abstract1_top(man,a->env);
+    res = ap_abstract1_exc_top(man,a->env);
     if (destructive) ap_abstract1_clear(man,a);
     return res;
   }
@@ -1171,7 +1182,7 @@ ap_abstract1_t ap_abstract1_fold(ap_manager_t* man,
     ap_manager_raise_exception(man,AP_EXC_INVALID_ARGUMENT,AP_FUNID_FOLD,
 			       "array of variables to fold of size 0");
   ap_abstract1_fold_exit:
-    res = ap_abstract1_top(man,a->env);
+    res = ap_abstract1_exc_top(man,a->env);
     if (destructive) ap_abstract1_clear(man,a);
     return res;
   }
@@ -1282,7 +1293,7 @@ ap_abstract1_t ap_abstract1_widening(ap_manager_t* man,
     res.env = ap_environment_copy(a1->env);
   }
   else {
-    res = ap_abstract1_top(man,a1->env);
+    res = ap_abstract1_exc_top(man,a1->env);
   }
   return res;
 }
@@ -1310,7 +1321,7 @@ environment of array of constraints is not a subset \
 of the environment of the abstract value\
 "
 				 );
-      res = ap_abstract1_top(man,a1->env);
+      res = ap_abstract1_exc_top(man,a1->env);
       return res;
     }
     array0 = ap_lincons0_array_add_dimensions(&array->lincons0_array,dimchange);
@@ -1320,7 +1331,7 @@ of the environment of the abstract value\
     res = ap_abstract1_cons(value,a1->env);
   }
   else {
-    res = ap_abstract1_top(man,a1->env);
+    res = ap_abstract1_exc_top(man,a1->env);
   }
   if (dimchange){
     ap_dimchange_free(dimchange);
@@ -1415,10 +1426,9 @@ ap_abstract1_t ap_abstract1_unify(ap_manager_t* man,
 			      "\
 ap_abstract1_unify: a variable is defined with different types \
 in the two abstract values");
-   if (destructive)
-     return *a1;
-   else
-     return ap_abstract1_copy(man,a1);
+   res = destructive ? *a1 : ap_abstract1_copy(man,a1);
+   man->result.flag_exact = man->result.flag_best = false;
+   return res;
   }
   assert(dimchange1 || dimchange2);
 
-- 
2.43.0


From 74a15e54ce73a4b49fec00734b09b26a68966ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 39/63] fix: level 1 linearization used the wrong value and
 returned its argument

The functions of ap_linearize.h expect an abstract value of level 0, not the
internal value of the domain, and return an expression which is already
quasilinear itself: the result was then the expression of the caller, or one
already freed.
---
 apron/ap_abstract1.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index b78dbab..f55bb42 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -1480,12 +1480,15 @@ ap_linexpr1_t ap_abstract1_quasilinear_of_intlinear (ap_manager_t* man, ap_abstr
     }
     linexpr0 = ap_linexpr0_add_dimensions(expr->linexpr0,dimchange);
   }
-  res.linexpr0 = ap_quasilinearize_linexpr0(man,a->abstract0->value,linexpr0,&exact,discr);
+  res.linexpr0 = ap_quasilinearize_linexpr0(man,a->abstract0,linexpr0,&exact,discr);
   res.env = ap_environment_copy(a->env);
+  /* an expression which is already quasilinear is returned itself */
   if (dimchange){
     ap_dimchange_free(dimchange);
-    ap_linexpr0_free(linexpr0);
+    if (res.linexpr0!=linexpr0) ap_linexpr0_free(linexpr0);
   }
+  else if (res.linexpr0==linexpr0)
+    res.linexpr0 = ap_linexpr0_copy(linexpr0);
   return res;
  ap_abstract1_quasilinear_of_intlinear_exit:
   res.linexpr0 = ap_linexpr0_alloc(AP_LINEXPR_SPARSE,0);
@@ -1520,7 +1523,7 @@ ap_linexpr1_t ap_abstract1_intlinear_of_tree(ap_manager_t* man, ap_abstract1_t*
     }
     texpr0 = ap_texpr0_add_dimensions(expr->texpr0,dimchange);
   }
-  res.linexpr0 = ap_intlinearize_texpr0(man,a->abstract0->value,texpr0,&exact,discr,quasilinearize);
+  res.linexpr0 = ap_intlinearize_texpr0(man,a->abstract0,texpr0,&exact,discr,quasilinearize);
   res.env = ap_environment_copy(a->env);
   if (dimchange){
     ap_dimchange_free(dimchange);
-- 
2.43.0


From 1b7dab29a0b8b777f066789222726d3bebbb79cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 40/63] fix: freeing the argument of a rejected level 1 call
 changed its flags

---
 apron/ap_abstract1.c | 45 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index f55bb42..7d311ca 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -73,10 +73,12 @@ ap_abstract1_t ap_abstract1_consres2(bool destructive, ap_abstract1_t* a,
 }
 
 /* Result of a call rejected with an exception: top is returned, but it is not
-   the exact or best result of anything */
-static ap_abstract1_t ap_abstract1_exc_top(ap_manager_t* man, ap_environment_t* env)
+   the exact or best result of anything. The argument of a destructive call
+   (consumed, may be NULL) is freed before, as freeing may set the flags. */
+static ap_abstract1_t ap_abstract1_exc_top(ap_manager_t* man, ap_environment_t* env, ap_abstract1_t* consumed)
 {
   ap_abstract1_t res = ap_abstract1_top(man,env);
+  if (consumed) ap_abstract1_clear(man,consumed);
   man->result.flag_exact = man->result.flag_best = false;
   return res;
 }
@@ -328,7 +330,7 @@ ap_abstract1_t ap_abstract1_deserialize_raw(ap_manager_t* man, void* ptr, size_t
   ap_manager_raise_exception(man,AP_EXC_NOT_IMPLEMENTED,AP_FUNID_DESERIALIZE_RAW,"");
   {
     ap_environment_t* env = ap_environment_alloc_empty();
-    ap_abstract1_t res = ap_abstract1_exc_top(man,env);
+    ap_abstract1_t res = ap_abstract1_exc_top(man,env,NULL);
     ap_environment_free(env);
     return res;
   }
@@ -379,7 +381,7 @@ ap_abstract1_t ap_abstract1_of_box(ap_manager_t* man,
     if (dim==AP_DIM_MAX){
       ap_abstract1_raise_invalid_var(man,AP_FUNID_OF_BOX,tvar[i]);
       ap_interval_array_free(itv,env->intdim+env->realdim);
-      return ap_abstract1_exc_top(man,env);
+      return ap_abstract1_exc_top(man,env,NULL);
     }
     ap_interval_set(itv[dim],tinterval[i]);
   }
@@ -663,8 +665,7 @@ ap_abstract1_t ap_abstract1_meetjoin(ap_funid_t funid, ap_manager_t* man, bool d
     res = ap_abstract1_consres(destructive, a1, value);
   }
   else {
-    res = ap_abstract1_exc_top(man,a1->env);
-    if (destructive) ap_abstract1_clear(man,a1);
+    res = ap_abstract1_exc_top(man,a1->env,destructive ? a1 : NULL);
   }
   return res;
 }
@@ -693,7 +694,7 @@ ap_abstract1_t ap_abstract1_meetjoin_array(ap_funid_t funid, ap_manager_t* man,
   }
   else {
     ap_environment_t* env = size==0 ? ap_environment_alloc_empty() : ap_environment_copy(tab[0].env);
-    res = ap_abstract1_exc_top(man,env);
+    res = ap_abstract1_exc_top(man,env,NULL);
     ap_environment_free(env);
   }
   return res;
@@ -792,8 +793,7 @@ ap_abstract1_t ap_abstract1_add_ray_array(ap_manager_t* man,
 				 AP_EXC_INVALID_ARGUMENT,
 				 AP_FUNID_ADD_RAY_ARRAY,
 				 "environment of array of generators is not a subset of the environment of the abstract value");
-      res = ap_abstract1_exc_top(man,a->env);
-      if (destructive) ap_abstract1_clear(man,a);
+      res = ap_abstract1_exc_top(man,a->env,destructive ? a : NULL);
       return res;
     }
     array0 = ap_generator0_array_add_dimensions(&array->generator0_array,dimchange);
@@ -869,8 +869,7 @@ ap_abstract1_t ap_abstract1_asssub_linexpr_array(ap_funid_t funid,
     }
     else {
     ap_abstract1_asssub_linexpr_array_exit:
-      res = ap_abstract1_exc_top(man,a->env);
-      if (destructive) ap_abstract1_clear(man,a);
+      res = ap_abstract1_exc_top(man,a->env,destructive ? a : NULL);
     }
     if (tlinexpr0!=NULL){
       size_t j;
@@ -955,8 +954,7 @@ ap_abstract1_t ap_abstract1_asssub_texpr_array(ap_funid_t funid,
     }
     else {
     ap_abstract1_asssub_texpr_array_exit:
-      res = ap_abstract1_exc_top(man,a->env);
-      if (destructive) ap_abstract1_clear(man,a);
+      res = ap_abstract1_exc_top(man,a->env,destructive ? a : NULL);
     }
     if (ttexpr0!=NULL){
       size_t j;
@@ -1001,8 +999,7 @@ ap_abstract1_t ap_abstract1_forget_array(ap_manager_t* man,
     tdim[i] = ap_environment_dim_of_var(a->env,tvar[i]);
     if (tdim[i]==AP_DIM_MAX){
       ap_abstract1_raise_invalid_var(man,AP_FUNID_FORGET_ARRAY,tvar[i]);
-      res = ap_abstract1_exc_top(man,a->env);
-      if (destructive) ap_abstract1_clear(man,a);
+      res = ap_abstract1_exc_top(man,a->env,destructive ? a : NULL);
       goto ap_abstract1_forget_array_exit;
     }
   }
@@ -1031,8 +1028,7 @@ ap_abstract1_t ap_abstract1_change_environment(ap_manager_t* man,
     ap_manager_raise_exception(man,AP_EXC_INVALID_ARGUMENT,
 			       AP_FUNID_CHANGE_ENVIRONMENT,
 			       "the abstract value and the new environment are incompatible");
-    res = ap_abstract1_exc_top(man,nenv);
-    if (destructive) ap_abstract1_clear(man,a);
+    res = ap_abstract1_exc_top(man,nenv,destructive ? a : NULL);
     return res;
   }
   value = ap_abstract0_apply_dimchange2(man,destructive,a->abstract0,dimchange2,project);
@@ -1096,8 +1092,7 @@ ap_abstract1_t ap_abstract1_rename_array(ap_manager_t* man,
 			       AP_EXC_INVALID_ARGUMENT,
 			       AP_FUNID_RENAME_ARRAY,
 			       "renaming specification invalid");
-    res = ap_abstract1_exc_top(man,a->env);
-    if (destructive) ap_abstract1_clear(man,a);
+    res = ap_abstract1_exc_top(man,a->env,destructive ? a : NULL);
   }
   else {
     value = ap_abstract0_permute_dimensions(man,destructive,a->abstract0,&perm);
@@ -1134,8 +1129,7 @@ ap_abstract1_t ap_abstract1_expand(ap_manager_t* man,
   if (dim==AP_DIM_MAX){
     ap_abstract1_raise_invalid_var(man,AP_FUNID_EXPAND,var);
   ap_abstract1_expand_exit:
-    res = ap_abstract1_exc_top(man,a->env);
-    if (destructive) ap_abstract1_clear(man,a);
+    res = ap_abstract1_exc_top(man,a->env,destructive ? a : NULL);
     return res;
   }
   /* Building the resulting environment and permutation to apply */
@@ -1182,8 +1176,7 @@ ap_abstract1_t ap_abstract1_fold(ap_manager_t* man,
     ap_manager_raise_exception(man,AP_EXC_INVALID_ARGUMENT,AP_FUNID_FOLD,
 			       "array of variables to fold of size 0");
   ap_abstract1_fold_exit:
-    res = ap_abstract1_exc_top(man,a->env);
-    if (destructive) ap_abstract1_clear(man,a);
+    res = ap_abstract1_exc_top(man,a->env,destructive ? a : NULL);
     return res;
   }
   else if (size==1){
@@ -1293,7 +1286,7 @@ ap_abstract1_t ap_abstract1_widening(ap_manager_t* man,
     res.env = ap_environment_copy(a1->env);
   }
   else {
-    res = ap_abstract1_exc_top(man,a1->env);
+    res = ap_abstract1_exc_top(man,a1->env,NULL);
   }
   return res;
 }
@@ -1321,7 +1314,7 @@ environment of array of constraints is not a subset \
 of the environment of the abstract value\
 "
 				 );
-      res = ap_abstract1_exc_top(man,a1->env);
+      res = ap_abstract1_exc_top(man,a1->env,NULL);
       return res;
     }
     array0 = ap_lincons0_array_add_dimensions(&array->lincons0_array,dimchange);
@@ -1331,7 +1324,7 @@ of the environment of the abstract value\
     res = ap_abstract1_cons(value,a1->env);
   }
   else {
-    res = ap_abstract1_exc_top(man,a1->env);
+    res = ap_abstract1_exc_top(man,a1->env,NULL);
   }
   if (dimchange){
     ap_dimchange_free(dimchange);
-- 
2.43.0


From f272bb773ed517bf62c4ec30fac0cdf83196e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 41/63] fix: box generators of half-bounded dimensions lost the
 bound and the ray

---
 box/box_constructor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box/box_constructor.c b/box/box_constructor.c
index 36e5be7..4779759 100644
--- a/box/box_constructor.c
+++ b/box/box_constructor.c
@@ -473,7 +473,7 @@ ap_generator0_array_t box_to_generator_array(ap_manager_t* man, box_t* a)
 	for (j=nblines+nbrays; j<nblines+nbrays+v; j++){
 	  ap_scalar_set_bound(&scalar,itv->inf);
 	  ap_scalar_neg(&scalar,&scalar);
-	  ap_linexpr0_set_coeff_scalar(expr,i,&scalar);
+	  ap_linexpr0_set_coeff_scalar(array.p[j].linexpr0,i,&scalar);
 	}	   
       }
       else if (iinf){
@@ -482,7 +482,7 @@ ap_generator0_array_t box_to_generator_array(ap_manager_t* man, box_t* a)
 	r++;
 	for (j=nblines+nbrays; j<nblines+nbrays+v; j++){
 	  ap_scalar_set_bound(&scalar,itv->sup);
-	  ap_linexpr0_set_coeff_scalar(expr,i,&scalar);
+	  ap_linexpr0_set_coeff_scalar(array.p[j].linexpr0,i,&scalar);
 	}	   
       }
     }
-- 
2.43.0


From 291d46a27c6c22fe8568d5dc525c748ad301bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 42/63] fix: box assignments of empty expressions or to an
 empty destination were not bottom

---
 box/box_assign.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/box/box_assign.c b/box/box_assign.c
index e7f30b3..2bac178 100644
--- a/box/box_assign.c
+++ b/box/box_assign.c
@@ -30,7 +30,9 @@ box_t* box_assign_linexpr_array(ap_manager_t* man,
   if (a->p==NULL || (dest && dest->p==NULL)){
     man->result.flag_best = true;
     man->result.flag_exact = true;
-    return destructive ? a : box_copy(man,a);
+    res = destructive ? a : box_copy(man,a);
+    box_set_bottom(res);
+    return res;
   }
   if (size==1){
       res = destructive ? a : box_copy(man,a);
@@ -79,9 +81,12 @@ box_t* box_assign_texpr(ap_manager_t* man,
   if (a->p==NULL || (dest!=NULL && dest->p==NULL)){
     man->result.flag_best = true;
     man->result.flag_exact = true;
+    box_set_bottom(res);
     return res;
   }
   itv_eval_ap_texpr0(intern->itv,res->p[dim],texpr,a->p);
+  if (itv_is_bottom(intern->itv,res->p[dim]))
+    box_set_bottom(res);
   if (dest)
     res = box_meet(man,true,res,dest);
   man->result.flag_best = false;
@@ -104,7 +109,9 @@ box_t* box_assign_texpr_array(ap_manager_t* man,
   if (a->p==NULL || (dest && dest->p==NULL)){
     man->result.flag_best = true;
     man->result.flag_exact = true;
-    return destructive ? a : box_copy(man,a);
+    res = destructive ? a : box_copy(man,a);
+    box_set_bottom(res);
+    return res;
   }
   if (size==1){
     res = destructive ? a : box_copy(man,a);
@@ -117,6 +124,10 @@ box_t* box_assign_texpr_array(ap_manager_t* man,
     }
     if (destructive) box_free(man,a);
   }
+  for (i=0;i<size && res->p;i++){
+    if (itv_is_bottom(intern->itv,res->p[tdim[i]]))
+      box_set_bottom(res);
+  }
   if (dest)
     res = box_meet(man,true,res,dest);
   man->result.flag_best = false;
-- 
2.43.0


From f4d0ff1777894f9a16a151525cf13c82521fecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 43/63] fix: box assignment needs the representation header;
 newpolka/pk_test.c left as it was

---
 box/box_assign.c   |  1 +
 newpolka/pk_test.c | 14 ++++----------
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/box/box_assign.c b/box/box_assign.c
index 2bac178..3ad17cc 100644
--- a/box/box_assign.c
+++ b/box/box_assign.c
@@ -6,6 +6,7 @@
 #include <stdio.h>
 
 #include "box_internal.h"
+#include "box_representation.h"
 #include "box_constructor.h"
 #include "box_assign.h"
 
diff --git a/newpolka/pk_test.c b/newpolka/pk_test.c
index 890840e..de1b33f 100644
--- a/newpolka/pk_test.c
+++ b/newpolka/pk_test.c
@@ -64,14 +64,8 @@ bool pk_is_top(ap_manager_t* man, pk_t* po)
   pk_internal_t* pk = pk_init_from_manager(man,AP_FUNID_IS_TOP);
   man->result.flag_exact = man->result.flag_best = true;
 
-  if (pk->funopt->algorithm>=0){
+  if (pk->funopt->algorithm>=0)
     poly_chernikova(man,po,NULL);
-    if (pk->exn){
-      pk->exn = AP_EXC_NONE;
-      man->result.flag_exact = man->result.flag_best = false;
-      return false;
-    }
-  }
   if (!po->C && !po->F)
     return false;
   else if (po->C && po->F)
@@ -135,7 +129,7 @@ bool do_generators_sat_vector(pk_internal_t* pk, pk_matrix_t* F, numint_t* tab,
 	else {
 	  /* ray or vertex */
 	  if (is_strict && sign==0 &&
-	      (pk->strict ? numint_sgn(F->p[i][polka_eps])>0 : numint_sgn(F->p[i][polka_cst])>0))
+	      (pk->strict ? numint_sgn(F->p[i][polka_eps])>0 : true))
 	    return false;
 	}
       }
@@ -306,7 +300,7 @@ bool pk_sat_lincons(ap_manager_t* man, pk_t* po, ap_lincons0_t* lincons0)
   if (sat){
     sat = do_generators_sat_vector(pk,po->F,
 				   pk->poly_numintp,
-				   pk->poly_itv_lincons.constyp==AP_CONS_SUP);
+				   lincons0->constyp==AP_CONS_SUP);
   }
   man->result.flag_exact = man->result.flag_best =
     sat ?
@@ -361,7 +355,7 @@ bool pk_sat_tcons(ap_manager_t* man, pk_t* po, ap_tcons0_t* cons)
   if (sat){
     sat = do_generators_sat_vector(pk,po->F,
 				   pk->poly_numintp,
-				   pk->poly_itv_lincons.constyp==AP_CONS_SUP);
+				   cons->constyp==AP_CONS_SUP);
   }
   man->result.flag_exact = man->result.flag_best = sat;
   return sat;
-- 
2.43.0


From b9f3416dd48c150f221e924fddc0150b11ca3f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 44/63] fix: bounds of linear expressions in polyhedra
 approximations leaked

---
 newpolka/pk_user.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newpolka/pk_user.c b/newpolka/pk_user.c
index ddd5deb..dfa41fc 100644
--- a/newpolka/pk_user.c
+++ b/newpolka/pk_user.c
@@ -126,6 +126,7 @@ bool vector_set_linexpr_bound(pk_internal_t* pk,
   else {
     numint_add(vec[polka_cst],vec[polka_cst],cst);
   }
+  numint_clear(cst);
   numint_set_int(vec[0], mode ? 1 : 0);
   vector_normalize(pk,vec,size);
   if (integer) vector_normalize_constraint_int(pk,vec,intdim,realdim);
-- 
2.43.0


From 2714172f243f7df396f48721ede565957641b018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 45/63] fix: polyhedra of all threads shared an unused static
 counter

---
 newpolka/pk_representation.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/newpolka/pk_representation.c b/newpolka/pk_representation.c
index f397278..9c37bd5 100644
--- a/newpolka/pk_representation.c
+++ b/newpolka/pk_representation.c
@@ -250,12 +250,10 @@ void poly_chernikova2(ap_manager_t* man,
 
 /* Same as poly_chernikova2, but in addition normalize matrices by Gauss
    elimination and sorting */
-static int counter = 0;
 void poly_chernikova3(ap_manager_t* man,
 		      pk_t* po,
 		      char* msg)
 {
-  counter++;
   pk_internal_t* pk = (pk_internal_t*)man->internal;
   poly_chernikova2(man,po,msg);
   if (pk->exn)
-- 
2.43.0


From 8efb1f70973538b71b06f30d7316678993aabdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 46/63] fix: C++ operators < and > on abstract values held for
 incomparable values

---
 apronxx/apxx_abstract0_inline.hh | 4 ++--
 apronxx/apxx_abstract1_inline.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apronxx/apxx_abstract0_inline.hh b/apronxx/apxx_abstract0_inline.hh
index f1ac046..6059c3f 100644
--- a/apronxx/apxx_abstract0_inline.hh
+++ b/apronxx/apxx_abstract0_inline.hh
@@ -432,12 +432,12 @@ inline bool operator>= (const abstract0& x, const abstract0& y)
 
 inline bool operator> (const abstract0& x, const abstract0& y)
 {
-  return !(x<=y);
+  return y<=x && !(x<=y);
 }
 
 inline bool operator< (const abstract0& x, const abstract0& y)
 {
-  return !(y<=x);
+  return x<=y && !(y<=x);
 }
 
 
diff --git a/apronxx/apxx_abstract1_inline.hh b/apronxx/apxx_abstract1_inline.hh
index 59ab3ac..c16b49f 100644
--- a/apronxx/apxx_abstract1_inline.hh
+++ b/apronxx/apxx_abstract1_inline.hh
@@ -533,12 +533,12 @@ inline bool operator>= (const abstract1& x, const abstract1& y)
 
 inline bool operator> (const abstract1& x, const abstract1& y)
 {
-  return !(x<=y);
+  return y<=x && !(x<=y);
 }
 
 inline bool operator< (const abstract1& x, const abstract1& y)
 {
-  return !(y<=x);
+  return x<=y && !(y<=x);
 }
 
 
-- 
2.43.0


From d4aad3013fc8252146503f691c61ed17ae470254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:48 +0000
Subject: [PATCH 47/63] fix: minimizing a sparse expression to no term left an
 empty block that was never freed

---
 apron/ap_linexpr0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 11d8e35..4b0c94b 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -100,7 +100,7 @@ void ap_linexpr0_minimize(ap_linexpr0_t* e)
 	nsize++;
     }
     if (nsize!=e->size){
-      ap_linterm_t* linterm = malloc(nsize*sizeof(ap_linterm_t));
+      ap_linterm_t* linterm = nsize==0 ? NULL : malloc(nsize*sizeof(ap_linterm_t));
       j = 0;
       for (i=0; i<e->size; i++){
 	ap_coeff_t* p = &e->p.linterm[i].coeff;
-- 
2.43.0


From 5805b6898929f47eda207cb4224a9ae25795cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:48 +0000
Subject: [PATCH 48/63] fix: enlarging a saturation matrix leaked the rows kept
 beyond its used ones

---
 newpolka/pk_satmat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newpolka/pk_satmat.c b/newpolka/pk_satmat.c
index 4d87e38..97a2354 100644
--- a/newpolka/pk_satmat.c
+++ b/newpolka/pk_satmat.c
@@ -65,7 +65,7 @@ void satmat_resize_rows(satmat_t* sat, size_t nbrows)
 
   if (nbrows > sat->_maxrows){
     sat->p = (bitstring_t**)realloc(sat->p, nbrows * sizeof(bitstring_t*));
-    for (i=sat->nbrows; i<nbrows; i++){
+    for (i=sat->_maxrows; i<nbrows; i++){
       sat->p[i] = bitstring_alloc(sat->nbcolumns);
     }
   }
-- 
2.43.0


From 9930c355d8cf7fb352cb11fe12d15274db6d3103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:51 +0000
Subject: [PATCH 49/63] fix: joins of arrays of polyhedra depended on the
 addresses of the arguments

---
 newpolka/pk_meetjoin.c | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/newpolka/pk_meetjoin.c b/newpolka/pk_meetjoin.c
index 1b2b24f..23f6e14 100644
--- a/newpolka/pk_meetjoin.c
+++ b/newpolka/pk_meetjoin.c
@@ -632,18 +632,11 @@ pk_t* pk_join(ap_manager_t* man, bool destructive, pk_t* pa, pk_t* pb)
   return po;
 }
 
-static int poly_cmp(const void* a, const void* b)
-{
-  const pk_t* pa = *((const pk_t*const*)a);
-  const pk_t* pb = *((const pk_t*const*)b);
-  return (pa>pb ? 1 : (pa==pb ? 0 : -1));
-}
-
 pk_t* pk_join_array(ap_manager_t* man, pk_t** po, size_t size)
 {
   pk_t** tpoly;
   pk_t* poly;
-  size_t i;
+  size_t i,j,nsize;
   pk_internal_t* pk = pk_init_from_manager(man,AP_FUNID_JOIN_ARRAY);
 
   if (size==0){
@@ -661,20 +654,14 @@ pk_t* pk_join_array(ap_manager_t* man, pk_t** po, size_t size)
   }
   /* We have to take care of possible aliases in the array of polyhedra */
   tpoly = malloc(size*sizeof(pk_t*));
-  memcpy(tpoly, po, size*sizeof(pk_t*));
-  qsort(tpoly,size,sizeof(pk_t*),poly_cmp);
-
-  /* remove doublons */
-  for(i=0;i+1<size;){
-    if (tpoly[i]==tpoly[i+1]){
-      if (i<size-2){
-	memmove(&tpoly[i+1],&tpoly[i+2],(size-i-2)*sizeof(pk_t*));
-      }
-      size--;
-    }
-    else
-      i++;
+  /* remove doublons, keeping the order of the arguments: the result must not
+     depend on their addresses */
+  nsize = 0;
+  for (i=0;i<size;i++){
+    for (j=0;j<nsize && tpoly[j]!=po[i];j++);
+    if (j==nsize) tpoly[nsize++] = po[i];
   }
+  size = nsize;
   /* dual */
   for (i=0;i<size;i++)
     poly_dual(tpoly[i]);
-- 
2.43.0


From 159103eb2b6b6adc00bd1ee6713439cd2054c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 50/63] fix: building equalities from a box with a non-integer
 value of an integer dimension leaked

---
 newpolka/pkeq.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newpolka/pkeq.c b/newpolka/pkeq.c
index 6bd4657..97aa419 100644
--- a/newpolka/pkeq.c
+++ b/newpolka/pkeq.c
@@ -194,6 +194,7 @@ pkeq_t* pkeq_of_box(ap_manager_t* man,
 				 intdim,realdim,
 				 true);
       if (!ok){
+	itv_clear(itv);
 	pk_matrix_free(po->C);
 	po->C = NULL;
 	return po;
-- 
2.43.0


From 2331b9d15db4667e69bbfd8476f0b2f2636bd105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 51/63] fix: ap_linexpr0_equal and ap_linexpr0_compare on
 sparse expressions with free slots; compare returns negative results

---
 apron/ap_linexpr0.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 4b0c94b..4cfb8ae 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -805,6 +805,8 @@ bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
       dim2 = AP_DIM_MAX;
       coeff2 = NULL;
     }
+    if (dim1==AP_DIM_MAX && dim2==AP_DIM_MAX)
+      break; /* only free slots of sparse expressions are left */
     if (dim1==dim2){
       i1++; i2++;
       res = ap_coeff_equal(coeff1,coeff2);
@@ -824,7 +826,7 @@ bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
 int ap_linexpr0_compare(ap_linexpr0_t* expr1,
 			ap_linexpr0_t* expr2)
 {
-  bool res;
+  int res;
   size_t i1,i2;
   ap_dim_t dim1,dim2;
   ap_coeff_t* coeff1;
@@ -860,6 +862,8 @@ int ap_linexpr0_compare(ap_linexpr0_t* expr1,
       dim2 = AP_DIM_MAX;
       coeff2 = NULL;
     }
+    if (dim1==AP_DIM_MAX && dim2==AP_DIM_MAX)
+      break; /* only free slots of sparse expressions are left */
     if (dim1==dim2){
       i1++; i2++;
       res = ap_coeff_cmp(coeff1,coeff2);
-- 
2.43.0


From 10a75d477836b9ab8a679cc0945c4059aead8449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 52/63] fix: avoct ignores the free slots of sparse
 expressions, as octagons do

---
 avoct/avo_internal.h | 1 +
 avoct/avo_transfer.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/avoct/avo_internal.h b/avoct/avo_internal.h
index f39e44e..84ef6f1 100755
--- a/avoct/avo_internal.h
+++ b/avoct/avo_internal.h
@@ -416,6 +416,7 @@ static void avo_bounds_of_generator(avo_internal_t* pr, bound_t* dst,
     }
     for (i=0;i<e->size;i++) {
       size_t d = e->p.linterm[i].dim;
+      if (d==AP_DIM_MAX) continue;
       arg_assert(d<dim,return;);
       avo_bounds_of_coeff(pr,dst[2*d],dst[2*d+1],e->p.linterm[i].coeff,false);
     }
diff --git a/avoct/avo_transfer.c b/avoct/avo_transfer.c
index e3d5ada..55a4e1c 100755
--- a/avoct/avo_transfer.c
+++ b/avoct/avo_transfer.c
@@ -65,6 +65,7 @@ uexpr avo_uexpr_of_linexpr(avo_internal_t* pr, bound_t* dst,
     }
     for (i=0;i<e->size;i++) {
       size_t d = e->p.linterm[i].dim;
+      if (d==AP_DIM_MAX) continue;
       arg_assert(d<dim,return u;);
       if (avo_bounds_of_coeff(pr,dst[2*d+2],dst[2*d+3],e->p.linterm[i].coeff,false))
     	  u.type = EMPTY;
-- 
2.43.0


From 4dcafe217b887b161ffe13f45490ba1fa8edd2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 53/63] fix: abstract1::bound(manager&, const linexpr1&) frees
 the interval when it throws

---
 apronxx/apxx_abstract1_inline.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apronxx/apxx_abstract1_inline.hh b/apronxx/apxx_abstract1_inline.hh
index c16b49f..24fef4e 100644
--- a/apronxx/apxx_abstract1_inline.hh
+++ b/apronxx/apxx_abstract1_inline.hh
@@ -552,6 +552,7 @@ inline interval abstract1::bound(manager& m, const linexpr1& l) const
     ap_abstract1_bound_linexpr(m.get_ap_manager_t(),
 			       const_cast<ap_abstract1_t*>(&a),
 			       const_cast<ap_linexpr1_t*>(l.get_ap_linexpr1_t()));
+  if (m.exception_raised()) ap_interval_free(r);
   m.raise("apron::abstract1::bound(manager&, const linexpr1&)");
   return r;
 }
-- 
2.43.0


From 90505f3d21d309bc955f816bb4c696145f4b95e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:06 +0000
Subject: [PATCH 54/63] fix: polka: in-place assignment with a denominator
 keeps the first column of the matrix

---
 newpolka/pk_assign.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newpolka/pk_assign.c b/newpolka/pk_assign.c
index 9c5bb40..fbbada8 100644
--- a/newpolka/pk_assign.c
+++ b/newpolka/pk_assign.c
@@ -81,8 +81,8 @@ pk_matrix_t* pk_matrix_assign_variable(pk_internal_t* pk,
       }
     }
     else {
-      /* Side-effect */
-      for (j=0; j<mat->nbcolumns; j++){
+      /* Side-effect (the first column, which is a flag, is kept) */
+      for (j=1; j<mat->nbcolumns; j++){
 	if (j!=var){
 	  if (den)
 	    numint_mul(nmat->p[i][j],mat->p[i][j],tab[0]);
-- 
2.43.0


From 6b6777bcf8cad6304c34a632f93844cc83babfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:06 +0000
Subject: [PATCH 55/63] fix: polka: closure of an empty strict polyhedron under
 a lazy algorithm is empty

---
 newpolka/pk_closure.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/newpolka/pk_closure.c b/newpolka/pk_closure.c
index 5e2ebd7..b5c40e5 100644
--- a/newpolka/pk_closure.c
+++ b/newpolka/pk_closure.c
@@ -30,10 +30,9 @@ pk_t* pk_closure(ap_manager_t* man, bool destructive, pk_t* pa)
   if (!pk->strict){
     return destructive ? pa : pk_copy(man,pa);
   }
-  if (pk->funopt->algorithm<0)
-    poly_obtain_C(man,pa,"of the argument");
-  else
-    poly_chernikova(man,pa,"of the argument");
+  /* Even with a lazy algorithm: relaxing the strict constraints of an empty
+     polyhedron that is not known to be empty would not give its closure */
+  poly_chernikova(man,pa,"of the argument");
   
   if (!pa->C && !pa->F){
     return destructive ? pa : pk_copy(man,pa);
-- 
2.43.0


From c7641b3b48449dde8d7cbbdd45e9f645d22e5435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:06 +0000
Subject: [PATCH 56/63] fix: polka: folding several dimensions is a convex
 hull, not exact

---
 newpolka/pk_expandfold.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newpolka/pk_expandfold.c b/newpolka/pk_expandfold.c
index 5fd3e74..4f61d37 100644
--- a/newpolka/pk_expandfold.c
+++ b/newpolka/pk_expandfold.c
@@ -317,7 +317,8 @@ pk_t* pk_fold(ap_manager_t* man,
   }
 
   man->result.flag_best = (intdimsup==0);
-  man->result.flag_exact = (intdimsup==0);
+  /* a convex hull, not a union, as soon as several dimensions are folded */
+  man->result.flag_exact = (size==1);
   assert(poly_check(pk,po));
   return po;
 }
-- 
2.43.0


From 2094949d5908028a5eab0d3e128c7a37aed50787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:06 +0000
Subject: [PATCH 57/63] fix: polka equalities: clear the exact flag when
 inequalities or expressions are forgotten

---
 newpolka/pkeq.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/newpolka/pkeq.c b/newpolka/pkeq.c
index 97aa419..0e43f35 100644
--- a/newpolka/pkeq.c
+++ b/newpolka/pkeq.c
@@ -105,8 +105,11 @@ void equality_reduce(ap_manager_t* man, pkeq_t* po)
   else {
     /* The conversion to constraints failed */
     poly_set_top(pk,po);
+    man->result.flag_exact = man->result.flag_best = false;
     return;
   }
+  /* The inequalities are forgotten */
+  man->result.flag_exact = false;
   po->C->nbrows = nbeq + 1;
   po->C->_sorted = false;
   pk_matrix_fill_constraint_top(pk,po->C,nbeq);
@@ -118,6 +121,7 @@ void equality_reduce(ap_manager_t* man, pkeq_t* po)
   if (pk->exn){
     pk->exn = AP_EXC_NONE;
     poly_set_top(pk,po);
+    man->result.flag_exact = man->result.flag_best = false;
   }
 }
 void pkeq_canonicalize(ap_manager_t* man, pkeq_t* po)
@@ -170,7 +174,7 @@ pkeq_t* pkeq_of_box(ap_manager_t* man,
   size_t row,dim;
   pkeq_t* po;
   itv_t itv;
-  bool ok;
+  bool ok,exact;
 
   pk_internal_t* pk = pk_init_from_manager(man,AP_FUNID_OF_BOX);
   pk_internal_realloc_lazy(pk,intdim+realdim);
@@ -186,8 +190,11 @@ pkeq_t* pkeq_of_box(ap_manager_t* man,
   row = 0;
   itv_init(itv);
   ok = false;
+  exact = true;
   for (i=0; i<dim; i++){
     itv_set_ap_interval(pk->itv,itv,array[i]);
+    if (!itv_is_top(itv) && !itv_is_point(pk->itv,itv))
+      exact = false; /* only points and the whole line are affine spaces */
     if (itv_is_point(pk->itv,itv)){
       ok = vector_set_dim_bound(pk,po->C->p[row],
 				 (ap_dim_t)i, bound_numref(itv->sup), 0,
@@ -207,7 +214,8 @@ pkeq_t* pkeq_of_box(ap_manager_t* man,
   po->C->nbrows = pk->dec - 1 + row;
   pk_matrix_reduce(po->C);
   pk_canonicalize(man,po);
-  man->result.flag_exact = man->result.flag_best = true;
+  man->result.flag_exact = exact;
+  man->result.flag_best = true;
   return po;
 }
 
@@ -374,6 +382,7 @@ pkeq_t* equality_asssub_linexpr(bool assign,
   }
   else {
     po = pkeq_forget_array(man,destructive,pa,&dim,1,false);
+    man->result.flag_best = man->result.flag_exact = false;
   }
   return po;
  _equality_asssub_linexpr_error:
@@ -457,6 +466,8 @@ pkeq_t* equality_asssub_linexpr_array(bool assign,
   else {
     man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
   }
+  if (sizeforget)
+    man->result.flag_best = man->result.flag_exact = false;
   free(tdimp);
   free(texprp); 
   free(tdimforget);
@@ -487,7 +498,10 @@ pkeq_t* pkeq_assign_linexpr_array(ap_manager_t* man,
     equality_asssub_linexpr_array(true,
 				  man,destructive,pa,tdim,texpr,size);
   if (pb!=NULL){
+    bool exact = man->result.flag_exact;
     po = pkeq_meet(man,true,po,pb);
+    man->result.flag_exact = man->result.flag_exact && exact;
+    man->result.flag_best = man->result.flag_best && exact;
   }
   return po;
 }
@@ -508,7 +522,10 @@ pkeq_t* pkeq_substitute_linexpr_array(ap_manager_t* man,
     equality_asssub_linexpr_array(false,
 				  man,destructive,pa,tdim,texpr,size);
   if (pb!=NULL){
+    bool exact = man->result.flag_exact;
     po = pkeq_meet(man,true,po,pb);
+    man->result.flag_exact = man->result.flag_exact && exact;
+    man->result.flag_best = man->result.flag_best && exact;
   }
   return po;
 }
-- 
2.43.0


From 0f148425ca3ee74e09299df1644c34761e06c52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:06 +0000
Subject: [PATCH 58/63] fix: box: exact/best flags of add_ray_array, fold,
 assignment with destination and bound_texpr

---
 box/box_assign.c      | 2 +-
 box/box_constructor.c | 7 +++----
 box/box_meetjoin.c    | 3 ++-
 box/box_otherops.c    | 1 +
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/box/box_assign.c b/box/box_assign.c
index 3ad17cc..fb836ab 100644
--- a/box/box_assign.c
+++ b/box/box_assign.c
@@ -50,7 +50,7 @@ box_t* box_assign_linexpr_array(ap_manager_t* man,
   }
   if (dest)
     res = box_meet(man,true,res,dest);
-  man->result.flag_best = size==1 && exact;
+  man->result.flag_best = size==1 && exact && dest==NULL;
   man->result.flag_exact = false;
   return res;
 }
diff --git a/box/box_constructor.c b/box/box_constructor.c
index 4779759..a30cb76 100644
--- a/box/box_constructor.c
+++ b/box/box_constructor.c
@@ -287,22 +287,21 @@ ap_interval_t* box_bound_linexpr(ap_manager_t* man,
 ap_interval_t* box_bound_texpr(ap_manager_t* man,
 			       box_t* a, ap_texpr0_t* expr)
 {
-  bool exact;
   ap_interval_t* interval;
   box_internal_t* intern =  box_init_from_manager(man,AP_FUNID_BOUND_TEXPR);
 
   interval = ap_interval_alloc();
   if (a->p==NULL){
     ap_interval_set_bottom(interval);
-    exact = true;
   }
   else {
     itv_eval_ap_texpr0(intern->itv,
 		       intern->bound_linexpr_itv,expr,a->p);
     ap_interval_set_itv(intern->itv, interval, intern->bound_linexpr_itv);
   }
-  man->result.flag_best = true;
-  man->result.flag_exact = false;
+  /* a dimension may occur several times in the expression */
+  man->result.flag_best = a->p==NULL;
+  man->result.flag_exact = a->p==NULL;
   return interval;
 }
 
diff --git a/box/box_meetjoin.c b/box/box_meetjoin.c
index 813bc95..2d27cca 100644
--- a/box/box_meetjoin.c
+++ b/box/box_meetjoin.c
@@ -150,9 +150,10 @@ box_t* box_add_ray_array(ap_manager_t* man,
   box_t* res;
   box_internal_t* intern = (box_internal_t*)man->internal;
 
+  res = destructive ? a : box_copy(man,a);
+  /* set after box_copy, which sets the flags of its own result */
   man->result.flag_best = true;
   man->result.flag_exact = false;
-  res = destructive ? a : box_copy(man,a);
   if (a->p==NULL){
     man->result.flag_exact = true;
     return res;
diff --git a/box/box_otherops.c b/box/box_otherops.c
index 8db19ac..62ed88a 100644
--- a/box/box_otherops.c
+++ b/box/box_otherops.c
@@ -117,6 +117,7 @@ box_t* box_fold(ap_manager_t* man,
   }
   res = box_remove_dimensions(man,true,res,&dimchange);
   ap_dimchange_clear(&dimchange);
+  man->result.flag_exact = false; /* a join of intervals */
   return res;
 }
 
-- 
2.43.0


From fac58297a0377f0cc3f69f9311e054eb5ed0d3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:06 +0000
Subject: [PATCH 59/63] fix: octagons: no dimension of an empty octagon is
 unconstrained, closed or not

---
 octagons/oct_predicate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/octagons/oct_predicate.c b/octagons/oct_predicate.c
index 8240d29..8bf7fde 100644
--- a/octagons/oct_predicate.c
+++ b/octagons/oct_predicate.c
@@ -198,6 +198,12 @@ bool oct_is_dimension_unconstrained(ap_manager_t* man, oct_t* a,
       if (!bound_infty(b[matpos2(i,d2)]) && i!=d2) return false;
       if (!bound_infty(b[matpos2(i,d2+1)]) && i!=d2+1) return false;
     }
+    if (!a->closed) {
+      /* false for an empty octagon, even not yet known to be empty */
+      if (pr->funopt->algorithm>=0) oct_cache_closure(pr,a);
+      if (!a->closed && !a->m) return false;
+      if (!a->closed) flag_algo;
+    }
     return true;
   }
 }
-- 
2.43.0


From 41cbc10a4ef621eea200f4d87dd8f9e4748e96ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:32 +0000
Subject: [PATCH 60/63] fix: octagons: parallel assignments are exact only when
 the arithmetic is

---
 octagons/oct_transfer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/octagons/oct_transfer.c b/octagons/oct_transfer.c
index 84dab6c..d9df032 100644
--- a/octagons/oct_transfer.c
+++ b/octagons/oct_transfer.c
@@ -1066,7 +1066,7 @@ oct_t* oct_assign_linexpr_array(ap_manager_t* man,
       bound_min(m[i],m[i],m2[i]);
   }
 
-  if (inexact || a->intdim) flag_incomplete;
+  if (inexact || num_incomplete || a->intdim) flag_incomplete;
   else if (!a->closed) flag_algo;
   else if (pr->conv) flag_conv;
 
@@ -1176,7 +1176,7 @@ oct_t* oct_substitute_linexpr_array(ap_manager_t* man,
       bound_min(m[i],m[i],m2[i]);
   }
 
-  if (inexact || a->intdim) flag_incomplete;
+  if (inexact || num_incomplete || a->intdim) flag_incomplete;
   else if (!a->closed) flag_algo;
   else if (pr->conv) flag_conv;
 
-- 
2.43.0


From 5a247683d9d328e7c00f4249226b2525b3bf2bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:15 +0000
Subject: [PATCH 61/63] fix: polka, ppl: results computed by linearizing
 interval coefficients are not exact

---
 newpolka/pk_assign.c   |  6 ++++++
 newpolka/pk_meetjoin.c |  2 ++
 ppl/ppl_poly.cc        | 15 ++++++++++++---
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/newpolka/pk_assign.c b/newpolka/pk_assign.c
index fbbada8..478b088 100644
--- a/newpolka/pk_assign.c
+++ b/newpolka/pk_assign.c
@@ -593,6 +593,9 @@ pk_t* poly_asssub_linexpr_array(bool assign,
   else {
     man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
   }
+  /* the linearization of interval coefficients is an approximation */
+  if (!ap_linexpr0_array_is_quasilinear(texpr,size))
+    man->result.flag_best = man->result.flag_exact = false;
   return po;
 }
 
@@ -661,6 +664,9 @@ pk_t* poly_asssub_linexpr(bool assign,
   else {
     man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
   }
+  /* the linearization of interval coefficients is an approximation */
+  if (!ap_linexpr0_is_quasilinear(linexpr))
+    man->result.flag_best = man->result.flag_exact = false;
   return po;
 }
 
diff --git a/newpolka/pk_meetjoin.c b/newpolka/pk_meetjoin.c
index 23f6e14..55a170d 100644
--- a/newpolka/pk_meetjoin.c
+++ b/newpolka/pk_meetjoin.c
@@ -574,6 +574,8 @@ void poly_meet_itv_lincons_array(bool lazy,
   itv_linearize_lincons_array(pk->itv,array,true);
   itv_lincons_array_reduce_integer(pk->itv,array,po->intdim);
   bool exact = pk_matrix_set_itv_lincons_array(pk,&mat,array,po->intdim,po->realdim,true);
+  /* the linearization of interval coefficients is an approximation */
+  exact = exact && quasilinear;
   pk_matrix_sort_rows(pk,mat);
   if (!lazy) poly_obtain_satC(pa);
   failure = poly_meet_matrix(true,lazy,man,po,pa,mat);
diff --git a/ppl/ppl_poly.cc b/ppl/ppl_poly.cc
index cb6bc5c..24d32e5 100644
--- a/ppl/ppl_poly.cc
+++ b/ppl/ppl_poly.cc
@@ -790,7 +790,8 @@ PPL_Poly* ap_ppl_poly_meet_lincons_array(ap_manager_t* man,
     exact = itv_lincons_array_set_ap_lincons0_array(intern->itv, &array2, array) && exact;
     if (!itv_lincons_array_is_quasilinear(&array2)){
       itv_t* env = ap_ppl_poly_to_itv_array(a);
-      exact = itv_quasilinearize_lincons_array(intern->itv,&array2,env,true) && exact;
+      itv_quasilinearize_lincons_array(intern->itv,&array2,env,true);
+      exact = false; /* interval coefficients are approximated */
       itv_array_free(env,a->p->space_dimension());
     }
     itv_linearize_lincons_array(intern->itv,&array2,true);
@@ -881,7 +882,11 @@ PPL_Poly* ap_ppl_poly_assign_linexpr_array(ap_manager_t* man,
     CATCH_WITH_POLY(AP_FUNID_ASSIGN_LINEXPR_ARRAY,org);
   }
   else {
-    return (PPL_Poly*)ap_generic_assign_linexpr_array(man,destructive,org,tdim,texpr,size,dest);
+    bool quasilinear = ap_linexpr0_array_is_quasilinear(texpr,size);
+    PPL_Poly* r = (PPL_Poly*)ap_generic_assign_linexpr_array(man,destructive,org,tdim,texpr,size,dest);
+    if (!quasilinear) /* interval coefficients are approximated */
+      man->result.flag_exact = man->result.flag_best = false;
+    return r;
   }
 }
 
@@ -922,7 +927,11 @@ PPL_Poly* ap_ppl_poly_substitute_linexpr_array(ap_manager_t* man,
     CATCH_WITH_POLY(AP_FUNID_SUBSTITUTE_LINEXPR_ARRAY,org);
   }
   else {
-    return (PPL_Poly*)ap_generic_substitute_linexpr_array(man,destructive,org,tdim,texpr,size,dest);
+    bool quasilinear = ap_linexpr0_array_is_quasilinear(texpr,size);
+    PPL_Poly* r = (PPL_Poly*)ap_generic_substitute_linexpr_array(man,destructive,org,tdim,texpr,size,dest);
+    if (!quasilinear) /* interval coefficients are approximated */
+      man->result.flag_exact = man->result.flag_best = false;
+    return r;
   }
 }
 
-- 
2.43.0


From 903a1956c002486206adfa4bd014b47d3535a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:06 +0000
Subject: [PATCH 62/63] fix: box: the meet with a constraint with interval
 coefficients is not always the best one

---
 box/box_meetjoin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box/box_meetjoin.c b/box/box_meetjoin.c
index 2d27cca..694b8b4 100644
--- a/box/box_meetjoin.c
+++ b/box/box_meetjoin.c
@@ -186,7 +186,7 @@ box_t* box_meet_lincons_array(ap_manager_t* man,
     man->result.flag_exact = true;
   }
   else {
-    man->result.flag_best = array->size==1;
+    man->result.flag_best = array->size==1 && ap_lincons0_array_is_quasilinear(array);
     man->result.flag_exact = false;
     kmax = man->option.funopt[AP_FUNID_MEET_LINCONS_ARRAY].algorithm;
     if (kmax<1) kmax=2;
-- 
2.43.0


From a05a0549a751cbb4a5e3ff9635e01550bc3d5302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:00 +0000
Subject: [PATCH 63/63] fix: box: a negative algorithm option means the default
 number of passes, not an endless one

---
 box/box_meetjoin.c |  2 +-
 box/box_policy.c   | 20 ++++++++++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/box/box_meetjoin.c b/box/box_meetjoin.c
index 694b8b4..610dbd6 100644
--- a/box/box_meetjoin.c
+++ b/box/box_meetjoin.c
@@ -176,7 +176,7 @@ box_t* box_meet_lincons_array(ap_manager_t* man,
 {
   bool empty = false;
   box_t* res;
-  size_t kmax;
+  int kmax;
   itv_lincons_array_t tlincons;
   box_internal_t* intern = (box_internal_t*)man->internal;
 
diff --git a/box/box_policy.c b/box/box_policy.c
index 47db705..d3405f5 100644
--- a/box/box_policy.c
+++ b/box/box_policy.c
@@ -753,7 +753,8 @@ box_t* box_policy_meet_lincons_array_apply(ap_policy_manager_t* pman,
 					   ap_lincons0_array_t* array)
 {
   box_t* res;
-  size_t kmax,i,k;
+  size_t i,k;
+  int kmax;
   itv_lincons_array_t tlincons;
   ap_manager_t* man = pman->man;
   box_internal_t* intern = (box_internal_t*)man->internal;
@@ -772,7 +773,7 @@ box_t* box_policy_meet_lincons_array_apply(ap_policy_manager_t* pman,
       box_set_bottom(res);
     }
     else {
-      for (k=0; k<kmax; k++){
+      for (k=0; k<(size_t)kmax; k++){
 	for (i=0; i<array->size; i++){
 	  box_policy_meet_lincons_internal(intern,
 					   NULL,
@@ -796,7 +797,8 @@ box_policy_t* box_policy_meet_lincons_array_improve(
 {
   box_t* res;
   box_policy_t* rboxpolicy;
-  size_t kmax,i,k;
+  size_t i,k;
+  int kmax;
   itv_lincons_array_t tlincons;
   ap_manager_t* man = pman->man;
   box_internal_t* intern = (box_internal_t*)man->internal;
@@ -811,7 +813,7 @@ box_policy_t* box_policy_meet_lincons_array_improve(
     itv_lincons_array_set_ap_lincons0_array(intern->itv,&tlincons,array);
     tbool_t tb = itv_lincons_array_reduce_integer(intern->itv,&tlincons,a->intdim);
     if (tb!=tbool_false){
-      for (k=0; k<kmax; k++){
+      for (k=0; k<(size_t)kmax; k++){
 	for (i=0; i<array->size; i++){
 	  box_policy_meet_lincons_internal(
 	      intern,
@@ -838,7 +840,8 @@ box_t* box_policy_meet_tcons_array_apply(
 )
 {
   box_t* res;
-  size_t kmax,i,k;
+  size_t i,k;
+  int kmax;
   itv_lincons_array_t tlincons;
   ap_manager_t* man = pman->man;
   box_internal_t* intern = (box_internal_t*)man->internal;
@@ -859,7 +862,7 @@ box_t* box_policy_meet_tcons_array_apply(
       box_set_bottom(res);
     }
     else {
-      for (k=0; k<kmax; k++){
+      for (k=0; k<(size_t)kmax; k++){
 	for (i=0; i<array->size; i++){
 	  box_policy_meet_lincons_internal(intern,
 					   NULL,
@@ -883,7 +886,8 @@ box_policy_t* box_policy_meet_tcons_array_improve(
 {
   box_t* res;
   box_policy_t* rboxpolicy;
-  size_t kmax,i,k;
+  size_t i,k;
+  int kmax;
   itv_lincons_array_t tlincons;
   ap_manager_t* man = pman->man;
   box_internal_t* intern = (box_internal_t*)man->internal;
@@ -900,7 +904,7 @@ box_policy_t* box_policy_meet_tcons_array_improve(
 				     array,res->p,res->intdim);
     tbool_t tb = itv_lincons_array_reduce_integer(intern->itv,&tlincons,a->intdim);
     if (tb!=tbool_false){
-      for (k=0; k<kmax; k++){
+      for (k=0; k<(size_t)kmax; k++){
 	for (i=0; i<array->size; i++){
 	  box_policy_meet_lincons_internal(
 	      intern,
-- 
2.43.0

