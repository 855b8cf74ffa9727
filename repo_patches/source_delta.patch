From d69a7cdd1f7f59fd3b31b08e26b5aebaa92b7ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 01/86] fix: odd powers and roots of -oo bounds are -oo, not
 +oo

---
 num/bound_def.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/num/bound_def.h b/num/bound_def.h
index 0769e56..5c70b3c 100644
--- a/num/bound_def.h
+++ b/num/bound_def.h
@@ -364,8 +364,10 @@ static inline void bound_sqrt(bound_t up, bound_t down, bound_t b)
 static inline void bound_pow(bound_t up, bound_t down, bound_t b, unsigned long n)
 {
   if (bound_infty(b)) {
-    bound_set_infty(up, 1);
-    bound_set_infty(down, 1);
+    /* an odd power keeps the sign of the infinity */
+    int sgn = (n & 1) ? bound_sgn(b) : 1;
+    bound_set_infty(up, sgn);
+    bound_set_infty(down, sgn);
   }
   else if (num_pow(bound_numref(up), bound_numref(down), bound_numref(b), n)) {
     bound_set_infty(up,1);
@@ -380,8 +382,10 @@ static inline void bound_pow(bound_t up, bound_t down, bound_t b, unsigned long
 static inline void bound_root(bound_t up, bound_t down, bound_t b, unsigned long n)
 {
   if (bound_infty(b)) {
-    bound_set_infty(up, 1);
-    bound_set_infty(down, 1);
+    /* an odd root keeps the sign of the infinity */
+    int sgn = (n & 1) ? bound_sgn(b) : 1;
+    bound_set_infty(up, sgn);
+    bound_set_infty(down, sgn);
   }
   else {
     num_root(bound_numref(up), bound_numref(down), bound_numref(b), n);
-- 
2.43.0


From 0e5add8167efd10511f4d8325f74d0aef77fd842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 02/86] fix: box_to_generator_array wrote vertex coordinates
 into the rays

---
 box/box_constructor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box/box_constructor.c b/box/box_constructor.c
index 36e5be7..4779759 100644
--- a/box/box_constructor.c
+++ b/box/box_constructor.c
@@ -473,7 +473,7 @@ ap_generator0_array_t box_to_generator_array(ap_manager_t* man, box_t* a)
 	for (j=nblines+nbrays; j<nblines+nbrays+v; j++){
 	  ap_scalar_set_bound(&scalar,itv->inf);
 	  ap_scalar_neg(&scalar,&scalar);
-	  ap_linexpr0_set_coeff_scalar(expr,i,&scalar);
+	  ap_linexpr0_set_coeff_scalar(array.p[j].linexpr0,i,&scalar);
 	}	   
       }
       else if (iinf){
@@ -482,7 +482,7 @@ ap_generator0_array_t box_to_generator_array(ap_manager_t* man, box_t* a)
 	r++;
 	for (j=nblines+nbrays; j<nblines+nbrays+v; j++){
 	  ap_scalar_set_bound(&scalar,itv->sup);
-	  ap_linexpr0_set_coeff_scalar(expr,i,&scalar);
+	  ap_linexpr0_set_coeff_scalar(array.p[j].linexpr0,i,&scalar);
 	}	   
       }
     }
-- 
2.43.0


From d7f9246c83cba27cc051c2ce890d74b6bd354fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 03/86] fix: a congruence constraint divided by a null modulo

---
 itv/itv_linexpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itv/itv_linexpr.c b/itv/itv_linexpr.c
index 1231e22..ee202c4 100644
--- a/itv/itv_linexpr.c
+++ b/itv/itv_linexpr.c
@@ -562,7 +562,7 @@ tbool_t ITVFUN(itv_eval_cstlincons)(itv_internal_t* intern,
       if (bound_sgn(cst->sup)==0){
 	res = tbool_true;
       }
-      else if (num_cmp_int(lincons->num,0)){
+      else if (num_sgn(lincons->num)==0){
 	res = (bound_sgn(cst->sup)==0) ? tbool_true : tbool_top;
       }
       else {
-- 
2.43.0


From 5e96398b803c0212b5eeb16cb1569d475f90e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 04/86] fix: lower bound of floating-point powers was rounded
 upwards

---
 num/numflt_native.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/num/numflt_native.h b/num/numflt_native.h
index dbc1d05..50c9585 100644
--- a/num/numflt_native.h
+++ b/num/numflt_native.h
@@ -159,15 +159,16 @@ static inline void numflt_mul_2exp(numflt_t a, numflt_t b, int c)
 static inline int  numflt_pow(numflt_t up, numflt_t down, numflt_t b, unsigned long int n)
 {
   /* we cannot rely on pow, we implement a simple fast power */
-  numflt_native u, d, fu, fd;
+  numflt_native u, fu, fd;
+  volatile numflt_native d, nd; /* volatile: -((-x)*y) must not become x*y */
   int sign;
   if (*b < 0) { fu = fd = -*b; sign = n&1;}
   else { fu = fd = *b; sign = 0; }
   u = d = 1;
   while (n) {
-    if (n & 1) { u *= fu; d = - ((-d) * fd); }
+    if (n & 1) { u *= fu; nd = -d; nd = nd * fd; d = -nd; }
     fu = fu * fu;
-    fd = - ((-fd) * fd);
+    nd = -fd; nd = nd * fd; fd = -nd;
     n >>= 1;
   }
   if (sign) {
-- 
2.43.0


From dc50ee7201277ea4b737aa4c8905c57dfa8beff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 05/86] fix: bounds deduced from an interval coefficient were
 rounded inwards

---
 itv/itv_linearize.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 5864539..8fb4b32 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -245,10 +245,10 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 			  intern->boxize_lincons_itv->sup);
 	      } else { /* 1B */
 		/* We compute -E/m */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_itv->inf);
 		bound_div(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_eval->sup,
-			  intern->boxize_lincons_itv->inf);
-		bound_neg(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_bound);
 	      }
 	    }
@@ -260,10 +260,10 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 			  intern->boxize_lincons_itv->inf);
 	      } else { /* 4B */
 		/* We compute -e/M */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_itv->sup);
 		bound_div(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_eval->inf,
-			  intern->boxize_lincons_itv->sup);
-		bound_neg(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_bound);
 	      }
 	    }
@@ -291,10 +291,10 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 	    if (sgnitv<0){ /* 2 */
 	      if (sgnE>=0){ /* 2B */
 		/* We compute -E/M */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_itv->sup);
 		bound_div(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_eval->sup,
-			  intern->boxize_lincons_itv->sup);
-		bound_neg(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_bound);
 	      } else { /* 2A */
 		/* We compute E/m */
@@ -306,10 +306,10 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 	    else { /* 3 */
 	      if (sgne>=0){ /* 3B */
 		/* We compute -e/m */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_itv->inf);
 		bound_div(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_eval->inf,
-			  intern->boxize_lincons_itv->inf);
-		bound_neg(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_bound);
 	      }
 	      else { /* 3A */
-- 
2.43.0


From 576d82209b718e0857a3f8ab5efa0230db421459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 06/86] fix: the rounding of powers was ignored

---
 itv/itv_linearize.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 8fb4b32..b428292 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -1440,6 +1440,7 @@ ap_texpr0_node_intlinearize(itv_internal_t* intern,
     }
     else {
       itv_pow(intern,ires,ires,i1);
+      itv_round(ires,ires,n->type,n->dir);
       itv_linexpr_reinit(lres,0);
       itv_set(lres->cst,ires);
       lres->equality = itv_is_point(intern,lres->cst);
@@ -1922,7 +1923,7 @@ itv_refine_ap_texpr0_node(itv_internal_t* intern,
     /* keep right argument */
     itv_set(arg2r, arg2);
     /* refine left argument */
-    itv_inv_pow(intern, arg1r, arg1, res, arg2);
+    itv_inv_pow(intern, arg1r, arg1, intern->eval_itv3, arg2);
     itv_meet(intern, arg1r, arg1r, arg1);
     break;
 
-- 
2.43.0


From 5e798230956f5fe3b363093759d6b88f43b151cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 07/86] fix: satisfiability tests of constant constraints
 (disequalities on intervals, congruences)

---
 apron/ap_lincons0.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/apron/ap_lincons0.c b/apron/ap_lincons0.c
index 5dfd70f..89a1d14 100644
--- a/apron/ap_lincons0.c
+++ b/apron/ap_lincons0.c
@@ -66,8 +66,10 @@ bool ap_lincons0_is_unsat(ap_lincons0_t* cons)
     case AP_COEFF_SCALAR:
       sgn = ap_scalar_sgn(expr->cst.val.scalar);
       switch(cons->constyp){
-      case AP_CONS_EQ:
       case AP_CONS_EQMOD:
+	/* a non-null constant may be a multiple of the modulo */
+	return (sgn!=0) && (cons->scalar==NULL || ap_scalar_sgn(cons->scalar)==0);
+      case AP_CONS_EQ:
 	return (sgn!=0);
       case AP_CONS_DISEQ:
 	return (sgn==0);
@@ -81,15 +83,21 @@ bool ap_lincons0_is_unsat(ap_lincons0_t* cons)
     case AP_COEFF_INTERVAL:
       sgn = ap_scalar_sgn(expr->cst.val.interval->sup);
       switch(cons->constyp){
-      case AP_CONS_EQ:
       case AP_CONS_EQMOD:
+	/* a non-null constant may be a multiple of the modulo */
+	return
+	  (sgn < 0 ||
+	   ap_scalar_sgn(expr->cst.val.interval->inf)>0) &&
+	  (cons->scalar==NULL || ap_scalar_sgn(cons->scalar)==0);
+      case AP_CONS_EQ:
 	return
 	  sgn < 0 ||
 	  ap_scalar_sgn(expr->cst.val.interval->inf)>0;
       case AP_CONS_DISEQ:
+	/* some non-null value makes it satisfiable */
 	return
-	  sgn>=0 &&
-	  ap_scalar_sgn(expr->cst.val.interval->inf)<=0;
+	  sgn==0 &&
+	  ap_scalar_sgn(expr->cst.val.interval->inf)==0;
       case AP_CONS_SUPEQ:
 	return sgn<0;
       case AP_CONS_SUP:
@@ -146,8 +154,8 @@ bool ap_lincons0_is_sat(ap_lincons0_t* cons)
           ap_scalar_sgn(expr->cst.val.interval->sup)==0;
       case AP_CONS_DISEQ:
         return
-          ap_scalar_sgn(expr->cst.val.interval->inf)<0 ||
-          ap_scalar_sgn(expr->cst.val.interval->sup)>0;
+          ap_scalar_sgn(expr->cst.val.interval->inf)>0 ||
+          ap_scalar_sgn(expr->cst.val.interval->sup)<0;
       case AP_CONS_SUPEQ:
 	return 
           ap_scalar_sgn(expr->cst.val.interval->inf)>=0;
-- 
2.43.0


From 6e7d610bb5987d839c55fc4db267054dbd71a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 08/86] fix: linear equalities ignored interval coefficients in
 assignments and substitutions

---
 newpolka/pkeq.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/newpolka/pkeq.c b/newpolka/pkeq.c
index fbe6e99..be3654a 100644
--- a/newpolka/pkeq.c
+++ b/newpolka/pkeq.c
@@ -338,8 +338,7 @@ pkeq_t* equality_asssub_linexpr(bool assign,
     return destructive ? pa : pk_bottom(man,pa->intdim,pa->realdim);
   }
   /* Choose the right technique */
-  switch (linexpr->cst.discr){
-  case AP_COEFF_SCALAR:
+  if (ap_linexpr0_is_linear(linexpr)){
     {
       po = poly_asssub_linexpr_det(assign,man,destructive,pa,dim,linexpr);
       poly_chernikova(man,po,"of the result");
@@ -357,12 +356,10 @@ pkeq_t* equality_asssub_linexpr(bool assign,
 	man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
       }
     }
-    break;
-  case AP_COEFF_INTERVAL:
+  }
+  else {
+    /* some coefficient is an interval */
     po = pkeq_forget_array(man,destructive,pa,&dim,1,false);
-    break;
-  default:
-    abort();
   }
   return po;
  _equality_asssub_linexpr_error:
@@ -404,7 +401,7 @@ pkeq_t* equality_asssub_linexpr_array(bool assign,
   tdimforget = malloc(size*sizeof(ap_dim_t));
   sizeforget = 0;
   for (i=0; i<size; i++){
-    if (texpr[i]->cst.discr==AP_COEFF_SCALAR){
+    if (ap_linexpr0_is_linear(texpr[i])){
       tdimp[sizep] = tdim[i];
       texprp[sizep] = texpr[i];
       sizep++;
@@ -414,12 +411,18 @@ pkeq_t* equality_asssub_linexpr_array(bool assign,
     }
   }
   if (sizep>0){
+    if (!assign && sizeforget){
+      /* the values of these dimensions before and after differ:
+	 forget the latter before the substitution brings in the former */
+      pa = pkeq_forget_array(man,destructive,pa,tdimforget,sizeforget,false);
+      destructive = true;
+    }
     po = poly_asssub_linexpr_array_det(assign,man,destructive,pa,tdimp,texprp,sizep);
     poly_chernikova(man,po,"of the result");
     if (pk->exn) goto _equality_asssub_linexpr_array_error;
     equality_reduce(man,po);
     if (pk->exn) goto _equality_asssub_linexpr_array_error;
-    if (sizeforget){
+    if (assign && sizeforget){
       po = pkeq_forget_array(man,true,po,tdimforget,sizeforget,false);
     }
   }
-- 
2.43.0


From 01d5c234caffda37f560719df6ee68e8bf207959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 09/86] fix: joining an array holding three times the same
 polyhedron

---
 newpolka/pk_meetjoin.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/newpolka/pk_meetjoin.c b/newpolka/pk_meetjoin.c
index 745badb..0e3b8e1 100644
--- a/newpolka/pk_meetjoin.c
+++ b/newpolka/pk_meetjoin.c
@@ -630,7 +630,7 @@ pk_t* pk_join_array(ap_manager_t* man, pk_t** po, size_t size)
 {
   pk_t** tpoly;
   pk_t* poly;
-  size_t i;
+  size_t i,j;
   pk_internal_t* pk = pk_init_from_manager(man,AP_FUNID_JOIN_ARRAY);
 
   if (size==0){
@@ -652,14 +652,11 @@ pk_t* pk_join_array(ap_manager_t* man, pk_t** po, size_t size)
   qsort(tpoly,size,sizeof(pk_t*),poly_cmp);
 
   /* remove doublons */
-  for(i=0;i<size-1;i++){
-    if (tpoly[i]==tpoly[i+1]){
-      if (i<size-2){
-	memmove(&tpoly[i+1],&tpoly[i+2],(size-i-2)*sizeof(pk_t*));
-      }
-      size--;
-    }
+  j = 1;
+  for (i=1;i<size;i++){
+    if (tpoly[i]!=tpoly[j-1]) tpoly[j++] = tpoly[i];
   }
+  size = j;
   /* dual */
   for (i=0;i<size;i++)
     poly_dual(tpoly[i]);
-- 
2.43.0


From fb5b95aca62f1b8e9d1138296defc01d87881d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 10/86] fix: upper bounds of octagonal constraints had the
 wrong sign in poly_approximate

---
 newpolka/pk_user.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newpolka/pk_user.c b/newpolka/pk_user.c
index f7a2198..37da2c1 100644
--- a/newpolka/pk_user.c
+++ b/newpolka/pk_user.c
@@ -118,7 +118,7 @@ bool vector_set_linexpr_bound(pk_internal_t* pk,
   numint_init(cst);
   numint_mul(cst,numrat_numref(numrat),vec[0]);
   if (mode>=0){
-    numint_sub(vec[polka_cst],vec[polka_cst],cst);
+    numint_sub(vec[polka_cst],cst,vec[polka_cst]);
     for (i=pk->dec; i<size; i++){
       numint_neg(vec[i],vec[i]);
     }
-- 
2.43.0


From 9077747e0c2aa17378bef7bd9523109c921e8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 11/86] fix: a constant variable with an interval coefficient
 left an exact constant

---
 itv/itv_linearize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index b428292..bc51b33 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -541,6 +541,7 @@ bool ITVFUN(itv_quasilinearize_linexpr)(itv_internal_t* intern, itv_linexpr_t* l
       /* If a variable has a constant value, simplification */
       itv_mul_num(itv,itv,bound_numref(env[dim]->sup));
       itv_add(linexpr->cst,linexpr->cst,itv);
+      linexpr->equality = linexpr->equality && itv_is_point(intern,linexpr->cst);
 
       size--;
       itv_linterm_t tmp = linexpr->linterm[i];
-- 
2.43.0


From 2b75e0778b0ba0788edc5c86573908a6bb25c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 12/86] fix: PPL wrappers answered that a strict inequality
 holds when only the large one does

---
 ppl/ppl_grid.cc | 5 ++---
 ppl/ppl_poly.cc | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index 8f4a651..3197835 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -517,9 +517,8 @@ bool ap_ppl_grid_sat_lincons(ap_manager_t* man, PPL_Grid* a,
 	  r = (l>=0); 
           break;
 	case AP_CONS_SUP:
-          exact = false;
-          r = (l>=0); 
-          break;
+	  r = (l>0);
+	  break;
 	case AP_CONS_EQMOD:
 	  exact = exact && (num_sgn(lincons.num)==0);
           // fall through
diff --git a/ppl/ppl_poly.cc b/ppl/ppl_poly.cc
index 189ac84..c63ebd7 100644
--- a/ppl/ppl_poly.cc
+++ b/ppl/ppl_poly.cc
@@ -485,8 +485,7 @@ bool ap_ppl_poly_sat_lincons(ap_manager_t* man, PPL_Poly* a,
 	  r = (l>=0); 
           break;
 	case AP_CONS_SUP:
-          if (intern->strict) r = (l>0);
-          else { exact = false; r = (l>=0); }
+	  r = (l>0);
 	  break;
 	case AP_CONS_EQMOD:
 	  exact = exact && (num_sgn(lincons.num)==0);
-- 
2.43.0


From 7b1145ab49a4fdec987efa4ec84a6492fe80ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 13/86] fix: PPL polyhedra took an interval constraint modulo 0
 as an equality with one bound

---
 ppl/ppl_user.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ppl/ppl_user.cc b/ppl/ppl_user.cc
index 210b5ed..ddd7e95 100644
--- a/ppl/ppl_user.cc
+++ b/ppl/ppl_user.cc
@@ -425,7 +425,7 @@ bool ap_ppl_of_itv_lincons(Constraint& r,
     if (allow_strict) { r = ( l > 0 ); return true; }
     else { r = (l >= 0); return false; }
   case AP_CONS_EQMOD:
-    if (numrat_sgn(lincons->num)==0){
+    if (numrat_sgn(lincons->num)==0 && itv_linexpr_is_scalar(&lincons->linexpr)){
       r = ( l == 0 ); return true;
     }
     else {
-- 
2.43.0


From d8cde463159d4deabb1b3b01276f290ee57a9bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 14/86] fix: bounds of linear expressions on PPL grids ignored
 denominators and interval constants

---
 ppl/ppl_grid.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index 3197835..d25a3cc 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -624,8 +624,12 @@ ap_interval_t* ap_ppl_grid_bound_linexpr(ap_manager_t* man,
 	  ap_scalar_set_infty(r->sup,1);
 	}
 	else {
-	  ap_ppl_of_linexpr(intern->itv,l,den,expr,1);
-	  if (a->p->maximize(l,sup_n,sup_d,ok)) {
+	  exact = ap_ppl_of_itv_linexpr(l,den,&linexpr,+1) && exact;
+	  /* the constant is added apart: Grid::maximize and Grid::minimize
+	     do not multiply it by the divisor */
+	  Coefficient cst = l.inhomogeneous_term();
+	  if (a->p->maximize(l-cst,sup_n,sup_d,ok)) {
+	    sup_n += cst*sup_d;
 	    sup_d *= den;
 	    ap_ppl_mpz2_to_scalar(r->sup,sup_n,sup_d);
 	  }
@@ -636,10 +640,10 @@ ap_interval_t* ap_ppl_grid_bound_linexpr(ap_manager_t* man,
 	  ap_scalar_set_infty(r->inf,-1);
 	}
 	else {
-	  if (!itv_linexpr_is_scalar(&linexpr)){
-	    ap_ppl_of_itv_linexpr(l,den,&linexpr,-1);
-	  }
-	  if (a->p->minimize(l,sup_n,sup_d,ok)) {
+	  ap_ppl_of_itv_linexpr(l,den,&linexpr,-1);
+	  Coefficient cst = l.inhomogeneous_term();
+	  if (a->p->minimize(l-cst,sup_n,sup_d,ok)) {
+	    sup_n += cst*sup_d;
 	    sup_d *= den;
 	    ap_ppl_mpz2_to_scalar(r->inf,sup_n,sup_d);
 	  }
-- 
2.43.0


From 608fd52e4e07b15d9a8f2337762d18c001078cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 15/86] fix: strict inequalities on PPL grids

---
 ppl/ppl_grid.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index d25a3cc..8dcd800 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -517,7 +517,10 @@ bool ap_ppl_grid_sat_lincons(ap_manager_t* man, PPL_Grid* a,
 	  r = (l>=0); 
           break;
 	case AP_CONS_SUP:
-	  r = (l>0);
+	  /* strict inequalities are not reliable in Grid::relation_with */
+	  if (!a->p->relation_with(l==0).implies(Poly_Con_Relation::is_disjoint()))
+	    return false;
+	  r = (l>=0);
 	  break;
 	case AP_CONS_EQMOD:
 	  exact = exact && (num_sgn(lincons.num)==0);
-- 
2.43.0


From 129464c8ed654d6a22e05c79844a3bd024d6443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 16/86] fix: non-linear assignments in an empty PPL grid raised
 an exception

---
 ppl/ppl_grid.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index 8dcd800..446bcd1 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -65,6 +65,7 @@ void PPL_Grid::reduce()
 
 void PPL_Grid::forget_dim(size_t dim)
 {
+  if (p->is_empty()) return; /* PPL refuses to add parameters and lines */
 #ifndef PPL_0_9
   if (intdim>dim) p->add_grid_generator(Grid_Generator::parameter(Variable(dim)));
   else p->add_grid_generator(Grid_Generator::grid_line(Variable(dim)));
-- 
2.43.0


From 557434f08f63ecf0bf581c7b4de6f9f0e9bcec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 17/86] fix: absolute-value octagons rejected MPFR numbers

---
 avoct/avo_internal.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/avoct/avo_internal.h b/avoct/avo_internal.h
index f39e44e..497dc8a 100755
--- a/avoct/avo_internal.h
+++ b/avoct/avo_internal.h
@@ -356,6 +356,19 @@ static inline void avo_bound_of_scalar(avo_internal_t* pr,
     /* undo change in argument */
     if (neg) mpq_neg(t->val.mpq,t->val.mpq);
     break;
+  case AP_SCALAR_MPFR:
+    /* negate _before_ converting */
+    if (neg) mpfr_neg(t->val.mpfr,t->val.mpfr,GMP_RNDU);
+    if (ap_scalar_infty(t)==1) bound_set_infty(r,1);
+    else if (mpfr_number_p(t->val.mpfr) && mpfr_fits_num(t->val.mpfr)) {
+      if (!num_set_mpfr(bound_numref(r),t->val.mpfr))  pr->conv = true;
+      bound_set_num(r,bound_numref(r));
+      if (mul2) bound_mul_2(r,r);
+    }
+    else { pr->conv = true; bound_set_infty(r,1); }
+    /* undo change in argument */
+    if (neg) mpfr_neg(t->val.mpfr,t->val.mpfr,GMP_RNDU);
+    break;
   default: arg_assert(0,return;);
   }
 }
-- 
2.43.0


From a395e3d9c6dc69e6465df9952d897bd1caad8398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 18/86] fix: ap_environment_lce_array returns an owned
 reference and one dimchange per argument

It returned one of its arguments without taking a reference when they are all
equal, reordered and compacted the array of the caller so that the dimension
changes did not match the arguments, and freed dimension changes incompletely.
---
 apron/ap_environment.c | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index d679c0a..cf600ac 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -888,13 +888,6 @@ ap_environment_t* ap_environment_lce(ap_environment_t* env1,
   the array (*ptdimchange)[0] with malloc.
 
 */
-static int env_cmp(const void* a, const void* b)
-{
-  ap_environment_t* pa = *((ap_environment_t*const*)a);
-  ap_environment_t* pb = *((ap_environment_t*const*)b);
-  return (pa>pb ? 1 : (pa==pb ? 0 : -1));
-}
-
 ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
 					   size_t size,
 					   ap_dimchange_t*** ptdimchange)
@@ -909,29 +902,25 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
 
   assert(size>=1);
 
-  qsort(tenv,size,sizeof(ap_environment_t*),env_cmp);
-  /* remove doublons */
-  for(i=0;i<size-1;i++){
-    if (tenv[i]==tenv[i+1]){
-      if (i<size-2){
-	memmove(&tenv[i+1],&tenv[i+2],(size-i-2)*sizeof(ap_environment_t*));
-      }
-      size--;
-    }
-  }
   if (size==1){
-    *ptdimchange = malloc(sizeof(ap_dim_t*));
+    *ptdimchange = malloc(sizeof(ap_dimchange_t*));
     (*ptdimchange)[0] = NULL;
-    return tenv[0];
+    return ap_environment_copy(tenv[0]);
   }
   if (size==2){
     if (ap_environment_is_eq(tenv[0],tenv[1])){
       *ptdimchange = NULL;
-      return tenv[0];
+      return ap_environment_copy(tenv[0]);
     }
     else {
+      ap_environment_t* env;
       *ptdimchange = malloc(2*sizeof(ap_dimchange_t*));
-      return ap_environment_lce(tenv[0],tenv[1],&(*ptdimchange)[0],&(*ptdimchange)[1]);
+      env = ap_environment_lce(tenv[0],tenv[1],&(*ptdimchange)[0],&(*ptdimchange)[1]);
+      if (env==NULL){
+	free(*ptdimchange);
+	*ptdimchange=NULL;
+      }
+      return env;
     }
   }
 
@@ -978,7 +967,7 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
     }
   }
   free(tdenv);
-  if (j>0){
+  if (j>=0){
     env_clear(&denv.envint);
     env_clear(&denv.envreal);
     if (!change){
@@ -991,7 +980,7 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
     ap_environment_t* env = environment_of_denv(&denv);
     if (ap_environment_check(env)){
       for (i=0;i<size;i++){
-	if ((*ptdimchange)[i]) free((*ptdimchange)[i]);
+	if ((*ptdimchange)[i]) ap_dimchange_free((*ptdimchange)[i]);
       }
       free(*ptdimchange);
       *ptdimchange=NULL;
-- 
2.43.0


From 5cea9a9c06314ff74215296c8ed93c897e8fa864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 19/86] fix: ap_environment_rename sets perm->dim to NULL when
 it fails, as documented

---
 apron/ap_environment.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index cf600ac..5cd9f44 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -1018,6 +1018,8 @@ ap_environment_t* ap_environment_rename(ap_environment_t* env,
     ap_dim_t dim = ap_environment_dim_of_var(env,tvar1[j]);
     if (dim==AP_DIM_MAX){
       ap_environment_free(res);
+      perm->dim = NULL;
+      perm->size = 0;
       return NULL;
     }
     res->var_of_dim[dim] = ap_var_operations->copy(tvar2[j]);
-- 
2.43.0


From 679e67c76f6ad806d60c8a74cc316ec6ed71b1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 20/86] fix: ap_abstract1_of_box frees as many intervals as it
 allocated when a variable is unknown

---
 apron/ap_abstract1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 07fea65..9241aff 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -366,7 +366,7 @@ ap_abstract1_t ap_abstract1_of_box(ap_manager_t* man,
     ap_dim_t dim = ap_environment_dim_of_var(env,tvar[i]);
     if (dim==AP_DIM_MAX){
       ap_abstract1_raise_invalid_var(man,AP_FUNID_OF_BOX,tvar[i]);
-      ap_interval_array_free(itv,size);
+      ap_interval_array_free(itv,env->intdim+env->realdim);
       return ap_abstract1_top(man,env);
     }
     ap_interval_set(itv[dim],tinterval[i]);
-- 
2.43.0


From 11779e37449dc730ee401a14f20b2b156e16b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 21/86] fix: destructive level 1 operations that keep the
 environment no longer leak a reference to it

---
 apron/ap_abstract1.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 9241aff..4a5ed33 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -60,8 +60,10 @@ ap_abstract1_t ap_abstract1_consres2(bool destructive, ap_abstract1_t* a,
 {
   ap_abstract1_t res;
   if (destructive){
-    if (value==a->abstract0 && env==a->env)
+    if (value==a->abstract0 && env==a->env){
       res = *a;
+      ap_environment_free(env);
+    }
     else {
       res.abstract0 = value;
       res.env = env;
-- 
2.43.0


From c46fc7d47023ba1442e2c00c72050f3c4a4e9bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 22/86] fix: ap_environment_dimchange wrote past the dimension
 change when the target is not a super-environment

It also missed the case where the last variables of the first
environment are absent from the second.
---
 apron/ap_environment.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index 5cd9f44..b4680a6 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -296,18 +296,20 @@ static bool env_lce_dimchange(env_t* e1, env_t* e,
 			      size_t offsetwrite, size_t offsetread)
 {
   size_t i,i1,k1;
-  int sgn=0;
+  int sgn;
 
   if (e1->size>e->size) return true;
   i = 0;
   k1 = 0;
   for (i1=0; i1<e1->size; i1++){
+    sgn = 1;
     while (i<e->size){
       sgn = ap_var_operations->compare(e1->var_of_dim[i1],e->var_of_dim[i]);
       i++;
       if (sgn<0) return true;
       if (sgn==0) break;
       /* here, a new dimension to insert */
+      if (k1 >= e->size - e1->size) return true;
       dimchange1->dim[offsetwrite+k1] = offsetread+i1;
       k1++;
     }
-- 
2.43.0


From 98cab731a1b6fcc8de92e4e8dde4fd9838f3f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 23/86] fix: box_add_ray_array claimed to be exact when it
 works on a copy

---
 box/box_meetjoin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box/box_meetjoin.c b/box/box_meetjoin.c
index 813bc95..f835a4a 100644
--- a/box/box_meetjoin.c
+++ b/box/box_meetjoin.c
@@ -150,9 +150,9 @@ box_t* box_add_ray_array(ap_manager_t* man,
   box_t* res;
   box_internal_t* intern = (box_internal_t*)man->internal;
 
+  res = destructive ? a : box_copy(man,a);
   man->result.flag_best = true;
   man->result.flag_exact = false;
-  res = destructive ? a : box_copy(man,a);
   if (a->p==NULL){
     man->result.flag_exact = true;
     return res;
-- 
2.43.0


From 01b1166a61cba66cf041b20decd56fe1e7d3ca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 24/86] fix: the equality domain no longer claims to be exact
 when it drops inequalities or intervals

---
 newpolka/pkeq.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/newpolka/pkeq.c b/newpolka/pkeq.c
index be3654a..866de2f 100644
--- a/newpolka/pkeq.c
+++ b/newpolka/pkeq.c
@@ -84,6 +84,8 @@ void equality_reduce(ap_manager_t* man, pkeq_t* po)
     if (po->C->nbrows > po->nbeq + 1){
       pk_internal_t* pk = (pk_internal_t*)man->internal;
 
+      /* dropping the inequalities gives the best approximation */
+      man->result.flag_exact = false;
       po->C->nbrows = po->nbeq + 1;
       pk_matrix_fill_constraint_top(pk,po->C,po->nbeq);
       pk_matrix_reduce(po->C);
@@ -154,7 +156,7 @@ pkeq_t* pkeq_of_box(ap_manager_t* man,
   size_t row,dim;
   pkeq_t* po;
   itv_t itv;
-  bool ok;
+  bool ok,exact;
 
   pk_internal_t* pk = pk_init_from_manager(man,AP_FUNID_OF_BOX);
   pk_internal_realloc_lazy(pk,intdim+realdim);
@@ -170,6 +172,7 @@ pkeq_t* pkeq_of_box(ap_manager_t* man,
   row = 0;
   itv_init(itv);
   ok = false;
+  exact = true;
   for (i=0; i<dim; i++){
     itv_set_ap_interval(pk->itv,itv,array[i]);
     if (itv_is_point(pk->itv,itv)){
@@ -178,19 +181,24 @@ pkeq_t* pkeq_of_box(ap_manager_t* man,
 				 intdim,realdim,
 				 true);
       if (!ok){
+	itv_clear(itv);
 	pk_matrix_free(po->C);
 	po->C = NULL;
 	return po;
       }
       row++;
     }
+    else if (!itv_is_top(itv)) {
+      exact = false;
+    }
   }
   itv_clear(itv);
   pk_matrix_fill_constraint_top(pk,po->C,row);
   po->C->nbrows = pk->dec - 1 + row;
   pk_matrix_reduce(po->C);
   pk_canonicalize(man,po);
-  man->result.flag_exact = man->result.flag_best = true;
+  man->result.flag_exact = exact;
+  man->result.flag_best = true;
   return po;
 }
 
-- 
2.43.0


From 75dbe11eed9df5d8430ab6255584f7a5553728d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 25/86] fix: interval assignments with a destination: empty
 when it is empty, and not claimed to be best

---
 box/box_assign.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/box/box_assign.c b/box/box_assign.c
index e7f30b3..3105a08 100644
--- a/box/box_assign.c
+++ b/box/box_assign.c
@@ -30,7 +30,9 @@ box_t* box_assign_linexpr_array(ap_manager_t* man,
   if (a->p==NULL || (dest && dest->p==NULL)){
     man->result.flag_best = true;
     man->result.flag_exact = true;
-    return destructive ? a : box_copy(man,a);
+    res = destructive ? a : box_copy(man,a);
+    box_set_bottom(res);
+    return res;
   }
   if (size==1){
       res = destructive ? a : box_copy(man,a);
@@ -47,7 +49,7 @@ box_t* box_assign_linexpr_array(ap_manager_t* man,
   }
   if (dest)
     res = box_meet(man,true,res,dest);
-  man->result.flag_best = size==1 && exact;
+  man->result.flag_best = size==1 && exact && !dest;
   man->result.flag_exact = false;
   return res;
 }
@@ -79,6 +81,7 @@ box_t* box_assign_texpr(ap_manager_t* man,
   if (a->p==NULL || (dest!=NULL && dest->p==NULL)){
     man->result.flag_best = true;
     man->result.flag_exact = true;
+    box_set_bottom(res);
     return res;
   }
   itv_eval_ap_texpr0(intern->itv,res->p[dim],texpr,a->p);
@@ -104,7 +107,9 @@ box_t* box_assign_texpr_array(ap_manager_t* man,
   if (a->p==NULL || (dest && dest->p==NULL)){
     man->result.flag_best = true;
     man->result.flag_exact = true;
-    return destructive ? a : box_copy(man,a);
+    res = destructive ? a : box_copy(man,a);
+    box_set_bottom(res);
+    return res;
   }
   if (size==1){
     res = destructive ? a : box_copy(man,a);
-- 
2.43.0


From de2c76171552bc8cf9974633b87d33f4baceaf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 26/86] fix: rounding the coefficients of a strict constraint
 made it strict on a bound that may be attained

---
 newpolka/pk_approximate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/newpolka/pk_approximate.c b/newpolka/pk_approximate.c
index 8fe5ff4..67c4597 100644
--- a/newpolka/pk_approximate.c
+++ b/newpolka/pk_approximate.c
@@ -304,6 +304,8 @@ bool pk_matrix_approximate_constraint_1x(pk_internal_t* pk, pk_matrix_t* C, pk_m
 	/* C. Compute new constant coefficient */
 	numint_set_int(vec[0],1);
 	numint_set_int(vec[polka_cst],0);
+	/* the new bound may be attained */
+	if (pk->strict) numint_set_int(vec[polka_eps],0);
 	pk_matrix_bound_vector(pk,itv,vec,F);
 	finite = !bound_infty(itv->inf);
 	if (finite){
@@ -336,6 +338,7 @@ bool pk_matrix_approximate_constraint_1x(pk_internal_t* pk, pk_matrix_t* C, pk_m
 	  /* G. Compute new constant coefficient */
 	  numint_set_int(vec[0],1);
 	  numint_set_int(vec[polka_cst],0);
+	  if (pk->strict) numint_set_int(vec[polka_eps],0);
 	  pk_matrix_bound_vector(pk,itv,vec,F);
 	  finite = !bound_infty(itv->inf);
 	  if (finite){
-- 
2.43.0


From cb569dad18382d09804b517c21c4ff88e906645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 27/86] fix: missing declaration for the previous repair of
 interval assignments

---
 box/box_assign.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/box/box_assign.c b/box/box_assign.c
index 3105a08..1aab37e 100644
--- a/box/box_assign.c
+++ b/box/box_assign.c
@@ -7,6 +7,7 @@
 
 #include "box_internal.h"
 #include "box_constructor.h"
+#include "box_representation.h"
 #include "box_assign.h"
 
 #include "ap_generic.h"
-- 
2.43.0


From be918c97e82f84867a05e0f2d3ab78f4d1770416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 28/86] fix: ap_coeff_equal_int answered the contrary

---
 apron/ap_coeff.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apron/ap_coeff.c b/apron/ap_coeff.c
index 001c055..bcc2d8e 100644
--- a/apron/ap_coeff.c
+++ b/apron/ap_coeff.c
@@ -312,9 +312,9 @@ bool ap_coeff_equal_int(ap_coeff_t* coeff, int i)
 {
   switch (coeff->discr){
   case AP_COEFF_SCALAR:
-    return ap_scalar_equal_int(coeff->val.scalar,i)==0;
+    return ap_scalar_equal_int(coeff->val.scalar,i);
   case AP_COEFF_INTERVAL:
-    return (ap_scalar_equal_int(coeff->val.interval->inf,i)==0) && (ap_scalar_equal_int(coeff->val.interval->sup,i)==0);
+    return ap_scalar_equal_int(coeff->val.interval->inf,i) && ap_scalar_equal_int(coeff->val.interval->sup,i);
   default:
     abort();
   }
-- 
2.43.0


From f9c91c9303d9b640b87f44aebfd61c1edb01f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 29/86] fix: ap_lincons0_array_type always answered that the
 constraints are linear

---
 apron/ap_lincons0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_lincons0.c b/apron/ap_lincons0.c
index 89a1d14..d6104b9 100644
--- a/apron/ap_lincons0.c
+++ b/apron/ap_lincons0.c
@@ -244,7 +244,7 @@ ap_linexpr_type_t ap_lincons0_array_type(ap_lincons0_array_t* array)
   for (i=0; i<array->size; i++){
     ap_linexpr_type_t type = ap_linexpr0_type(array->p[i].linexpr0);
     if (type < res)
-      type = res;
+      res = type;
     if (res==AP_LINEXPR_INTLINEAR)
       break;
   }
-- 
2.43.0


From 38caf31416705d379d2eaa9b537a7daa7ae80219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 30/86] fix: ap_linexpr0_compare lost the sign of the
 comparison

---
 apron/ap_linexpr0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 11d8e35..d44fb9b 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -824,7 +824,7 @@ bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
 int ap_linexpr0_compare(ap_linexpr0_t* expr1,
 			ap_linexpr0_t* expr2)
 {
-  bool res;
+  int res;
   size_t i1,i2;
   ap_dim_t dim1,dim2;
   ap_coeff_t* coeff1;
-- 
2.43.0


From 397558af9e7e0e1aa24471e97e310bdce93fe6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 31/86] fix: quasilinearisation was given a bare value where an
 abstract value was expected

---
 apron/ap_abstract1.c     |  3 ++-
 apron/ap_linearize.c     | 40 ++++++++++++++++++++++++++--------------
 apron/ap_linearize_aux.c |  7 +++++--
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 4a5ed33..37f4fe3 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -1460,6 +1460,7 @@ ap_linexpr1_t ap_abstract1_quasilinear_of_intlinear (ap_manager_t* man, ap_abstr
     linexpr0 = ap_linexpr0_add_dimensions(expr->linexpr0,dimchange);
   }
   res.linexpr0 = ap_quasilinearize_linexpr0(man,a->abstract0->value,linexpr0,&exact,discr);
+  if (res.linexpr0==linexpr0) res.linexpr0 = ap_linexpr0_copy(linexpr0);
   res.env = ap_environment_copy(a->env);
   if (dimchange){
     ap_dimchange_free(dimchange);
@@ -1499,7 +1500,7 @@ ap_linexpr1_t ap_abstract1_intlinear_of_tree(ap_manager_t* man, ap_abstract1_t*
     }
     texpr0 = ap_texpr0_add_dimensions(expr->texpr0,dimchange);
   }
-  res.linexpr0 = ap_intlinearize_texpr0(man,a->abstract0->value,texpr0,&exact,discr,quasilinearize);
+  res.linexpr0 = ap_intlinearize_texpr0(man,a->abstract0,texpr0,&exact,discr,quasilinearize);
   res.env = ap_environment_copy(a->env);
   if (dimchange){
     ap_dimchange_free(dimchange);
diff --git a/apron/ap_linearize.c b/apron/ap_linearize.c
index 2ce2dd3..40513fd 100644
--- a/apron/ap_linearize.c
+++ b/apron/ap_linearize.c
@@ -75,13 +75,16 @@ ap_linexpr0_t* ap_quasilinearize_linexpr0(ap_manager_t* man,
     return linexpr0;
   }
   else {
+    ap_abstract0_t a0;
+    a0.value = abs;
+    a0.man = man;
     switch (discr){
     case AP_SCALAR_MPQ:
-      return ap_quasilinearize_linexpr0_MPQ(man,abs,linexpr0,pexact);
+      return ap_quasilinearize_linexpr0_MPQ(man,&a0,linexpr0,pexact);
     case AP_SCALAR_DOUBLE:
-      return ap_quasilinearize_linexpr0_D(man,abs,linexpr0,pexact);
+      return ap_quasilinearize_linexpr0_D(man,&a0,linexpr0,pexact);
     case AP_SCALAR_MPFR:
-      return ap_quasilinearize_linexpr0_MPFR(man,abs,linexpr0,pexact);
+      return ap_quasilinearize_linexpr0_MPFR(man,&a0,linexpr0,pexact);
     default:
       abort();
     }
@@ -100,13 +103,16 @@ ap_lincons0_t ap_quasilinearize_lincons0(ap_manager_t* man,
     return *lincons0;
   }
   else {
+    ap_abstract0_t a0;
+    a0.value = abs;
+    a0.man = man;
     switch (discr){
     case AP_SCALAR_MPQ:
-      return ap_quasilinearize_lincons0_MPQ(man,abs,lincons0,pexact,meet);
+      return ap_quasilinearize_lincons0_MPQ(man,&a0,lincons0,pexact,meet);
     case AP_SCALAR_DOUBLE:
-      return ap_quasilinearize_lincons0_D(man,abs,lincons0,pexact,meet);
+      return ap_quasilinearize_lincons0_D(man,&a0,lincons0,pexact,meet);
     case AP_SCALAR_MPFR:
-      return ap_quasilinearize_lincons0_MPFR(man,abs,lincons0,pexact,meet);
+      return ap_quasilinearize_lincons0_MPFR(man,&a0,lincons0,pexact,meet);
     default:
       abort();
     }
@@ -126,13 +132,16 @@ ap_quasilinearize_linexpr0_array(ap_manager_t* man,
     return texpr;
   }
   else {
+    ap_abstract0_t a0;
+    a0.value = abs;
+    a0.man = man;
     switch (discr){
     case AP_SCALAR_MPQ:
-      return ap_quasilinearize_linexpr0_array_MPQ(man,abs,texpr,size,pexact);
+      return ap_quasilinearize_linexpr0_array_MPQ(man,&a0,texpr,size,pexact);
     case AP_SCALAR_DOUBLE:
-      return ap_quasilinearize_linexpr0_array_D(man,abs,texpr,size,pexact);
+      return ap_quasilinearize_linexpr0_array_D(man,&a0,texpr,size,pexact);
     case AP_SCALAR_MPFR:
-      return ap_quasilinearize_linexpr0_array_MPFR(man,abs,texpr,size,pexact);
+      return ap_quasilinearize_linexpr0_array_MPFR(man,&a0,texpr,size,pexact);
     default:
       abort();
     }
@@ -149,19 +158,22 @@ ap_quasilinearize_lincons0_array(ap_manager_t* man,
 				 bool meet)
 {
   ap_linexpr_type_t type = ap_lincons0_array_type(array);
-  if ((linearize && type==AP_LINEXPR_LINEAR) ||
-      type==AP_LINEXPR_QUASILINEAR){
+  if (type==AP_LINEXPR_LINEAR ||
+      (!linearize && type==AP_LINEXPR_QUASILINEAR)){
     *pexact = true;
     return *array;
   }
   else {
+    ap_abstract0_t a0;
+    a0.value = abs;
+    a0.man = man;
     switch (discr){
     case AP_SCALAR_MPQ:
-      return ap_quasilinearize_lincons0_array_MPQ(man,abs,array,pexact,linearize,meet);
+      return ap_quasilinearize_lincons0_array_MPQ(man,&a0,array,pexact,linearize,meet);
     case AP_SCALAR_DOUBLE:
-      return ap_quasilinearize_lincons0_array_D(man,abs,array,pexact,linearize,meet);
+      return ap_quasilinearize_lincons0_array_D(man,&a0,array,pexact,linearize,meet);
     case AP_SCALAR_MPFR:
-      return ap_quasilinearize_lincons0_array_MPFR(man,abs,array,pexact,linearize,meet);
+      return ap_quasilinearize_lincons0_array_MPFR(man,&a0,array,pexact,linearize,meet);
     default:
       abort();
     }
diff --git a/apron/ap_linearize_aux.c b/apron/ap_linearize_aux.c
index 0e7e2e7..4a953ba 100644
--- a/apron/ap_linearize_aux.c
+++ b/apron/ap_linearize_aux.c
@@ -231,15 +231,18 @@ ITVFUN(ap_quasilinearize_lincons0_array)(ap_manager_t* man,
   exact = quasilinearize_alloc(man,abs,&intern,&lincons,&env,&dim);
   itv_lincons_array_init(&tlincons,array->size);
   exact = itv_lincons_array_set_ap_lincons0_array(intern,&tlincons,array) && exact;
-  exact = itv_quasilinearize_lincons_array(intern,&tlincons,env,meet);
-  if (linearize) 
+  exact = itv_quasilinearize_lincons_array(intern,&tlincons,env,meet) && exact;
+  if (linearize){
     itv_linearize_lincons_array(intern,&tlincons,meet);
+    exact = false;
+  }
   res = ap_lincons0_array_make(tlincons.size);
   for (i=0;i<tlincons.size;i++){
     ap_lincons0_set_itv_lincons(intern,&res.p[i],&tlincons.p[i]);
   }
   itv_lincons_array_clear(&tlincons);
   quasilinearize_free(intern,&lincons,env,dim);
+  *pexact = exact;
   return res;
 }
 
-- 
2.43.0


From b9e5bc7a1c68a5685c325db7a73c55ae7113e821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 32/86] fix: ap_intlinearize_texpr0_intlinear used an
 uninitialised result and freed memory

---
 apron/ap_linearize_aux.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apron/ap_linearize_aux.c b/apron/ap_linearize_aux.c
index 4a953ba..1ccae56 100644
--- a/apron/ap_linearize_aux.c
+++ b/apron/ap_linearize_aux.c
@@ -297,19 +297,20 @@ ITVFUN(ap_intlinearize_texpr0_intlinear)(ap_manager_t* man,
 {
   bool exc;
   itv_internal_t* intern;
-  ap_linexpr0_t* res;
+  ap_linexpr0_t* res = NULL;
   itv_linexpr_t linexpr;
 
   intern = itv_internal_alloc();
   itv_linexpr_init(&linexpr,0);
   exc = itv_intlinearize_ap_texpr0_intlinear(intern,&linexpr,expr);
-  itv_internal_free(intern);
   if (exc){
     itv_linexpr_clear(&linexpr);
+    itv_internal_free(intern);
     return NULL;
   }
   ap_linexpr0_set_itv_linexpr(intern,&res,&linexpr);
   itv_linexpr_clear(&linexpr);
+  itv_internal_free(intern);
   return res;
 }
 
-- 
2.43.0


From 34d66697c5664fd7454955b97ccb5d1ea93dab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 33/86] fix: ap_linexpr0_equal and ap_linexpr0_compare
 dereferenced NULL on unused sparse slots

---
 apron/ap_linexpr0.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index d44fb9b..92434c1 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -805,6 +805,10 @@ bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
       dim2 = AP_DIM_MAX;
       coeff2 = NULL;
     }
+    if (dim1==AP_DIM_MAX && dim2==AP_DIM_MAX){
+      /* only unused slots of sparse expressions are left */
+      break;
+    }
     if (dim1==dim2){
       i1++; i2++;
       res = ap_coeff_equal(coeff1,coeff2);
@@ -860,6 +864,10 @@ int ap_linexpr0_compare(ap_linexpr0_t* expr1,
       dim2 = AP_DIM_MAX;
       coeff2 = NULL;
     }
+    if (dim1==AP_DIM_MAX && dim2==AP_DIM_MAX){
+      /* only unused slots of sparse expressions are left */
+      break;
+    }
     if (dim1==dim2){
       i1++; i2++;
       res = ap_coeff_cmp(coeff1,coeff2);
-- 
2.43.0


From b549694aa2781b0a58732660e7e6b1152c7967ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 34/86] fix: ap_scalar_hash divided by zero on some rationals
 and depended on the type of the scalar

---
 apron/ap_scalar.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index 5f1ed9d..2ea432d 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -460,16 +460,26 @@ long ap_scalar_hash(ap_scalar_t* a)
   if (infty<0) return LONG_MIN;
   else if (infty>0) return LONG_MAX;
   else {
+    /* truncated integer value, the same one whatever the type of scalar */
+    mpz_t z;
+    long res;
+    mpz_init(z);
     switch (a->discr){
     case AP_SCALAR_MPQ:
-      return mpz_get_si(mpq_numref(a->val.mpq))/mpz_get_ui(mpq_denref(a->val.mpq));
+      mpz_tdiv_q(z,mpq_numref(a->val.mpq),mpq_denref(a->val.mpq));
+      break;
     case AP_SCALAR_DOUBLE:
-      return (int)(a->val.dbl);
+      if (!isnan(a->val.dbl)) mpz_set_d(z,a->val.dbl);
+      break;
     case AP_SCALAR_MPFR:
-      return mpfr_get_si(a->val.mpfr,GMP_RNDU); /* XXX improve this */
+      if (!mpfr_nan_p(a->val.mpfr)) mpfr_get_z(z,a->val.mpfr,GMP_RNDZ);
+      break;
     default:
       abort();
     }
+    res = mpz_get_si(z);
+    mpz_clear(z);
+    return res;
   }
 }
 
-- 
2.43.0


From 7a45959079f71b12b1bcb62088309f7b53ab4392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 35/86] fix: ap_linexpr0_hash modified sparse expressions and
 differed on equal expressions

---
 apron/ap_linexpr0.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 92434c1..e308db9 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -749,23 +749,21 @@ ap_linexpr0_permute_dimensions_with(ap_linexpr0_t* expr,
 
 long ap_linexpr0_hash(ap_linexpr0_t* expr)
 {
-  if (expr->size==0){
-    return ap_coeff_hash(&expr->cst);
-  }
-  else {
-    ap_coeff_t* pcoeff;
-    size_t i,dec;
-    long res,res1;
-    res = expr->size << 8;
-    dec = 0;
-    for (i=0; i<expr->size; i += (expr->size+7)/8){
-      pcoeff = ap_linexpr0_coeffref(expr,i);
-      res1 = (pcoeff==NULL) ? 0 : ap_coeff_hash(pcoeff);
-      res += res1<<dec;
-      dec++;
-    }
-    return res;
+  /* only the non-zero coefficients count, so that equal expressions have the
+     same hash code, be they dense or sparse */
+  size_t i;
+  ap_dim_t dim;
+  ap_coeff_t* coeff;
+  unsigned long res;
+
+  ap_coeff_reduce(&expr->cst);
+  res = ap_coeff_hash(&expr->cst);
+  ap_linexpr0_ForeachLinterm(expr,i,dim,coeff){
+    ap_coeff_reduce(coeff);
+    if (!ap_coeff_zero(coeff))
+      res += (2*(unsigned long)dim+3) * ((unsigned long)ap_coeff_hash(coeff)+17);
   }
+  return (long)res;
 }
 bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
 		       ap_linexpr0_t* expr2)
-- 
2.43.0


From 8762feab196adf81e59f1bd65f4fcf973749117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 36/86] fix: ap_linexpr0_add_dimensions_with misplaced the
 coefficients of a short dense expression

---
 apron/ap_linexpr0.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index e308db9..2b4f4df 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -666,8 +666,11 @@ ap_linexpr0_add_dimensions_with(ap_linexpr0_t* expr,
       int i,k;
       size_t size,dimsup;
 
-      size = expr->size;
       dimsup = dimchange->intdim+dimchange->realdim;
+      /* the positions of insertion may be beyond the size of the expression */
+      if (dimsup>0 && expr->size<dimchange->dim[dimsup-1])
+	ap_linexpr0_realloc(expr,dimchange->dim[dimsup-1]);
+      size = expr->size;
       ap_linexpr0_realloc(expr,
 			  size+dimsup);
       k = dimsup;
-- 
2.43.0


From 1914c41e8dee5a1feba3c6fb686b3774a9bd3975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 37/86] fix: ap_scalar_set_infty made an infinity of sign zero
 out of an MPFR scalar

---
 apron/ap_scalar.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index 2ea432d..52a2de2 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -176,7 +176,8 @@ void ap_scalar_set_infty(ap_scalar_t* scalar, int sgn)
     scalar->val.dbl = sgn>0 ? (double)1.0/(double)0.0 : (sgn < 0 ? -(double)1.0/(double)0.0 : 0.0);
     break;
   case AP_SCALAR_MPFR:
-    mpfr_set_inf(scalar->val.mpfr,sgn);
+    if (sgn) mpfr_set_inf(scalar->val.mpfr,sgn);
+    else mpfr_set_ui(scalar->val.mpfr,0,GMP_RNDU);
     break;
   default:
     abort();
-- 
2.43.0


From da07f3028f737fafe9b8bde5aa7e65b857670287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 38/86] fix: ap_scalar_cmp returned other values than -1, 0 and
 1

---
 apron/ap_scalar.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index 52a2de2..4b411a6 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -284,6 +284,11 @@ int ap_scalar_infty(ap_scalar_t* scalar)
   }
 }
 
+static inline int sign_of_int(int x)
+{
+  return x > 0 ? 1 : (x < 0 ? -1 : 0);
+}
+
 int ap_scalar_cmp(ap_scalar_t* a, ap_scalar_t* b)
 {
   int s1 = ap_scalar_infty(a);
@@ -298,7 +303,7 @@ int ap_scalar_cmp(ap_scalar_t* a, ap_scalar_t* b)
   else if (a->discr == b->discr) {
     switch (a->discr){
     case AP_SCALAR_MPQ:
-      return mpq_cmp(a->val.mpq,b->val.mpq);
+      return sign_of_int(mpq_cmp(a->val.mpq,b->val.mpq));
     case AP_SCALAR_DOUBLE:
       return 
 	a->val.dbl > b->val.dbl ?
@@ -307,7 +312,7 @@ int ap_scalar_cmp(ap_scalar_t* a, ap_scalar_t* b)
 	-1 :
 	0);
     case AP_SCALAR_MPFR:
-      return mpfr_cmp(a->val.mpfr,b->val.mpfr);
+      return sign_of_int(mpfr_cmp(a->val.mpfr,b->val.mpfr));
     default:
       abort();
     }
@@ -316,13 +321,13 @@ int ap_scalar_cmp(ap_scalar_t* a, ap_scalar_t* b)
     switch (a->discr) {
     case AP_SCALAR_MPFR:
       switch (b->discr) {
-      case AP_SCALAR_MPQ:    return mpfr_cmp_q(a->val.mpfr,b->val.mpq);
-      case AP_SCALAR_DOUBLE: return mpfr_cmp_d(a->val.mpfr,b->val.dbl);
+      case AP_SCALAR_MPQ:    return sign_of_int(mpfr_cmp_q(a->val.mpfr,b->val.mpq));
+      case AP_SCALAR_DOUBLE: return sign_of_int(mpfr_cmp_d(a->val.mpfr,b->val.dbl));
       default:               abort();
       }
       break;
-    case AP_SCALAR_MPQ:    return -mpfr_cmp_q(b->val.mpfr,a->val.mpq);
-    case AP_SCALAR_DOUBLE: return -mpfr_cmp_d(b->val.mpfr,a->val.dbl);
+    case AP_SCALAR_MPQ:    return -sign_of_int(mpfr_cmp_q(b->val.mpfr,a->val.mpq));
+    case AP_SCALAR_DOUBLE: return -sign_of_int(mpfr_cmp_d(b->val.mpfr,a->val.dbl));
     default:               abort();
     }
   }
@@ -340,7 +345,7 @@ int ap_scalar_cmp(ap_scalar_t* a, ap_scalar_t* b)
       res = mpq_cmp(a->val.mpq,mpq);
     }
     mpq_clear(mpq);
-    return res;
+    return sign_of_int(res);
   }
 }
 int ap_scalar_cmp_int(ap_scalar_t* a, int b)
@@ -356,9 +361,9 @@ int ap_scalar_cmp_int(ap_scalar_t* a, int b)
     case AP_SCALAR_DOUBLE:
       return a->val.dbl > b ? 1 : (a->val.dbl < b ? (-1) : 0);
     case AP_SCALAR_MPQ:
-      return mpq_cmp_si(a->val.mpq,b,1);  
+      return sign_of_int(mpq_cmp_si(a->val.mpq,b,1));
     case AP_SCALAR_MPFR:
-      return mpfr_cmp_si(a->val.mpfr,b);
+      return sign_of_int(mpfr_cmp_si(a->val.mpfr,b));
     default:
       abort();
     }
-- 
2.43.0


From 40f8c5edb2b74bf9c290fd3c17e21dcc0cde853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 39/86] fix: ap_double_set_scalar reported rounding in the
 wrong direction

---
 apron/ap_scalar.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index 4b411a6..47b969e 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -228,7 +228,8 @@ int ap_double_set_scalar(double* k, ap_scalar_t* scalar, mp_rnd_t round)
       mpfr_t mpfr;
       mpfr_init2(mpfr,53);
       int res = mpfr_set_q(mpfr,scalar->val.mpq,round);
-      *k = mpfr_get_d(mpfr,round); /* normally, exact */
+      *k = mpfr_get_d(mpfr,round); /* exact, unless out of the range of doubles */
+      if (mpfr_cmp_d(mpfr,*k)) res = -mpfr_cmp_d(mpfr,*k);
       mpfr_clear(mpfr);
       return res;
     }
@@ -237,7 +238,7 @@ int ap_double_set_scalar(double* k, ap_scalar_t* scalar, mp_rnd_t round)
     return 0;
   case AP_SCALAR_MPFR:
     *k = mpfr_get_d(scalar->val.mpfr,round);
-    return mpfr_cmp_d(scalar->val.mpfr,*k);
+    return -mpfr_cmp_d(scalar->val.mpfr,*k);
   default:
     abort();
   }
-- 
2.43.0


From 6c0a58e156fe71eec00145f58e7ad6ccb817ff35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 40/86] fix: congruences whose modulo is not representable were
 taken with a rounded modulo

---
 itv/itv_linearize.c | 28 ++++------------------------
 itv/itv_linexpr.c   | 26 ++++++++++++++++++--------
 itv/itv_linexpr.h   |  8 ++++++++
 3 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index bc51b33..b0a987c 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -1015,12 +1015,7 @@ ITVFUN(itv_intlinearize_ap_tcons0_intlinear)(itv_internal_t* intern,
   }
   else {
     res->constyp = cons->constyp;
-    if (cons->scalar){
-      num_set_ap_scalar(res->num,cons->scalar);
-    }
-    else {
-      num_set_int(res->num,0);
-    }
+    itv_lincons_set_ap_modulo(res,cons->scalar);
   }
   return exc;
 }
@@ -1038,12 +1033,7 @@ ITVFUN(itv_intlinearize_ap_tcons0_array_intlinear)(itv_internal_t* intern,
   for (i=0; i<array->size;i++){
     bool exc = itv_intlinearize_ap_texpr0_intlinear(intern,&res->p[i].linexpr,array->p[i].texpr0);
     res->p[i].constyp = array->p[i].constyp;
-    if (array->p[i].scalar){
-      num_set_ap_scalar(res->p[i].num,array->p[i].scalar);
-    }
-    else {
-      num_set_int(res->p[i].num,0);
-    }
+    itv_lincons_set_ap_modulo(&res->p[i],array->p[i].scalar);
     if (exc){
       itv_lincons_array_reinit(res,1);
       itv_lincons_set_bool(&res->p[0],false);
@@ -1569,12 +1559,7 @@ ITVFUN(itv_intlinearize_ap_tcons0)(itv_internal_t* intern,
       res->linexpr.equality = itv_is_point(intern,res->linexpr.cst);
     }
     res->constyp = cons->constyp;
-    if (cons->scalar){
-      num_set_ap_scalar(res->num,cons->scalar);
-    }
-    else {
-      num_set_int(res->num,0);
-    }
+    itv_lincons_set_ap_modulo(res,cons->scalar);
     exc = false;
   }
   else {
@@ -1604,12 +1589,7 @@ ITVFUN(itv_intlinearize_ap_tcons0_array)(itv_internal_t* intern,
     itv_intlinearize_texpr0_rec(intern,array->p[i].texpr0,
 				env,intdim,&res->p[i].linexpr,itv);
     res->p[i].constyp = array->p[i].constyp;
-    if (array->p[i].scalar){
-      num_set_ap_scalar(res->p[i].num,array->p[i].scalar);
-    }
-    else {
-      num_set_int(res->p[i].num,0);
-    }
+    itv_lincons_set_ap_modulo(&res->p[i],array->p[i].scalar);
 
     /* checks that the constraint is satisfiable */
     switch (array->p[i].constyp){
diff --git a/itv/itv_linexpr.c b/itv/itv_linexpr.c
index ee202c4..6e17984 100644
--- a/itv/itv_linexpr.c
+++ b/itv/itv_linexpr.c
@@ -217,6 +217,23 @@ bool ITVFUN(itv_linexpr_set_ap_linexpr0)(itv_internal_t* intern,
   return res;
 }
 
+bool ITVFUN(itv_lincons_set_ap_modulo)(itv_lincons_t* cons,
+				       ap_scalar_t* scalar)
+{
+  bool exact = true;
+  if (scalar){
+    exact = num_set_ap_scalar(cons->num,scalar);
+    if (!exact && cons->constyp==AP_CONS_EQMOD){
+      itv_set_top(cons->linexpr.cst);
+      cons->linexpr.equality = false;
+    }
+  }
+  else {
+    num_set_int(cons->num,0);
+  }
+  return exact;
+}
+
 bool ITVFUN(itv_lincons_set_ap_lincons0)(itv_internal_t* intern,
 					 itv_lincons_t* cons,
 					 ap_lincons0_t* lincons0)
@@ -225,14 +242,7 @@ bool ITVFUN(itv_lincons_set_ap_lincons0)(itv_internal_t* intern,
 					    &cons->linexpr,
 					    lincons0->linexpr0);
   cons->constyp = lincons0->constyp;
-  if (lincons0->scalar){
-    bool exact2 = num_set_ap_scalar(cons->num,lincons0->scalar);
-    return exact1 && exact2;
-  }
-  else {
-    num_set_int(cons->num,0);
-    return exact1;
-  }
+  return itv_lincons_set_ap_modulo(cons,lincons0->scalar) && exact1;
 }
 
 bool ITVFUN(itv_lincons_array_set_ap_lincons0_array)(itv_internal_t* intern,
diff --git a/itv/itv_linexpr.h b/itv/itv_linexpr.h
index f250a6e..d08216f 100644
--- a/itv/itv_linexpr.h
+++ b/itv/itv_linexpr.h
@@ -89,6 +89,11 @@ static inline void itv_linexpr_print(itv_linexpr_t* expr, char** name);
 static inline void itv_lincons_init(itv_lincons_t* cons);
 static inline void itv_lincons_set(itv_lincons_t* res, itv_lincons_t* expr);
 static inline void itv_lincons_set_bool(itv_lincons_t* res, bool value);
+static inline bool itv_lincons_set_ap_modulo(itv_lincons_t* res, ap_scalar_t* scalar);
+  /* Set the modulo of a constraint (0 if scalar is NULL), the expression being
+     already set. Returns false if the modulo is not representable; the
+     constant of a congruence is then set to top, as the constraint does not tell
+     anything any more. */
 static inline void itv_lincons_clear(itv_lincons_t* cons);
 static inline void itv_lincons_fprint(FILE* stream, itv_lincons_t* cons, char** name);
 static inline void itv_lincons_print(itv_lincons_t* cons, char** name);
@@ -232,6 +237,7 @@ void ITVFUN(itv_linexpr_reinit)(itv_linexpr_t* expr, size_t size);
 void ITVFUN(itv_linexpr_clear)(itv_linexpr_t* expr);
 void ITVFUN(itv_linexpr_fprint)(FILE* stream, itv_linexpr_t* expr, char** name);
 void ITVFUN(itv_linexpr_print)(itv_linexpr_t* expr, char** name);
+bool ITVFUN(itv_lincons_set_ap_modulo)(itv_lincons_t* cons, ap_scalar_t* scalar);
 void ITVFUN(itv_lincons_set_bool)(itv_lincons_t* cons, bool value);
 void ITVFUN(itv_lincons_fprint)(FILE* stream, itv_lincons_t* cons, char** name);
 void ITVFUN(itv_lincons_print)(itv_lincons_t* cons, char** name);
@@ -305,6 +311,8 @@ static inline void itv_lincons_set(itv_lincons_t* a, itv_lincons_t* b)
 { if (a!=b){ itv_linexpr_set(&a->linexpr,&b->linexpr); num_set(a->num,b->num); a->constyp = b->constyp; } }
 static inline void itv_lincons_set_bool(itv_lincons_t* a, bool value)
 { ITVFUN(itv_lincons_set_bool)(a,value); }
+static inline bool itv_lincons_set_ap_modulo(itv_lincons_t* a, ap_scalar_t* b)
+{ return ITVFUN(itv_lincons_set_ap_modulo)(a,b); }
 static inline void itv_lincons_clear(itv_lincons_t* cons)
 { itv_linexpr_clear(&cons->linexpr); num_clear(cons->num); }
 
-- 
2.43.0


From 183286a8f631343cc0620358b400133d0a5042fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 41/86] fix: box assignment of an expression without value left
 a box with an empty dimension

---
 box/box_assign.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/box/box_assign.c b/box/box_assign.c
index 1aab37e..a51b62f 100644
--- a/box/box_assign.c
+++ b/box/box_assign.c
@@ -86,6 +86,8 @@ box_t* box_assign_texpr(ap_manager_t* man,
     return res;
   }
   itv_eval_ap_texpr0(intern->itv,res->p[dim],texpr,a->p);
+  if (itv_is_bottom(intern->itv,res->p[dim]))
+    box_set_bottom(res); /* the expression has no value */
   if (dest)
     res = box_meet(man,true,res,dest);
   man->result.flag_best = false;
@@ -102,6 +104,7 @@ box_t* box_assign_texpr_array(ap_manager_t* man,
 			      box_t* dest)
 {
   size_t i;
+  bool empty = false;
   box_t* res;
   box_internal_t* intern = man->internal;
   
@@ -115,14 +118,18 @@ box_t* box_assign_texpr_array(ap_manager_t* man,
   if (size==1){
     res = destructive ? a : box_copy(man,a);
     itv_eval_ap_texpr0(intern->itv,res->p[tdim[0]],texpr[0],a->p);
+    empty = itv_is_bottom(intern->itv,res->p[tdim[0]]);
   }
   else {
     res = box_copy(man,a);
     for (i=0;i<size;i++){
       itv_eval_ap_texpr0(intern->itv,res->p[tdim[i]],texpr[i],a->p);
+      empty = itv_is_bottom(intern->itv,res->p[tdim[i]]) || empty;
     }
     if (destructive) box_free(man,a);
   }
+  if (empty)
+    box_set_bottom(res); /* an expression has no value */
   if (dest)
     res = box_meet(man,true,res,dest);
   man->result.flag_best = false;
-- 
2.43.0


From 1c1857f3f56f70ec1793eb749ef7ad29cac294f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 42/86] fix: PPL wrapper hashed equal values differently; grids
 with integer dimensions were never top nor unconstrained

---
 ppl/ppl_grid.cc | 18 ++++++++++--------
 ppl/ppl_poly.cc |  3 ++-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index 446bcd1..f78acaf 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -266,7 +266,8 @@ int ap_ppl_grid_hash(ap_manager_t* man, PPL_Grid* a)
 #else
     (void)a->p->minimized_generators();
 #endif
-    return a->p->total_memory_in_bytes();
+    /* must be equal on equal values, which the memory footprint is not */
+    return a->p->hash_code();
   }
   CATCH_WITH_VAL(AP_FUNID_HASH,0);
 }
@@ -439,7 +440,9 @@ bool ap_ppl_grid_is_top(ap_manager_t* man, PPL_Grid* a)
 {
   man->result.flag_exact = man->result.flag_best = true;
   try {
-    return a->p->is_universe();
+    /* the integer dimensions carry mod 1 congruences */
+    PPL_Grid top(a->intdim,a->p->space_dimension()-a->intdim,UNIVERSE);
+    return a->p->contains(*top.p);
   }
   CATCH_WITH_VAL(AP_FUNID_IS_TOP,false);
 }
@@ -575,12 +578,11 @@ bool ap_ppl_grid_is_dimension_unconstrained(ap_manager_t* man,
 {
   man->result.flag_exact = man->result.flag_best = true;
   try {
-#ifndef PPL_0_9
-    Grid_Generator g = Grid_Generator::grid_line(Variable(dim));
-#else
-    Grid_Generator g = Grid_Generator::line(Variable(dim));
-#endif
-    return a->p->relation_with(g) == Poly_Gen_Relation::subsumes();
+    if (a->p->is_empty()) return false;
+    /* an integer dimension is only unconstrained up to integers */
+    PPL_Grid r(*a);
+    r.forget_dim(dim);
+    return a->p->contains(*r.p);
   }
   CATCH_WITH_VAL(AP_FUNID_IS_DIMENSION_UNCONSTRAINED,false);
 }
diff --git a/ppl/ppl_poly.cc b/ppl/ppl_poly.cc
index c63ebd7..ff7672f 100644
--- a/ppl/ppl_poly.cc
+++ b/ppl/ppl_poly.cc
@@ -235,7 +235,8 @@ int ap_ppl_poly_hash(ap_manager_t* man, PPL_Poly* a)
   man->result.flag_exact = man->result.flag_best = true;
   try {
     (void)a->p->minimized_constraints();
-    return a->p->total_memory_in_bytes();
+    /* must be equal on equal values, which the memory footprint is not */
+    return a->p->hash_code();
   }
   CATCH_WITH_VAL(AP_FUNID_HASH,0);
 }
-- 
2.43.0


From 32207b04e8c7ccefbdb555d099fe7d253fbe1075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 43/86] fix: integer equalities without solution were rounded
 to other equalities

---
 itv/itv_linexpr.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/itv/itv_linexpr.c b/itv/itv_linexpr.c
index 6e17984..672ae23 100644
--- a/itv/itv_linexpr.c
+++ b/itv/itv_linexpr.c
@@ -798,18 +798,15 @@ void ITVFUN(itv_lincons_reduce_integer)(itv_internal_t* intern,
   }
   if (cons->constyp == AP_CONS_EQ){
     if (!bound_infty(expr->cst->inf)){
-      if (expr->equality){
-	bound_neg(expr->cst->inf,
-		  expr->cst->sup);
-      }
-      else {
-	num_floor(bound_numref(expr->cst->inf),
-		  bound_numref(expr->cst->inf));
-      }
+      num_floor(bound_numref(expr->cst->inf),
+		bound_numref(expr->cst->inf));
     }
     if (itv_is_bottom(intern,expr->cst)){
       itv_lincons_set_bool(cons,false);
     }
+    else {
+      expr->equality = itv_is_point(intern,expr->cst);
+    }
   }
   else {
     if (!bound_infty(expr->cst->sup)){
-- 
2.43.0


From cae68e04eb669c23fc891bf77f6c14e3e4651f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 44/86] fix: congruences with fractional coefficients lost part
 of their modulo in PPL grids

---
 ppl/ppl_user.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ppl/ppl_user.cc b/ppl/ppl_user.cc
index ddd7e95..40948bd 100644
--- a/ppl/ppl_user.cc
+++ b/ppl/ppl_user.cc
@@ -474,7 +474,9 @@ bool ap_ppl_of_itv_lincons(Congruence& r, mpz_class& den, itv_lincons_t* c)
     else {
       mpq_class mod;
       num_set(mod.get_mpq_t(),c->num);
-      r = ( l * mod.get_den() %= 0) / mod.get_num();
+      /* l is the expression times den */
+      mpz_class m = mod.get_num() * den;
+      r = ( l * mod.get_den() %= 0) / m;
     }
     break;
   default:
-- 
2.43.0


From 323823bc8887d3deb4f58c1608fb30507cbc2599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 45/86] fix: destructive meet crashed when minimisation finds
 its first polyhedron to be empty

---
 newpolka/pk_meetjoin.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/newpolka/pk_meetjoin.c b/newpolka/pk_meetjoin.c
index 0e3b8e1..78a6237 100644
--- a/newpolka/pk_meetjoin.c
+++ b/newpolka/pk_meetjoin.c
@@ -302,6 +302,9 @@ void poly_meet(bool meet,
 	pk->exn = AP_EXC_NONE;
 	goto _poly_meet_entry0;
       }
+      /* minimization may have found pa to be empty */
+      if (poly_meet_particularcases(meet,lazy,man,po,pa,pb))
+	return;
     }
     /* Now, pa is the start polyhedron */
     poly_obtain_satC(pa);
-- 
2.43.0


From 007b04978c73d2913fe7a845887cc9d54b400e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 46/86] fix: equal strict polyhedra could have different hashes

---
 newpolka/pk_representation.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/newpolka/pk_representation.c b/newpolka/pk_representation.c
index ec6a870..09be26c 100644
--- a/newpolka/pk_representation.c
+++ b/newpolka/pk_representation.c
@@ -368,7 +368,16 @@ int pk_hash(ap_manager_t* man, pk_t* po)
   poly_chernikova3(man,po,NULL);
   assert(poly_check(pk,po));
   res = 5*po->intdim + 7*po->realdim;
-  if (po->C!=NULL){
+  if (po->C!=NULL && pk->strict){
+    /* the coefficients of epsilon are not canonical: take only what does
+       not depend on them */
+    res += po->nbeq*11 + po->nbline*13;
+    for (i=0; i<po->nbeq; i++)
+      res = res*3 + vector_hash(pk,po->C->p[i],po->C->nbcolumns);
+    for (i=0; i<po->nbline; i++)
+      res = res*3 + vector_hash(pk,po->F->p[i],po->F->nbcolumns);
+  }
+  else if (po->C!=NULL){
     res += po->C->nbrows*11 +  po->F->nbrows*13;
     for (i=0; i<po->C->nbrows; i += (po->C->nbrows+3)/4){
       res = res*3 + vector_hash(pk,po->C->p[i],po->C->nbcolumns);
-- 
2.43.0


From b13e52d79d311eb3d16a55c1d777d8cd2df811e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 47/86] fix: HC4 refinement of boxes lost points through casts
 to integers

The backward step for a rounding to the nearest integer, or in an
unknown direction, returned [floor(a),ceil(b)], and the one for a
truncation did not extend bounds equal to zero: 2.4 was excluded from
cast_i,n(x)=2 and 0.5 from cast_i,0(x)=0.
---
 itv/itv.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/itv/itv.h b/itv/itv.h
index a51d157..3d1f2d0 100644
--- a/itv/itv.h
+++ b/itv/itv.h
@@ -616,15 +616,17 @@ static inline void itv_untrunc(itv_t a, itv_t b)
   /* trunc(x) = ceil(x) if x < 0, floor(x) if x > 0 */
   bound_floor(a->inf,b->inf);
   bound_floor(a->sup,b->sup);
-  if (bound_sgn(a->inf) > 0) bound_add_uint(a->inf,a->inf,1);
-  if (bound_sgn(a->sup) > 0) bound_add_uint(a->sup,a->sup,1);
+  if (bound_sgn(a->inf) >= 0) bound_add_uint(a->inf,a->inf,1);
+  if (bound_sgn(a->sup) >= 0) bound_add_uint(a->sup,a->sup,1);
 }
 
 static inline void itv_from_int(itv_t a, itv_t b)
 {
-  /* [a,b] -> [floor(a),ceil(b)] */
-  bound_ceil(a->sup,b->sup);
-  bound_ceil(a->inf,b->inf);
+  /* [a,b] -> [ceil(a)-1,floor(b)+1] */
+  bound_floor(a->sup,b->sup);
+  bound_floor(a->inf,b->inf);
+  bound_add_uint(a->sup,a->sup,1);
+  bound_add_uint(a->inf,a->inf,1);
 }
 
 static inline void itv_from_float(itv_t a, itv_t b)
-- 
2.43.0


From afe346323f56388b6d608fe4661c56c02a156ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:24 +0000
Subject: [PATCH 48/86] fix: HC4 refinement of boxes lost tiny points through
 float casts

A tiny non-zero number may round to zero, so a zero bound must be
extended like the others when rounding to float or double is undone.
---
 itv/itv.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/itv/itv.h b/itv/itv.h
index 3d1f2d0..f6682f4 100644
--- a/itv/itv.h
+++ b/itv/itv.h
@@ -631,19 +631,14 @@ static inline void itv_from_int(itv_t a, itv_t b)
 
 static inline void itv_from_float(itv_t a, itv_t b)
 {
-  /* special case to ensure that signs are respected */
-  if (bound_sgn(b->sup)==0) bound_set(a->sup,b->sup);
-  else bound_next_float(a->sup,b->sup);
-  if (bound_sgn(b->inf)==0) bound_set(a->inf,b->inf);
-  else bound_next_float(a->inf,b->inf);
+  bound_next_float(a->sup,b->sup);
+  bound_next_float(a->inf,b->inf);
 }
 
 static inline void itv_from_double(itv_t a, itv_t b)
 {
-  if (bound_sgn(b->sup)==0) bound_set(a->sup,b->sup);
-  else bound_next_double(a->sup,b->sup);
-  if (bound_sgn(b->inf)==0) bound_set(a->inf,b->inf);
-  else bound_next_double(a->inf,b->inf);
+  bound_next_double(a->sup,b->sup);
+  bound_next_double(a->inf,b->inf);
 }
 
 
-- 
2.43.0


From c399d73894321f03c4daaf1b5a8b3752d66a065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 49/86] fix: odd roots of negative rationals were rounded the
 wrong way

---
 num/numrat_mpq.h    | 6 +++++-
 num/numrat_native.h | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/num/numrat_mpq.h b/num/numrat_mpq.h
index 6c2be77..05d5276 100644
--- a/num/numrat_mpq.h
+++ b/num/numrat_mpq.h
@@ -187,7 +187,11 @@ static inline int numrat_pow(numrat_t up, numrat_t down, numrat_t b, unsigned lo
 static inline void numrat_root(numrat_t up, numrat_t down, numrat_t b, unsigned long int n)
 {
   numint_root(numrat_numref(up), numrat_numref(down), numrat_numref(b), n);
-  numint_root(numrat_denref(down), numrat_denref(up), numrat_denref(b), n);
+  /* the greater the denominator, the greater a negative number */
+  if (numint_sgn(numrat_numref(b))>=0)
+    numint_root(numrat_denref(down), numrat_denref(up), numrat_denref(b), n);
+  else
+    numint_root(numrat_denref(up), numrat_denref(down), numrat_denref(b), n);
   numrat_canonicalize(up);
   numrat_canonicalize(down);
 }
diff --git a/num/numrat_native.h b/num/numrat_native.h
index 7e564c0..e79d5ad 100644
--- a/num/numrat_native.h
+++ b/num/numrat_native.h
@@ -240,7 +240,11 @@ static inline int numrat_pow(numrat_t up, numrat_t down, numrat_t b, unsigned lo
 static inline void numrat_root(numrat_t up, numrat_t down, numrat_t b, unsigned long int n)
 {
   numint_root(up->n, down->n, b->n, n);
-  numint_root(down->d, up->d, b->d, n);
+  /* the greater the denominator, the greater a negative number */
+  if (numint_sgn(b->n)>=0)
+    numint_root(down->d, up->d, b->d, n);
+  else
+    numint_root(up->d, down->d, b->d, n);
   numrat_canonicalize(up);
   numrat_canonicalize(down);
 }
-- 
2.43.0


From fe713068b2fef67d4b3b7714769c0e659137704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 50/86] fix: serialized MPFR numbers lost their exponent

---
 num/numflt_mpfr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/num/numflt_mpfr.h b/num/numflt_mpfr.h
index 5ffc470..62ced03 100644
--- a/num/numflt_mpfr.h
+++ b/num/numflt_mpfr.h
@@ -312,7 +312,7 @@ static inline size_t numflt_serialize(void* dst, numflt_t src)
   assert(((unsigned)count)==count);
   assert(((int)e)==e);
   num_dump_word32((char*)dst+1,(unsigned)count);
-  num_dump_word32((char*)dst+5,(unsigned)count);
+  num_dump_word32((char*)dst+5,(unsigned)(int)e);
   return count+9;
 
 }
-- 
2.43.0


From 4f3b9ad50e48def1a7a35bbb4ea25616a42b076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 51/86] fix: bound_abs and bound_mul_2exp left the infinity
 flag of the result

---
 num/bound_def.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/num/bound_def.h b/num/bound_def.h
index 5c70b3c..93d9bca 100644
--- a/num/bound_def.h
+++ b/num/bound_def.h
@@ -237,7 +237,10 @@ static inline void bound_neg(bound_t a, bound_t b)
   else { num_neg(bound_numref(a),bound_numref(b)); _bound_inf(a); }
 }
 static inline void bound_abs(bound_t a, bound_t b)
-{ num_abs(bound_numref(a),bound_numref(b)); }
+{
+  if (bound_infty(b)) bound_set_infty(a,1);
+  else { num_abs(bound_numref(a),bound_numref(b)); _bound_inf(a); }
+}
 static inline void bound_add(bound_t a, bound_t b, bound_t c)
 {
   if (bound_infty(b)) bound_set_infty(a,bound_sgn(b));
@@ -477,7 +480,7 @@ static inline void bound_next_double(bound_t a, bound_t b)
 static inline void bound_mul_2exp(bound_t a, bound_t b, int c)
 {
   if (bound_infty(b)) bound_set_infty(a,bound_sgn(b));
-  else { num_mul_2exp(bound_numref(a),bound_numref(b),c); }
+  else { num_mul_2exp(bound_numref(a),bound_numref(b),c); _bound_inf(a); }
 }
 
 
-- 
2.43.0


From 301cdd3a6602071b5d31b44862d0af21b4bc75b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 52/86] fix: itv_snprint overwrote the upper bound

---
 itv/itv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itv/itv.c b/itv/itv.c
index 6488a14..f20c234 100644
--- a/itv/itv.c
+++ b/itv/itv.c
@@ -681,7 +681,7 @@ int ITVFUN(itv_snprint)(char* s, size_t size, itv_t a)
     num_clear(num);
   }
   count += snprintf(s+count,size-count,",");
-  bound_snprint(s+count,size-count,a->sup);
+  count += bound_snprint(s+count,size-count,a->sup);
   count += snprintf(s+count,size-count,"]");
   return count;
 }
-- 
2.43.0


From d7d5aa34e9b32439929770b68b1a60aec9b11650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 53/86] fix: inexact conversion of a point interval rounded its
 lower bound upwards

---
 itv/itv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/itv/itv.c b/itv/itv.c
index f20c234..052183f 100644
--- a/itv/itv.c
+++ b/itv/itv.c
@@ -752,8 +752,8 @@ bool ITVFUN(ap_coeff_set_itv)(itv_internal_t* intern,
       ap_coeff_reinit(a,AP_COEFF_INTERVAL,
 		      intern->ap_conversion_scalar->discr);
       ap_scalar_set(a->val.interval->sup, intern->ap_conversion_scalar);
-      bound_neg(intern->ap_conversion_bound, b->inf); /* we now it is finite */
-      ap_scalar_set_bound(a->val.interval->inf, intern->ap_conversion_bound);
+      ap_scalar_set_bound(a->val.interval->inf, b->inf); /* negated, so rounded upwards */
+      ap_scalar_neg(a->val.interval->inf, a->val.interval->inf);
       return false;
     }
   }
-- 
2.43.0


From 49f819f0c5de1d78f8a160bbbbe4c359f7dd8360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 54/86] fix: numrat_snprint printed the numerator as the
 denominator

---
 num/numrat_native.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/num/numrat_native.h b/num/numrat_native.h
index e79d5ad..1fa1b88 100644
--- a/num/numrat_native.h
+++ b/num/numrat_native.h
@@ -330,7 +330,7 @@ static inline int numrat_snprint(char* s, size_t size, numrat_t a)
   else {
     res = numint_snprint(s,size,a->n);
     res += snprintf(s+res,size-res,"/");
-    res += numint_snprint(s+res,size-res,a->n);
+    res += numint_snprint(s+res,size-res,a->d);
   }
   return res;
 }
-- 
2.43.0


From f4f43d7c5ec0c2a7b2aba0ae945eb5852bdb029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 55/86] fix: square roots of intervals in place were wrongly
 reported exact

---
 num/numflt_mpfr.h   | 10 ++++++++--
 num/numflt_native.h | 10 ++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/num/numflt_mpfr.h b/num/numflt_mpfr.h
index 62ced03..27ff040 100644
--- a/num/numflt_mpfr.h
+++ b/num/numflt_mpfr.h
@@ -110,8 +110,14 @@ static inline void numflt_trunc(numflt_t a, numflt_t b)
 { mpfr_rint_trunc(a,b,GMP_RNDU); }
 static inline void numflt_sqrt(numflt_t up, numflt_t down, numflt_t b)
 {
-  mpfr_sqrt(up,b,GMP_RNDU);
-  mpfr_sqrt(down,b,GMP_RNDD);
+  if (up==b) {
+    mpfr_sqrt(down,b,GMP_RNDD);
+    mpfr_sqrt(up,b,GMP_RNDU);
+  }
+  else {
+    mpfr_sqrt(up,b,GMP_RNDU);
+    mpfr_sqrt(down,b,GMP_RNDD);
+  }
 }
 static inline int  numflt_pow(numflt_t up, numflt_t down, numflt_t b, unsigned long int n)
 {
diff --git a/num/numflt_native.h b/num/numflt_native.h
index 50c9585..56bdba4 100644
--- a/num/numflt_native.h
+++ b/num/numflt_native.h
@@ -146,11 +146,13 @@ static inline void numflt_trunc(numflt_t a, numflt_t b)
 { *a = truncl(*b); }
 static inline void numflt_sqrt(numflt_t up, numflt_t down, numflt_t b)
 {
+  numflt_t x;
   assert(*b>=0);
-  *up = sqrtl(*b);
-  assert(*up**up>=*b); /* assumes round towards +oo! */
-  if (*up**up==*b) *down = *up;
-  else *down = nextafterl(*up,0);
+  *x = sqrtl(*b);
+  assert(*x**x>=*b); /* assumes round towards +oo! */
+  if (*x**x==*b) *down = *x;
+  else *down = nextafterl(*x,0);
+  *up = *x;
 }
 static inline void numflt_mul_2exp(numflt_t a, numflt_t b, int c)
 { *a = ldexpl(*b,c); }
-- 
2.43.0


From 8c582599c7163eb2dc8d206f29e41cdac60ff9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 56/86] fix: num_fits_int accepted doubles just above the
 greatest integer

---
 num/numflt_native.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/num/numflt_native.h b/num/numflt_native.h
index 56bdba4..b495bdf 100644
--- a/num/numflt_native.h
+++ b/num/numflt_native.h
@@ -403,7 +403,7 @@ static inline bool numflt_fits_int(numflt_t a)
 {
   numflt_native d;
   numflt_ceil(&d,a);
-  return isfinite(d) && d >= (numflt_native)(-LONG_MAX) && d<= (numflt_native)LONG_MAX;
+  return isfinite(d) && d >= (numflt_native)LONG_MIN && d < -(numflt_native)LONG_MIN;
 }
 static inline bool numflt_fits_float(numflt_t a)
 {
-- 
2.43.0


From 06191231688290d1baa8382bc3b966d62fb54b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 57/86] fix: num_fits_int accepted rationals just outside the
 range of integers

---
 num/numrat_mpq.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/num/numrat_mpq.h b/num/numrat_mpq.h
index 05d5276..144ea59 100644
--- a/num/numrat_mpq.h
+++ b/num/numrat_mpq.h
@@ -350,8 +350,13 @@ static inline bool mpfr_fits_numrat(mpfr_t a)
 { return mpfr_number_p(a); }
 static inline bool numrat_fits_int(numrat_t a)
 {
-  double d = ceil(mpq_get_d(a));
-  return (d+1.0)<=LONG_MAX && (d-1.0)>=-LONG_MAX;
+  mpz_t q;
+  bool res;
+  mpz_init(q);
+  mpz_cdiv_q(q,mpq_numref(a),mpq_denref(a));
+  res = mpz_fits_slong_p(q);
+  mpz_clear(q);
+  return res;
 }
 static inline bool numrat_fits_float(numrat_t a)
 { 
-- 
2.43.0


From c7113b8fc79f0a773b10ebc6656a04dd6aed8e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:13 +0000
Subject: [PATCH 58/86] fix: memory leaks in satmat_resize_rows and
 vector_set_linexpr_bound

---
 newpolka/pk_satmat.c | 2 +-
 newpolka/pk_user.c   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/newpolka/pk_satmat.c b/newpolka/pk_satmat.c
index 4d87e38..97a2354 100644
--- a/newpolka/pk_satmat.c
+++ b/newpolka/pk_satmat.c
@@ -65,7 +65,7 @@ void satmat_resize_rows(satmat_t* sat, size_t nbrows)
 
   if (nbrows > sat->_maxrows){
     sat->p = (bitstring_t**)realloc(sat->p, nbrows * sizeof(bitstring_t*));
-    for (i=sat->nbrows; i<nbrows; i++){
+    for (i=sat->_maxrows; i<nbrows; i++){
       sat->p[i] = bitstring_alloc(sat->nbcolumns);
     }
   }
diff --git a/newpolka/pk_user.c b/newpolka/pk_user.c
index 37da2c1..00f6c92 100644
--- a/newpolka/pk_user.c
+++ b/newpolka/pk_user.c
@@ -126,6 +126,7 @@ bool vector_set_linexpr_bound(pk_internal_t* pk,
   else {
     numint_add(vec[polka_cst],vec[polka_cst],cst);
   }
+  numint_clear(cst);
   numint_set_int(vec[0], mode ? 1 : 0);
   vector_normalize(pk,vec,size);
   if (integer) vector_normalize_constraint_int(pk,vec,intdim,realdim);
-- 
2.43.0


From 116c8eeb45cd74741089c942512536f6349197e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 59/86] fix: memory leak when intlinearizing a product of two
 non-constant expressions

---
 itv/itv_linearize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index b0a987c..c505c62 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -947,6 +947,7 @@ ap_texpr0_node_intlinearize_linear(itv_internal_t* intern,
     }
     else {
       exc = true;
+      itv_clear(i1);
       break;
     }
     if (n->op==AP_TEXPR_DIV){
-- 
2.43.0


From 95b78c0353b98505fe9ca711103c9547418c0208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 60/86] fix: projection of a polyhedron marks its generators as
 unsorted

---
 newpolka/pk_project.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newpolka/pk_project.c b/newpolka/pk_project.c
index 9da508a..ef4c352 100644
--- a/newpolka/pk_project.c
+++ b/newpolka/pk_project.c
@@ -79,6 +79,7 @@ void poly_projectforget_array(bool project,
       }
       pk_matrix_normalize_row(pk,mat,(size_t)i);
     }
+    mat->_sorted = false;
     po->status = 0;
     if (!lazy){
       poly_chernikova(man,po,"of the result");
-- 
2.43.0


From b2d514986aaf1c26f680038b0a5bc4fd47a8306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:56 +0000
Subject: [PATCH 61/86] fix: numint_size2 of the number zero with machine
 integers

---
 newpolka/pk_config.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newpolka/pk_config.h b/newpolka/pk_config.h
index e4fb2b0..13fc28b 100644
--- a/newpolka/pk_config.h
+++ b/newpolka/pk_config.h
@@ -56,7 +56,7 @@ static inline size_t numint_size(numint_t a)
 static inline size_t numint_size2(numint_t a)
 {
   numint_t x;
-  if (a==0) return 0;
+  if (*a==0) return 0;
   numint_abs(x,a);
   return (size_t)(
 		  sizeof(numint_t)*8 - 
@@ -87,7 +87,7 @@ static inline size_t numint_size2(numint_t a)
     0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
     0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0
   }    
-  if (a==0) return 0;
+  if (*a==0) return 0;
   numint_abs(x,a);
   /* Iterate over leading zero octets */
 #if defined(NUMINT_LONGINT)
-- 
2.43.0


From 5a3e64a7d27749758dcd2585f6a436409d53f99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 62/86] fix: level 0 accepted a term on dimension 0 in a space
 without dimension

---
 apron/ap_abstract0.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index a5cd333..429084a 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -243,7 +243,7 @@ ap_dim_t ap_abstract0_check_linexpr_check(ap_dimension_t dimension,
   ap_dim_t dim;
 
   nbdims = dimension.intdim+dimension.realdim;
-  dim = 0;
+  dim = AP_DIM_MAX;
   switch (expr->discr){
   case AP_LINEXPR_DENSE:
     if (expr->size > nbdims){
@@ -264,7 +264,6 @@ ap_dim_t ap_abstract0_check_linexpr_check(ap_dimension_t dimension,
 	break;
       }
     }
-    if (!dim) dim = AP_DIM_MAX;
     break;
   default:
     abort();
-- 
2.43.0


From acf94acc86c040decbd9cb69893e6f24b5d27a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 63/86] fix: check of dimchange ignored its first element and
 the type of real dimensions

---
 apron/ap_abstract0.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 429084a..ba47e12 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -465,9 +465,15 @@ bool ap_abstract0_check_ap_dimchange_add(ap_funid_t funid, ap_manager_t* man,
     }
   }
   size = dimchange->intdim+dimchange->realdim;
+  for (i=dimchange->intdim; i<size; i++){
+    if (dimchange->dim[i]<dimension.intdim){
+      res = false;
+      break;
+    }
+  }
   if (res && size>0){
     /* Check sortedness */
-    ap_dim_t dim = 0;
+    ap_dim_t dim = dimchange->dim[0];
     for (i=1; i<size; i++){
       if (dim>dimchange->dim[i]){
 	res = false;
@@ -500,9 +506,15 @@ bool ap_abstract0_check_ap_dimchange_remove(ap_funid_t funid, ap_manager_t* man,
     }
   }
   size = dimchange->intdim+dimchange->realdim;
+  for (i=dimchange->intdim; i<size; i++){
+    if (dimchange->dim[i]<dimension.intdim){
+      res = false;
+      break;
+    }
+  }
   if (res && size>0){
     /* Check sortedness */
-    ap_dim_t dim = 0;
+    ap_dim_t dim = dimchange->dim[0];
     for (i=1; i<dimchange->intdim+dimchange->realdim; i++){
       if (dim>=dimchange->dim[i]){
 	res = false;
-- 
2.43.0


From 02aeb552f433f076977633669539b5ba85afe479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 64/86] fix: dimension of the result of an invalid fold
 underflowed

---
 apron/ap_abstract0.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index ba47e12..9bda050 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -1389,9 +1389,13 @@ ap_abstract0_t* ap_abstract0_fold(ap_manager_t* man,
   else {
   _ap_abstract0_fold_exc:
     if (destructive) _ap_abstract0_free(a);
-    return ap_abstract0_top(man,
-			    dimension.intdim - ( (size>0 && tdim[0]<dimension.intdim) ? (size-1) : 0),
-			    dimension.realdim - ( (size>0 && tdim[0]<dimension.intdim) ? 0 : (size-1)));
+    if (size>1){
+      if (tdim[0]<dimension.intdim)
+	dimension.intdim = dimension.intdim>=size-1 ? dimension.intdim-(size-1) : 0;
+      else
+	dimension.realdim = dimension.realdim>=size-1 ? dimension.realdim-(size-1) : 0;
+    }
+    return ap_abstract0_top(man,dimension.intdim,dimension.realdim);
   }
 }
 /* ============================================================ */
-- 
2.43.0


From c3542eb6032fbae5c13ffec5e8bbdbed53ef8fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 65/86] fix: permutations with repeated images were accepted

---
 apron/ap_abstract0.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 9bda050..e1e62cb 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -539,13 +539,16 @@ bool ap_abstract0_check_dimperm(ap_funid_t funid, ap_manager_t* man,
   size_t i;
   size_t size = dimension.intdim+dimension.realdim;
   bool res = (dimension.intdim+dimension.realdim==perm->size);
-  if (res){
+  if (res && size>0){
+    bool* seen = calloc(size,sizeof(bool));
     for (i=0; i<perm->size; i++){
-      if (perm->dim[i]>=size){
+      if (perm->dim[i]>=size || seen[perm->dim[i]]){
 	res = false;
 	break;
       }
+      seen[perm->dim[i]] = true;
     }
+    free(seen);
   }
   if (!res){
     ap_manager_raise_exception(man,
-- 
2.43.0


From 00b8e5b9b4fefbd40c546c0102344df6fc615c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 66/86] fix: double free or leak in ap_abstract1_expand with
 already existing variables

---
 apron/ap_abstract1.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 37f4fe3..a52fed0 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -1124,9 +1124,6 @@ ap_abstract1_t ap_abstract1_expand(ap_manager_t* man,
     if (destructive) ap_abstract1_clear(man,a);
     return res;
   }
-  /* Doing the expansion at level 0 */
-  value = ap_abstract0_expand(man,destructive,a->abstract0,dim,size);
-
   /* Building the resulting environment and permutation to apply */
   nenv =
     (dim<a->env->intdim) ?
@@ -1139,6 +1136,9 @@ ap_abstract1_t ap_abstract1_expand(ap_manager_t* man,
     goto ap_abstract1_expand_exit;
   }
 
+  /* Doing the expansion at level 0 */
+  value = ap_abstract0_expand(man,destructive,a->abstract0,dim,size);
+
   /* Apply permutation and return */
   value = ap_abstract0_permute_dimensions(man,true,value,&perm);
   ap_dimperm_clear(&perm);
-- 
2.43.0


From e946d25cc0bf9407826941a583a23e22ed529b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 67/86] fix: leak of the empty environment in level 1
 meet_array, join_array and deserialize_raw

---
 apron/ap_abstract1.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index a52fed0..4b7770a 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -321,7 +321,10 @@ ap_abstract1_t ap_abstract1_deserialize_raw(ap_manager_t* man, void* ptr, size_t
   (void)ptr;
   (void)size;
   ap_manager_raise_exception(man,AP_EXC_NOT_IMPLEMENTED,AP_FUNID_DESERIALIZE_RAW,"");
-  return ap_abstract1_top(man,ap_environment_alloc_empty());
+  ap_environment_t* env = ap_environment_alloc_empty();
+  ap_abstract1_t res = ap_abstract1_top(man,env);
+  ap_environment_free(env);
+  return res;
 }
 
 
@@ -682,7 +685,9 @@ ap_abstract1_t ap_abstract1_meetjoin_array(ap_funid_t funid, ap_manager_t* man,
     free(ntab);
   }
   else {
-    res = ap_abstract1_top(man, size==0 ? ap_environment_alloc_empty() : tab[0].env);
+    ap_environment_t* env = size==0 ? ap_environment_alloc_empty() : ap_environment_copy(tab[0].env);
+    res = ap_abstract1_top(man, env);
+    ap_environment_free(env);
   }
   return res;
 }
-- 
2.43.0


From 4457c50a5dce8dc468deaed807d687d53523dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 68/86] fix: ap_abstract1_fold of integer and real variables
 returned an inconsistent value

---
 apron/ap_abstract1.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 4b7770a..7e5ebc3 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -1205,6 +1205,16 @@ ap_abstract1_t ap_abstract1_fold(ap_manager_t* man,
       goto ap_abstract1_fold_exit;
     }
   }
+  /* Check that the variables have the same type */
+  for (i=1; i<size; i++){
+    if ((tdim[i]<a->env->intdim) != (dim<a->env->intdim)){
+      ap_manager_raise_exception(man,AP_EXC_INVALID_ARGUMENT,AP_FUNID_FOLD,
+				 "mixed integer and real variables to fold");
+      free(tdim);
+      ap_environment_free(nenv);
+      goto ap_abstract1_fold_exit;
+    }
+  }
   /* Sort the array of dimensions */
   qsort(tdim,size,sizeof(ap_dim_t),compar_dim);
   /* Compute the permutation for "exchanging" dim and tdim[0] if necessary  */
-- 
2.43.0


From c92ade559c6def3bce5845ab4aeceb01652b0d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:06 +0000
Subject: [PATCH 69/86] Revert "fix: projection of a polyhedron marks its
 generators as unsorted"

This reverts commit 95b78c0353b98505fe9ca711103c9547418c0208.
---
 newpolka/pk_project.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/newpolka/pk_project.c b/newpolka/pk_project.c
index ef4c352..9da508a 100644
--- a/newpolka/pk_project.c
+++ b/newpolka/pk_project.c
@@ -79,7 +79,6 @@ void poly_projectforget_array(bool project,
       }
       pk_matrix_normalize_row(pk,mat,(size_t)i);
     }
-    mat->_sorted = false;
     po->status = 0;
     if (!lazy){
       poly_chernikova(man,po,"of the result");
-- 
2.43.0


From b060e0096d00ddfd0863132c9d7c2595b20c4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:00 +0000
Subject: [PATCH 70/86] fix: strict comparisons of abstract values in C++ were
 negations of inclusion

---
 apronxx/apxx_abstract0_inline.hh | 4 ++--
 apronxx/apxx_abstract1_inline.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apronxx/apxx_abstract0_inline.hh b/apronxx/apxx_abstract0_inline.hh
index f1ac046..6059c3f 100644
--- a/apronxx/apxx_abstract0_inline.hh
+++ b/apronxx/apxx_abstract0_inline.hh
@@ -432,12 +432,12 @@ inline bool operator>= (const abstract0& x, const abstract0& y)
 
 inline bool operator> (const abstract0& x, const abstract0& y)
 {
-  return !(x<=y);
+  return y<=x && !(x<=y);
 }
 
 inline bool operator< (const abstract0& x, const abstract0& y)
 {
-  return !(y<=x);
+  return x<=y && !(y<=x);
 }
 
 
diff --git a/apronxx/apxx_abstract1_inline.hh b/apronxx/apxx_abstract1_inline.hh
index 59ab3ac..c16b49f 100644
--- a/apronxx/apxx_abstract1_inline.hh
+++ b/apronxx/apxx_abstract1_inline.hh
@@ -533,12 +533,12 @@ inline bool operator>= (const abstract1& x, const abstract1& y)
 
 inline bool operator> (const abstract1& x, const abstract1& y)
 {
-  return !(x<=y);
+  return y<=x && !(x<=y);
 }
 
 inline bool operator< (const abstract1& x, const abstract1& y)
 {
-  return !(y<=x);
+  return x<=y && !(y<=x);
 }
 
 
-- 
2.43.0


From 8e6a254a79bd6a62b90ec96d0c34f5722981a43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:00 +0000
Subject: [PATCH 71/86] fix: C++ comparison of an integer with a scalar had the
 wrong sign

---
 apronxx/apxx_scalar_inline.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apronxx/apxx_scalar_inline.hh b/apronxx/apxx_scalar_inline.hh
index 9c9084a..88e8a36 100644
--- a/apronxx/apxx_scalar_inline.hh
+++ b/apronxx/apxx_scalar_inline.hh
@@ -376,7 +376,7 @@ inline bool operator!=(const scalar& a, int b)
 
 inline scalar::order cmp(int a, const scalar& b)         
 { 
-  return (scalar::order) ap_scalar_cmp_int(const_cast<ap_scalar_t*>(&b.c), a); 
+  return (scalar::order) -ap_scalar_cmp_int(const_cast<ap_scalar_t*>(&b.c), a); 
 }
 
 inline bool operator>=(int a, const scalar& b) 
-- 
2.43.0


From 3acf52eda01f6fc11ff2fe36ccdf69aa734ac137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:00 +0000
Subject: [PATCH 72/86] fix: copies of C++ iterators on linear expressions went
 back to the beginning

---
 apronxx/apxx_linexpr0_inline.hh | 2 +-
 apronxx/apxx_linexpr1_inline.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apronxx/apxx_linexpr0_inline.hh b/apronxx/apxx_linexpr0_inline.hh
index 50a800b..364715c 100644
--- a/apronxx/apxx_linexpr0_inline.hh
+++ b/apronxx/apxx_linexpr0_inline.hh
@@ -372,7 +372,7 @@ inline linexpr0::iterator::iterator(linexpr0& e)
 {}
 
 inline linexpr0::iterator::iterator(const iterator& i) 
-  : linexpr0::const_iterator(i.l)
+  : linexpr0::const_iterator(i)
 {}
 
 inline linexpr0::const_iterator& linexpr0::const_iterator::operator=(const const_iterator& i)
diff --git a/apronxx/apxx_linexpr1_inline.hh b/apronxx/apxx_linexpr1_inline.hh
index c0c3a76..2b5cc03 100644
--- a/apronxx/apxx_linexpr1_inline.hh
+++ b/apronxx/apxx_linexpr1_inline.hh
@@ -232,7 +232,7 @@ inline linexpr1::iterator::iterator(linexpr1& e)
 {}
 
 inline linexpr1::iterator::iterator(const iterator& i) 
-  : linexpr1::const_iterator(i.l)
+  : linexpr1::const_iterator(i)
 {}
 
 inline linexpr1::const_iterator& linexpr1::const_iterator::operator=(const const_iterator& i)
-- 
2.43.0


From 505a09b53dc105c6311904a71577dba85331621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:00 +0000
Subject: [PATCH 73/86] fix: C++ dim of a variable left its dimension
 uninitialised

---
 apronxx/apxx_texpr0_inline.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apronxx/apxx_texpr0_inline.hh b/apronxx/apxx_texpr0_inline.hh
index 7265176..0e8f232 100644
--- a/apronxx/apxx_texpr0_inline.hh
+++ b/apronxx/apxx_texpr0_inline.hh
@@ -21,8 +21,8 @@ inline dim::dim(ap_dim_t d) : d(d)
 
 inline dim::dim(const environment& e, const var& v)
 {
-  ap_dim_t d = ap_environment_dim_of_var(const_cast<ap_environment_t*>(e.get_ap_environment_t()),
-					 v.get_ap_var_t());
+  d = ap_environment_dim_of_var(const_cast<ap_environment_t*>(e.get_ap_environment_t()),
+				v.get_ap_var_t());
   if (d==AP_DIM_MAX)
     throw std::invalid_argument("apron::dim::dim(const environment&, const var&) invalid variable name");
 }
-- 
2.43.0


From 8e5c9b343882fc7140da72bfbb8386570b429587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:00 +0000
Subject: [PATCH 74/86] fix: leak of the interval when C++ abstract1::bound
 raises an exception

---
 apronxx/apxx_abstract1_inline.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apronxx/apxx_abstract1_inline.hh b/apronxx/apxx_abstract1_inline.hh
index c16b49f..24fef4e 100644
--- a/apronxx/apxx_abstract1_inline.hh
+++ b/apronxx/apxx_abstract1_inline.hh
@@ -552,6 +552,7 @@ inline interval abstract1::bound(manager& m, const linexpr1& l) const
     ap_abstract1_bound_linexpr(m.get_ap_manager_t(),
 			       const_cast<ap_abstract1_t*>(&a),
 			       const_cast<ap_linexpr1_t*>(l.get_ap_linexpr1_t()));
+  if (m.exception_raised()) ap_interval_free(r);
   m.raise("apron::abstract1::bound(manager&, const linexpr1&)");
   return r;
 }
-- 
2.43.0


From be544aee4e7483eb04a022828bca174751799dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:52 +0000
Subject: [PATCH 75/86] fix: leak of an empty block after ap_linexpr0_minimize
 on a zero expression in C++

---
 apron/ap_linexpr0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 2b4f4df..ae7ea35 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -100,7 +100,7 @@ void ap_linexpr0_minimize(ap_linexpr0_t* e)
 	nsize++;
     }
     if (nsize!=e->size){
-      ap_linterm_t* linterm = malloc(nsize*sizeof(ap_linterm_t));
+      ap_linterm_t* linterm = nsize ? malloc(nsize*sizeof(ap_linterm_t)) : NULL;
       j = 0;
       for (i=0; i<e->size; i++){
 	ap_coeff_t* p = &e->p.linterm[i].coeff;
-- 
2.43.0


From 026bda9be111b3e21ad99c67a4bf3d92c306bb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:01 +0000
Subject: [PATCH 76/86] fix: overloaded Java methods fdivR, cdivR, tdivR and
 sqrt of Mpz called the function of another overload

---
 japron/gmp/gmp_Mpz.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/japron/gmp/gmp_Mpz.c b/japron/gmp/gmp_Mpz.c
index fc1efdf..19f0d44 100644
--- a/japron/gmp/gmp_Mpz.c
+++ b/japron/gmp/gmp_Mpz.c
@@ -564,7 +564,7 @@ JNIEXPORT jint JNICALL Java_gmp_Mpz_cdivQR__Lgmp_Mpz_2Lgmp_Mpz_2I
  * Method:    cdivR
  * Signature: (I)I
  */
-JNIEXPORT jint JNICALL Java_gmp_Mpz_cdivR
+JNIEXPORT jint JNICALL Java_gmp_Mpz_cdivR__I
   (JNIEnv *env, jobject o1, jint i)
 {
   check_nonnull(o1,0);
@@ -699,7 +699,7 @@ JNIEXPORT jint JNICALL Java_gmp_Mpz_fdivQR__Lgmp_Mpz_2Lgmp_Mpz_2I
  * Method:    fdivR
  * Signature: (I)I
  */
-JNIEXPORT jint JNICALL Java_gmp_Mpz_fdivR
+JNIEXPORT jint JNICALL Java_gmp_Mpz_fdivR__I
   (JNIEnv *env, jobject o1, jint i)
 {
   check_nonnull(o1,0);
@@ -834,7 +834,7 @@ JNIEXPORT jint JNICALL Java_gmp_Mpz_tdivQR__Lgmp_Mpz_2Lgmp_Mpz_2I
  * Method:    tdivR
  * Signature: (I)I
  */
-JNIEXPORT jint JNICALL Java_gmp_Mpz_tdivR
+JNIEXPORT jint JNICALL Java_gmp_Mpz_tdivR__I
   (JNIEnv *env, jobject o1, jint i)
 {
   check_nonnull(o1,0);
@@ -1105,7 +1105,7 @@ JNIEXPORT void JNICALL Java_gmp_Mpz_root__Lgmp_Mpz_2Lgmp_Mpz_2I
  * Method:    sqrt
  * Signature: (Lgmp/Mpz;)V
  */
-JNIEXPORT void JNICALL Java_gmp_Mpz_sqrt
+JNIEXPORT void JNICALL Java_gmp_Mpz_sqrt__Lgmp_Mpz_2
   (JNIEnv *env, jobject o1, jobject o2)
 {
   check_nonnull(o1,);
-- 
2.43.0


From 860b51ed147c7a828a246cc2039e9063b950456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:01 +0000
Subject: [PATCH 77/86] fix: Java operations between a Mpz and the least int
 overflowed

---
 japron/gmp/gmp_Mpz.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/japron/gmp/gmp_Mpz.c b/japron/gmp/gmp_Mpz.c
index 19f0d44..b4570fc 100644
--- a/japron/gmp/gmp_Mpz.c
+++ b/japron/gmp/gmp_Mpz.c
@@ -297,7 +297,7 @@ JNIEXPORT void JNICALL Java_gmp_Mpz_add__Lgmp_Mpz_2I
   check_nonnull(o1,);
   check_nonnull(o2,);
   if (i>=0) mpz_add_ui(as_mpz(o1),as_mpz(o2),i);
-  else mpz_sub_ui(as_mpz(o1),as_mpz(o2),-i);
+  else mpz_sub_ui(as_mpz(o1),as_mpz(o2),-(long)i);
 }
 
 /*
@@ -325,7 +325,7 @@ JNIEXPORT void JNICALL Java_gmp_Mpz_sub__Lgmp_Mpz_2I
   check_nonnull(o1,);
   check_nonnull(o2,);
   if (i>=0) mpz_sub_ui(as_mpz(o1),as_mpz(o2),i);
-  else mpz_add_ui(as_mpz(o1),as_mpz(o2),-i);
+  else mpz_add_ui(as_mpz(o1),as_mpz(o2),-(long)i);
 }
 
 /*
@@ -339,7 +339,7 @@ JNIEXPORT void JNICALL Java_gmp_Mpz_sub__ILgmp_Mpz_2
   check_nonnull(o1,);
   check_nonnull(o2,);
   if (i>=0) mpz_ui_sub(as_mpz(o1),i,as_mpz(o2));
-  else { mpz_add_ui(as_mpz(o1),as_mpz(o2),-i); mpz_neg(as_mpz(o1),as_mpz(o1)); }
+  else { mpz_add_ui(as_mpz(o1),as_mpz(o2),-(long)i); mpz_neg(as_mpz(o1),as_mpz(o1)); }
 }
 
 /*
@@ -394,7 +394,7 @@ JNIEXPORT void JNICALL Java_gmp_Mpz_addMul__Lgmp_Mpz_2I
   check_nonnull(o1,);
   check_nonnull(o2,);
   if (i>=0) mpz_addmul_ui(as_mpz(o1),as_mpz(o2),i);
-  else mpz_submul_ui(as_mpz(o1),as_mpz(o2),-i);
+  else mpz_submul_ui(as_mpz(o1),as_mpz(o2),-(long)i);
 }
 
 /*
@@ -422,7 +422,7 @@ JNIEXPORT void JNICALL Java_gmp_Mpz_subMul__Lgmp_Mpz_2I
   check_nonnull(o1,);
   check_nonnull(o2,);
   if (i>=0) mpz_submul_ui(as_mpz(o1),as_mpz(o2),i);
-  else mpz_addmul_ui(as_mpz(o1),as_mpz(o2),-i);
+  else mpz_addmul_ui(as_mpz(o1),as_mpz(o2),-(long)i);
 }
 
 /*
-- 
2.43.0


From 457b89e4335e0889c203658a5fd418d1dfca72db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:01 +0000
Subject: [PATCH 78/86] fix: MpfrScalar.setInfty(0) gave an infinity

---
 japron/apron/MpfrScalar.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/japron/apron/MpfrScalar.java b/japron/apron/MpfrScalar.java
index caa4f5c..e26a21f 100644
--- a/japron/apron/MpfrScalar.java
+++ b/japron/apron/MpfrScalar.java
@@ -125,7 +125,8 @@ public class MpfrScalar
     */
     public void setInfty(int sign) 
     {
-        val.setInf(sign);
+        if (sign==0) val.set(0, Mpfr.RNDN);
+        else val.setInf(sign);
     }
 
 
-- 
2.43.0


From 48f33e12ac9e69abc84e6ae6223100dd94371e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:01 +0000
Subject: [PATCH 79/86] fix: MpfrScalar.toDouble returned the reverse of the
 direction of rounding

---
 japron/apron/MpfrScalar.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/japron/apron/MpfrScalar.java b/japron/apron/MpfrScalar.java
index e26a21f..5882eaa 100644
--- a/japron/apron/MpfrScalar.java
+++ b/japron/apron/MpfrScalar.java
@@ -179,7 +179,7 @@ public class MpfrScalar
     public int toDouble(double[] r, int round) 
     {
         r[0] = val.doubleValue(round);
-        return val.cmp(r[0]);
+        return -val.cmp(r[0]);
     }
 
     /** Returns a string representation of the value of this. */
-- 
2.43.0


From 4160de60e682e27c1af307b4eddc6f89f792a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:01 +0000
Subject: [PATCH 80/86] fix: Java Linexpr0.getCoeffs failed on constant
 expressions

---
 japron/apron/Linexpr0.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/japron/apron/Linexpr0.java b/japron/apron/Linexpr0.java
index 63114cf..9febd58 100644
--- a/japron/apron/Linexpr0.java
+++ b/japron/apron/Linexpr0.java
@@ -166,7 +166,7 @@ public class Linexpr0
     public Coeff[] getCoeffs()
     {
         Linterm0[] l = getLinterms();
-        int nb = l[l.length-1].dim + 1;
+        int nb = l.length==0 ? 0 : l[l.length-1].dim + 1;
         Coeff[] c = new Coeff[nb];
         for (int i=0; i<nb; i++)
             c[i] = Coeff.create();
-- 
2.43.0


From 7ceb08f3e582aee462f878075dcbc1003f44a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:01 +0000
Subject: [PATCH 81/86] fix: maximum dimension of an empty sparse expression in
 Java read out of bounds

---
 japron/apron/japron.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/japron/apron/japron.c b/japron/apron/japron.c
index 6e2bd57..e186a60 100644
--- a/japron/apron/japron.c
+++ b/japron/apron/japron.c
@@ -1010,12 +1010,11 @@ ap_dim_t japron_linexpr0_max_dim(ap_linexpr0_t* e)
 {
   size_t i;
   if (e->discr==AP_LINEXPR_DENSE) return e->size;
-  for (i=e->size-1;i>0;i--) {
-    ap_dim_t x = e->p.linterm[i].dim;
+  for (i=e->size;i>0;i--) {
+    ap_dim_t x = e->p.linterm[i-1].dim;
     if (x!=AP_DIM_MAX) return x+1;
   }
-  ap_dim_t x = e->p.linterm[0].dim;
-  return (x==AP_DIM_MAX) ? 0 : x+1;
+  return 0;
 }
 
 /* disables abort-on-exception for all functions */
-- 
2.43.0


From c4b972bd6c1aa3605f34ffea283c8d60ad905f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:01 +0000
Subject: [PATCH 82/86] fix: Java trees were not linear when they contain an
 opposite, which is exact in every type

---
 japron/apron/Texpr0UnNode.java | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/japron/apron/Texpr0UnNode.java b/japron/apron/Texpr0UnNode.java
index 95e4afe..5d047b0 100644
--- a/japron/apron/Texpr0UnNode.java
+++ b/japron/apron/Texpr0UnNode.java
@@ -192,11 +192,11 @@ public class Texpr0UnNode
 
     public boolean isIntervalLinear()
     {
-        if (rtype!=RTYPE_REAL) return false;
         switch (op) {
         case OP_NEG:
-        case OP_CAST:
             return arg.isIntervalLinear();
+        case OP_CAST:
+            return rtype==RTYPE_REAL && arg.isIntervalLinear();
         default: 
             return false;
         }
@@ -204,11 +204,11 @@ public class Texpr0UnNode
 
     public boolean isIntervalPolynomial()
     {
-        if (rtype!=RTYPE_REAL) return false;
         switch (op) {
         case OP_NEG:
-        case OP_CAST:
             return arg.isIntervalPolynomial();
+        case OP_CAST:
+            return rtype==RTYPE_REAL && arg.isIntervalPolynomial();
         default: 
             return false;
         }
@@ -216,11 +216,11 @@ public class Texpr0UnNode
 
     public boolean isIntervalPolyfrac()
     {
-        if (rtype!=RTYPE_REAL) return false;
         switch (op) {
         case OP_NEG:
-        case OP_CAST:
             return arg.isIntervalPolyfrac();
+        case OP_CAST:
+            return rtype==RTYPE_REAL && arg.isIntervalPolyfrac();
         default: 
             return false;
         }
-- 
2.43.0


From 72aced27e97635fcbc89a5f4c69abe700a2572c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:45 +0000
Subject: [PATCH 83/86] fix: t1p_forget_array changed the interval of another
 dimension than the forgotten one

---
 taylor1plus/t1p_otherops.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/taylor1plus/t1p_otherops.c b/taylor1plus/t1p_otherops.c
index f8158d4..eb8d9ef 100644
--- a/taylor1plus/t1p_otherops.c
+++ b/taylor1plus/t1p_otherops.c
@@ -36,6 +36,7 @@ t1p_t* t1p_forget_array(ap_manager_t* man,
 	    t1p_aff_check_free(pr, res->paf[tdim[i]]);
 	    res->paf[tdim[i]] = t1p_aff_alloc_init(pr);
 	    res->paf[tdim[i]]->pby++;
+	    itv_set_int(res->box[tdim[i]], 0);
 	}
     }
     else {
@@ -46,7 +47,7 @@ t1p_t* t1p_forget_array(ap_manager_t* man,
         // The field box used for the reduced product was not set. 
         // Detected by Alexandra-Olimpia Bugariu and fixed by Gagandeep Singh on June 7th 2018
         // TODO: Ideally, the box field should be of type abstract0_box to perform the reduced product in a cleaner way 
-        itv_set_top(res->box[i]);
+        itv_set_top(res->box[tdim[i]]);
 	}
     }
     return res;
-- 
2.43.0


From ad3438720dc4a279bd10b6aea8b705e79dfb1465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:45 +0000
Subject: [PATCH 84/86] fix: t1p_add_dimensions misplaced the dimensions and
 t1p_permute_dimensions did not permute

---
 taylor1plus/t1p_resize.c | 45 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/taylor1plus/t1p_resize.c b/taylor1plus/t1p_resize.c
index c33d584..3ea584a 100644
--- a/taylor1plus/t1p_resize.c
+++ b/taylor1plus/t1p_resize.c
@@ -35,25 +35,23 @@ t1p_t* t1p_add_dimensions(ap_manager_t* man, bool destructive, t1p_t* a, ap_dimc
     res->box = realloc(res->box,dims*sizeof(itv_t));
     res->paf = realloc(res->paf,dims*sizeof(t1p_aff_t*));
     size_t i = 0;
-    int j = 0;
-    for (i=0; i<dimchange->intdim + dimchange->realdim; i++) {
-	if (res->dims == dimchange->dim[i]) {
-	    /* add in the last place */
-	    itv_init(res->box[res->dims]);
-	} else {
-	    /* increment */
-	    for (j=(int)-1+res->dims;j>=(int)dimchange->dim[i];j--) {
-		itv_init(res->box[j+1]);
-		res->paf[j+1] = res->paf[j];
-		itv_set(res->box[j+1],res->box[j]);
-	    }
+    size_t k = dimchange->intdim + dimchange->realdim;
+    for (i=res->dims; i<dims; i++) itv_init(res->box[i]);
+    /* the positions refer to the dimensions before the change: shift from the end */
+    for (i=res->dims+1; i-->0;) {
+	if (i<res->dims) {
+	    res->paf[i+k] = res->paf[i];
+	    itv_set(res->box[i+k],res->box[i]);
+	}
+	while (k>=1 && dimchange->dim[k-1]==i) {
+	    k--;
+	    res->paf[i+k] = project ? t1p_aff_alloc_init(pr) : pr->top;
+	    res->paf[i+k]->pby++;
+	    if (project) itv_set_int(res->box[i+k], 0);
+	    else itv_set_top(res->box[i+k]);
 	}
-	res->paf[dimchange->dim[i]] = project ? t1p_aff_alloc_init(pr) : pr->top;
-	res->paf[dimchange->dim[i]]->pby++;
-	if (project) itv_set_int(res->box[dimchange->dim[i]], 0);
-	else itv_set_top(res->box[dimchange->dim[i]]);
-	res->dims++;
     }
+    res->dims = dims;
     res->intdim = intdim;
 #ifdef _T1P_DEBUG
     fprintf(stdout, "### RESULT of ADD DiMENSIONS ###\n");
@@ -127,15 +125,18 @@ t1p_t* t1p_permute_dimensions(ap_manager_t* man, bool destructive, t1p_t* a, ap_
     ap_dimperm_fprint(stdout, permutation);
     fprintf(stdout, "### ### ###\n");
 #endif
-    t1p_aff_t* tmp = NULL;
     t1p_t* res = destructive ? a : t1p_copy(man, a);
     size_t i = 0;
+    t1p_aff_t** paf = (t1p_aff_t**)malloc(res->dims*sizeof(t1p_aff_t*));
+    itv_t* box = (itv_t*)malloc(res->dims*sizeof(itv_t));
     for (i=0; i<permutation->size; i++) {
-	tmp = res->paf[i];
-	res->paf[i] = res->paf[permutation->dim[i]];
-	res->paf[permutation->dim[i]] = tmp;
-	itv_swap(res->box[i],res->box[permutation->dim[i]]);
+	paf[permutation->dim[i]] = res->paf[i];
+	memcpy(box[permutation->dim[i]], res->box[i], sizeof(itv_t));
     }
+    free(res->paf);
+    free(res->box);
+    res->paf = paf;
+    res->box = box;
 #ifdef _T1P_DEBUG
     fprintf(stdout, "### RESULT of PERMUTE DiMENSIONS ###\n");
     t1p_fprint(stdout, man, res, 0x0);
-- 
2.43.0


From cdedff36d17b313be1e8286638946a26a6ac2e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:45 +0000
Subject: [PATCH 85/86] fix: the difference of two equal unbounded affine
 forms, or of forms with equal intervals, was null

---
 taylor1plus/t1p_fun.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/taylor1plus/t1p_fun.c b/taylor1plus/t1p_fun.c
index d98970a..a3961c8 100644
--- a/taylor1plus/t1p_fun.c
+++ b/taylor1plus/t1p_fun.c
@@ -107,14 +107,16 @@ t1p_aff_t* t1p_aff_sub(t1p_internal_t* pr, t1p_aff_t* exprA, t1p_aff_t* exprB, t
     itv_t tmp; itv_init(tmp);
     t1p_aff_t* res = t1p_aff_alloc_init(pr);
     t1p_aaterm_t *p, *q, *ptr;
-    if (!itv_is_eq(exprA->c, exprB->c)) itv_sub(res->c, exprA->c, exprB->c);
+    /* only a bounded form minus itself is known to be null */
+    bool same = exprA==exprB && itv_has_finite_bound(exprA->c);
+    if (!same) itv_sub(res->c, exprA->c, exprB->c);
     itv_set(box, res->c);
     if (exprA->q || exprB->q) {
 	ptr = t1p_aaterm_alloc_init();
 	for(p = exprA->q, q = exprB->q; p || q;) {
 	    if (p && q) {
 		if (p->pnsym->index == q->pnsym->index) {
-		    if (!itv_is_eq(p->coeff, q->coeff)) itv_sub(ptr->coeff, p->coeff, q->coeff);
+		    if (!(same && itv_has_finite_bound(p->coeff))) itv_sub(ptr->coeff, p->coeff, q->coeff);
 		    ptr->pnsym = p->pnsym;
 		    p = p->n ;
 		    q = q->n ;
-- 
2.43.0


From da9099ec14ba34a1d21096cddaa583349a8ff099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:53 +0000
Subject: [PATCH 86/86] fix: linearisation took the modulo of real arguments in
 a float type as already rounded

---
 itv/itv_linearize.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index c505c62..701641e 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -1401,8 +1401,8 @@ ap_texpr0_node_intlinearize(itv_internal_t* intern,
     itv_init(i1);
     itv_linexpr_init(&l1,0);
     /* intlinearize arguments, lres & l1 are not used */
-    itv_intlinearize_texpr0_rec(intern,n->exprA,env,intdim,lres,ires);
-    itv_intlinearize_texpr0_rec(intern,n->exprB,env,intdim,&l1,i1);
+    t1 = itv_intlinearize_texpr0_rec(intern,n->exprA,env,intdim,lres,ires);
+    t2 = itv_intlinearize_texpr0_rec(intern,n->exprB,env,intdim,&l1,i1);
     if (itv_is_bottom(intern,i1) || itv_is_bottom(intern,ires)){
       itv_set_bottom(ires);
       itv_linexpr_reinit(lres,0);
@@ -1417,7 +1417,8 @@ ap_texpr0_node_intlinearize(itv_internal_t* intern,
     }
     itv_clear(i1);
     itv_linexpr_clear(&l1);
-    break;
+    /* not rounded, hence in the type of the node only if its arguments are */
+    return t1==t2 ? t1 : AP_RTYPE_REAL;
 
   case AP_TEXPR_POW:
     itv_init(i1);
-- 
2.43.0

