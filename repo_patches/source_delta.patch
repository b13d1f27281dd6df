From 0fc28d46e84c0cbf22372a2f6418c7fc4fab6ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:51 +0000
Subject: [PATCH 01/41] fix: return infeasibility certificates in the caller's
 units with scaled_termination

With scaled_termination=1 the certificates were left in the scaled space, so
they did not certify anything about the problem that was passed in.
---
 src/auxil.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index fbca9f4..a1f450b 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -914,7 +914,7 @@ OSQPInt check_termination(OSQPSolver* solver,
       update_status(info, OSQP_PRIMAL_INFEASIBLE);
     }
 
-    if (settings->scaling && !settings->scaled_termination) {
+    if (settings->scaling) {
       // Update infeasibility certificate
       OSQPVectorf_ew_prod(work->delta_y,
                           work->delta_y,
@@ -931,7 +931,7 @@ OSQPInt check_termination(OSQPSolver* solver,
       update_status(info, OSQP_DUAL_INFEASIBLE);
     }
 
-    if (settings->scaling && !settings->scaled_termination) {
+    if (settings->scaling) {
       // Update infeasibility certificate
       OSQPVectorf_ew_prod(work->delta_x,
                           work->delta_x,
-- 
2.43.0


From 787ce9a0d92cee669d7f9c38ab6e3b0e1906c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:27 +0000
Subject: [PATCH 02/41] fix: products with an empty matrix must still apply
 beta in the MKL backend

MKL gives no handle for a matrix without entries, so the product failed and
left y as it was. The indirect solver then used P + I instead of P + sigma*I
for a linear program and read uninitialised work vectors.
---
 algebra/mkl/matrix.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 3c4e6d1..0217980 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -217,6 +217,13 @@ void OSQPMatrix_Axpy(const OSQPMatrix*  A,
 
   struct matrix_descr descr;
 
+  /* MKL has no valid handle for a matrix without entries, and would leave y untouched */
+  if (OSQPMatrix_get_nz(A) == 0) {
+    if (beta == 0.0) OSQPVectorf_set_scalar(y, 0.0);
+    else             OSQPVectorf_mult_scalar(y, beta);
+    return;
+  }
+
   if(A->symmetry == NONE){
     descr.type = SPARSE_MATRIX_TYPE_GENERAL;
 
@@ -241,6 +248,13 @@ void OSQPMatrix_Atxpy(const OSQPMatrix*  A,
                             OSQPFloat    beta) {
   struct matrix_descr descr;
 
+  /* MKL has no valid handle for a matrix without entries, and would leave y untouched */
+  if (OSQPMatrix_get_nz(A) == 0) {
+    if (beta == 0.0) OSQPVectorf_set_scalar(y, 0.0);
+    else             OSQPVectorf_mult_scalar(y, beta);
+    return;
+  }
+
   if(A->symmetry == NONE){
     descr.type = SPARSE_MATRIX_TYPE_GENERAL;
 
-- 
2.43.0


From 0511f90f6f881a4e4c5243aadbad3d2b553c811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:27 +0000
Subject: [PATCH 03/41] fix: keep polishing quiet when verbose is off

---
 src/polish.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polish.c b/src/polish.c
index f66a0a0..e623cc3 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -342,7 +342,9 @@ OSQPInt polish(OSQPSolver* solver) {
     return exitflag;
   } else if (work->pol->n_active == 0) {
     /* No active constraints, so skip polishing */
-    c_print("Polishing not needed - no active set detected at optimal point\n");
+#ifdef OSQP_ENABLE_PRINTING
+    if (settings->verbose) c_print("Polishing not needed - no active set detected at optimal point\n");
+#endif /* ifdef OSQP_ENABLE_PRINTING */
     info->status_polish = OSQP_POLISH_NO_ACTIVE_SET_FOUND;
 
     /* Memory clean-up */
-- 
2.43.0


From 3c0aa1f1e257b4cab36c780058d0d2c929e246dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:27 +0000
Subject: [PATCH 04/41] fix: a new solve must not inherit the status of the
 previous one

Solving again without a data update kept the old status when the termination
criteria were not met, so e.g. hitting max_iter was reported as solved.
---
 src/osqp_api.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 57b5924..c29349e 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -664,6 +664,15 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
   // Initialize variables
   exitflag              = 0;
   can_check_termination = 0;
+
+  // Forget the outcome of a previous solve
+  update_status(solver->info, OSQP_UNSOLVED);
+#ifndef OSQP_EMBEDDED_MODE
+  solver->info->status_polish = OSQP_POLISH_NOT_PERFORMED;
+# ifdef OSQP_ENABLE_PROFILING
+  solver->info->polish_time   = 0.0;
+# endif /* ifdef OSQP_ENABLE_PROFILING */
+#endif /* ifndef OSQP_EMBEDDED_MODE */
 #ifdef OSQP_ENABLE_PRINTING
   can_print = settings->verbose;
 #endif /* ifdef OSQP_ENABLE_PRINTING */
-- 
2.43.0


From f78405cd0a9b7b3a95de9ba1340f7339bc061279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:27 +0000
Subject: [PATCH 05/41] fix: report the returned iterate when the time limit is
 reached

The termination flag of the previous iteration was still set, so the residuals
and iteration number of an older iterate were reported.
---
 src/osqp_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index c29349e..956007b 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -764,6 +764,8 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
       if (settings->verbose) c_print("run time limit reached\n");
       can_print = 0;  // Not printing at this iteration
 # endif /* ifdef OSQP_ENABLE_PRINTING */
+      can_check_termination = 0; // This iterate has not been evaluated yet
+      iter++;                    // This iteration has been completed
       break;
     }
 #endif /* ifdef OSQP_ENABLE_PROFILING */
-- 
2.43.0


From 2ac3de54c2a240f5efeabe400b4aa2553ff2f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:27 +0000
Subject: [PATCH 06/41] fix: time-based rho adaptation must keep at least
 check_termination iterations between updates

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 956007b..4e04197 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -819,7 +819,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
           }
 
           // Make sure the interval is not 0 and at least check_termination times
-          settings->adaptive_rho_interval = c_min(1, c_max(settings->adaptive_rho_interval,
+          settings->adaptive_rho_interval = c_max(1, c_max(settings->adaptive_rho_interval,
                                                            settings->check_termination));
         }
         else
-- 
2.43.0


From ac2d4397c032fc28dac0b600dee0494dde924bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:01 +0000
Subject: [PATCH 07/41] fix: still return the ADMM solution when polishing
 fails

A failure inside polishing left osqp_solve before the solution was stored, so
the status said solved while the solution arrays held an older point.
---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 4e04197..161efb6 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -994,9 +994,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     exitflag = polish(solver);
     osqp_profiler_sec_pop(OSQP_PROFILER_SEC_POLISH);
 
+    // The ADMM solution is still valid when polishing fails, so report it
     if (exitflag > 0) {
       c_eprint("Failed polishing");
-      goto exit;
     }
   }
 #endif /* ifndef OSQP_EMBEDDED_MODE */
-- 
2.43.0


From 8866babdea886c82b567f364ffb178a64840f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:24 +0000
Subject: [PATCH 08/41] fix: regularize polishing with the delta setting

delta is documented as the regularization parameter for polishing but the MKL
and QDLDL solvers ignored it and used sigma (the CUDA solver uses delta).
---
 algebra/_common/lin_sys/qdldl/qdldl_interface.c | 3 ++-
 algebra/mkl/lin_sys/direct/pardiso_interface.c  | 3 ++-
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 6 +++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 6af6385..70f3137 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -226,7 +226,8 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     OSQPInt    m, n;      // Dimensions of A
     OSQPInt    n_plus_m;  // Define n_plus_m dimension
     OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
-    OSQPFloat  sigma = settings->sigma;
+    // Polishing is regularized with delta rather than sigma
+    OSQPFloat  sigma = polishing ? settings->delta : settings->sigma;
 
     // Allocate private structure to store KKT factorization
     qdldl_solver* s = c_calloc(1, sizeof(qdldl_solver));
diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index e207116..c4ccb5c 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -77,7 +77,8 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   OSQPInt    n_plus_m;  // n_plus_m dimension
   OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
 
-  OSQPFloat sigma = settings->sigma;
+  // Polishing is regularized with delta rather than sigma
+  OSQPFloat sigma = polishing ? settings->delta : settings->sigma;
 
   // Allocate private structure to store KKT factorization
   pardiso_solver *s = c_calloc(1, sizeof(pardiso_solver));
diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index de14930..67490f3 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -99,7 +99,7 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //data, no copies or processing required
   s->P       = *(OSQPMatrix**)(&P);
   s->A       = *(OSQPMatrix**)(&A);
-  s->sigma   = settings->sigma;
+  s->sigma   = polish ? settings->delta : settings->sigma; // Polishing is regularized with delta
   s->polish  = polish;
   s->m       = m;
   s->n       = n;
@@ -108,12 +108,12 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->scaled_dual_res = scaled_dual_res;
 
   //if polish is false, use the rho_vec we get.
-  //Otherwise, use rho_vec = ones.*(1/sigma)
+  //Otherwise, use rho_vec = ones.*(1/delta)
   s->rho_vec = OSQPVectorf_malloc(m);
   if (!polish) {
       OSQPVectorf_copy(s->rho_vec, rho_vec);
   } else {
-      OSQPVectorf_set_scalar(s->rho_vec, 1/settings->sigma);
+      OSQPVectorf_set_scalar(s->rho_vec, 1/settings->delta);
   }
 
   //Link functions
-- 
2.43.0


From 7e177b24b0a11dec0e45365dccadf6e4394b8e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:51 +0000
Subject: [PATCH 09/41] fix: use the CG iterate when the CG iteration limit is
 reached

The right-hand side was left in place of the solution, so ADMM silently took
the right-hand side as the next iterate.
---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 67490f3..a6eb897 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -268,7 +268,8 @@ OSQPInt solve_linsys_mklcg(mklcg_solver* s,
     }
   }
 
-  if ( (rci_request == 0) || (rci_request == 2) ) {  //solution was found for x.
+  // A solution was found for x, or x is the best one within the iteration limit (-1)
+  if ( (rci_request == 0) || (rci_request == 2) || (rci_request == -1) ) {
 
     OSQPVectorf_copy(s->r1, s->x);
 
-- 
2.43.0


From aba0e3caf2d5a02d351b07e76afe7a31824be487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:51 +0000
Subject: [PATCH 10/41] fix: support rho_is_vec=0 with the MKL indirect solver

The solver dereferenced the missing rho vector.
---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index a6eb897..29be5cc 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -111,7 +111,8 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //Otherwise, use rho_vec = ones.*(1/delta)
   s->rho_vec = OSQPVectorf_malloc(m);
   if (!polish) {
-      OSQPVectorf_copy(s->rho_vec, rho_vec);
+      if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
+      else         OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
   } else {
       OSQPVectorf_set_scalar(s->rho_vec, 1/settings->delta);
   }
@@ -365,7 +366,8 @@ OSQPInt update_matrices_linsys_mklcg(mklcg_solver*     s,
 OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
                               const OSQPVectorf* rho_vec,
                               OSQPFloat          rho_sc) {
-  OSQPVectorf_copy(s->rho_vec, rho_vec);
+  if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
+  else         OSQPVectorf_set_scalar(s->rho_vec, rho_sc);
 
   // Update the preconditioner (rho-only update)
   cg_update_precond(s);
-- 
2.43.0


From a0ca07e0b3a5f1c49d5ea76218d14c73ec2de492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:13 +0000
Subject: [PATCH 11/41] fix: reject matrix updates that make the problem
 non-convex with Pardiso

---
 algebra/mkl/lin_sys/direct/pardiso_interface.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index c4ccb5c..6436f65 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -323,6 +323,9 @@ OSQPInt update_linsys_solver_matrices_pardiso(pardiso_solver*   s,
            s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
   osqp_profiler_sec_pop(OSQP_PROFILER_SEC_LINSYS_NUM_FAC);
 
+  // The number of positive eigenvalues of KKT must still be the dimension of P
+  if ( !(s->error) && (s->iparm[21] < s->n) ) return OSQP_NONCVX_ERROR;
+
   // Return exit flag
   return s->error;
 }
-- 
2.43.0


From 46fc605ddce5005ad1f3751b77c816121d76accd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:13 +0000
Subject: [PATCH 12/41] fix: use the clipped rho for the scalar rho inverse at
 setup

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 161efb6..ad8bc32 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -493,7 +493,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   }
   else {
     solver->settings->rho = c_min(c_max(settings->rho, OSQP_RHO_MIN), OSQP_RHO_MAX);
-    work->rho_inv = 1. / settings->rho;
+    work->rho_inv = 1. / solver->settings->rho;
   }
 
   // Initialize linear system solver structure
-- 
2.43.0


From 78b5c115bacfc501a6ef28cebdf608339ef4d753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 13/41] fix: keep sigma on the KKT diagonal when P is updated
 with a CSR KKT matrix

---
 algebra/_common/kkt.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/algebra/_common/kkt.c b/algebra/_common/kkt.c
index c4f33a1..e07a58e 100644
--- a/algebra/_common/kkt.c
+++ b/algebra/_common/kkt.c
@@ -1,4 +1,5 @@
 #include "kkt.h"
+#include "util.h"
 
 
 //add an offset to every term in the upper nxn block.
@@ -353,14 +354,15 @@ void update_KKT_P(OSQPCscMatrix* KKT,
                   OSQPInt*       PtoKKT,
                   OSQPFloat      param1,
                   OSQPInt        format) {
-  OSQPInt j, Pidx, Kidx, row, offset, doall;
+  OSQPInt j, Pidx, Kidx, row, doall;
+
+  OSQP_UnusedVar(format);
 
   if(P_new_n <= 0){return;}
 
   //if Px_new_idx is null, we assume that all
   //elements are to be replaced (and that P_new_n = nnz(P))
   doall  = Px_new_idx == OSQP_NULL ? 1 : 0;
-  offset = format == 0 ? 1 : 0;
 
   for (j = 0; j < P_new_n; j++) {
     Pidx = doall ? j : Px_new_idx[j];
@@ -369,8 +371,10 @@ void update_KKT_P(OSQPCscMatrix* KKT,
 
     //is the corresonding column nonempty with
     //the current element on the diagonal (i.e. row==col)?
+    //NB: P is always CSC triu, so its diagonal terms are
+    //last in every column whatever the format of the KKT matrix
     row  = P->i[Pidx];
-    if((P->p[row] < P->p[row+1]) && ((P->p[row+offset] - offset) == Pidx)){
+    if((P->p[row] < P->p[row+1]) && ((P->p[row+1] - 1) == Pidx)){
       KKT->x[Kidx] += param1;
     }
   }
-- 
2.43.0


From 011e4900a11ef6d0978b0dd197c32b320961fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:45 +0000
Subject: [PATCH 14/41] fix: KKT-error based rho adaptation must not depend on
 an earlier solve

---
 src/osqp_api.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index ad8bc32..71d634b 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -667,6 +667,7 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
 
   // Forget the outcome of a previous solve
   update_status(solver->info, OSQP_UNSOLVED);
+  work->last_rel_kkt = OSQP_INFTY;
 #ifndef OSQP_EMBEDDED_MODE
   solver->info->status_polish = OSQP_POLISH_NOT_PERFORMED;
 # ifdef OSQP_ENABLE_PROFILING
-- 
2.43.0


From 7475b73454de6661350f19e3e94b8d22795d5d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:15 +0000
Subject: [PATCH 15/41] fix: retrieving the result of an infeasible problem
 must not destroy the iterates

---
 src/auxil.c    | 19 +++++++++++--------
 src/osqp_api.c |  3 +++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index a1f450b..75da947 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -634,14 +634,11 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
   else {
 
     // No solution present. Solution is NaN
-    OSQPVectorf_set_scalar(work->x, OSQP_NAN);
-    OSQPVectorf_set_scalar(work->y, OSQP_NAN);
-    OSQPVectorf_to_raw(solution->x, work->x); // primal
-    OSQPVectorf_to_raw(solution->y, work->y); // dual
-
-    // reset iterates to 0 for next run (they cannot start from NaN)
-    osqp_cold_start(solver);
-
+    //use x_prev and z_prev as scratch space
+    OSQPVectorf_set_scalar(work->x_prev, OSQP_NAN);
+    OSQPVectorf_set_scalar(work->z_prev, OSQP_NAN);
+    OSQPVectorf_to_raw(solution->x, work->x_prev); // primal
+    OSQPVectorf_to_raw(solution->y, work->z_prev); // dual
 
 #ifndef OSQP_EMBEDDED_MODE
 
@@ -669,6 +666,12 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
       OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
     }
 
+    if (info->status_val == OSQP_NON_CVX) {
+      /* There is no infeasibility certificate */
+      OSQPVectorf_to_raw(solution->prim_inf_cert, work->z_prev);
+      OSQPVectorf_to_raw(solution->dual_inf_cert, work->x_prev);
+    }
+
 #endif /* ifndef OSQP_EMBEDDED_MODE */
   }
 }
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 71d634b..e690612 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1034,6 +1034,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   // Store solution
   store_solution(solver, solver->solution);
 
+  // Reset iterates to 0 for next run if they diverged
+  if (!has_solution(solver->info)) osqp_cold_start(solver);
+
 // Define exit flag for quitting function
 #if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1
 exit:
-- 
2.43.0


From 02f349d2a9341d93d9bfbfe3ad88749c1bbd8c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:20 +0000
Subject: [PATCH 16/41] fix: an unsuccessful polish must not change the
 reported KKT error

---
 src/auxil.c  | 6 ++++--
 src/polish.c | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index 75da947..c4b5738 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -756,8 +756,10 @@ void update_info(OSQPSolver* solver,
   *run_time = osqp_toc(work->timer);
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
-  // Compute the relative KKT error
-  info->rel_kkt_error = c_max( c_max(*dual_res, *prim_res), *dual_gap);
+  // Compute the relative KKT error (a polished point may still be discarded)
+  if (!polishing) {
+    info->rel_kkt_error = c_max( c_max(*dual_res, *prim_res), *dual_gap);
+  }
 
 #ifdef OSQP_ENABLE_PRINTING
   work->summary_printed = 0; // The just updated info have not been printed
diff --git a/src/polish.c b/src/polish.c
index e623cc3..5dbdfc6 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -483,6 +483,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->duality_gap   = work->pol->duality_gap;
     info->prim_res      = work->pol->prim_res;
     info->dual_res      = work->pol->dual_res;
+    info->rel_kkt_error = c_max(c_max(info->dual_res, info->prim_res), info->duality_gap);
     info->status_polish = OSQP_POLISH_SUCCESS;
 
     // Update (x, z, y) in ADMM iterations
-- 
2.43.0


From d202ad70f81ee251837adec403ad21d20e0d9fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:42 +0000
Subject: [PATCH 17/41] fix: a rejected bound update must not overwrite the
 infeasibility certificate

---
 src/osqp_api.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index e690612..b9b488f 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1222,9 +1222,9 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
 
   /* Update constraint bounds */
   if (l_new || u_new) {
-    /* Use z_prev and delta_y to store l_new and u_new */
+    /* Use z_prev and Adelta_x to store l_new and u_new */
     l_tmp = work->z_prev;
-    u_tmp = work->delta_y;
+    u_tmp = work->Adelta_x;
 
     /* Copy l_new and u_new to l_tmp and u_tmp */
     if (l_new) OSQPVectorf_from_raw(l_tmp, l_new);
@@ -1242,9 +1242,9 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
       if (exitflag) return osqp_error(OSQP_DATA_VALIDATION_ERROR);
 
       /* Swap vectors.
-       * NB: Use work->z_prev & delta_y rather than l_tmp & u_tmp */
-      if (l_new) swap_vectors(&work->z_prev,  &work->data->l);
-      if (u_new) swap_vectors(&work->delta_y, &work->data->u);
+       * NB: Use work->z_prev & Adelta_x rather than l_tmp & u_tmp */
+      if (l_new) swap_vectors(&work->z_prev,   &work->data->l);
+      if (u_new) swap_vectors(&work->Adelta_x, &work->data->u);
 
 #if OSQP_EMBEDDED_MODE != 1
       /* Update rho_vec and refactor if constraints type changes */
-- 
2.43.0


From 60237bb575b594929a14b6369d18cf02ca9c48c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:33 +0000
Subject: [PATCH 18/41] fix: refuse calls on a solver whose setup was not
 completed

---
 src/osqp_api.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index b9b488f..580af5f 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -214,6 +214,17 @@ void OSQPCodegenDefines_free(OSQPCodegenDefines* defs) {
 /**********************
 * Main API Functions *
 **********************/
+
+/* Whether the setup of the solver has been completed (the linear system solver
+ * and the polishing workspace are the last parts that every solver needs) */
+static OSQPInt is_initialized(const OSQPSolver* solver) {
+  return solver && solver->work && solver->work->linsys_solver
+#ifndef OSQP_EMBEDDED_MODE
+         && solver->work->pol
+#endif /* ifndef OSQP_EMBEDDED_MODE */
+         ;
+}
+
 OSQPInt osqp_capabilities(void) {
   OSQPInt capabilities = 0;
 
@@ -650,7 +661,7 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
   // Check if solver has been initialized
-  if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  if (!is_initialized(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
 
   work = solver->work;
   settings = solver->settings;
@@ -1054,7 +1065,7 @@ exit:
 
 
 OSQPInt osqp_get_solution(OSQPSolver* solver, OSQPSolution* solution) {
-  if (!solver || !solver->work || !solver->settings || !solver->info) {
+  if (!is_initialized(solver)) {
     return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
   }
 
@@ -1208,7 +1219,7 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
   OSQPWorkspace* work;
 
   /* Check if workspace has been initialized */
-  if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  if (!is_initialized(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
   work = solver->work;
 
 #ifdef OSQP_ENABLE_PROFILING
@@ -1279,7 +1290,7 @@ OSQPInt osqp_warm_start(OSQPSolver*      solver,
   OSQPWorkspace* work;
 
   /* Check if workspace has been initialized */
-  if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  if (!is_initialized(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
   work = solver->work;
 
   /* Update warm_start setting to true */
@@ -1309,7 +1320,12 @@ OSQPInt osqp_warm_start(OSQPSolver*      solver,
 
 
 void osqp_cold_start(OSQPSolver *solver) {
-  OSQPWorkspace *work = solver->work;
+  OSQPWorkspace *work;
+
+  /* Check if workspace has been initialized */
+  if (!solver || !solver->work || !solver->work->linsys_solver) return;
+  work = solver->work;
+
   OSQPVectorf_set_scalar(work->x, 0.);
   OSQPVectorf_set_scalar(work->z, 0.);
   OSQPVectorf_set_scalar(work->y, 0.);
@@ -1334,7 +1350,7 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
   OSQPWorkspace *work;
 
   // Check if workspace has been initialized
-  if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  if (!is_initialized(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
   work = solver->work;
 
 #ifdef OSQP_ENABLE_PROFILING
@@ -1431,7 +1447,7 @@ OSQPInt osqp_update_rho(OSQPSolver* solver,
     OSQPWorkspace *work;
 
     // Check if workspace has been initialized
-    if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+    if (!is_initialized(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
     work = solver->work;
 
   // Check value of rho
@@ -1489,10 +1505,11 @@ OSQPInt osqp_update_rho(OSQPSolver* solver,
 OSQPInt osqp_update_settings(OSQPSolver*         solver,
                              const OSQPSettings* new_settings) {
 
-  OSQPSettings* settings = solver->settings;
+  OSQPSettings* settings;
 
   /* Check if workspace has been initialized */
-  if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  if (!is_initialized(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  settings = solver->settings;
 
   /* Validate settings */
   if (validate_settings(new_settings, 0)) return osqp_error(OSQP_SETTINGS_VALIDATION_ERROR);
-- 
2.43.0


From fec8532e8fb7a6988817c090bb793c8daf4b7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:33 +0000
Subject: [PATCH 19/41] fix: osqp_error_message must not read out of bounds for
 unknown codes

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 580af5f..c64443c 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -251,7 +251,7 @@ const char* osqp_version(void) {
 
 
 const char* osqp_error_message(OSQPInt error_flag) {
-  if( error_flag >= OSQP_LAST_ERROR_PLACE ) {
+  if( error_flag <= OSQP_NO_ERROR || error_flag >= OSQP_LAST_ERROR_PLACE ) {
     return OSQP_ERROR_MESSAGE[OSQP_LAST_ERROR_PLACE-1];
   }
 
-- 
2.43.0


From 5a7d9425b548a9b8242f6fdd5ac83a3a6d56bef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:38 +0000
Subject: [PATCH 20/41] fix: repeated retrieval must return the same
 infeasibility certificate

---
 src/auxil.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index c4b5738..007f7d5 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -646,24 +646,27 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
     // NB: It requires a division
     if ((info->status_val == OSQP_PRIMAL_INFEASIBLE) ||
         ((info->status_val == OSQP_PRIMAL_INFEASIBLE_INACCURATE))) {
+      // The certificate itself is left untouched so that it can be stored again
       norm_vec = OSQPVectorf_norm_inf(work->delta_y);
-      OSQPVectorf_mult_scalar(work->delta_y, 1. / norm_vec);
-      OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
+      OSQPVectorf_copy(work->z_prev, work->delta_y);
+      OSQPVectorf_mult_scalar(work->z_prev, 1. / norm_vec);
+      OSQPVectorf_to_raw(solution->prim_inf_cert, work->z_prev);
 
       /* Set dual infeasibility certificate to NaN */
-      OSQPVectorf_set_scalar(work->delta_x, OSQP_NAN);
-      OSQPVectorf_to_raw(solution->dual_inf_cert, work->delta_x);
+      OSQPVectorf_to_raw(solution->dual_inf_cert, work->x_prev);
     }
 
     if ((info->status_val == OSQP_DUAL_INFEASIBLE) ||
         ((info->status_val == OSQP_DUAL_INFEASIBLE_INACCURATE))) {
+      // The certificate itself is left untouched so that it can be stored again
       norm_vec = OSQPVectorf_norm_inf(work->delta_x);
-      OSQPVectorf_mult_scalar(work->delta_x, 1. / norm_vec);
-      OSQPVectorf_to_raw(solution->dual_inf_cert, work->delta_x);
 
       /* Set primal infeasibility certificate to NaN */
-      OSQPVectorf_set_scalar(work->delta_y, OSQP_NAN);
-      OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
+      OSQPVectorf_to_raw(solution->prim_inf_cert, work->z_prev);
+
+      OSQPVectorf_copy(work->x_prev, work->delta_x);
+      OSQPVectorf_mult_scalar(work->x_prev, 1. / norm_vec);
+      OSQPVectorf_to_raw(solution->dual_inf_cert, work->x_prev);
     }
 
     if (info->status_val == OSQP_NON_CVX) {
-- 
2.43.0


From cfd5eaf5e5c22987afbec6f27cbff00c7f12d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:02 +0000
Subject: [PATCH 21/41] fix: polishing must not ruin a residual that was
 already tiny

---
 src/polish.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/polish.c b/src/polish.c
index 5dbdfc6..ab0c4a3 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -466,12 +466,14 @@ OSQPInt polish(OSQPSolver* solver) {
                                                                     // are
                                                                     // reduced
                       (work->pol->prim_res < info->prim_res &&
-                       info->dual_res < 1e-10) ||              // Dual
+                       info->dual_res < 1e-10 &&
+                       work->pol->dual_res < 1e-10) ||         // Dual
                                                                     // residual
                                                                     // already
                                                                     // tiny
                       (work->pol->dual_res < info->dual_res &&
-                       info->prim_res < 1e-10);                // Primal
+                       info->prim_res < 1e-10 &&
+                       work->pol->prim_res < 1e-10);           // Primal
                                                                     // residual
                                                                     // already
                                                                     // tiny
-- 
2.43.0


From 6d4b00b14053ff439ead4bd719737d3c723c4dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 22/41] fix: never report a point that is not a number as
 solved

---
 src/auxil.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auxil.c b/src/auxil.c
index 007f7d5..ae09bc7 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -838,8 +838,10 @@ OSQPInt check_termination(OSQPSolver* solver,
   eps_dual_inf = settings->eps_dual_inf;
 
   // If residuals are too large, the problem is probably non convex
+  // (a point that is not a number makes the duality gap not a number)
   if ((info->prim_res > OSQP_INFTY) ||
-      (info->dual_res > OSQP_INFTY)){
+      (info->dual_res > OSQP_INFTY) ||
+      (info->duality_gap != info->duality_gap)) {
     // Looks like residuals are diverging. Probably the problem is non convex!
     // Terminate and report it
     update_status(info, OSQP_NON_CVX);
-- 
2.43.0


From 37f4650bc4e8de675160e415deb9604ea50faae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:50 +0000
Subject: [PATCH 23/41] fix: allocate the derivative solver's arrays with the
 library allocator they are freed with

---
 .../_common/lin_sys/qdldl/qdldl_interface.c   | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 70f3137..bc344fb 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -752,23 +752,23 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
     QDLDL_float *Lx = OSQP_NULL;
     QDLDL_int   *Li = OSQP_NULL;
 
-    QDLDL_int   *Lp   = (QDLDL_int*)malloc(sizeof(QDLDL_int)*(An+1));
-    QDLDL_float *D    = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
-    QDLDL_float *Dinv = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
+    QDLDL_int   *Lp   = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*(An+1));
+    QDLDL_float *D    = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
+    QDLDL_float *Dinv = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
 
     //permutation
-    QDLDL_int   *P    = (QDLDL_int*)malloc(sizeof(QDLDL_int)*(An));
+    QDLDL_int   *P    = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*(An));
     QDLDL_int   *Pinv = OSQP_NULL;
 
     //data for elim tree calculation
-    QDLDL_int *etree = (QDLDL_int*)malloc(sizeof(QDLDL_int)*An);
-    QDLDL_int *Lnz   = (QDLDL_int*)malloc(sizeof(QDLDL_int)*An);
+    QDLDL_int *etree = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*An);
+    QDLDL_int *Lnz   = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*An);
     QDLDL_int  sumLnz;
 
     //working data for factorisation
-    QDLDL_int   *iwork = (QDLDL_int*)malloc(sizeof(QDLDL_int)*(3*An));
-    QDLDL_bool  *bwork = (QDLDL_bool*)malloc(sizeof(QDLDL_bool)*An);
-    QDLDL_float *fwork = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
+    QDLDL_int   *iwork = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*(3*An));
+    QDLDL_bool  *bwork = (QDLDL_bool*)c_malloc(sizeof(QDLDL_bool)*An);
+    QDLDL_float *fwork = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
 
     //Data for results of A\b
     QDLDL_float *x = OSQP_NULL;
@@ -806,8 +806,8 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
 
     sumLnz = QDLDL_etree(An, adj_permuted->p, adj_permuted->i, iwork, Lnz, etree);
 
-    Li    = (QDLDL_int*)malloc(sizeof(QDLDL_int)*sumLnz);
-    Lx    = (QDLDL_float*)malloc(sizeof(QDLDL_float)*sumLnz);
+    Li    = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*sumLnz);
+    Lx    = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*sumLnz);
 
     if (!Li || !Lx) {
         retval = OSQP_MEM_ALLOC_ERROR;
@@ -816,8 +816,8 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
 
     QDLDL_factor(An, adj_permuted->p, adj_permuted->i, adj_permuted->x, Lp, Li, Lx, D, Dinv, Lnz, etree, bwork, iwork, fwork);
 
-    x = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
-    x_work = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
+    x = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
+    x_work = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
 
     if (!x || !x_work) {
         retval = OSQP_MEM_ALLOC_ERROR;
-- 
2.43.0


From e2b68f4a7418e88bea35816735ecb3edc3a0b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:49 +0000
Subject: [PATCH 24/41] fix: release everything when polishing runs out of
 memory

---
 src/polish.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/polish.c b/src/polish.c
index ab0c4a3..a45b791 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -201,13 +201,21 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
     // Allocate dz and rhs vectors
     rhs = OSQPVectorf_malloc(work->data->n + mred);
 
+    if (!rhs) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+
     //form views of the top/bottom parts of rhs and z
     rhs1 = OSQPVectorf_view(rhs,0,work->data->n);
     rhs2 = OSQPVectorf_view(rhs,work->data->n,mred);
     z1   = OSQPVectorf_view(z,0,work->data->n);
     z2   = OSQPVectorf_view(z,work->data->n,mred);
 
-    if (!rhs || !rhs1 || !rhs2 || !z1 || !z2) {
+    if (!rhs1 || !rhs2 || !z1 || !z2) {
+      OSQPVectorf_free(rhs);
+      OSQPVectorf_view_free(rhs1);
+      OSQPVectorf_view_free(rhs2);
+      OSQPVectorf_view_free(z1);
+      OSQPVectorf_view_free(z2);
+
       return osqp_error(OSQP_MEM_ALLOC_ERROR);
     }
 
@@ -375,6 +383,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
 
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
@@ -387,7 +396,9 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
+    OSQPVectorf_free(rhs_red);
 
     return exitflag;
   }
@@ -399,6 +410,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
 
@@ -414,6 +426,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     // Memory clean-up
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
     OSQPVectorf_free(pol_sol);
@@ -437,6 +450,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     // Memory clean-up
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
     OSQPVectorf_free(pol_sol);
@@ -449,7 +463,22 @@ OSQPInt polish(OSQPSolver* solver) {
   // Store the polished solution (x,z,y)
   OSQPVectorf_copy(work->pol->x, pol_sol_xview);   // pol->x
   OSQPMatrix_Axpy(work->data->A, work->pol->x, work->pol->z, 1.0, 0.0);
-  get_ypol_from_yred(work, pol_sol_yview);     // pol->y
+  exitflag = get_ypol_from_yred(work, pol_sol_yview);     // pol->y
+
+  if (exitflag) {
+    // Polishing failed
+    info->status_polish = OSQP_POLISH_FAILED;
+
+    // Memory clean-up
+    plsh->free(plsh);
+    OSQPMatrix_free(work->pol->Ared);
+    OSQPVectorf_free(rhs_red);
+    OSQPVectorf_free(pol_sol);
+    OSQPVectorf_view_free(pol_sol_xview);
+    OSQPVectorf_view_free(pol_sol_yview);
+
+    return exitflag;
+  }
 
   // Ensure z is in C and y is in the normal cone N_C(z)
   // by doing: y <- y + z;  z <- proj_C(y);  y <- y - z
-- 
2.43.0


From ad57938152a245c09beb681af3bc7319f86eeaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:32 +0000
Subject: [PATCH 25/41] fix: check every allocation in setup and matrix
 construction

---
 algebra/mkl/matrix.c | 12 +++++++++++-
 src/osqp_api.c       | 31 +++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 0217980..2e59246 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -17,6 +17,8 @@ OSQPInt OSQPMatrix_is_eq(const OSQPMatrix* A,
           csc_is_eq(A->csc, B->csc, tol) );
 }
 
+static void mkl_csc_spfree(OSQPCscMatrix* M);
+
 /* Special routine to allocate a OSQPCscMatrix using the MKL memory routines
    instead of the normal memory routines */
 static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPInt hasData) {
@@ -34,6 +36,11 @@ static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPI
   csc->i     = hasData ? blas_malloc(nzmax * sizeof(OSQPInt)) : OSQP_NULL;
   csc->x     = hasData ? blas_malloc(nzmax * sizeof(OSQPFloat)) : OSQP_NULL;
 
+  if (!csc->p || (hasData && csc->nzmax && (!csc->i || !csc->x))) {
+    mkl_csc_spfree(csc);
+    return OSQP_NULL;
+  }
+
   return csc;
 }
 
@@ -342,7 +349,10 @@ static OSQPCscMatrix* mkl_submatrix_byrows(const OSQPCscMatrix* A,
 
   // Form R = A(rows,:), where nrows = sum(rows != 0)
   R = mkl_csc_spalloc(Rm, An, nzR, 1);
-  if (!R) return OSQP_NULL;
+  if (!R) {
+    c_free(rridx);
+    return OSQP_NULL;
+  }
 
   // no active constraints
   if (Rm == 0) {
diff --git a/src/osqp_api.c b/src/osqp_api.c
index c64443c..4205799 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -66,6 +66,16 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   mat->n  = n;
   mat->nz = -1;
   mat->p  = (OSQPInt*) c_calloc(n + 1, sizeof(OSQPInt));
+  mat->i  = (OSQPInt*) c_malloc(min_elem * sizeof(OSQPInt));
+  mat->x  = (OSQPFloat*) c_malloc(min_elem * sizeof(OSQPFloat));
+
+  // We own the arrays
+  mat->owned = 1;
+
+  if (!mat->p || (min_elem && (!mat->i || !mat->x))) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
 
   if( m < n) {
     // Fewer rows than columns
@@ -84,8 +94,6 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   }
 
   mat->nzmax = min_elem;
-  mat->i     = (OSQPInt*) c_malloc(min_elem * sizeof(OSQPInt));
-  mat->x     = (OSQPFloat*) c_malloc(min_elem * sizeof(OSQPFloat));
 
   for(i=0; i < min_elem; i++) {
     mat->i[i] = i;
@@ -95,9 +103,6 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   // Last element of column vector is always the number of entries
   mat->p[n] = min_elem;
 
-  // We own the arrays
-  mat->owned = 1;
-
   return mat;
 }
 
@@ -140,6 +145,11 @@ OSQPCscMatrix* OSQPCscMatrix_zeros(OSQPInt    m,
   // We own the arrays
   mat->owned = 1;
 
+  if (!mat->p) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
+
   return mat;
 }
 
@@ -428,13 +438,13 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   work->x           = OSQPVectorf_calloc(n);
   work->z           = OSQPVectorf_calloc(m);
   work->xz_tilde    = OSQPVectorf_calloc(n + m);
-  work->xtilde_view = OSQPVectorf_view(work->xz_tilde,0,n);
-  work->ztilde_view = OSQPVectorf_view(work->xz_tilde,n,m);
   work->x_prev      = OSQPVectorf_calloc(n);
   work->z_prev      = OSQPVectorf_calloc(m);
   work->y           = OSQPVectorf_calloc(m);
   if (!(work->x) || !(work->z) || !(work->xz_tilde))
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  work->xtilde_view = OSQPVectorf_view(work->xz_tilde,0,n);
+  work->ztilde_view = OSQPVectorf_view(work->xz_tilde,n,m);
   if (!(work->xtilde_view) || !(work->ztilde_view))
       return osqp_error(OSQP_MEM_ALLOC_ERROR);
   if (!(work->x_prev) || !(work->z_prev) || !(work->y))
@@ -468,7 +478,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   // Perform scaling
   if (settings->scaling) {
     // Allocate scaling structure
-    work->scaling = c_malloc(sizeof(OSQPScaling));
+    work->scaling = c_calloc(1, sizeof(OSQPScaling));
     if (!(work->scaling)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
     work->scaling->D    = OSQPVectorf_calloc(n);
     work->scaling->Dinv = OSQPVectorf_calloc(n);
@@ -524,7 +534,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   osqp_cold_start(solver);
 
   // Initialize active constraints structure
-  work->pol = c_malloc(sizeof(OSQPPolish));
+  work->pol = c_calloc(1, sizeof(OSQPPolish));
   if (!(work->pol)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
   work->pol->active_flags = OSQPVectori_malloc(m);
   work->pol->x            = OSQPVectorf_malloc(n);
@@ -625,7 +635,8 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   work->derivative_data->ryu = OSQPVectorf_malloc(m);
   work->derivative_data->rhs = OSQPVectorf_malloc(2 * (n + 2*m));
   if (!(work->derivative_data->y_u) || !(work->derivative_data->y_l) ||
-    !(work->derivative_data->ryl) || !(work->derivative_data->ryu))
+    !(work->derivative_data->ryl) || !(work->derivative_data->ryu) ||
+    !(work->derivative_data->rhs))
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
 # endif /* ifdef OSQP_ENABLE_DERIVATIVES */
 
-- 
2.43.0


From de5711cf83127db934ea715004fc435292ea0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:32 +0000
Subject: [PATCH 26/41] fix: linear solvers must survive failed allocations
 during initialization

---
 .../_common/lin_sys/qdldl/qdldl_interface.c   | 64 +++++++++++++++++--
 .../mkl/lin_sys/direct/pardiso_interface.c    | 42 +++++++++---
 .../mkl/lin_sys/indirect/mkl-cg_interface.c   | 45 +++++++++----
 3 files changed, 125 insertions(+), 26 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index bc344fb..017f35d 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -75,6 +75,9 @@ void free_linsys_solver_qdldl(qdldl_solver* s) {
 }
 
 
+// Returned by LDL_factor when the factors cannot be allocated
+#define LDL_OUT_OF_MEMORY (-3)
+
 /**
  * Compute LDL factorization of matrix A
  * @param  A    Matrix to be factorized
@@ -110,6 +113,7 @@ static OSQPInt LDL_factor(OSQPCscMatrix* A,
     p->L->i = (OSQPInt *)c_malloc(sizeof(OSQPInt)*sum_Lnz);
     p->L->x = (OSQPFloat *)c_malloc(sizeof(OSQPFloat)*sum_Lnz);
     p->L->nzmax = sum_Lnz;
+    if (sum_Lnz && (!(p->L->i) || !(p->L->x))) return LDL_OUT_OF_MEMORY;
 
     // Factor matrix
     osqp_profiler_sec_push(OSQP_PROFILER_SEC_LINSYS_NUM_FAC);
@@ -147,10 +151,12 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
     OSQPInt*   Pinv;
     OSQPInt*   KtoPKPt;
     OSQPInt    i; // Indexing
+    OSQPInt    nnz = (*KKT)->p[(*KKT)->n];
 
     OSQPCscMatrix* KKT_temp;
 
     info = (OSQPFloat *)c_malloc(AMD_INFO * sizeof(OSQPFloat));
+    if (!info) return -1;
 
     // Compute permutation matrix P using AMD
 #ifdef OSQP_USE_LONG
@@ -167,6 +173,10 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
 
     // Inverse of the permutation vector
     Pinv = csc_pinv(p->P, (*KKT)->n);
+    if (!Pinv) {
+        c_free(info);
+        return -1;
+    }
 
     // Permute KKT matrix
     if (!PtoKKT && !AtoKKT && !rhotoKKT){  // No vectors to be stored
@@ -175,8 +185,19 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
     }
     else {
         // Allocate vector of mappings from unpermuted to permuted
-        KtoPKPt = c_malloc((*KKT)->p[(*KKT)->n] * sizeof(OSQPInt));
+        KtoPKPt = c_malloc(nnz * sizeof(OSQPInt));
+        if (nnz && !KtoPKPt) {
+            c_free(Pinv);
+            c_free(info);
+            return -1;
+        }
         KKT_temp = csc_symperm((*KKT), Pinv, KtoPKPt, 1);
+        if (!KKT_temp) {
+            c_free(KtoPKPt);
+            c_free(Pinv);
+            c_free(info);
+            return -1;
+        }
 
         // Update vectors PtoKKT, AtoKKT and rhotoKKT
         if (PtoKKT){
@@ -199,6 +220,13 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
         c_free(KtoPKPt);
     }
 
+    // Without a new matrix the previous one stays
+    if (!KKT_temp) {
+        c_free(Pinv);
+        c_free(info);
+        return -1;
+    }
+
     // Cleanup
     // Free previous KKT matrix and assign pointer to new one
     csc_spfree((*KKT));
@@ -226,12 +254,14 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     OSQPInt    m, n;      // Dimensions of A
     OSQPInt    n_plus_m;  // Define n_plus_m dimension
     OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
+    OSQPInt    status = 0; // Outcome of permuting and factorizing the KKT matrix
     // Polishing is regularized with delta rather than sigma
     OSQPFloat  sigma = polishing ? settings->delta : settings->sigma;
 
     // Allocate private structure to store KKT factorization
     qdldl_solver* s = c_calloc(1, sizeof(qdldl_solver));
     *sp = s;
+    if (!s) return OSQP_LINSYS_SOLVER_INIT_ERROR;
 
     // Size of KKT
     n = P->csc->n;
@@ -275,6 +305,11 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     //      L will be allocated during the factorization depending on the
     //      resulting number of elements.
     s->L = c_calloc(1, sizeof(OSQPCscMatrix));
+    if (!(s->L)) {
+        free_linsys_solver_qdldl(s);
+        *sp = OSQP_NULL;
+        return OSQP_LINSYS_SOLVER_INIT_ERROR;
+    }
     s->L->m  = n_plus_m;
     s->L->n  = n_plus_m;
     s->L->nz = -1;
@@ -312,6 +347,14 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     s->bwork = (QDLDL_bool *)c_malloc(sizeof(QDLDL_bool)*n_plus_m);
     s->fwork = (QDLDL_float *)c_malloc(sizeof(QDLDL_float)*n_plus_m);
 
+    if (!(s->L->p) || !(s->Dinv) || !(s->D) || !(s->P) || !(s->bp) || !(s->sol) ||
+        (rho_vec && m && !(s->rho_inv_vec)) || !(s->etree) || !(s->Lnz) ||
+        !(s->iwork) || !(s->bwork) || !(s->fwork)) {
+        free_linsys_solver_qdldl(s);
+        *sp = OSQP_NULL;
+        return OSQP_LINSYS_SOLVER_INIT_ERROR;
+    }
+
     // Form and permute KKT matrix
     if (polishing){ // Called from polish()
 
@@ -322,7 +365,7 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
 
         // Permute matrix
         if (KKT_temp)
-            permute_KKT(&KKT_temp, s, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL);
+            status = permute_KKT(&KKT_temp, s, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL);
     }
     else { // Called from ADMM algorithm
 
@@ -330,6 +373,13 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
         s->PtoKKT = c_malloc(P->csc->p[n] * sizeof(OSQPInt));
         s->AtoKKT = c_malloc(A->csc->p[n] * sizeof(OSQPInt));
         s->rhotoKKT = c_malloc(m * sizeof(OSQPInt));
+        if ((P->csc->p[n] && !(s->PtoKKT)) ||
+            (A->csc->p[n] && !(s->AtoKKT)) ||
+            (m            && !(s->rhotoKKT))) {
+            free_linsys_solver_qdldl(s);
+            *sp = OSQP_NULL;
+            return OSQP_LINSYS_SOLVER_INIT_ERROR;
+        }
 
         // Use p->rho_inv_vec for storing param2 = rho_inv_vec
         if (rho_vec) {
@@ -349,12 +399,13 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
 
         // Permute matrix
         if (KKT_temp){
-            permute_KKT(&KKT_temp, s, P->csc->p[n], A->csc->p[n], m, s->PtoKKT, s->AtoKKT, s->rhotoKKT);
+            status = permute_KKT(&KKT_temp, s, P->csc->p[n], A->csc->p[n], m, s->PtoKKT, s->AtoKKT, s->rhotoKKT);
         }
     }
 
     // Check if matrix has been created
-    if (!KKT_temp){
+    if (!KKT_temp || (status < 0)){
+        csc_spfree(KKT_temp);
         c_eprint("Error forming and permuting KKT matrix");
         free_linsys_solver_qdldl(s);
         *sp = OSQP_NULL;
@@ -362,11 +413,12 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     }
 
     // Factorize the KKT matrix
-    if (LDL_factor(KKT_temp, s, n) < 0) {
+    status = LDL_factor(KKT_temp, s, n);
+    if (status < 0) {
         csc_spfree(KKT_temp);
         free_linsys_solver_qdldl(s);
         *sp = OSQP_NULL;
-        return OSQP_NONCVX_ERROR;
+        return (status == LDL_OUT_OF_MEMORY) ? OSQP_LINSYS_SOLVER_INIT_ERROR : OSQP_NONCVX_ERROR;
     }
 
     if (polishing){ // If KKT passed, assign it to KKT_temp
diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index 6436f65..cb0cd06 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -36,14 +36,16 @@ void warm_start_linsys_solver_pardiso(pardiso_solver*    s,
 void free_linsys_solver_pardiso(pardiso_solver* s) {
   if (s) {
 
-    // Free pardiso solver using internal function
-    s->phase = PARDISO_CLEANUP;
-    PARDISO (s->pt, &(s->maxfct), &(s->mnum), &(s->mtype), &(s->phase),
-             &(s->nKKT), &(s->fdum), s->KKT_p, s->KKT_i, &(s->idum), &(s->nrhs),
-             s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
-
-    if ( s->error != 0 ){
-      c_eprint("Error during MKL Pardiso cleanup: %d", (int)s->error);
+    // Free pardiso solver using internal function (if it was ever used)
+    if (s->phase) {
+      s->phase = PARDISO_CLEANUP;
+      PARDISO (s->pt, &(s->maxfct), &(s->mnum), &(s->mtype), &(s->phase),
+               &(s->nKKT), &(s->fdum), s->KKT_p, s->KKT_i, &(s->idum), &(s->nrhs),
+               s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
+
+      if ( s->error != 0 ){
+        c_eprint("Error during MKL Pardiso cleanup: %d", (int)s->error);
+      }
     }
     // Check each attribute of the structure and free it if it exists
     if (s->KKT)         csc_spfree(s->KKT);
@@ -83,6 +85,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   // Allocate private structure to store KKT factorization
   pardiso_solver *s = c_calloc(1, sizeof(pardiso_solver));
   *sp = s;
+  if (!s) return OSQP_LINSYS_SOLVER_INIT_ERROR;
 
   // Size of KKT
   n = P->csc->n;
@@ -122,6 +125,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   }
   // else it is NULL
 
+  if (!(s->bp) || !(s->sol) || (rho_vec && !(s->rho_inv_vec))) {
+    free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
+    return OSQP_LINSYS_SOLVER_INIT_ERROR;
+  }
+
   // Form KKT matrix
   if (polishing){ // Called from polish()
     s->KKT = form_KKT(P->csc,A->csc,
@@ -136,6 +145,14 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->AtoKKT   = c_malloc(A->csc->p[n] * sizeof(OSQPInt));
     s->rhotoKKT = c_malloc(m * sizeof(OSQPInt));
 
+    if ((P->csc->p[n] && !(s->PtoKKT)) ||
+        (A->csc->p[n] && !(s->AtoKKT)) ||
+        (m            && !(s->rhotoKKT))) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_LINSYS_SOLVER_INIT_ERROR;
+    }
+
     // Use s->rho_inv_vec for storing param2 = rho_inv_vec
     if (rho_vec) {
         rhov = rho_vec->values;
@@ -157,6 +174,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   if (!(s->KKT)) {
 	  c_eprint("Error in forming KKT matrix");
     free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
     return OSQP_LINSYS_SOLVER_INIT_ERROR;
   } else {
     // Adjust indexing for Pardiso
@@ -164,6 +182,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->KKT_i = c_malloc((nnzKKT) * sizeof(OSQPInt));
     s->KKT_p = c_malloc((n_plus_m + 1) * sizeof(OSQPInt));
 
+    if ((nnzKKT && !(s->KKT_i)) || !(s->KKT_p)) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_LINSYS_SOLVER_INIT_ERROR;
+    }
+
     for(i = 0; i < nnzKKT; i++){
       s->KKT_i[i] = s->KKT->i[i] + 1;
     }
@@ -237,6 +261,8 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   if ( s->iparm[21] < n ) {
     // Error: Number of positive eigenvalues of KKT should be the same as dimension of P
     c_eprint("KKT matrix has fewer positive eigenvalues than it should. The problem seems to be non-convex.");
+    free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
     return OSQP_NONCVX_ERROR;
   }
 
diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 29be5cc..a274594 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -92,8 +92,9 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   OSQPInt m = A->csc->m;
   OSQPInt n = P->csc->n;
   MKL_INT status;
-  mklcg_solver* s = (mklcg_solver *)c_malloc(sizeof(mklcg_solver));
+  mklcg_solver* s = (mklcg_solver *)c_calloc(1, sizeof(mklcg_solver));
   *sp = s;
+  if (!s) return OSQP_LINSYS_SOLVER_INIT_ERROR;
 
   //Just hold on to pointers to the problem
   //data, no copies or processing required
@@ -110,6 +111,11 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //if polish is false, use the rho_vec we get.
   //Otherwise, use rho_vec = ones.*(1/delta)
   s->rho_vec = OSQPVectorf_malloc(m);
+  if (!(s->rho_vec)) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_LINSYS_SOLVER_INIT_ERROR;
+  }
   if (!polish) {
       if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
       else         OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
@@ -152,13 +158,6 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //Workspace for CG products and polishing
   s->ywork = OSQPVectorf_malloc(m);
 
-  //make subviews for the rhs.   OSQP passes
-  //a different RHS pointer at every iteration,
-  //so we will need to update these views every
-  //time we solve. Just point them at x for now.
-  s->r1 = OSQPVectorf_view(s->x, 0, 0);
-  s->r2 = OSQPVectorf_view(s->x, 0, 0);
-
   //Allocate a 4*n vector for the MKL workspace
   // 1:n     = Vector to multiply by the matrix
   // n+1:2n  = Vector after multiplying by the matrix
@@ -166,6 +165,23 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   // 3n+1:4n = Vector after application of the preconditioner
   s->tmp = OSQPVectorf_malloc(4*n);
 
+  // Preconditioner
+  s->precond     = OSQPVectorf_malloc(n);
+  s->precond_inv = OSQPVectorf_malloc(n);
+
+  if (!(s->x) || !(s->ywork) || !(s->tmp) || !(s->precond) || !(s->precond_inv)) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_LINSYS_SOLVER_INIT_ERROR;
+  }
+
+  //make subviews for the rhs.   OSQP passes
+  //a different RHS pointer at every iteration,
+  //so we will need to update these views every
+  //time we solve. Just point them at x for now.
+  s->r1 = OSQPVectorf_view(s->x, 0, 0);
+  s->r2 = OSQPVectorf_view(s->x, 0, 0);
+
   // Create subviews to tmp to aid the matrix-vector multiplication
   s->mvm_pre  = OSQPVectorf_view(s->tmp, 0, n);
   s->mvm_post = OSQPVectorf_view(s->tmp, n, n);
@@ -174,11 +190,16 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->precond_pre  = OSQPVectorf_view(s->tmp, 2*n, n);
   s->precond_post = OSQPVectorf_view(s->tmp, 3*n, n);
 
+  if (!(s->r1) || !(s->r2) || !(s->mvm_pre) || !(s->mvm_post) ||
+      !(s->precond_pre) || !(s->precond_post)) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_LINSYS_SOLVER_INIT_ERROR;
+  }
+
   status = cg_solver_init(s);
 
   // Compute the preconditioner
-  s->precond     = OSQPVectorf_malloc(n);
-  s->precond_inv = OSQPVectorf_malloc(n);
   cg_update_precond(s);
 
   return status;
@@ -378,7 +399,7 @@ OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
 
 void free_linsys_mklcg(mklcg_solver* s) {
 
-  if (s->tmp) {
+  if (s) {
     OSQPVectorf_free(s->tmp);
     OSQPVectorf_free(s->rho_vec);
     OSQPVectorf_free(s->x);
@@ -391,6 +412,6 @@ void free_linsys_mklcg(mklcg_solver* s) {
     OSQPVectorf_view_free(s->mvm_post);
     OSQPVectorf_view_free(s->precond_pre);
     OSQPVectorf_view_free(s->precond_post);
+    c_free(s);
   }
-  c_free(s);
 }
-- 
2.43.0


From 98995aeb1ad714632a1d797c09fe23a7be14c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 27/41] fix: leave the profiling sections when setup or a solve
 fails

---
 .../mkl/lin_sys/direct/pardiso_interface.c    |  1 +
 src/osqp_api.c                                | 68 ++++++++++---------
 2 files changed, 38 insertions(+), 31 deletions(-)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index cb0cd06..b1682e4 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -299,6 +299,7 @@ OSQPInt solve_linsys_pardiso(pardiso_solver* s,
 
   if ( s->error != 0 ){
     c_eprint("Error during linear system solution: %d", (int)s->error);
+    osqp_profiler_sec_pop(OSQP_PROFILER_SEC_LINSYS_SOLVE);
     return 1;
   }
 
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 4205799..d428915 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -350,6 +350,12 @@ void osqp_set_default_settings(OSQPSettings* settings) {
 #ifndef OSQP_EMBEDDED_MODE
 
 
+// Report an error in osqp_setup and leave its profiling section
+static OSQPInt setup_error(enum osqp_error_type error_code) {
+  osqp_profiler_sec_pop(OSQP_PROFILER_SEC_SETUP);
+  return _osqp_error(error_code, "osqp_setup");
+}
+
 OSQPInt osqp_setup(OSQPSolver**         solverp,
                    const OSQPCscMatrix* P,
                    const OSQPFloat*     q,
@@ -376,58 +382,58 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
 
   // Allocate empty solver
   solver = c_calloc(1, sizeof(OSQPSolver));
-  if (!(solver)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  if (!(solver)) return setup_error(OSQP_MEM_ALLOC_ERROR);
   *solverp = solver;
 
   // Allocate empty workspace
   work   = c_calloc(1, sizeof(OSQPWorkspace));
-  if (!(work)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  if (!(work)) return setup_error(OSQP_MEM_ALLOC_ERROR);
   solver->work = work;
 
   // Allocate empty info struct
   solver->info = c_calloc(1, sizeof(OSQPInfo));
-  if (!(solver->info)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  if (!(solver->info)) return setup_error(OSQP_MEM_ALLOC_ERROR);
 
   // Start and allocate directly timer
 # ifdef OSQP_ENABLE_PROFILING
   work->timer = OSQPTimer_new();
-  if (!(work->timer)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  if (!(work->timer)) return setup_error(OSQP_MEM_ALLOC_ERROR);
   osqp_tic(work->timer);
 # endif /* ifdef OSQP_ENABLE_PROFILING */
 
   // Initialize algebra libraries
   exitflag = osqp_algebra_init_libs(settings->device);
-  if (exitflag) return osqp_error(OSQP_ALGEBRA_LOAD_ERROR);
+  if (exitflag) return setup_error(OSQP_ALGEBRA_LOAD_ERROR);
 
   // Copy problem data into workspace
   work->data = c_calloc(1, sizeof(OSQPData));
-  if (!(work->data)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  if (!(work->data)) return setup_error(OSQP_MEM_ALLOC_ERROR);
   work->data->m = m;
   work->data->n = n;
 
   // objective function
   work->data->P = OSQPMatrix_new_from_csc(P,1);   //copy assuming triu form
   work->data->q = OSQPVectorf_new(q,n);
-  if (!(work->data->P) || !(work->data->q)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  if (!(work->data->P) || !(work->data->q)) return setup_error(OSQP_MEM_ALLOC_ERROR);
 
   // Constraints
   work->data->A = OSQPMatrix_new_from_csc(A,0); //assumes non-triu form (i.e. full)
-  if (!(work->data->A)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  if (!(work->data->A)) return setup_error(OSQP_MEM_ALLOC_ERROR);
   work->data->l = OSQPVectorf_new(l,m);
   work->data->u = OSQPVectorf_new(u,m);
   if (!(work->data->l) || !(work->data->u))
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    return setup_error(OSQP_MEM_ALLOC_ERROR);
 
   if (settings->rho_is_vec) {
     // Vectorized rho parameter
     work->rho_vec     = OSQPVectorf_malloc(m);
     work->rho_inv_vec = OSQPVectorf_malloc(m);
     if (!(work->rho_vec) || !(work->rho_inv_vec))
-      return osqp_error(OSQP_MEM_ALLOC_ERROR);
+      return setup_error(OSQP_MEM_ALLOC_ERROR);
 
     // Type of constraints
     work->constr_type = OSQPVectori_calloc(m);
-    if (!(work->constr_type)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    if (!(work->constr_type)) return setup_error(OSQP_MEM_ALLOC_ERROR);
   }
   else {
     work->rho_vec     = OSQP_NULL;
@@ -442,13 +448,13 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   work->z_prev      = OSQPVectorf_calloc(m);
   work->y           = OSQPVectorf_calloc(m);
   if (!(work->x) || !(work->z) || !(work->xz_tilde))
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    return setup_error(OSQP_MEM_ALLOC_ERROR);
   work->xtilde_view = OSQPVectorf_view(work->xz_tilde,0,n);
   work->ztilde_view = OSQPVectorf_view(work->xz_tilde,n,m);
   if (!(work->xtilde_view) || !(work->ztilde_view))
-      return osqp_error(OSQP_MEM_ALLOC_ERROR);
+      return setup_error(OSQP_MEM_ALLOC_ERROR);
   if (!(work->x_prev) || !(work->z_prev) || !(work->y))
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    return setup_error(OSQP_MEM_ALLOC_ERROR);
 
   // Primal and dual residuals variables
   work->Ax  = OSQPVectorf_calloc(m);
@@ -465,28 +471,28 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   work->Adelta_x = OSQPVectorf_calloc(m);
 
   if (!(work->Ax) || !(work->Px) || !(work->Aty))
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    return setup_error(OSQP_MEM_ALLOC_ERROR);
   if (!(work->delta_y) || !(work->Atdelta_y))
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    return setup_error(OSQP_MEM_ALLOC_ERROR);
   if (!(work->delta_x) || !(work->Pdelta_x) || !(work->Adelta_x))
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    return setup_error(OSQP_MEM_ALLOC_ERROR);
 
   // Copy settings
   solver->settings = copy_settings(settings);
-  if (!(solver->settings)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  if (!(solver->settings)) return setup_error(OSQP_MEM_ALLOC_ERROR);
 
   // Perform scaling
   if (settings->scaling) {
     // Allocate scaling structure
     work->scaling = c_calloc(1, sizeof(OSQPScaling));
-    if (!(work->scaling)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    if (!(work->scaling)) return setup_error(OSQP_MEM_ALLOC_ERROR);
     work->scaling->D    = OSQPVectorf_calloc(n);
     work->scaling->Dinv = OSQPVectorf_calloc(n);
     work->scaling->E    = OSQPVectorf_calloc(m);
     work->scaling->Einv = OSQPVectorf_calloc(m);
     if (!(work->scaling->D) || !(work->scaling->Dinv) ||
         !(work->scaling->E) || !(work->scaling->Einv))
-      return osqp_error(OSQP_MEM_ALLOC_ERROR);
+      return setup_error(OSQP_MEM_ALLOC_ERROR);
 
 
     // Allocate workspace variables used in scaling
@@ -494,7 +500,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
     work->D_temp_A = OSQPVectorf_calloc(n);
     work->E_temp   = OSQPVectorf_calloc(m);
     if (!(work->D_temp) || !(work->D_temp_A) || !(work->E_temp))
-      return osqp_error(OSQP_MEM_ALLOC_ERROR);
+      return setup_error(OSQP_MEM_ALLOC_ERROR);
 
     // Scale data
     osqp_profiler_sec_push(OSQP_PROFILER_SEC_SCALE);
@@ -524,10 +530,10 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
 
   if (exitflag == OSQP_NONCVX_ERROR) {
     update_status(solver->info, OSQP_NON_CVX);
-    return osqp_error(exitflag);
+    return setup_error(exitflag);
   }
   else if (exitflag) {
-    return osqp_error(exitflag);
+    return setup_error(exitflag);
   }
 
   // Initialize variables x, y, z to 0
@@ -535,21 +541,21 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
 
   // Initialize active constraints structure
   work->pol = c_calloc(1, sizeof(OSQPPolish));
-  if (!(work->pol)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  if (!(work->pol)) return setup_error(OSQP_MEM_ALLOC_ERROR);
   work->pol->active_flags = OSQPVectori_malloc(m);
   work->pol->x            = OSQPVectorf_malloc(n);
   work->pol->z            = OSQPVectorf_malloc(m);
   work->pol->y            = OSQPVectorf_malloc(m);
-  if (!(work->pol->x)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  if (!(work->pol->x)) return setup_error(OSQP_MEM_ALLOC_ERROR);
   if (!(work->pol->active_flags) ||
       !(work->pol->z) || !(work->pol->y))
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    return setup_error(OSQP_MEM_ALLOC_ERROR);
 
   // Allocate solution
   if (settings->allocate_solution) {
     solver->solution = c_calloc(1, sizeof(OSQPSolution));
 
-    if (!(solver->solution)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    if (!(solver->solution)) return setup_error(OSQP_MEM_ALLOC_ERROR);
 
     solver->solution->x             = c_calloc(1, n * sizeof(OSQPFloat));
     solver->solution->y             = c_calloc(1, m * sizeof(OSQPFloat));
@@ -557,10 +563,10 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
     solver->solution->dual_inf_cert = c_calloc(1, n * sizeof(OSQPFloat));
 
     if ( !(solver->solution->x) || !(solver->solution->dual_inf_cert) )
-      return osqp_error(OSQP_MEM_ALLOC_ERROR);
+      return setup_error(OSQP_MEM_ALLOC_ERROR);
 
     if ( m && (!(solver->solution->y) || !(solver->solution->prim_inf_cert)) )
-      return osqp_error(OSQP_MEM_ALLOC_ERROR);
+      return setup_error(OSQP_MEM_ALLOC_ERROR);
   }
   else {
     solver->solution = OSQP_NULL;
@@ -628,7 +634,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
 
 # ifdef OSQP_ENABLE_DERIVATIVES
   work->derivative_data = c_calloc(1, sizeof(OSQPDerivativeData));
-  if (!(work->derivative_data)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  if (!(work->derivative_data)) return setup_error(OSQP_MEM_ALLOC_ERROR);
   work->derivative_data->y_u = OSQPVectorf_malloc(m);
   work->derivative_data->y_l = OSQPVectorf_malloc(m);
   work->derivative_data->ryl = OSQPVectorf_malloc(m);
@@ -637,7 +643,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   if (!(work->derivative_data->y_u) || !(work->derivative_data->y_l) ||
     !(work->derivative_data->ryl) || !(work->derivative_data->ryu) ||
     !(work->derivative_data->rhs))
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    return setup_error(OSQP_MEM_ALLOC_ERROR);
 # endif /* ifdef OSQP_ENABLE_DERIVATIVES */
 
   osqp_profiler_sec_pop(OSQP_PROFILER_SEC_SETUP);
-- 
2.43.0


From 0e46aa63290b526f36dae8a6652e7884d5f0dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 28/41] fix: refuse missing bounds and unknown CG
 preconditioners

---
 src/auxil.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index ae09bc7..f23a84b 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -1015,6 +1015,11 @@ OSQPInt validate_data(const OSQPCscMatrix* P,
   }
 
   // Lower and upper bounds
+  if ((m > 0) && (!l || !u)) {
+    c_eprint("Missing lower or upper bounds");
+    return 1;
+  }
+
   for (j = 0; j < m; j++) {
     if (l[j] > u[j]) {
       c_eprint("Lower bound at index %d is greater than upper bound: %.4e > %.4e",
@@ -1137,6 +1142,12 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
+  if (settings->cg_precond != OSQP_NO_PRECONDITIONER &&
+      settings->cg_precond != OSQP_DIAGONAL_PRECONDITIONER) {
+    c_eprint("cg_precond not a valid choice");
+    return 1;
+  }
+
   if (from_setup &&
       settings->adaptive_rho < 0 ||
       settings->adaptive_rho >= _OSQP_ADAPTIVE_RHO_UPDATE_LAST_VALUE) {
-- 
2.43.0


From 3b63c0e41bb8a968f3567253e75d4c869c04729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 29/41] fix: an interrupted solve must not swallow the time of
 later rho updates

---
 src/osqp_api.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index d428915..24bb22c 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1049,9 +1049,6 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
 
   // Indicate that the update_time should be set to zero
   work->clear_update_time = 1;
-
-  // Indicate that osqp_update_rho is not called from osqp_solve
-  work->rho_update_from_solve = 0;
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
 #ifdef OSQP_ENABLE_PRINTING
@@ -1070,6 +1067,11 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
 exit:
 #endif /* if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1 */
 
+#ifdef OSQP_ENABLE_PROFILING
+  // Indicate that osqp_update_rho is not called from osqp_solve
+  work->rho_update_from_solve = 0;
+#endif /* ifdef OSQP_ENABLE_PROFILING */
+
 #ifdef OSQP_ENABLE_INTERRUPT
   // Restore previous signal handler
   osqp_end_interrupt_listener();
-- 
2.43.0


From a64453dbc2aa0af6c65dd5f9cce94579a4284889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:14 +0000
Subject: [PATCH 30/41] fix: let solves in several threads share the interrupt
 handler

Each solve saved the SIGINT disposition it found into one global and put it
back when it ended, so two overlapping solves could leave the handler of OSQP
installed for good, and one solve starting could clear the interrupt another
had yet to see.
---
 src/interrupt_unix.c | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/interrupt_unix.c b/src/interrupt_unix.c
index 8965cb8..60edac3 100644
--- a/src/interrupt_unix.c
+++ b/src/interrupt_unix.c
@@ -5,29 +5,54 @@
 #include "interrupt.h"
 #include <signal.h>
 
-static int int_detected;
+/* Several threads may solve at once, but a process has one SIGINT disposition:
+   the first listener installs the handler and the last one restores what was there. */
+static int          listener_lock;
+static unsigned int num_listeners;
 struct sigaction oact;
 
+/* Interrupts received so far, and how many of them preceded the solve of this thread */
+static unsigned int          num_interrupts;
+static __thread unsigned int num_seen;
+
 static void handle_ctrlc(int dummy) {
-  int_detected = dummy ? dummy : -1;
+  (void) dummy;
+  __atomic_add_fetch(&num_interrupts, 1, __ATOMIC_RELAXED);
+}
+
+static void lock_listeners(void) {
+  while (__atomic_exchange_n(&listener_lock, 1, __ATOMIC_ACQUIRE)) { }
+}
+
+static void unlock_listeners(void) {
+  __atomic_store_n(&listener_lock, 0, __ATOMIC_RELEASE);
 }
 
 void osqp_start_interrupt_listener(void) {
   struct sigaction act;
 
-  int_detected = 0;
-  act.sa_flags = 0;
-  sigemptyset(&act.sa_mask);
-  act.sa_handler = handle_ctrlc;
-  sigaction(SIGINT, &act, &oact);
+  num_seen = __atomic_load_n(&num_interrupts, __ATOMIC_RELAXED);
+
+  lock_listeners();
+  if (num_listeners++ == 0) {
+    act.sa_flags = 0;
+    sigemptyset(&act.sa_mask);
+    act.sa_handler = handle_ctrlc;
+    sigaction(SIGINT, &act, &oact);
+  }
+  unlock_listeners();
 }
 
 void osqp_end_interrupt_listener(void) {
   struct sigaction act;
 
-  sigaction(SIGINT, &oact, &act);
+  lock_listeners();
+  if (--num_listeners == 0) {
+    sigaction(SIGINT, &oact, &act);
+  }
+  unlock_listeners();
 }
 
 int osqp_is_interrupted(void) {
-  return int_detected;
+  return __atomic_load_n(&num_interrupts, __ATOMIC_RELAXED) != num_seen;
 }
-- 
2.43.0


From 90e406aab7c773bce4aa9d94d5674e9223217409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:04 +0000
Subject: [PATCH 31/41] fix: refuse to work with a solver whose setup failed

When setup fails late (an allocation for the polish workspace, the solution or
the derivative data), the linear system solver and the polish structure exist
already, so the solver passed for initialized: updates returned 0 and a solve
dereferenced what was never allocated. The derivative functions and the code
generation now apply the same test.
---
 include/private/types.h |  5 +++++
 src/osqp_api.c          | 12 ++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/private/types.h b/include/private/types.h
index 59dd6d4..dd15f7d 100644
--- a/include/private/types.h
+++ b/include/private/types.h
@@ -228,6 +228,11 @@ struct OSQPWorkspace_ {
 
   /// Relative KKT of last update
   OSQPFloat last_rel_kkt;
+
+# ifndef OSQP_EMBEDDED_MODE
+  /// Flag indicating that the setup has been completed
+  OSQPInt setup_done;
+# endif // ifndef OSQP_EMBEDDED_MODE
 };
 
 // NB: "typedef struct OSQPWorkspace_ OSQPWorkspace" is declared already
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 24bb22c..fe02fe1 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -225,12 +225,11 @@ void OSQPCodegenDefines_free(OSQPCodegenDefines* defs) {
 * Main API Functions *
 **********************/
 
-/* Whether the setup of the solver has been completed (the linear system solver
- * and the polishing workspace are the last parts that every solver needs) */
+/* Whether the setup of the solver has been completed */
 static OSQPInt is_initialized(const OSQPSolver* solver) {
   return solver && solver->work && solver->work->linsys_solver
 #ifndef OSQP_EMBEDDED_MODE
-         && solver->work->pol
+         && solver->work->setup_done
 #endif /* ifndef OSQP_EMBEDDED_MODE */
          ;
 }
@@ -646,6 +645,8 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
     return setup_error(OSQP_MEM_ALLOC_ERROR);
 # endif /* ifdef OSQP_ENABLE_DERIVATIVES */
 
+  work->setup_done = 1;
+
   osqp_profiler_sec_pop(OSQP_PROFILER_SEC_SETUP);
 
   // Print header
@@ -1601,7 +1602,7 @@ OSQPInt osqp_codegen(OSQPSolver*         solver,
     return osqp_error(OSQP_NONCVX_ERROR);
   }
   /* Test after non-convex error to ensure we throw a useful error code*/
-  else if (!solver->work->data || !solver->work->linsys_solver) {
+  else if (!is_initialized(solver)) {
     return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
   }
   else if (!defines || (defines->embedded_mode != 1    && defines->embedded_mode != 2)
@@ -1637,6 +1638,7 @@ OSQPInt osqp_adjoint_derivative_compute(OSQPSolver* solver,
   OSQPInt status = 0;
 
 #ifdef OSQP_ENABLE_DERIVATIVES
+  if (!is_initialized(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
   status = adjoint_derivative_compute(solver, dx, dy, dy);
 #else
   OSQP_UnusedVar(solver);
@@ -1654,6 +1656,7 @@ OSQPInt osqp_adjoint_derivative_get_mat(OSQPSolver*    solver,
   OSQPInt status = 0;
 
 #ifdef OSQP_ENABLE_DERIVATIVES
+  if (!is_initialized(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
   status = adjoint_derivative_get_mat(solver, dP, dA);
 #else
   OSQP_UnusedVar(solver);
@@ -1672,6 +1675,7 @@ OSQPInt osqp_adjoint_derivative_get_vec(OSQPSolver* solver,
   OSQPInt status = 0;
 
 #ifdef OSQP_ENABLE_DERIVATIVES
+  if (!is_initialized(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
   status = adjoint_derivative_get_vec(solver, dq, dl, du);
 #else
   OSQP_UnusedVar(solver);
-- 
2.43.0


From 1f484779054a2c60df32c67dbd06b23b4af61dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:23 +0000
Subject: [PATCH 32/41] fix: return a correct copy from OSQPMatrix_get_csc with
 MKL

The number of entries was taken as the last column pointer plus one, so the
copy read one entry past the end of the matrix and returned a wrong column
pointer; its dimensions were swapped, and matrices without entries, for which
MKL has no handle, were read through uninitialised pointers.
---
 algebra/mkl/matrix.c | 37 +++----------------------------------
 1 file changed, 3 insertions(+), 34 deletions(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 2e59246..efae97a 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -139,40 +139,9 @@ OSQPInt*   OSQPMatrix_get_p(const OSQPMatrix* M)  {return M->csc->p;}
 OSQPInt    OSQPMatrix_get_nz(const OSQPMatrix* M) {return M->csc->p[M->csc->n];}
 
 OSQPCscMatrix* OSQPMatrix_get_csc(const OSQPMatrix* M) {
-  /* Values returned from the MKL object */
-  sparse_index_base_t idx_method = 0;
-  MKL_INT numrows = 0;
-  MKL_INT numcols = 0;
-
-  MKL_INT *p_start;
-  MKL_INT *p_end;
-  MKL_INT *row_idx;
-  OSQPFloat *vals;
-
-  /* Computed values */
-  OSQPCscMatrix* B;
-  OSQPInt i = 0;
-  OSQPInt nnz = 0;
-
-  spblas_export_csc(M->mkl_mat, &idx_method, &numrows, &numcols, &p_start, &p_end, &row_idx, &vals);
-
-  /* Create the CSC using the returned data */
-  nnz = p_end[numcols-1]+1;
-  B = csc_spalloc(numcols, numrows, nnz, 1, 0);
-
-  /* MKL doesn't give back the actual p we need, we need to take the last value from p_end and concatenate
-     it onto the array returned in p_start */
-  for (i = 0; i < numcols; i++) {
-    B->p[i] = p_start[i];
-  }
-  B->p[numcols] = p_end[numcols-1] + 1;
-
-  for (i=0; i < nnz; i++) {
-    B->i[i] = row_idx[i];
-    B->x[i] = vals[i];
-  }
-
-  return B;
+  /* This operates on the assumption that the stored shadow csc matrix is the backing memory for
+     the actual MKL matrix handle, which seems to be the case in all the testing done. */
+  return csc_copy(M->csc);
 }
 
 
-- 
2.43.0


From a98f8f8919f7e50611adc0b41aaabf0adb62c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:27 +0000
Subject: [PATCH 33/41] fix: use the right sign for dual gradients at active
 lower bounds

The multiplier handed to the caller is y = y_u - y_l, so a gradient with
respect to y enters the adjoint system with opposite signs for the two; it
was used with the same sign, which made all derivatives wrong whenever a
lower bound or an equality constraint with negative multiplier carried a
nonzero dual gradient.
---
 src/derivative.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/derivative.c b/src/derivative.c
index 095479a..bb24497 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -138,6 +138,9 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     OSQPVectorf* dy_l_vec = OSQPVectorf_new(dy_l, m);
     OSQPVectorf* dy_u_vec = OSQPVectorf_new(dy_u, m);
 
+    // The multiplier is y = y_u - y_l, so the gradient with respect to y_l has the opposite sign
+    OSQPVectorf_mult_scalar(dy_l_vec, -1);
+
     // TODO: We could use constr_type in OSQPWorkspace but it only tells us whether a constraint is 'loose'
     // not 'upper loose' or 'lower loose', which we seem to need here.
     OSQPFloat infval = OSQP_INFTY * OSQP_MIN_SCALING;
@@ -265,7 +268,7 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
       if (nu_sign_vec[j]==1) {
         d_nu_vec[j] = dy_u[eq_indices_vec[j]];
       } else if (nu_sign_vec[j]==-1) {
-        d_nu_vec[j] = -dy_l[eq_indices_vec[j]];
+        d_nu_vec[j] = dy_l[eq_indices_vec[j]];
       } else {}  // should never happen
     }
     OSQPVectorf_subvector_assign(rhs, d_nu_vec, pos, n_eq, -1);
-- 
2.43.0


From 5dd46a8f1130d4604e16924b89139c8e03f6ac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:13 +0000
Subject: [PATCH 34/41] fix: derivatives for equality constraints with a zero
 multiplier

The derivative with respect to the bound was divided by the multiplier and
multiplied by it again later, giving NaN when the multiplier is exactly zero.
---
 src/derivative.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/derivative.c b/src/derivative.c
index bb24497..fbb804b 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -298,21 +298,21 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
 
     pos += n;
     for (j=0; j<derivative_data->n_ineq_l; j++) {
-        r_yl[l_noninf_indices_vec[j]] = -rhs_data[pos+j];
+        r_yl[l_noninf_indices_vec[j]] = rhs_data[pos+j] * OSQPVectorf_data(derivative_data->y_l)[l_noninf_indices_vec[j]];
     }
     c_free(l_noninf_indices_vec);
     pos += derivative_data->n_ineq_l;
     for (j=0; j<derivative_data->n_ineq_u; j++) {
-        r_yu[u_noninf_indices_vec[j]] = rhs_data[pos+j];
+        r_yu[u_noninf_indices_vec[j]] = rhs_data[pos+j] * OSQPVectorf_data(derivative_data->y_u)[u_noninf_indices_vec[j]];
     }
     c_free(u_noninf_indices_vec);
     pos += derivative_data->n_ineq_u;
     for (j=0; j<derivative_data->n_eq; j++) {
         if (nu_sign_vec[j]==1) {
             r_yl[eq_indices_vec[j]] = 0;
-            r_yu[eq_indices_vec[j]] = rhs_data[pos+j] / y_data[eq_indices_vec[j]];
+            r_yu[eq_indices_vec[j]] = rhs_data[pos+j];
         } else {
-            r_yl[eq_indices_vec[j]] = -rhs_data[pos+j] / y_data[eq_indices_vec[j]];
+            r_yl[eq_indices_vec[j]] = -rhs_data[pos+j];
             r_yu[eq_indices_vec[j]] = 0;
         }
     }
@@ -321,11 +321,8 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
 
     OSQPVectorf_from_raw(derivative_data->ryl, r_yl);
     c_free(r_yl);
-    OSQPVectorf_ew_prod(derivative_data->ryl, derivative_data->ryl, derivative_data->y_l);
-    OSQPVectorf_mult_scalar(derivative_data->ryl, -1);
     OSQPVectorf_from_raw(derivative_data->ryu, r_yu);
     c_free(r_yu);
-    OSQPVectorf_ew_prod(derivative_data->ryu, derivative_data->ryu, derivative_data->y_u);
 
     //cleanup
     OSQPVectorf_free(y);
-- 
2.43.0


From d2f44bb938d774db681bd0296b4d7d3e9d228a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:13 +0000
Subject: [PATCH 35/41] fix: refuse derivatives when the solver keeps no
 solution

With allocate_solution disabled the derivative functions read the solution
through a null pointer.
---
 src/derivative.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/derivative.c b/src/derivative.c
index fbb804b..bf81e51 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -33,7 +33,7 @@ OSQPInt adjoint_derivative_get_mat(OSQPSolver *solver,
                                         OSQPCscMatrix* dA) {
 
     // Check if solver has been initialized
-    if (!solver || !solver->work || !solver->work->derivative_data)
+    if (!solver || !solver->work || !solver->work->derivative_data || !solver->solution)
       return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
 
     OSQPInt n = solver->work->data->n;
@@ -104,7 +104,7 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
                                    OSQPFloat*     dy_u) {
 
     // Check if solver has been initialized
-    if (!solver || !solver->work || !solver->work->derivative_data)
+    if (!solver || !solver->work || !solver->work->derivative_data || !solver->solution)
       return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
 
     OSQPInt m = solver->work->data->m;
-- 
2.43.0


From d7907ebf0c235c7c808f9528dc13b1620e9f4bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:29 +0000
Subject: [PATCH 36/41] fix: write generated numbers with full relative
 precision

---
 src/codegen.c | 50 +++++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/codegen.c b/src/codegen.c
index a444641..a4d3f79 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -40,7 +40,7 @@ static OSQPInt write_vecf(FILE*            f,
   if (n && vecf) {
     fprintf(f, "OSQPFloat %s[%" OSQP_INT_FMT "] = {\n", name, n);
     for (i = 0; i < n; i++) {
-      fprintf(f, "  (OSQPFloat)%.20f,\n", vecf[i]);
+      fprintf(f, "  (OSQPFloat)%.20e,\n", vecf[i]);
     }
     fprintf(f, "};\n");
   }
@@ -177,29 +177,29 @@ static OSQPInt write_settings(FILE*               f,
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->warm_starting);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->scaling);
   fprintf(f, "  0,\n"); // polishing
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->rho);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->rho);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->rho_is_vec);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->sigma);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->alpha);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->sigma);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->alpha);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->cg_max_iter);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->cg_tol_reduction);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->cg_tol_fraction);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->cg_tol_fraction);
   fprintf(f, "  %u,\n", settings->cg_precond);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->adaptive_rho);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->adaptive_rho_interval);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->adaptive_rho_fraction);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->adaptive_rho_tolerance);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->adaptive_rho_fraction);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->adaptive_rho_tolerance);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->max_iter);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_abs);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_rel);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_prim_inf);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_dual_inf);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->eps_abs);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->eps_rel);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->eps_prim_inf);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->eps_dual_inf);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->scaled_termination);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->check_termination);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->check_dualgap);
 
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->time_limit);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->delta);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->time_limit);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->delta);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->polish_refine_iter);
   fprintf(f, "};\n\n");
 
@@ -222,14 +222,14 @@ static OSQPInt write_info(FILE*           f,
   fprintf(f, "  \"%s\",\n", OSQP_STATUS_MESSAGE[OSQP_UNSOLVED]);
   fprintf(f, "  %d,\n", OSQP_UNSOLVED);
   fprintf(f, "  0,\n"); // status_polish
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // obj_val
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // dual_obj_val
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // prim_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // dual_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // duality_gap
+  fprintf(f, "  (OSQPFloat)%.20e,\n", OSQP_INFTY); // obj_val
+  fprintf(f, "  (OSQPFloat)%.20e,\n", OSQP_INFTY); // dual_obj_val
+  fprintf(f, "  (OSQPFloat)%.20e,\n", OSQP_INFTY); // prim_res
+  fprintf(f, "  (OSQPFloat)%.20e,\n", OSQP_INFTY); // dual_res
+  fprintf(f, "  (OSQPFloat)%.20e,\n", OSQP_INFTY); // duality_gap
   fprintf(f, "  0,\n"); // iter (iteration count)
   fprintf(f, "  0,\n"); // rho_updates
-  fprintf(f, "  (OSQPFloat)%.20f,\n", info->rho_estimate);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", info->rho_estimate);
   fprintf(f, "  (OSQPFloat)0.0,\n"); // setup_time
   fprintf(f, "  (OSQPFloat)0.0,\n"); // solve_time
   fprintf(f, "  (OSQPFloat)0.0,\n"); // update_time
@@ -295,10 +295,10 @@ static OSQPInt write_scaling(FILE*              f,
   sprintf(name, "%sscaling_Einv", prefix);
   GENERATE_ERROR(write_OSQPVectorf(f, scaling->Einv, name))
   fprintf(f, "OSQPScaling %sscaling = {\n", prefix);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", scaling->c);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", scaling->c);
   fprintf(f, "  &%sscaling_D,\n", prefix);
   fprintf(f, "  &%sscaling_E,\n", prefix);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", scaling->cinv);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", scaling->cinv);
   fprintf(f, "  &%sscaling_Dinv,\n", prefix);
   fprintf(f, "  &%sscaling_Einv\n", prefix);
   fprintf(f, "};\n\n");
@@ -422,8 +422,8 @@ static OSQPInt write_linsys(FILE*               f,
     fprintf(f, "  OSQP_NULL,\n");
   }
 
-  fprintf(f, "  (OSQPFloat)%.20f,\n", linsys->sigma);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", linsys->rho_inv);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", linsys->sigma);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", linsys->rho_inv);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", n);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", m);
   if (embedded > 1) {
@@ -601,10 +601,10 @@ static OSQPInt write_workspace(FILE*             f,
   }
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_prim_res
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_dual_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", work->rho_inv);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", work->rho_inv);
 
   fprintf(f, "  %" OSQP_INT_FMT ",\n", work->rho_updated);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", work->last_rel_kkt);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", work->last_rel_kkt);
 
   fprintf(f, "};\n\n");
 
-- 
2.43.0


From 8cc6b9b4f53719120280d35c937880e2b0e7d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:52 +0000
Subject: [PATCH 37/41] fix: refuse code generation names that overflow the
 name buffers

---
 src/codegen.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/codegen.c b/src/codegen.c
index a4d3f79..0b8eb73 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <ctype.h>  /* -> toupper */
+#include <string.h> /* -> strlen */
 #include <time.h>   /* time, ctime */
 
 #include "error.h"
@@ -26,6 +27,18 @@
   exitflag = f; \
   if (exitflag) { return _osqp_error_line(exitflag, __FUNCTION__, __FILE__, __LINE__); }
 
+/* Check that a generated file name fits in the buffers used for the names */
+static OSQPInt check_name_length(const char* output_dir,
+                                 const char* file_prefix) {
+
+  /* Leave room for the longest suffixes ("osqp_configure.h" and the variable names) */
+  if (strlen(file_prefix) + 32 > FILE_LENGTH ||
+      strlen(output_dir) + strlen(file_prefix) + 32 > PATH_LENGTH)
+    return osqp_error(OSQP_FOPEN_ERROR);
+
+  return OSQP_NO_ERROR;
+}
+
 /*********
 * Vectors
 **********/
@@ -656,6 +669,9 @@ OSQPInt codegen_inc(const char* output_dir,
   FILE *incFile;
   time_t now;
   OSQPInt i = 0;
+  OSQPInt exitflag = OSQP_NO_ERROR;
+
+  PROPAGATE_ERROR(check_name_length(output_dir, file_prefix))
 
   sprintf(fname,  "%sworkspace", file_prefix);
   sprintf(hfname, "%s%s.h", output_dir, fname);
@@ -716,6 +732,8 @@ OSQPInt codegen_src(const char* output_dir,
   FILE *srcFile;
   time_t now;
 
+  PROPAGATE_ERROR(check_name_length(output_dir, file_prefix))
+
   sprintf(fname,  "%s%sworkspace", output_dir, file_prefix);
   sprintf(cfname, "%s.c",        fname);
 
@@ -752,6 +770,9 @@ OSQPInt codegen_defines(const char*         output_dir,
   char cfname[PATH_LENGTH];
   FILE *incFile;
   time_t now;
+  OSQPInt exitflag = OSQP_NO_ERROR;
+
+  PROPAGATE_ERROR(check_name_length(output_dir, ""))
 
   sprintf(cfname,  "%sosqp_configure.h", output_dir);
 
@@ -819,6 +840,9 @@ OSQPInt codegen_example(const char* output_dir,
   char cfname[PATH_LENGTH];
   FILE *srcFile;
   time_t now;
+  OSQPInt exitflag = OSQP_NO_ERROR;
+
+  PROPAGATE_ERROR(check_name_length(output_dir, file_prefix))
 
   sprintf(cfname, "%semosqp.c", output_dir);
 
-- 
2.43.0


From 13b0cd7f15f346427e282d0f723f235aeb8cc8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:52 +0000
Subject: [PATCH 38/41] fix: report generated files that could not be written

---
 src/codegen.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/codegen.c b/src/codegen.c
index 0b8eb73..63b0119 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -27,6 +27,18 @@
   exitflag = f; \
   if (exitflag) { return _osqp_error_line(exitflag, __FUNCTION__, __FILE__, __LINE__); }
 
+/* Close a generated file, reporting an error if it could not be written completely */
+static OSQPInt close_file(FILE* f) {
+
+  OSQPInt failed = ferror(f);
+
+  if (fclose(f)) failed = 1;
+
+  if (failed) return osqp_error(OSQP_FOPEN_ERROR);
+
+  return OSQP_NO_ERROR;
+}
+
 /* Check that a generated file name fits in the buffers used for the names */
 static OSQPInt check_name_length(const char* output_dir,
                                  const char* file_prefix) {
@@ -716,9 +728,7 @@ OSQPInt codegen_inc(const char* output_dir,
   fprintf(incFile, "#endif /* ifndef %s */\n", incGuard);
 
   /* Close header file */
-  fclose(incFile);
-
-  return 0;
+  return close_file(incFile);
 }
 
 
@@ -759,7 +769,7 @@ OSQPInt codegen_src(const char* output_dir,
   exitflag = write_solver(srcFile, solver, file_prefix, embedded);
 
   /* Close header file */
-  fclose(srcFile);
+  if (close_file(srcFile) && !exitflag) exitflag = OSQP_FOPEN_ERROR;
 
   return exitflag;
 }
@@ -828,9 +838,7 @@ OSQPInt codegen_defines(const char*         output_dir,
   fprintf(incFile, "#endif /* ifndef OSQP_CONFIGURE_H */\n");
 
   /* Close header file */
-  fclose(incFile);
-
-  return OSQP_NO_ERROR;
+  return close_file(incFile);
 }
 
 
@@ -879,7 +887,5 @@ OSQPInt codegen_example(const char* output_dir,
   fprintf(srcFile, "}\n");
 
   /* Close header file */
-  fclose(srcFile);
-
-  return OSQP_NO_ERROR;
+  return close_file(srcFile);
 }
-- 
2.43.0


From 48bbcacd33062597a5a184355987b26f19263969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:10 +0000
Subject: [PATCH 39/41] fix: initialise the optional workspace members in
 generated code

---
 src/codegen.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/codegen.c b/src/codegen.c
index 63b0119..0c447e2 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -628,6 +628,19 @@ static OSQPInt write_workspace(FILE*             f,
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_dual_res
   fprintf(f, "  (OSQPFloat)%.20e,\n", work->rho_inv);
 
+  fprintf(f, "#ifdef OSQP_ENABLE_PROFILING\n");
+  fprintf(f, "  OSQP_NULL,\n"); // timer
+  fprintf(f, "  1,\n"); // first_run
+  fprintf(f, "  0,\n"); // clear_update_time
+  fprintf(f, "  0,\n"); // rho_update_from_solve
+  fprintf(f, "#endif\n");
+  fprintf(f, "#ifdef OSQP_ENABLE_PRINTING\n");
+  fprintf(f, "  0,\n"); // summary_printed
+  fprintf(f, "#endif\n");
+  fprintf(f, "#ifdef OSQP_ENABLE_DERIVATIVES\n");
+  fprintf(f, "  OSQP_NULL,\n"); // derivative_data
+  fprintf(f, "#endif\n");
+
   fprintf(f, "  %" OSQP_INT_FMT ",\n", work->rho_updated);
   fprintf(f, "  (OSQPFloat)%.20e,\n", work->last_rel_kkt);
 
-- 
2.43.0


From bd7a17d916dc20f770b6517f504023b8611d13d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:19 +0000
Subject: [PATCH 40/41] fix: clear the Pardiso solution vector before each
 solve

With perturbed pivots Pardiso returns success without writing the solution, so
iterates were made of uninitialised memory.
---
 algebra/mkl/lin_sys/direct/pardiso_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index b1682e4..aa1e0a5 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -289,6 +289,11 @@ OSQPInt solve_linsys_pardiso(pardiso_solver* s,
 
   osqp_profiler_sec_push(OSQP_PROFILER_SEC_LINSYS_SOLVE);
 
+  // Pardiso may leave the solution vector untouched when it had to perturb pivots
+  for (j = 0 ; j < n + m ; j++) {
+    s->sol[j] = 0.0;
+  }
+
   // Back substitution and iterative refinement
   osqp_profiler_sec_push(OSQP_PROFILER_SEC_LINSYS_BACKSOLVE);
   s->phase = PARDISO_SOLVE;
-- 
2.43.0


From 13128faad66fea96220d47283c5b554c480ba68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:57 +0000
Subject: [PATCH 41/41] fix: report a zero pivot in the adjoint derivative
 system

The factorization's return value was ignored, so the incomplete factors were
used for the solves and read out of bounds; the error is now returned.
---
 algebra/_common/lin_sys/qdldl/qdldl_interface.c | 6 +++++-
 src/derivative.c                                | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 017f35d..dcbda1b 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -866,7 +866,11 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
         goto csc_alloc_fail;
     }
 
-    QDLDL_factor(An, adj_permuted->p, adj_permuted->i, adj_permuted->x, Lp, Li, Lx, D, Dinv, Lnz, etree, bwork, iwork, fwork);
+    // The factors are incomplete after a zero pivot
+    if (QDLDL_factor(An, adj_permuted->p, adj_permuted->i, adj_permuted->x, Lp, Li, Lx, D, Dinv, Lnz, etree, bwork, iwork, fwork) < 0) {
+        retval = OSQP_LINSYS_SOLVER_INIT_ERROR;
+        goto csc_alloc_fail;
+    }
 
     x = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
     x_work = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
diff --git a/src/derivative.c b/src/derivative.c
index bf81e51..3b39f40 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -280,7 +280,7 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
 
     OSQPMatrix* P_full = OSQPMatrix_triu_to_symm(P);
     OSQPMatrix_free(P);
-    adjoint_derivative_linsys_solver(NULL /* No solver object is allocated for this solver yet */,
+    OSQPInt exitflag = adjoint_derivative_linsys_solver(NULL /* No solver object is allocated for this solver yet */,
                                      solver->settings, P_full, G, A_eq, GDiagLambda, slacks, rhs);
     OSQPMatrix_free(P_full);
     OSQPMatrix_free(G);
@@ -327,5 +327,7 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     //cleanup
     OSQPVectorf_free(y);
 
+    if (exitflag) return osqp_error(exitflag);
+
     return 0;
 }
-- 
2.43.0

