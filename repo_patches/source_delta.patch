From 3ea732faa0134c0043f688d725ee24f983932acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 001/100] fix: keep the buffers of PriDec's nonblocking end
 signals alive until completion

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 9b3eea8..3129d35 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -104,16 +104,18 @@ namespace hiop
     void post_recv_end_signal(int tag, int rank_from, MPI_Comm comm)
     {
       assert(request_ == MPI_REQUEST_NULL);
-      int recv_sign = 0;
-      int ierr = MPI_Irecv(&recv_sign, 1, MPI_INT, rank_from, tag, comm, &request_);
+      //the buffer has to outlive this method since the receive completes in test() or wait()
+      recv_sign_ = 0;
+      int ierr = MPI_Irecv(&recv_sign_, 1, MPI_INT, rank_from, tag, comm, &request_);
       assert(MPI_SUCCESS == ierr);
     }
     // only sende signal (that computation is finished), no actual functional information
     void post_send_end_signal(int tag, int rank_to, MPI_Comm comm)
     {
       assert(request_ == MPI_REQUEST_NULL);
-      int send_sign = 0;
-      int ierr = MPI_Isend(&send_sign, 1, MPI_INT, rank_to, tag, comm, &request_);
+      //the buffer has to outlive this method since the send completes in test() or wait()
+      send_sign_ = 0;
+      int ierr = MPI_Isend(&send_sign_, 1, MPI_INT, rank_to, tag, comm, &request_);
       assert(MPI_SUCCESS == ierr);
     }
 
@@ -143,6 +145,9 @@ namespace hiop
   private:
     int n_;
     hiopVector* buffer;
+    //buffers for the end signals
+    int recv_sign_ = 0;
+    int send_sign_ = 0;
   };
 
   /** This struct is used to post receive and request for contingency
-- 
2.43.0


From d236cf359b88e8a2fb0c8306c5e6a2c9015065e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 002/100] fix: accept all documented verbosity levels (0-12) in
 PriDec's HessianApprox

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 3129d35..cc830bd 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -535,7 +535,7 @@ compute_base(const double val)
 
 void hiopAlgPrimalDecomposition::HessianApprox::set_verbosity(const int i)
 {
-  assert(i<=3 && i>=0);
+  assert(i<=12 && i>=0);
   ver_ = i;
 }
 
-- 
2.43.0


From 035dba4f54d2a20d74826a96e4a74e4b6848db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 003/100] fix: return the master problem's status from PriDec's
 serial run as the parallel runs do

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index cc830bd..e80ea62 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1992,7 +1992,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
   delete x0;
   delete hess_appx_2;
   delete evaluator;
-  return Solve_Success;    
+  return solver_status_;
 }
 
 }//end namespace
-- 
2.43.0


From 65e16461d801d659ec7abf88a7330c4f4293f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 004/100] fix: evaluate the user's objective at x (not at the
 scaled difference) in the restoration problems

---
 src/Optimization/hiopFRProb.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index d9039cc..ce8c779 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -253,6 +253,9 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
+  // keep a copy of the original objective value at x (wrk_x_ is overwritten below)
+  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -260,9 +263,6 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_); 
-
   return true;
 }
 
@@ -902,6 +902,9 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
+  // keep a copy of the original objective value at x (wrk_x_ is overwritten below)
+  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -909,8 +912,6 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_); 
-
   return true;
 }
 
@@ -1613,6 +1614,9 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
   obj_value = obj_global;
 #endif
 
+  // keep a copy of the original objective value at x (wrk_x_ is overwritten below)
+  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -1620,9 +1624,6 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
-
   return true;
 }
 
-- 
2.43.0


From cb77a74f3ebb1c463e9b4e8af55d35e4d4c7394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 005/100] fix: evaluate functions and derivatives at the point
 accepted by the feasibility restoration

---
 src/Optimization/hiopAlgFilterIPM.cpp | 30 ++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 973c6d4..ebafd0d 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1453,7 +1453,6 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
     iter_num_total_++;
     nlp->runStats.nIter = iter_num_;
 
-    // fr problem has already updated dual, slacks and NLP functions
     if(!use_fr) {
       nlp->runStats.tmSolverInternal.start();
       // update and adjust the duals
@@ -1465,9 +1464,9 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                              _alpha_primal, _alpha_dual, _mu, kappa_Sigma, infeas_nrm_trial);
       assert(bret);
       nlp->runStats.tmSolverInternal.stop();
-
-      //evaluate derivatives at the trial (and to be accepted) trial point
-      if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
+    } else {
+      // fr problem has already updated the primals, duals and slacks; evaluate the NLP functions there
+      if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
         solver_status_ = Error_In_User_Function;
         nlp->runStats.tmOptimizTotal.stop();
         delete kkt;
@@ -1475,6 +1474,14 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       }
     }
 
+    //evaluate derivatives at the trial (and to be accepted) trial point
+    if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
+      solver_status_ = Error_In_User_Function;
+      nlp->runStats.tmOptimizTotal.stop();
+      delete kkt;
+      return Error_In_User_Function;
+    }
+
     nlp->runStats.tmSolverInternal.start(); //-----
     //reuse function values
     _f_nlp=_f_nlp_trial;
@@ -2713,7 +2720,6 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
     iter_num_total_++;
     nlp->runStats.nIter = iter_num_;
 
-    // fr problem has already updated dual, slacks and NLP functions
     if(!use_fr) {
       nlp->runStats.tmSolverInternal.start();
       // update and adjust the duals
@@ -2725,9 +2731,9 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                              _alpha_primal, _alpha_dual, _mu, kappa_Sigma, infeas_nrm_trial);
       assert(bret);
       nlp->runStats.tmSolverInternal.stop();
-
-      //evaluate derivatives at the trial (and to be accepted) trial point
-      if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
+    } else {
+      // fr problem has already updated the primals, duals and slacks; evaluate the NLP functions there
+      if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
         solver_status_ = Error_In_User_Function;
         nlp->runStats.tmOptimizTotal.stop();
         delete kkt;
@@ -2735,6 +2741,14 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
       }
     }
 
+    //evaluate derivatives at the trial (and to be accepted) trial point
+    if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
+      solver_status_ = Error_In_User_Function;
+      nlp->runStats.tmOptimizTotal.stop();
+      delete kkt;
+      return Error_In_User_Function;
+    }
+
     nlp->runStats.tmSolverInternal.start(); //-----
     //reuse function values
     _f_nlp=_f_nlp_trial;
-- 
2.43.0


From 1f415a1b9097f9620070582c0a7fa62475f2face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 006/100] fix: continue the quasi-Newton iterations after a
 successful feasibility restoration

---
 src/Optimization/hiopAlgFilterIPM.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index ebafd0d..a69d781 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1428,10 +1428,6 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
           // continue iterations if FR is accepted
           solver_status_ = NlpSolve_Pending;
         }
-
-        // exit the linear solve (compute_search_direction) loop
-        nlp->runStats.tmSolverInternal.stop();
-        break;
       } 
       nlp->runStats.tmSolverInternal.stop();
     } else {
-- 
2.43.0


From 397c1b86fed72994434e8f09bfce8dd1251d21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 007/100] fix: take the trial step when accept_every_trial_step
 disables the line search

---
 src/Optimization/hiopAlgFilterIPM.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index a69d781..126bc71 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1415,8 +1415,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       //switching condition does not hold for the trial
       filter.add(theta_trial, logbar->f_logbar_trial);
       nlp->runStats.tmSolverInternal.stop();
-    } else if(lsStatus==3) {
-      //Armijo (and switching condition) hold, nothing to do.
+    } else if(lsStatus==3 || disableLS) {
+      //Armijo (and switching condition) hold or the line search is disabled, nothing to do.
       nlp->runStats.tmSolverInternal.stop();
     } else if(lsStatus==0) {
       //small step
@@ -2644,8 +2644,8 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
         nlp->runStats.tmSolverInternal.stop();
         break; //from the linear solve (compute_search_direction) loop
 
-      } else if(lsStatus==3) {
-        //Armijo (and switching condition) hold, nothing to do.
+      } else if(lsStatus==3 || disableLS) {
+        //Armijo (and switching condition) hold or the line search is disabled, nothing to do.
 
         nlp->runStats.tmSolverInternal.stop();
         break; //from the linear solve (compute_search_direction) loop
-- 
2.43.0


From f0ea89ef1e800fbe19cc6eb837a9cf609474e671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 008/100] fix: accept an empty dense matrix in addSubDiagonal

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index 478ac89..36a2e78 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -744,7 +744,7 @@ void hiopMatrixDenseRowMajor::addSubDiagonal(int start_on_dest_diag,
   assert(n_local_ == n_global_ && "method supported only for non-distributed matrices");
   assert(n_local_ == m_local_  && "method supported only for symmetric matrices");
 
-  assert(start_on_dest_diag>=0 && start_on_dest_diag<m_local_);
+  assert(start_on_dest_diag>=0 && start_on_dest_diag<=m_local_);
   num_elems = std::min(num_elems, m_local_-start_on_dest_diag);
 
   const double* dd=d.local_data_const();
-- 
2.43.0


From 9ccb548d53d3821370e7c3db00b6e153e489bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 009/100] fix: return the multipliers of the user's (unscaled)
 problem from getDualSolutions and solution_callback

---
 src/Optimization/hiopNlpFormulation.cpp | 37 +++++++++++++++----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 5204681..1c2c5aa 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -64,6 +64,7 @@
 
 #include <stdlib.h>     /* exit, EXIT_FAILURE */
 #include <cassert>
+#include <memory>
 
 using namespace std;
 namespace hiop
@@ -1052,10 +1053,11 @@ get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* la
       temp_x_ = this->alloc_primal_vec();
     }
     temp_x_->copyFrom(*it.get_zl());
-    temp_x_->scale(obj_scale_ext_to_hiop);
+    // y_unscaled = y_scale*y_scaled/obj_scale, z_unscaled = z_scaled/obj_scale
+    temp_x_->scale(1./obj_scale_ext_to_hiop);
     temp_x_->copyTo(zl_a);
     temp_x_->copyFrom(*it.get_zu());
-    temp_x_->scale(obj_scale_ext_to_hiop);
+    temp_x_->scale(1./obj_scale_ext_to_hiop);
     temp_x_->copyTo(zu_a);
 
     if(temp_eq_ == nullptr) {
@@ -1067,10 +1069,12 @@ get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* la
     if(cons_lambdas_ == nullptr) {
       cons_lambdas_ = this->alloc_dual_vec();
     }
+    temp_eq_->copyFrom(*it.get_yc());
+    temp_ineq_->copyFrom(*it.get_yd());
     temp_eq_   = nlp_transformations_.apply_to_cons_eq(*temp_eq_, n_cons_eq_);
     temp_ineq_ = nlp_transformations_.apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
     cons_lambdas_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
-    cons_lambdas_->scale(obj_scale_ext_to_hiop);
+    cons_lambdas_->scale(1./obj_scale_ext_to_hiop);
     cons_lambdas_->copyTo(lambda_a);
   }
 
@@ -1078,14 +1082,20 @@ get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* la
 
 void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
                                                 const hiopVector& x,
-                                                hiopVector& z_L,
-                                                hiopVector& z_U,
-                                                hiopVector& c,
-                                                hiopVector& d,
-                                                hiopVector& y_c,
-                                                hiopVector& y_d,
+                                                hiopVector& z_L_hiop,
+                                                hiopVector& z_U_hiop,
+                                                hiopVector& c_hiop,
+                                                hiopVector& d_hiop,
+                                                hiopVector& y_c_hiop,
+                                                hiopVector& y_d_hiop,
                                                 double obj_value) 
 {
+  // work on copies: the solver's iterate is needed by the queries made after the solve
+  std::unique_ptr<hiopVector> z_L_copy(z_L_hiop.new_copy()), z_U_copy(z_U_hiop.new_copy());
+  std::unique_ptr<hiopVector> c_copy(c_hiop.new_copy()), d_copy(d_hiop.new_copy());
+  std::unique_ptr<hiopVector> y_c_copy(y_c_hiop.new_copy()), y_d_copy(y_d_hiop.new_copy());
+  hiopVector &z_L = *z_L_copy, &z_U = *z_U_copy, &c = *c_copy, &d = *d_copy, &y_c = *y_c_copy, &y_d = *y_d_copy;
+
   assert(x.get_size()==n_vars_);
   assert(y_c.get_size() == n_cons_eq_);
   assert(y_d.get_size() == n_cons_ineq_);
@@ -1096,14 +1106,13 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
   }
   if(nlp_scaling_) {
     // return unscaled values. 
-    // it's safe to modify these values since this function is called in the end
     // y_unscaled = y_scale*y_scaled/obj_scale, z_unscaled = z_scaled/obj_scale
     y_c = *(nlp_transformations_.apply_to_cons_eq(y_c, n_cons_eq_));
     y_d = *(nlp_transformations_.apply_to_cons_ineq(y_d, n_cons_ineq_));
-    y_c.scale(obj_scale_ext_to_hiop);
-    y_d.scale(obj_scale_ext_to_hiop);
-    z_L.scale(obj_scale_ext_to_hiop);
-    z_U.scale(obj_scale_ext_to_hiop);
+    y_c.scale(1./obj_scale_ext_to_hiop);
+    y_d.scale(1./obj_scale_ext_to_hiop);
+    z_L.scale(1./obj_scale_ext_to_hiop);
+    z_U.scale(1./obj_scale_ext_to_hiop);
   }
   cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
 
-- 
2.43.0


From 7c5bf044c69a0ce13168f69a4f6b8d77b085b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 010/100] fix: scale (not unscale) the Jacobian of one-call
 dense formulations

---
 src/Optimization/hiopNlpFormulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 1c2c5aa..77a3c1e 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1542,8 +1542,8 @@ bool hiopNlpDenseConstraints::eval_Jac_c_d_interface_impl(hiopVector& x, bool ne
   Jac_dde->copyRowsFrom(*cons_Jac_, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
   
   // scale Jacobian matrices
-  Jac_c = *(nlp_transformations_.apply_inv_to_jacob_eq(Jac_c, n_cons_eq_));
-  Jac_d = *(nlp_transformations_.apply_inv_to_jacob_ineq(Jac_d, n_cons_ineq_));
+  Jac_c = *(nlp_transformations_.apply_to_jacob_eq(Jac_c, n_cons_eq_));
+  Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(Jac_d, n_cons_ineq_));
 
   runStats.tmEvalJac_con.stop();
   runStats.nEvalJac_con_eq++;
-- 
2.43.0


From 37b79135219e53afc11a0cb01c2da36e654b3ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 011/100] fix: use the same constraint scaling for multipliers
 as for the constraints and their Jacobian

---
 src/Optimization/hiopNlpTransforms.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index d97696b..08593bc 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -458,18 +458,6 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
   scale_factor_cd = LinearAlgebraFactory::create_vector(nlp_->options->GetString("mem_space"),
                                                         n_eq + n_ineq);
 
-  Jac_c.row_max_abs_value(*scale_factor_c);
-  scale_factor_c->scale(1./max_grad);
-  scale_factor_c->component_max(1.0);
-  scale_factor_c->invert();
-
-  Jac_d.row_max_abs_value(*scale_factor_d);
-  scale_factor_d->scale(1./max_grad);
-  scale_factor_d->component_max(1.0);
-  scale_factor_d->invert();
-
-  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
-
   Jac_c.row_max_abs_value(*scale_factor_c);
   Jac_d.row_max_abs_value(*scale_factor_d);
   if(max_con_grad == 0.) {
@@ -489,13 +477,16 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
       scale_factor_d->setToConstant(1.0);
     }
   } else {
-    scale_factor_c->setToConstant(max_con_grad / scale_factor_c->infnorm());
-    scale_factor_d->setToConstant(max_con_grad / scale_factor_d->infnorm());
+    const double c_infnorm = scale_factor_c->infnorm();
+    const double d_infnorm = scale_factor_d->infnorm();
+    scale_factor_c->setToConstant(c_infnorm > 0. ? max_con_grad / c_infnorm : 1.);
+    scale_factor_d->setToConstant(d_infnorm > 0. ? max_con_grad / d_infnorm : 1.);
   }
   if(min_grad > 0.0) {
     scale_factor_c->component_max(min_grad);
     scale_factor_d->component_max(min_grad);
   }
+  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
 }
 
 hiopNLPObjGradScaling::~hiopNLPObjGradScaling()
-- 
2.43.0


From 9cc97e636157f96be82cc9b5d63cedabb8e15adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 012/100] fix: scale the Hessian's multipliers in the order
 [lambda_eq, lambda_ineq] they are passed in

---
 src/Optimization/hiopNlpTransforms.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index 08593bc..d17c193 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -486,7 +486,9 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
     scale_factor_c->component_max(min_grad);
     scale_factor_d->component_max(min_grad);
   }
-  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
+  //the multipliers passed to the Hessian evaluation are ordered as [lambda_eq, lambda_ineq]
+  scale_factor_cd->copyFromStarting(0, *scale_factor_c);
+  scale_factor_cd->copyFromStarting(n_eq, *scale_factor_d);
 }
 
 hiopNLPObjGradScaling::~hiopNLPObjGradScaling()
-- 
2.43.0


From cb01f9d970683b532ad965ee916a860994fc9f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 013/100] fix: fixed_var=remove without a user vector
 distribution, and return solutions in the user's variables

---
 src/Optimization/hiopNlpFormulation.cpp | 44 +++++++++++++++----------
 src/Optimization/hiopNlpFormulation.hpp |  2 +-
 src/Optimization/hiopNlpTransforms.cpp  |  2 ++
 src/Optimization/hiopNlpTransforms.hpp  | 27 ++++++++++++++-
 4 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 77a3c1e..a19dc36 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -284,7 +284,9 @@ bool hiopNlpFormulation::finalizeInitialization()
       
 
 #ifdef HIOP_USE_MPI
-      fixedVarsRemover->setFSVectorDistrib(vec_distrib_,num_ranks_);
+      if(vec_distrib_ != nullptr) {
+        fixedVarsRemover->setFSVectorDistrib(vec_distrib_,num_ranks_);
+      }
       fixedVarsRemover->setMPIComm(comm_);
 #endif
       bret = fixedVarsRemover->setupDecisionVectorPart(); 
@@ -292,9 +294,11 @@ bool hiopNlpFormulation::finalizeInitialization()
     
       n_vars_ = fixedVarsRemover->rs_n();
 #ifdef HIOP_USE_MPI
-      index_type* vec_distrib_rs = fixedVarsRemover->allocRSVectorDistrib();
-      delete[] vec_distrib_;
-      vec_distrib_ = vec_distrib_rs;
+      if(vec_distrib_ != nullptr) {
+        index_type* vec_distrib_rs = fixedVarsRemover->allocRSVectorDistrib();
+        delete[] vec_distrib_;
+        vec_distrib_ = vec_distrib_rs;
+      }
 #endif
     
       hiopVector* xl_rs;
@@ -1037,10 +1041,13 @@ void hiopNlpFormulation::
 get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* lambda_a)
 {
   if(nullptr==nlp_scaling_) {
-    const hiopVector& zl = *it.get_zl();
-    const hiopVector& zu = *it.get_zu();
-    zl.copyTo(zl_a);
-    zu.copyTo(zu_a);
+    if(temp_x_ == nullptr) {
+      temp_x_ = this->alloc_primal_vec();
+    }
+    temp_x_->copyFrom(*it.get_zl());
+    nlp_transformations_.apply_inv_to_bound_duals(*temp_x_)->copyTo(zl_a);
+    temp_x_->copyFrom(*it.get_zu());
+    nlp_transformations_.apply_inv_to_bound_duals(*temp_x_)->copyTo(zu_a);
     
     if(cons_lambdas_ == nullptr) {
       cons_lambdas_ = this->alloc_dual_vec();
@@ -1055,10 +1062,10 @@ get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* la
     temp_x_->copyFrom(*it.get_zl());
     // y_unscaled = y_scale*y_scaled/obj_scale, z_unscaled = z_scaled/obj_scale
     temp_x_->scale(1./obj_scale_ext_to_hiop);
-    temp_x_->copyTo(zl_a);
+    nlp_transformations_.apply_inv_to_bound_duals(*temp_x_)->copyTo(zl_a);
     temp_x_->copyFrom(*it.get_zu());
     temp_x_->scale(1./obj_scale_ext_to_hiop);
-    temp_x_->copyTo(zu_a);
+    nlp_transformations_.apply_inv_to_bound_duals(*temp_x_)->copyTo(zu_a);
 
     if(temp_eq_ == nullptr) {
       temp_eq_ = this->alloc_dual_eq_vec();
@@ -1127,9 +1134,6 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
   }
   cons_body_->copy_from_two_vec_w_pattern(c, *cons_eq_mapping_, d, *cons_ineq_mapping_);
 
-  //! todo -> test this when fixed variables are removed -> the internal
-  //! zl and zu may have different sizes than what user expects since HiOp removes
-  //! variables internally
   if(options->GetString("callback_mem_space")=="host" && options->GetString("mem_space")=="device") {
     
 #if !defined(HIOP_USE_MPI)
@@ -1158,11 +1162,17 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
                                     cons_lambdas_host.local_data_const(),
                                     obj_value/obj_scale_ext_to_hiop); 
   } else {
+    // the user's variables and bound duals, which include the fixed variables HiOp removed internally
+    std::unique_ptr<hiopVector> x_copy(x.new_copy());
+    const hiopVector& x_user = *nlp_transformations_.apply_inv_to_x(*x_copy, true);
+    std::unique_ptr<hiopVector> z_L_user(nlp_transformations_.apply_inv_to_bound_duals(z_L)->new_copy());
+    std::unique_ptr<hiopVector> z_U_user(nlp_transformations_.apply_inv_to_bound_duals(z_U)->new_copy());
+
     interface_base.solution_callback(status,
-                                    (int)n_vars_,
-                                    x.local_data_const(),
-                                    z_L.local_data_const(),
-                                    z_U.local_data_const(),
+                                    (int)nlp_transformations_.n_pre(),
+                                    x_user.local_data_const(),
+                                    z_L_user->local_data_const(),
+                                    z_U_user->local_data_const(),
                                     (int)n_cons_,
                                     cons_body_->local_data_const(),
                                     cons_lambdas_->local_data_const(),
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index ed522f4..944518e 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -260,7 +260,7 @@ public:
     //double *hiop_xa = hiop_x.local_data();
     hiopVector *x = nlp_transformations_.apply_inv_to_x(hiop_x,/*new_x=*/true); 
     //memcpy(user_x, user_xa, hiop_x.get_local_size()*sizeof(double));
-    memcpy(user_x, x->local_data(), nlp_transformations_.n_post_local()*sizeof(double));
+    memcpy(user_x, x->local_data(), nlp_transformations_.n_pre_local()*sizeof(double));
   }
 
   /* copies/unpacks duals of the bounds and of constraints from 'it' to the three arrays */
diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index d17c193..0c208b2 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -79,6 +79,7 @@ hiopFixedVarsRemover(hiopNlpFormulation* nlp,
   xu_fs = xu.new_copy();
   x_fs  = xl.alloc_clone();
   grad_fs = xl.alloc_clone();
+  z_fs_ = xl.alloc_clone();
 
   n_fs = xl.get_size();
   n_rs = n_fs-numFixedVars;
@@ -90,6 +91,7 @@ hiopFixedVarsRemover::~hiopFixedVarsRemover()
   delete xu_fs;
   delete x_fs;
   delete grad_fs;
+  delete z_fs_;
   if(Jacc_fs) delete Jacc_fs;
   if(Jacd_fs) delete Jacd_fs;
 };
diff --git a/src/Optimization/hiopNlpTransforms.hpp b/src/Optimization/hiopNlpTransforms.hpp
index 0548f5e..15dd21a 100644
--- a/src/Optimization/hiopNlpTransforms.hpp
+++ b/src/Optimization/hiopNlpTransforms.hpp
@@ -100,6 +100,9 @@ public:
     assert(x_in.local_data() == x_out.local_data());
   }
 
+  /* transforms the duals of the variables' bounds, from the transformed ones to the original ones*/
+  virtual inline hiopVector* apply_inv_to_bound_duals(hiopVector& z_in) { return &z_in; }
+
   virtual inline double apply_inv_to_obj          (double& f_in) { return f_in;} 
   virtual inline double apply_to_obj              (double& f_in) { return f_in;} 
 
@@ -197,6 +200,19 @@ public:
     apply_to_vector(&x_in, &xv_out);
   }
   
+  /* from rs to fs; the duals of the removed variables are set to zero */
+  inline hiopVector* apply_inv_to_bound_duals(hiopVector& z_in)
+  {
+    apply_inv_to_vector(&z_in, z_fs_);
+    double* z_fs_arr = z_fs_->local_data();
+    for(size_t i=0; i<fs2rs_idx_map.size(); i++) {
+      if(fs2rs_idx_map[i]<0) {
+        z_fs_arr[i] = 0.;
+      }
+    }
+    return z_fs_;
+  }
+
   /* from rs to fs and return the fs*/
   inline hiopVector* apply_inv_to_grad_obj(hiopVector& grad_in)
   {
@@ -293,7 +309,7 @@ protected:
   size_type n_rs; //reduced-space n
 
   //working buffer used to hold the full-space (user's) vector of decision variables and other optimiz objects
-  hiopVector*x_fs, *grad_fs;
+  hiopVector*x_fs, *grad_fs, *z_fs_;
   //working buffers for the full-space Jacobians
   hiopMatrixDense *Jacc_fs, *Jacd_fs;
   
@@ -661,6 +677,15 @@ public:
     }
   }
 
+  hiopVector* apply_inv_to_bound_duals(hiopVector& z_in)
+  {
+    hiopVector* ret = &z_in;
+    for(std::list<hiopNlpTransformation*>::reverse_iterator it=list_trans_.rbegin(); it!=list_trans_.rend(); ++it) {
+      ret = (*it)->apply_inv_to_bound_duals(*ret);
+    }
+    return ret;
+  }
+
   double apply_inv_to_obj(double& f_in) 
   {
     double ret = f_in;
-- 
2.43.0


From 6a3ac442b7ad4703f1386d7de71c3d8f6869bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 014/100] fix: do not report an infeasible problem when the
 restoration was started at a feasible point

---
 src/Optimization/hiopAlgFilterIPM.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 126bc71..7e3e111 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3167,7 +3167,8 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
     // FR succeeds
     return true;
   } else if(FR_status == Solve_Success || FR_status == Solve_Acceptable_Level) {
-    solver_status_ = Infeasible_Problem;
+    // the restoration says nothing about the feasibility of the problem when it starts from a feasible point
+    solver_status_ = theta_ref > eps_tol ? Infeasible_Problem : Error_In_FR;
     return false;
   } else {
     solver_status_ = Error_In_FR;
-- 
2.43.0


From db1234c2c6b4ad735cfbbef6d9b167aa76356c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 015/100] fix: scale the constraint bounds tightened by
 elastic_mode

---
 src/Optimization/hiopNlpFormulation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index a19dc36..254de80 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1437,6 +1437,11 @@ void hiopNlpFormulation::adjust_bounds(const hiopIterate& it)
 void hiopNlpFormulation::reset_bounds(double bound_relax_perturb)
 {
   relax_bounds_->relax_from_ori(bound_relax_perturb, *xl_, *xu_, *dl_, *du_);
+  if(nlp_scaling_) {
+    // the original bounds are those of the unscaled constraints
+    dl_ = nlp_scaling_->apply_to_cons_ineq(*dl_, n_cons_ineq_);
+    du_ = nlp_scaling_->apply_to_cons_ineq(*du_, n_cons_ineq_);
+  }
 }
 
 /* ***********************************************************************************
-- 
2.43.0


From f069119da4660c34a947b04c69686bc09a82dea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 016/100] fix: judge the symmetry of a dense matrix relative to
 its size in the deep check

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index 36a2e78..e488c85 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -895,11 +895,17 @@ bool hiopMatrixDenseRowMajor::assertSymmetry(double tol) const
     return false;
   }
 
-  //symmetry
+  //symmetry, relative to the size of the matrix (small entries are subject to cancellation of large ones)
+  double size = 1.;
+  for(int i=0; i<n_local_; i++) {
+    for(int j=0; j<n_local_; j++) {
+      size = std::max(size, std::abs(M_[i][j]));
+    }
+  }
   for(int i=0; i<n_local_; i++)
     for(int j=0; j<n_local_; j++) {
       double ij=M_[i][j], ji=M_[j][i];
-      double relerr= std::abs(ij-ji)/(1+std::abs(ij));
+      double relerr= std::abs(ij-ji)/size;
       assert(relerr<tol);
       if(relerr>=tol) {
 	return false;
-- 
2.43.0


From be6044e18a55daa39474633d57775b5aa2a80f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 017/100] fix: allow the dense restoration problem to have no
 constraints

---
 src/Optimization/hiopFRProb.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index ce8c779..265ef2a 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -1733,6 +1733,10 @@ bool hiopFRProbDense::eval_Jac_cons(const size_type& n,
   hiopMatrixDense* Jac_d = dynamic_cast<hiopMatrixDense*>(solver_base_.get_Jac_d());
   assert(Jac_c && Jac_d);
 
+  if(0 == m_) {
+    return true;
+  }
+
   // extend Jac to the p and n parts
   assert(Jac != nullptr);
   // get x for the original problem
-- 
2.43.0


From 4d849b21a17aadb28bf64b030c6fc858b73d487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:12 +0000
Subject: [PATCH 018/100] fix: do not use an uninitialized solution when dposvx
 fails in the low-rank KKT solve

---
 src/Optimization/hiopKKTLinSys.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index d91a3d6..1b6b9a4 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -1215,7 +1215,9 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
   double* S = new double[N];
   double* B = rhs.local_data();
   int LDB=N;
-  double* X = new double[N];
+  // dposvx leaves X untouched when the matrix is not (numerically) positive definite; in this case the 
+  // iterative refinement below starts from zero
+  double* X = new double[N]();
   int LDX = N;
   double RCOND, FERR, BERR;
   double* WORK = new double[3*N];
-- 
2.43.0


From 782380421dbac2e9c2a1575667a1a5461d2db749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 019/100] fix: guard the low-rank Hessian product against a
 curvature lost to cancellation

---
 src/Optimization/hiopHessianLowRank.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index cba17d0..e90eed6 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -1032,7 +1032,12 @@ timesVecCmn(double beta, hiopVector& y, double alpha, const hiopVector& x, bool
       a[k]->axpy(-aiTsk, *a[i]);
     }
     double skTak = a[k]->dotProductWith(*sk);
-    a[k]->scale(1/sqrt(skTak));
+    if(skTak > 0.) {
+      a[k]->scale(1/sqrt(skTak));
+    } else {
+      // s_k'*B*s_k > 0 was lost to cancellation 
+      a[k]->setToZero();
+    }
   }
 
   //now we have B= B_0 + sum{ bk bk' - ak ak' : k=0,1,...,l_curr-1} 
-- 
2.43.0


From 042207c87d759c0c570855e7650ac9f8a20c42e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 020/100] fix: stop with an error when the one-call Jacobian
 evaluation fails (MDS, sparse)

---
 src/Optimization/hiopNlpFormulation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 254de80..7bfa8ac 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1811,6 +1811,10 @@ bool hiopNlpMDS::eval_Jac_c_d_interface_impl(hiopVector& x,
                                         pJac_d->n_sp(), pJac_d->n_de(), 
                                         nnz, cons_Jac->sp_irow(), cons_Jac->sp_jcol(), cons_Jac->sp_M(),
                                         cons_Jac->de_local_data());
+    if(!bret) {
+      runStats.tmEvalJac_con.stop();
+      return false;
+    }
     //copy back to Jac_c and Jac_d
     pJac_c->copyRowsFrom(*cons_Jac, cons_eq_mapping_->local_data_const(), n_cons_eq_);
     pJac_d->copyRowsFrom(*cons_Jac, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
@@ -2025,6 +2029,10 @@ bool hiopNlpSparse::eval_Jac_c_d_interface_impl(hiopVector& x,
                                    nullptr, 
                                    cons_Jac->M());
 
+    if(!bret) {
+      runStats.tmEvalJac_con.stop();
+      return false;
+    }
     //copy back to Jac_c and Jac_d
     pJac_c->copyRowsFrom(*cons_Jac, cons_eq_mapping_->local_data_const(), n_cons_eq_);
     pJac_d->copyRowsFrom(*cons_Jac, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
-- 
2.43.0


From 723818b4edf2fef30e059cfa5b4de26d26eedc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 021/100] fix: propagate failures of the user's functions
 through the restoration problems

---
 src/Optimization/hiopFRProb.cpp | 59 +++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index 265ef2a..eca0be5 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -254,7 +254,9 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
   // keep a copy of the original objective value at x (wrk_x_ is overwritten below)
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
 
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
@@ -308,7 +310,9 @@ bool hiopFRProbSparse::eval_cons(const size_type& n,
 
   // evaluate c and d
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
   // compute FR equality constratint body c-pe+ne
   wrk_eq_->copy_from_starting_at(x, pe_st_, m_eq_);     //pe
@@ -368,7 +372,9 @@ bool hiopFRProbSparse::eval_Jac_cons(const size_type& n,
     wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
     // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-    nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, Jac_c, Jac_d); 
+    if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, Jac_c, Jac_d)) {
+      return false;
+    }
   }
 
   Jac_cd_->set_Jac_FR(Jac_c, Jac_d, iJacS, jJacS, MJacS);
@@ -403,7 +409,9 @@ bool hiopFRProbSparse::eval_Hess_Lagr(const size_type& n,
 
     double obj_factor = 0.0;
     // get Hess for the x part --- use original Hess as buffers
-    nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, Hess);
+    if(!nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, Hess)) {
+      return false;
+    }
     
     // additional diag Hess for x:  zeta*DR^2
     wrk_x_->setToConstant(zeta_);
@@ -571,7 +579,10 @@ bool hiopFRProbSparse::iterate_callback(int iter,
   // evaluate c_body and d_body in base problem
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    // not a candidate for terminating the restoration
+    return true;
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
@@ -903,7 +914,9 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
   // keep a copy of the original objective value at x (wrk_x_ is overwritten below)
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
 
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
@@ -964,7 +977,9 @@ bool hiopFRProbMDS::eval_cons(const size_type& n,
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [xsp pe ne pi ni xde]
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
   // compute FR equality constratint body c-pe+ne
   wrk_eq_->copy_from_starting_at(x, pe_st_, m_eq_);     //pe
@@ -1035,7 +1050,9 @@ bool hiopFRProbMDS::eval_Jac_cons(const size_type& n,
      wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
 
     // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-    nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d); 
+    if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d)) {
+      return false;
+    }
   }
 
   Jac_cd_->set_Jac_FR(*Jac_c, *Jac_d, iJacS, jJacS, MJacS, JacD);
@@ -1204,7 +1221,10 @@ bool hiopFRProbMDS::iterate_callback(int iter,
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    // not a candidate for terminating the restoration
+    return true;
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
@@ -1365,7 +1385,9 @@ bool hiopFRProbMDS::eval_Hess_Lagr(const size_type& n,
 
     double obj_factor = 0.0;
     // get Hess for the x part --- use original Hess as buffers
-    nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, *Hess);
+    if(!nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, *Hess)) {
+      return false;
+    }
     
     // additional diag Hess for x:  zeta*DR^2
     wrk_x_->setToConstant(zeta_);
@@ -1615,7 +1637,9 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
 #endif
 
   // keep a copy of the original objective value at x (wrk_x_ is overwritten below)
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
 
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
@@ -1664,7 +1688,9 @@ bool hiopFRProbDense::eval_cons(const size_type& n,
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
   // evaluate base case c and d
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
 #ifdef HIOP_USE_MPI
   // p and n are only located in the last rank
@@ -1744,7 +1770,9 @@ bool hiopFRProbDense::eval_Jac_cons(const size_type& n,
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
   // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-  nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d); 
+  if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d)) {
+    return false;
+  }
   
   // FIXME add set_Jac_FR in hiopMatrixDense
   Jac_cd_->set_Jac_FR(*Jac_c, *Jac_d);
@@ -1912,7 +1940,10 @@ bool hiopFRProbDense::iterate_callback(int iter,
   // FIXME; add global methed. now we only have local method
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    // not a candidate for terminating the restoration
+    return true;
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
-- 
2.43.0


From 41f7a3872c5ab3e286f71c08653f51e54a2fd913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 022/100] fix: return Error_In_User_Function when a user
 function fails at the start, in the second-order correction or in the
 restoration

---
 src/Optimization/hiopAlgFilterIPM.cpp | 64 +++++++++++++++++++++------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 7e3e111..18fe277 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -344,7 +344,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   if(!this->evalNlp_noHess(it_ini, f, c, d, gradf, Jac_c, Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
     return false;
   }
 
@@ -363,7 +362,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
   // do function evaluation again after we adjust the primals and/or add scaling
   if(!this->evalNlp_noHess(it_ini, f, c, d, gradf, Jac_c, Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
     return false;
   }
 
@@ -425,7 +423,9 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   //we have the duals
   if(!this->evalNlp_HessOnly(it_ini, *_Hess_Lagr)) {
-    assert(false);
+    nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
+    nlp->runStats.tmStartingPoint.stop();
+    nlp->runStats.tmSolverInternal.stop();
     return false;
   }
 
@@ -905,6 +905,14 @@ void hiopAlgFilterIPMBase::displayTerminationMsg()
                        strStatsReport.c_str());
       break;
     }
+  case Error_In_User_Function:
+    {
+      nlp->log->printf(hovSummary,
+                       "Hiop stopped because a user function reported an error.\n%s\n%s\n",
+                       strStatsReport.c_str(),
+                       nlp->runStats.kkt.get_summary_total().c_str());
+      break;
+    }
   case Err_Step_Computation:
   {
       nlp->log->printf(hovSummary,
@@ -1000,7 +1008,10 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   //
   if(nlp->options->GetString("checkpoint_load_on_start") != "yes" && !load_state_api_called_) {
     //this also evaluates the nlp
-    startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); 
+    if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+      nlp->runStats.tmOptimizTotal.stop();
+      return solver_status_ = Error_In_User_Function;
+    }
     _mu=mu0;
     iter_num_total_ = 0;
   } else {
@@ -1015,7 +1026,10 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
         nlp->log->printf(hovWarning, "Using default starting procedure (no checkpoint load!).\n");
         iter_num_total_ = 0;
         //fall back on the default starting procedure (it also evaluates the nlp)
-        startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); 
+        if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+          nlp->runStats.tmOptimizTotal.stop();
+          return solver_status_ = Error_In_User_Function;
+        }
         _mu=mu0;
         iter_num_total_ = 0;
       }
@@ -1302,6 +1316,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
         solver_status_ = Error_In_User_Function;
         nlp->runStats.tmOptimizTotal.stop();
+        delete kkt;
         return Error_In_User_Function;
       }
 
@@ -1349,6 +1364,12 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                                                  grad_phi_dx_soc_computed,
                                                  grad_phi_dx_soc,
                                                  num_adjusted_slacks_soc);
+        if(Error_In_User_Function == solver_status_) {
+          nlp->runStats.tmSolverInternal.stop();
+          nlp->runStats.tmOptimizTotal.stop();
+          delete kkt;
+          return Error_In_User_Function;
+        }
         if(lsStatus>0) {
           num_adjusted_slacks = num_adjusted_slacks_soc;
           grad_phi_dx_computed = grad_phi_dx_soc_computed;
@@ -2142,7 +2163,10 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
 
   nlp->runStats.tmOptimizTotal.start();
 
-  startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); //this also evaluates the nlp
+  if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+    nlp->runStats.tmOptimizTotal.stop();
+    return solver_status_ = Error_In_User_Function;
+  }
   _mu=mu0;
 
   //update log bar
@@ -2571,6 +2595,12 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                                                    grad_phi_dx_soc_computed,
                                                    grad_phi_dx_soc,
                                                    num_adjusted_slacks_soc);
+          if(Error_In_User_Function == solver_status_) {
+            nlp->runStats.tmSolverInternal.stop();
+            nlp->runStats.tmOptimizTotal.stop();
+            delete kkt;
+            return Error_In_User_Function;
+          }
           if(lsStatus>0) {
             num_adjusted_slacks = num_adjusted_slacks_soc;
             grad_phi_dx_computed = grad_phi_dx_soc_computed;
@@ -3025,7 +3055,7 @@ int hiopAlgFilterIPMBase::apply_second_order_correction(hiopKKTLinSys* kkt,
     //evaluate the problem at the trial iterate (functions only)
     if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
       solver_status_ = Error_In_User_Function;
-      return Error_In_User_Function;
+      return 0;
     }
 
     logbar->updateWithNlpInfo_trial_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial);
@@ -3059,6 +3089,9 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       // variables have already been updated inside the above function
       return true;
     }
+    if(Error_In_User_Function == solver_status_) {
+      return false;
+    }
   
     // continue robust FR
     hiopNlpFormulation* nlpFR{nullptr};
@@ -3077,7 +3110,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
           it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
           it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-          reset_var_from_fr_sol(kkt, reset_dual = true);
+          fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
         }
       } else {
         // this is Sparse linear system
@@ -3089,7 +3122,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
           it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
           it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-          reset_var_from_fr_sol(kkt, reset_dual = true);
+          fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
         } 
       }
     } else {
@@ -3102,7 +3135,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
         // FR succeeds, update it_trial->x and it_trial->d to the next search point
         it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
         it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-        reset_var_from_fr_sol(kkt, reset_dual = true);
+        fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
       }
     }
     delete nlpFR;
@@ -3126,7 +3159,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       fr_solved = false;
     } else {
       nlp->log->printf(hovSummary, "FR problem converged! Now apply LSQ to reset duals.\n");
-      reset_var_from_fr_sol(kkt, reset_dual = false);
+      fr_solved = reset_var_from_fr_sol(kkt, reset_dual = false);
     }
   }
 
@@ -3170,6 +3203,9 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
     // the restoration says nothing about the feasibility of the problem when it starts from a feasible point
     solver_status_ = theta_ref > eps_tol ? Infeasible_Problem : Error_In_FR;
     return false;
+  } else if(FR_status == Error_In_User_Function) {
+    solver_status_ = Error_In_User_Function;
+    return false;
   } else {
     solver_status_ = Error_In_FR;
     return false;
@@ -3181,7 +3217,7 @@ bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_
   // FR succeeds, it_trial->x and it_trial->d have been updated. Now we update other values for the next iter
   if(!this->evalNlp_noHess(*it_trial, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
+    solver_status_ = Error_In_User_Function;
     return false;
   } else {
     nlp->log->printf(hovScalars, "FR: Update slacks and duals from the modified primals.\n");
@@ -3286,7 +3322,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
       //evaluate the problem at the trial iterate (functions only)
       if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
         solver_status_ = Error_In_User_Function;
-        return true;
+        return false;
       }
       // compute rhs for soft feasibility restoration. Use resid_trial since it hasn't been used
       resid_trial->update(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f,*_Jac_c,*_Jac_d, *logbar);      
@@ -3308,7 +3344,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     //evaluate the problem at the trial iterate (functions only)
     if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
       solver_status_ = Error_In_User_Function;
-      return true;
+      return false;
     }
 
     //update and adjust the duals
-- 
2.43.0


From b66451ab6f27d359b396c308ddd50f7506b97316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 023/100] fix: copy_from_starting_at copies part of an array
 into a vector that is not distributed

A count below the vector's size took the branch for distributed vectors, which
copied the wrong elements, the wrong number of them or none.
---
 src/LinAlg/hiopVectorPar.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopVectorPar.cpp b/src/LinAlg/hiopVectorPar.cpp
index d3587e2..a3e8cbd 100644
--- a/src/LinAlg/hiopVectorPar.cpp
+++ b/src/LinAlg/hiopVectorPar.cpp
@@ -241,7 +241,8 @@ void hiopVectorPar::copy_from_starting_at(const double* v, int start_index_in_gl
 //  return;
 
   if(n_local_ > 0) {
-    if(global_nv == n_local_ && n_local_ == n_) {
+    if(n_local_ == n_) {
+      assert(global_nv <= n_local_);
       exec_space_.copy(data_, v+start_index_in_global_v, global_nv);
     } else {
       if( glob_il_ <= start_index_in_global_v + global_nv && glob_iu_ >= start_index_in_global_v ) {
-- 
2.43.0


From 182d26f6c7e3460d292b61d33b21e6861b5be70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 024/100] fix: the index map of convert_to_csr_arrays follows a
 diagonal entry moved by the sorting of its row

---
 src/LinAlg/hiopMatrixSparseTriplet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixSparseTriplet.cpp b/src/LinAlg/hiopMatrixSparseTriplet.cpp
index 6b81c4f..f378759 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.cpp
@@ -1302,7 +1302,7 @@ void hiopMatrixSparseTriplet::convert_to_csr_arrays(int &csr_nnz,
       
       int old_nnz_idx = index_convert_extra_Diag2CSR_temp[i];
       if(old_nnz_idx!=-1){
-        int old_nnz_in_row = ind_temp[old_nnz_idx - csr_kRowPtr[i]];
+        int old_nnz_in_row = old_nnz_idx - csr_kRowPtr[i];
         std::vector<int>::iterator p = std::find(ind_temp.begin(),ind_temp.end(),old_nnz_in_row);
         assert(p != ind_temp.end());        
         int new_nnz_idx = (int) std::distance (ind_temp.begin(), p) + csr_kRowPtr[i];
-- 
2.43.0


From 324eed8c64329a7251a7fac73227e2137653f471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 025/100] fix: startingAtAddSubDiagonalToStartingAt writes the
 diagonal starting at the requested position of the destination

---
 src/LinAlg/hiopMatrixSparseTriplet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/hiopMatrixSparseTriplet.cpp b/src/LinAlg/hiopMatrixSparseTriplet.cpp
index f378759..3038afa 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.cpp
@@ -1022,7 +1022,7 @@ void hiopMatrixSymSparseTriplet::startingAtAddSubDiagonalToStartingAt(int diag_s
                                                                       int num_elems/*=-1*/) const
 {
   hiopVectorPar& vd = dynamic_cast<hiopVectorPar&>(vec_dest);
-  if(num_elems<0) num_elems = vd.get_size();
+  if(num_elems<0) num_elems = vd.get_size()-vec_start;
   assert(num_elems<=vd.get_size());
 
   assert(diag_src_start>=0 && diag_src_start+num_elems<=this->nrows_);
@@ -1032,8 +1032,8 @@ void hiopMatrixSymSparseTriplet::startingAtAddSubDiagonalToStartingAt(int diag_s
     const int row = iRow_[itnz];
     if(row==jCol_[itnz]) {
       if(row>=diag_src_start && row<diag_src_start+num_elems) {
-        assert(row+vec_start<vd.get_size());
-        v[vec_start+row] += alpha * this->values_[itnz];
+        assert(row-diag_src_start+vec_start<vd.get_size());
+        v[vec_start+row-diag_src_start] += alpha * this->values_[itnz];
       }
     }
   }
-- 
2.43.0


From 72beaf75225265f9a1490d9770291afd35facbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 026/100] fix: timesVec and transTimesVec with beta=0 do not
 keep NaNs of the uninitialized result vector

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 5 ++++-
 src/LinAlg/hiopMatrixSparseTriplet.cpp | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index e488c85..631bea5 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -472,7 +472,10 @@ timesVec(double beta, double* ya, double alpha, const double* xa) const
   } else {
     if( MM != 0 ) {
       //y.scale( beta );
-      if(beta != 1.) {
+      if(beta == 0.) {
+        //y may not be initialized (DSCAL by zero keeps NaNs)
+        for(int i=0; i<MM; i++) ya[i] = 0.;
+      } else if(beta != 1.) {
 	int one=1; 
 	DSCAL(&MM, &beta, ya, &one);
       }
diff --git a/src/LinAlg/hiopMatrixSparseTriplet.cpp b/src/LinAlg/hiopMatrixSparseTriplet.cpp
index 3038afa..7341a7b 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.cpp
@@ -77,7 +77,7 @@ void hiopMatrixSparseTriplet::timesVec(double beta,
 {
   // y= beta*y
   for (int i = 0; i < nrows_; i++) {
-    y[i] *= beta;
+    y[i] = beta==0. ? 0. : beta*y[i];
   }
 
   // y += alpha*this*x
@@ -114,7 +114,7 @@ void hiopMatrixSparseTriplet::transTimesVec(double beta,
 {
   // y:= beta*y
   for (int i = 0; i < ncols_; i++) {
-    y[i] *= beta;
+    y[i] = beta==0. ? 0. : beta*y[i];
   }
 
   // y += alpha*this^T*x
@@ -944,7 +944,7 @@ void hiopMatrixSymSparseTriplet::timesVec(double beta,  double* y,
   assert(ncols_ == nrows_);
   // y:= beta*y
   for (int i = 0; i < nrows_; i++) {
-    y[i] *= beta;
+    y[i] = beta==0. ? 0. : beta*y[i];
   }
 
   // y += alpha*this*x
-- 
2.43.0


From bda1cb01dd403f4ffa38eaa6219137936f5d2b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:36 +0000
Subject: [PATCH 027/100] fix: timesMatTrans of mixed dense-sparse matrices
 applies alpha

---
 src/LinAlg/hiopMatrixMDS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixMDS.hpp b/src/LinAlg/hiopMatrixMDS.hpp
index 9998bc8..f8c42b4 100644
--- a/src/LinAlg/hiopMatrixMDS.hpp
+++ b/src/LinAlg/hiopMatrixMDS.hpp
@@ -95,8 +95,8 @@ public:
   {
     const hiopMatrixMDS &X_mds = dynamic_cast<const hiopMatrixMDS&>(X);
     
-    mDe->timesMatTrans(beta, W, 1.0, *X_mds.de_mat());
-    mSp->timesMatTrans(1.0, W, 1.0, *X_mds.sp_mat());
+    mDe->timesMatTrans(beta, W, alpha, *X_mds.de_mat());
+    mSp->timesMatTrans(1.0, W, alpha, *X_mds.sp_mat());
   }
 
 
-- 
2.43.0


From 4ca642744be40bc87ae2281c9c5136c071c4c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:36 +0000
Subject: [PATCH 028/100] fix: dense matrix products with an empty inner or
 column dimension

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index 631bea5..f134b2c 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -549,7 +549,7 @@ void hiopMatrixDenseRowMajor::timesMat(double beta, hiopMatrix& W_, double alpha
   assert(X.m()==this->n());
   assert(W.n()==X.n());
 
-  if(W.m()==0 || X.m()==0 || W.n()==0) return;
+  if(W.m()==0 || W.n()==0) return;
 #ifdef HIOP_DEEPCHECKS  
   assert(W.isfinite());
   assert(X.isfinite());
@@ -590,6 +590,13 @@ void hiopMatrixDenseRowMajor::timesMat_local(double beta, hiopMatrix& W_, double
   assert(X.isfinite());
 #endif
   assert(W.n_local_==W.n_global_ && "requested multiplication is not supported, see timesMat");
+  if(W.m()==0 || W.n()==0) return;
+  if(X.m()==0) {
+    // this*X is zero
+    int one=1, mn=W.m()*W.n();
+    DSCAL(&mn, &beta, W.M_[0], &one);
+    return;
+  }
   
   /* C = alpha*op(A)*op(B) + beta*C in our case is
      Wt= alpha* Xt  *Mt    + beta*Wt */
@@ -628,7 +635,7 @@ void hiopMatrixDenseRowMajor::transTimesMat(double beta, hiopMatrix& W_, double
   assert(W.isfinite());
   assert(X.isfinite());
 #endif
-  if(W.m()==0) return;
+  if(W.m()==0 || W.n_local_==0) return;
 
   assert(this->n_global_==this->n_local_ && "requested parallel multiplication is not supported");
   
-- 
2.43.0


From 0bec1faad1b16473105a4b1e788f8a744d52d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:36 +0000
Subject: [PATCH 029/100] fix: copies of a dense matrix know the number of
 ranks

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index f134b2c..5ef02ca 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -112,7 +112,7 @@ hiopMatrixDenseRowMajor::hiopMatrixDenseRowMajor(const hiopMatrixDenseRowMajor&
 {
   n_local_=dm.n_local_; m_local_=dm.m_local_; n_global_=dm.n_global_;
   glob_jl_=dm.glob_jl_; glob_ju_=dm.glob_ju_;
-  comm_=dm.comm_; myrank_=dm.myrank_;
+  comm_=dm.comm_; myrank_=dm.myrank_; comm_size_=dm.comm_size_;
 
   //M=new double*[m_local_==0?1:m_local_];
   max_rows_ = dm.max_rows_;
-- 
2.43.0


From eec9f8832cc3c13a936e9bcc734bcbd9dfd30346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:08 +0000
Subject: [PATCH 030/100] fix: transposed KKT operator is the transpose of the
 KKT operator

---
 src/Optimization/hiopKKTLinSys.cpp | 172 ++++++++++++++---------------
 1 file changed, 86 insertions(+), 86 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index 1b6b9a4..89cf78e 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -1777,94 +1777,94 @@ bool hiopMatVecKKTFullOpr::trans_times_vec(hiopVector& yvec, const hiopVector& x
 
   assert(x.get_num_parts()==y.get_num_parts() && x.get_num_parts() == 12);
 
-  hiopVector* dx_ = &(x.getVector(0));
-  hiopVector* dd_ = &(x.getVector(1));
-  hiopVector* dyc_ = &(x.getVector(2));
-  hiopVector* dyd_ = &(x.getVector(3));
-  hiopVector* dsxl_= &(x.getVector(4));
-  hiopVector* dsxu_ = &(x.getVector(5));
-  hiopVector* dsdl_ = &(x.getVector(6));
-  hiopVector* dsdu_ = &(x.getVector(7));
-  hiopVector* dzl_ = &(x.getVector(8));
-  hiopVector* dzu_ = &(x.getVector(9));
-  hiopVector* dvl_ = &(x.getVector(10));
-  hiopVector* dvu_ = &(x.getVector(11));
+  // 'x' has the layout of the residual and 'y' the layout of the direction
+  hiopVector* rx_ = &(x.getVector(0));
+  hiopVector* rd_ = &(x.getVector(1));
+  hiopVector* ryc_ = &(x.getVector(2));
+  hiopVector* ryd_ = &(x.getVector(3));
+  hiopVector* rxl_= &(x.getVector(4));
+  hiopVector* rxu_ = &(x.getVector(5));
+  hiopVector* rdl_ = &(x.getVector(6));
+  hiopVector* rdu_ = &(x.getVector(7));
+  hiopVector* rszl_ = &(x.getVector(8));
+  hiopVector* rszu_ = &(x.getVector(9));
+  hiopVector* rsvl_ = &(x.getVector(10));
+  hiopVector* rsvu_ = &(x.getVector(11));
   
-  hiopVector* yrx_ = &(y.getVector(0));
-  hiopVector* yrd_ = &(y.getVector(1));
-  hiopVector* yryc_ = &(y.getVector(2));
-  hiopVector* yryd_ = &(y.getVector(3));
-  hiopVector* yrsxl_ = &(y.getVector(4));
-  hiopVector* yrsxu_ = &(y.getVector(5));
-  hiopVector* yrsdl_ = &(y.getVector(6));
-  hiopVector* yrsdu_ = &(y.getVector(7));
-  hiopVector* yrzl_ = &(y.getVector(8));
-  hiopVector* yrzu_ = &(y.getVector(9));
-  hiopVector* yrvl_ = &(y.getVector(10));
-  hiopVector* yrvu_ = &(y.getVector(11));
-
-  //rx = H*dx + delta_wx_*I*dx + Jc'*dyc + Jd'*dyd - dzl + dzu
-  Hess->timesVec(0.0, *yrx_, +1.0, *dx_);
-  yrx_->axzpy(1., *delta_wx, *dx_);
-  Jac_c->transTimesVec(1.0, *yrx_, 1.0, *dyc_);
-  Jac_d->transTimesVec(1.0, *yrx_, 1.0, *dyd_);
-  yrx_->axpy(-1.0, *dzl_);
-  yrx_->axpy( 1.0, *dzu_);
-
-  //RD = delta_wd_*dd - dyd - dvl + dvu
-  yrd_->setToZero();
-  yrd_->axpy(-1., *dyd_);
-  yrd_->axpy(-1., *dvl_);
-  yrd_->axpy(+1., *dvu_);
-  yrd_->axzpy(1., *delta_wd, *dd_);
-
-  //RYC = Jc*dx - delta_cc_*dyc
-  Jac_c->timesVec(0.0, *yryc_, 1.0, *dx_);
-  yryc_->axzpy(-1., *delta_cc, *dyc_);
-
-  //RYD = Jd*dx - dd - delta_cd_*dyd
-  Jac_d->timesVec(0.0, *yryd_, 1.0, *dx_);
-  yryd_->axpy(-1.0, *dd_);
-  yryd_->axzpy(-1., *delta_cd, *dyd_);
-
-  //RXL = -dx + Sxl*dsxl
-  yrsxl_->setToZero();
-  yrsxl_->axpy(-1.0, *dx_);
-  yrsxl_->axzpy(1.0,*iter_->get_sxl(), *dsxl_);
-  yrsxl_->selectPattern(kkt_->nlp_->get_ixl());
+  hiopVector* yx_ = &(y.getVector(0));
+  hiopVector* yd_ = &(y.getVector(1));
+  hiopVector* yyc_ = &(y.getVector(2));
+  hiopVector* yyd_ = &(y.getVector(3));
+  hiopVector* ysxl_ = &(y.getVector(4));
+  hiopVector* ysxu_ = &(y.getVector(5));
+  hiopVector* ysdl_ = &(y.getVector(6));
+  hiopVector* ysdu_ = &(y.getVector(7));
+  hiopVector* yzl_ = &(y.getVector(8));
+  hiopVector* yzu_ = &(y.getVector(9));
+  hiopVector* yvl_ = &(y.getVector(10));
+  hiopVector* yvu_ = &(y.getVector(11));
+
+  //x: H*rx + delta_wx_*I*rx + Jc'*ryc + Jd'*ryd - rxl + rxu
+  Hess->timesVec(0.0, *yx_, +1.0, *rx_);
+  yx_->axzpy(1., *delta_wx, *rx_);
+  Jac_c->transTimesVec(1.0, *yx_, 1.0, *ryc_);
+  Jac_d->transTimesVec(1.0, *yx_, 1.0, *ryd_);
+  yx_->axpy(-1.0, *rxl_);
+  yx_->axpy( 1.0, *rxu_);
+
+  //d: delta_wd_*rd - ryd - rdl + rdu
+  yd_->setToZero();
+  yd_->axpy(-1., *ryd_);
+  yd_->axpy(-1., *rdl_);
+  yd_->axpy(+1., *rdu_);
+  yd_->axzpy(1., *delta_wd, *rd_);
+
+  //yc: Jc*rx - delta_cc_*ryc
+  Jac_c->timesVec(0.0, *yyc_, 1.0, *rx_);
+  yyc_->axzpy(-1., *delta_cc, *ryc_);
+
+  //yd: Jd*rx - rd - delta_cd_*ryd
+  Jac_d->timesVec(0.0, *yyd_, 1.0, *rx_);
+  yyd_->axpy(-1.0, *rd_);
+  yyd_->axzpy(-1., *delta_cd, *ryd_);
+
+  //sxl: rxl + Zl*rszl
+  ysxl_->copyFrom(*rxl_);
+  ysxl_->axzpy(1.0,*iter_->get_zl(), *rszl_);
   
-  //RXU = dx + Sxu*dsxu
-  yrsxu_->copyFrom(*dx_);
-  yrsxu_->axzpy(1.0,*iter_->get_sxu(), *dsxu_);
-  yrsxu_->selectPattern(kkt_->nlp_->get_ixu());
-
-  //RDL = -dd + Sdl*dsdl
-  yrsdl_->setToZero();
-  yrsdl_->axpy( -1.0, *dd_);
-  yrsdl_->axzpy(1.0,*iter_->get_sdl(), *dsdl_);
-  yrsdl_->selectPattern(kkt_->nlp_->get_idl());
-
-  //RDU = dd + Sdu*dsdu
-  yrsdu_->setToZero();
-  yrsdu_->axpy( 1.0, *dd_);
-  yrsdu_->axzpy(1.0,*iter_->get_sdu(), *dsdu_);
-  yrsdu_->selectPattern(kkt_->nlp_->get_idu());
-
-  // rszl = dzxl + Zxl*dsxl
-  yrzl_->copyFrom(*dzl_);
-  yrzl_->axzpy(1.0,*iter_->get_zl(), *dsxl_);
-
-  // rszu = dzxu + Zxu*dsxu
-  yrzu_->copyFrom(*dzu_);
-  yrzu_->axzpy(1.0,*iter_->get_zu(), *dsxu_);
-
-  // rsvl = dzdl + Zdl dsdl
-  yrvl_->copyFrom(*dvl_);
-  yrvl_->axzpy(1.0,*iter_->get_vl(), *dsdl_);
-
-  // rszu = dzdu + Zdu dsdu
-  yrvu_->copyFrom(*dvu_);
-  yrvu_->axzpy(1.0,*iter_->get_vu(), *dsdu_);
+  //sxu: rxu + Zu*rszu
+  ysxu_->copyFrom(*rxu_);
+  ysxu_->axzpy(1.0,*iter_->get_zu(), *rszu_);
+
+  //sdl: rdl + Vl*rsvl
+  ysdl_->copyFrom(*rdl_);
+  ysdl_->axzpy(1.0,*iter_->get_vl(), *rsvl_);
+
+  //sdu: rdu + Vu*rsvu
+  ysdu_->copyFrom(*rdu_);
+  ysdu_->axzpy(1.0,*iter_->get_vu(), *rsvu_);
+
+  //zl: -rx + Sxl*rszl
+  yzl_->setToZero();
+  yzl_->axpy(-1.0, *rx_);
+  yzl_->axzpy(1.0,*iter_->get_sxl(), *rszl_);
+  yzl_->selectPattern(kkt_->nlp_->get_ixl());
+
+  //zu: rx + Sxu*rszu
+  yzu_->copyFrom(*rx_);
+  yzu_->axzpy(1.0,*iter_->get_sxu(), *rszu_);
+  yzu_->selectPattern(kkt_->nlp_->get_ixu());
+
+  //vl: -rd + Sdl*rsvl
+  yvl_->setToZero();
+  yvl_->axpy(-1.0, *rd_);
+  yvl_->axzpy(1.0,*iter_->get_sdl(), *rsvl_);
+  yvl_->selectPattern(kkt_->nlp_->get_idl());
+
+  //vu: rd + Sdu*rsvu
+  yvu_->copyFrom(*rd_);
+  yvu_->axzpy(1.0,*iter_->get_sdu(), *rsvu_);
+  yvu_->selectPattern(kkt_->nlp_->get_idu());
 
   return true;
 }
-- 
2.43.0


From 20e1af95827bb0cc426591999efaeba9e247d8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:16 +0000
Subject: [PATCH 031/100] fix: dense KKT systems regularize equalities and
 inequalities each with their own dual perturbation

---
 src/Optimization/hiopKKTLinSysDense.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSysDense.hpp b/src/Optimization/hiopKKTLinSysDense.hpp
index 9079040..fc1c427 100644
--- a/src/Optimization/hiopKKTLinSysDense.hpp
+++ b/src/Optimization/hiopKKTLinSysDense.hpp
@@ -153,7 +153,8 @@ public:
 #ifdef HIOP_DEEPCHECKS
     assert(perturb_calc_->check_consistency() && "something went wrong with IC");
 #endif
-    Msys.addSubDiagonal(alpha, nx, *delta_cd_);
+    Msys.addSubDiagonal(alpha, nx, *delta_cc_);
+    Msys.addSubDiagonal(alpha, nx+neq, *delta_cd_);
 
     nlp_->log->write("KKT Linsys:", Msys, hovMatrices);
 
@@ -309,10 +310,8 @@ public:
       col_start++;
     }
 
-#ifdef HIOP_DEEPCHECKS
-      assert(delta_cc_->is_equal(*delta_cd_));
-#endif
-    Msys.addSubDiagonal(-alpha, nx+nineq, *delta_cd_);
+    Msys.addSubDiagonal(-alpha, nx+nineq, *delta_cc_);
+    Msys.addSubDiagonal(-alpha, nx+nineq+neq, *delta_cd_);
 
     nlp_->log->write("KKT Linsys:", Msys, hovMatrices);
 
-- 
2.43.0


From ab0902bc13d4f7b34f09e0dec47e30d0eaf89dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 032/100] fix: MDS KKT system computes the inequalities'
 barrier diagonal used by the curvature test

---
 src/Optimization/hiopKKTLinSysMDS.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Optimization/hiopKKTLinSysMDS.cpp b/src/Optimization/hiopKKTLinSysMDS.cpp
index 40830c1..49b431f 100644
--- a/src/Optimization/hiopKKTLinSysMDS.cpp
+++ b/src/Optimization/hiopKKTLinSysMDS.cpp
@@ -157,6 +157,12 @@ namespace hiop
     Dx_->axdzpy_w_pattern(1.0, *iter->zu, *iter->sxu, nlp_->get_ixu());
     nlp_->log->write("Dx in KKT", *Dx_, hovMatrices);
 
+    // Dd=(Sdl)^{-1}Vu + (Sdu)^{-1}Vu (used by the curvature test)
+    Dd_->setToZero();
+    Dd_->axdzpy_w_pattern(1.0, *iter->vl, *iter->sdl, nlp_->get_idl());
+    Dd_->axdzpy_w_pattern(1.0, *iter->vu, *iter->sdu, nlp_->get_idu());
+    nlp_->log->write("Dd in KKT", *Dd_, hovMatrices);
+
     nlp_->runStats.kkt.tmUpdateInit.stop();
 
     //
-- 
2.43.0


From 09e91076bf36fcc740a789bb46162574b3181776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 033/100] fix: primal regularization of a degenerate Hessian is
 not overwritten by the dual one

---
 src/Optimization/hiopPDPerturbation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index e73125a..daa3a10 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -346,6 +346,8 @@ namespace hiop
       }
     }
     delta_wd_curr_db_ = delta_wx_curr_db_;
+    delta_wx = delta_wx_curr_db_;
+    delta_wd = delta_wd_curr_db_;
     set_delta_curr_vec(PrimalUpdate);
 
     if(delta_wx_curr_db_ > delta_w_max_bar_) {
-- 
2.43.0


From e3cd6e1178bdc924bec89856e6379a4de0c3eea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 034/100] fix: reinitialized regularization forgets the
 previous perturbations

---
 src/Optimization/hiopPDPerturbation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index daa3a10..9a29d32 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -98,6 +98,11 @@ namespace hiop
     delta_cc_last_->setToZero();
     delta_cd_last_->setToZero();
 
+    delta_wx_curr_db_ = delta_wd_curr_db_ = delta_cc_curr_db_ = delta_cd_curr_db_ = 0.;
+    delta_wx_last_db_ = delta_wd_last_db_ = delta_cc_last_db_ = delta_cd_last_db_ = 0.;
+
+    hess_degenerate_ = dtNotEstablished;
+    jac_degenerate_ = dtNotEstablished;
     num_degen_iters_ = 0;
 
     deltas_test_type_ = dttNoTest;
-- 
2.43.0


From d38d9d762d56ca2cfdcf0f75962f41ad219597fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 035/100] fix: singularity reported after an inertia correction
 does not abort

---
 src/Optimization/hiopPDPerturbation.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index 9a29d32..624a9cb 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -280,8 +280,17 @@ namespace hiop
         }
         break;
       case dttDeltacposDeltaw0:
-        assert(delta_wx_curr_db_ == 0. && delta_cc_curr_db_ > 0.);
+        assert(delta_cc_curr_db_ > 0.);
         assert(jac_degenerate_ == dtNotEstablished);
+        if(delta_wx_curr_db_ > 0.) {
+          // the inertia was corrected after the Jacobian was perturbed: both perturbations are in use
+          if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
+            bret = false;
+            break;
+          }
+          deltas_test_type_ = dttDeltacposDeltawpos;
+          break;
+        }
         delta_cd_curr_db_ = delta_cc_curr_db_ = 0.;
         if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
           bret = false;
@@ -304,7 +313,12 @@ namespace hiop
         }
         break;
       case dttNoTest:
-        assert(false && "something went wrong - should not get here");
+        // the Jacobian was perturbed after the Hessian perturbation became too large
+        assert(delta_cc_curr_db_ > 0.);
+        if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
+          bret = false;
+        }
+        break;
       }
     } else {
       if(delta_cc_curr_db_ > 0.) { 
-- 
2.43.0


From 49fbea675bc14d3b08c5127233cf1bd6f5c479ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 036/100] fix: copy of the residuals includes the constraint
 violation

---
 src/Optimization/hiopResidual.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Optimization/hiopResidual.cpp b/src/Optimization/hiopResidual.cpp
index f5a56c0..8309496 100644
--- a/src/Optimization/hiopResidual.cpp
+++ b/src/Optimization/hiopResidual.cpp
@@ -418,6 +418,7 @@ void hiopResidual::copyFrom(const hiopResidual& resid_src)
   nrmOne_bar_feasib = resid_src.get_nrmOne_bar_feasib();
   nrmOne_nlp_optim = resid_src.get_nrmOne_nlp_optim();
   nrmOne_bar_optim = resid_src.get_nrmOne_bar_optim();
+  nrmInf_cons_violation = resid_src.nrmInf_cons_violation;
   
   nlp = resid_src.nlp;
 }
-- 
2.43.0


From 9d94ae3f3afbf01f674b82063dda202a2f2f3e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 037/100] fix: iterate callback reports the iterate in the
 user's space and units

---
 src/Optimization/hiopNlpFormulation.cpp | 52 ++++++++++++++++++-------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 7bfa8ac..c4d988e 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1185,13 +1185,13 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
                                                double obj_value,
                                                double logbar_obj_value,
                                                const hiopVector& x,
-                                               const hiopVector& z_L,
-                                               const hiopVector& z_U,
-                                               const hiopVector& s,
-                                               const hiopVector& c,
-                                               const hiopVector& d,
-                                               const hiopVector& y_c,
-                                               const hiopVector& y_d,
+                                               const hiopVector& z_L_hiop,
+                                               const hiopVector& z_U_hiop,
+                                               const hiopVector& s_hiop,
+                                               const hiopVector& c_hiop,
+                                               const hiopVector& d_hiop,
+                                               const hiopVector& y_c_hiop,
+                                               const hiopVector& y_d_hiop,
                                                double inf_pr,
                                                double inf_du,
                                                double onenorm_pr,
@@ -1200,6 +1200,13 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
                                                double alpha_pr,
                                                int ls_trials)
 {
+  // work on copies: the iterate is still needed by the solver
+  std::unique_ptr<hiopVector> z_L_copy(z_L_hiop.new_copy()), z_U_copy(z_U_hiop.new_copy()), s_copy(s_hiop.new_copy());
+  std::unique_ptr<hiopVector> c_copy(c_hiop.new_copy()), d_copy(d_hiop.new_copy());
+  std::unique_ptr<hiopVector> y_c_copy(y_c_hiop.new_copy()), y_d_copy(y_d_hiop.new_copy());
+  hiopVector &z_L = *z_L_copy, &z_U = *z_U_copy, &s = *s_copy;
+  hiopVector &c = *c_copy, &d = *d_copy, &y_c = *y_c_copy, &y_d = *y_d_copy;
+
   assert(x.get_size()==n_vars_);
   assert(c.get_size()+d.get_size()==n_cons_);
 
@@ -1209,6 +1216,19 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
   if(cons_lambdas_ == NULL) {
     cons_lambdas_ = this->alloc_dual_vec();
   }
+  if(nlp_scaling_) {
+    // return unscaled values, as user_callback_solution does
+    const double obj_scale_ext_to_hiop = this->get_obj_scale();
+    y_c = *(nlp_transformations_.apply_to_cons_eq(y_c, n_cons_eq_));
+    y_d = *(nlp_transformations_.apply_to_cons_ineq(y_d, n_cons_ineq_));
+    y_c.scale(1./obj_scale_ext_to_hiop);
+    y_d.scale(1./obj_scale_ext_to_hiop);
+    z_L.scale(1./obj_scale_ext_to_hiop);
+    z_U.scale(1./obj_scale_ext_to_hiop);
+    c = *(nlp_transformations_.apply_inv_to_cons_eq(c, n_cons_eq_));
+    d = *(nlp_transformations_.apply_inv_to_cons_ineq(d, n_cons_ineq_));
+    s = *(nlp_transformations_.apply_inv_to_cons_ineq(s, n_cons_ineq_));
+  }
   cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
 
   //concatenate 'c' and 'd' into user's constrainty body
@@ -1217,10 +1237,6 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
   }
   cons_body_->copy_from_two_vec_w_pattern(c, *cons_eq_mapping_, d, *cons_ineq_mapping_);
 
-  //! todo -> test this when fixed variables are removed -> the internal
-  //! zl and zu may have different sizes than what user expects since HiOp removes
-  //! variables internally
-
   bool bret{false};
 
   if(options->GetString("callback_mem_space")=="host" && options->GetString("mem_space")=="device") {
@@ -1267,13 +1283,19 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
                                            alpha_pr,
                                            ls_trials);
   } else {
+    // the user's variables and bound duals, which include the fixed variables HiOp removed internally
+    std::unique_ptr<hiopVector> x_copy(x.new_copy());
+    const hiopVector& x_user = *nlp_transformations_.apply_inv_to_x(*x_copy, true);
+    std::unique_ptr<hiopVector> z_L_user(nlp_transformations_.apply_inv_to_bound_duals(z_L)->new_copy());
+    std::unique_ptr<hiopVector> z_U_user(nlp_transformations_.apply_inv_to_bound_duals(z_U)->new_copy());
+
     bret = interface_base.iterate_callback(iter,
                                            obj_value/this->get_obj_scale(),
                                            logbar_obj_value,
-                                           (int)n_vars_,
-                                           x.local_data_const(),
-                                           z_L.local_data_const(),
-                                           z_U.local_data_const(),
+                                           (int)nlp_transformations_.n_pre(),
+                                           x_user.local_data_const(),
+                                           z_L_user->local_data_const(),
+                                           z_U_user->local_data_const(),
                                            (int)n_cons_ineq_,
                                            s.local_data_const(),
                                            (int)n_cons_,
-- 
2.43.0


From 4a9fbb716293aa5022ee5efb580e94f8d55290f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 038/100] fix: elastic mode works when bound_relax_perturb is
 zero

---
 src/Optimization/hiopNlpFormulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index c4d988e..4a6ba12 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -400,7 +400,7 @@ bool hiopNlpFormulation::finalizeInitialization()
   //
   // relax bounds for simple bounds and constraints)
   //
-  if(options->GetNumeric("bound_relax_perturb") > 0.0) {
+  if(options->GetNumeric("bound_relax_perturb") > 0.0 || options->GetString("elastic_mode") != "none") {
     relax_bounds_ = new hiopBoundsRelaxer(this, *xl_, *xu_, *dl_, *du_);
     relax_bounds_->setup();
     if(options->GetString("elastic_mode") == "none") {
-- 
2.43.0


From 7ce38c98529ff760e3d6670a8ec2ab2b36a18706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 039/100] fix: the user's starting multipliers and slacks are
 those of the unscaled problem and must be scaled

---
 src/Optimization/hiopAlgFilterIPM.cpp   | 11 +++++++++
 src/Optimization/hiopNlpFormulation.cpp | 31 +++++++++++++++++++++++++
 src/Optimization/hiopNlpFormulation.hpp |  8 +++++++
 3 files changed, 50 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 18fe277..527dc1d 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -349,6 +349,17 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   [[maybe_unused]] const bool do_nlp_scaling = nlp->apply_scaling(c, d, gradf, Jac_c, Jac_d);
   
+  // the duals and slacks provided by the user are those of the unscaled problem
+  if(duals_avail) {
+    nlp->apply_scaling_to_duals(*it_ini.get_zl(), *it_ini.get_zu(), *it_ini.get_yc(), *it_ini.get_yd());
+  }
+  if(slacks_avail) {
+    nlp->apply_scaling_to_ineq_slacks(*it_ini.get_d());
+  }
+  if(warmstart_avail) {
+    nlp->apply_scaling_to_ineq_bound_duals(*it_ini.get_vl(), *it_ini.get_vu());
+  }
+
   nlp->runStats.tmSolverInternal.start();
   nlp->runStats.tmStartingPoint.start();
 
diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 4a6ba12..1eee228 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -883,7 +883,38 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
   return bret;
 }
 
+void hiopNlpFormulation::apply_scaling_to_duals(hiopVector& zL, hiopVector& zU, hiopVector& yc, hiopVector& yd)
+{
+  if(nullptr == nlp_scaling_) {
+    return;
+  }
+  const double obj_scale = get_obj_scale();
+  zL.scale(obj_scale);
+  zU.scale(obj_scale);
+  yc.scale(obj_scale);
+  nlp_scaling_->apply_inv_to_cons_eq(yc, n_cons_eq_);
+  yd.scale(obj_scale);
+  nlp_scaling_->apply_inv_to_cons_ineq(yd, n_cons_ineq_);
+}
 
+void hiopNlpFormulation::apply_scaling_to_ineq_slacks(hiopVector& d)
+{
+  if(nlp_scaling_) {
+    nlp_scaling_->apply_to_cons_ineq(d, n_cons_ineq_);
+  }
+}
+
+void hiopNlpFormulation::apply_scaling_to_ineq_bound_duals(hiopVector& vl, hiopVector& vu)
+{
+  if(nullptr == nlp_scaling_) {
+    return;
+  }
+  const double obj_scale = get_obj_scale();
+  vl.scale(obj_scale);
+  nlp_scaling_->apply_inv_to_cons_ineq(vl, n_cons_ineq_);
+  vu.scale(obj_scale);
+  nlp_scaling_->apply_inv_to_cons_ineq(vu, n_cons_ineq_);
+}
 
 bool hiopNlpFormulation::eval_c(hiopVector& x, bool new_x, hiopVector& c)
 {
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 944518e..35dfcce 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -104,6 +104,14 @@ public:
   virtual bool apply_scaling(hiopVector& c, hiopVector& d, hiopVector& gradf, 
                              hiopMatrix& Jac_c, hiopMatrix& Jac_d);
 
+  /**
+   * Convert multipliers and slacks of the inequalities from the units of the user's (unscaled) problem to the
+   * ones of the scaled problem. No-op if the problem is not scaled.
+   */
+  void apply_scaling_to_duals(hiopVector& zL, hiopVector& zU, hiopVector& yc, hiopVector& yd);
+  void apply_scaling_to_ineq_slacks(hiopVector& d);
+  void apply_scaling_to_ineq_bound_duals(hiopVector& vl, hiopVector& vu);
+
   /**
    * Wrappers for the interface calls. 
    * Can be overridden for specialized formulations required by the algorithm.
-- 
2.43.0


From cf349cb966ccdbda3a4c707fdadcbc3c0f86280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 040/100] fix: starting multipliers have the user's size and
 only exist for existing bounds; a refused starting point is not used

---
 src/Optimization/hiopAlgFilterIPM.cpp   |  6 ++-
 src/Optimization/hiopNlpFormulation.cpp | 55 +++++++++++++++++++++----
 2 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 527dc1d..2c7551c 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -309,8 +309,10 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
                                         *it_ini.get_d(),
                                         *it_ini.get_vl(),
                                         *it_ini.get_vu());
-    warmstart_avail = duals_avail = slacks_avail = true;
-  } else {
+    warmstart_avail = duals_avail = slacks_avail = ret_bool;
+  }
+
+  if(!warmstart_avail) {
     ret_bool = nlp->get_starting_point(*it_ini.get_x(),
                                        duals_avail,
                                        *it_ini.get_zl(),
diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 1eee228..ebc85f4 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -793,8 +793,13 @@ bool hiopNlpFormulation::get_starting_point(hiopVector& x0_for_hiop,
                   yc0_for_hiop.get_size() + yd0_for_hiop.get_size());
 
   hiopVector* x0_for_user = nlp_transformations_.apply_inv_to_x(x0_for_hiop, true);
-  double* zL0_for_user = zL0_for_hiop.local_data();
-  double* zU0_for_user = zU0_for_hiop.local_data();
+  // the bound duals, as the primals, have the size of the user's problem
+  hiopVector* zL0_user_size = nlp_transformations_.apply_inv_to_bound_duals(zL0_for_hiop);
+  const bool bound_duals_transformed = zL0_user_size != &zL0_for_hiop;
+  hiopVector* zL0_user = bound_duals_transformed ? zL0_user_size->alloc_clone() : &zL0_for_hiop;
+  hiopVector* zU0_user = bound_duals_transformed ? zL0_user_size->alloc_clone() : &zU0_for_hiop;
+  double* zL0_for_user = zL0_user->local_data();
+  double* zU0_for_user = zU0_user->local_data();
   double* lambda_for_user = lambdas->local_data();
   double* d_for_user = d0.local_data();
   
@@ -807,6 +812,11 @@ bool hiopNlpFormulation::get_starting_point(hiopVector& x0_for_hiop,
                                            lambda_for_user,
                                            slacks_avail,
                                            d_for_user);
+  if(!bret) {
+    // whatever the method may have set is not to be used
+    duals_avail = false;
+    slacks_avail = false;
+  }
   if(duals_avail) {
 
     assert(n_cons_eq_   == yc0_for_hiop.get_size() && "when did the cons change?");
@@ -815,6 +825,14 @@ bool hiopNlpFormulation::get_starting_point(hiopVector& x0_for_hiop,
     
     //copy back 
     lambdas->copy_to_two_vec_w_pattern(yc0_for_hiop, *cons_eq_mapping_, yd0_for_hiop, *cons_ineq_mapping_);
+
+    if(bound_duals_transformed) {
+      nlp_transformations_.apply_to_x(*zL0_user, zL0_for_hiop);
+      nlp_transformations_.apply_to_x(*zU0_user, zU0_for_hiop);
+    }
+    // there are no duals for nonexistent bounds
+    zL0_for_hiop.selectPattern(*ixl_);
+    zU0_for_hiop.selectPattern(*ixu_);
   }
   if(!bret) {
     bret = interface_base.get_starting_point(nlp_transformations_.n_pre(), x0_for_user->local_data());
@@ -825,6 +843,10 @@ bool hiopNlpFormulation::get_starting_point(hiopVector& x0_for_hiop,
   }
   /* delete the temporary buffers */
   delete lambdas;
+  if(bound_duals_transformed) {
+    delete zL0_user;
+    delete zU0_user;
+  }
 
   return bret;
 }
@@ -844,8 +866,13 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
                                                                   yc0_for_hiop.get_size() + yd0_for_hiop.get_size());
   
   hiopVector* x0_for_user = nlp_transformations_.apply_inv_to_x(x0_for_hiop, true);
-  double* zL0_for_user = zL0_for_hiop.local_data();
-  double* zU0_for_user = zU0_for_hiop.local_data();
+  // the bound duals, as the primals, have the size of the user's problem
+  hiopVector* zL0_user_size = nlp_transformations_.apply_inv_to_bound_duals(zL0_for_hiop);
+  const bool bound_duals_transformed = zL0_user_size != &zL0_for_hiop;
+  hiopVector* zL0_user = bound_duals_transformed ? zL0_user_size->alloc_clone() : &zL0_for_hiop;
+  hiopVector* zU0_user = bound_duals_transformed ? zL0_user_size->alloc_clone() : &zU0_for_hiop;
+  double* zL0_for_user = zL0_user->local_data();
+  double* zU0_for_user = zU0_user->local_data();
   double* lambda_for_user = lambdas->local_data();
   double* d_for_user = d0.local_data();
   double* vl_for_user = vl0.local_data();
@@ -860,17 +887,23 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
                                             d_for_user,
                                             vl_for_user,
                                             vu_for_user);
-  {
+  if(bret) {
     assert(n_cons_eq_   == yc0_for_hiop.get_size() && "when did the cons change?");
     assert(n_cons_ineq_ == yd0_for_hiop.get_size() && "when did the cons change?");
     assert(n_cons_eq_+n_cons_ineq_ == n_cons_);
     
     //copy back 
     lambdas->copy_to_two_vec_w_pattern(yc0_for_hiop, *cons_eq_mapping_, yd0_for_hiop, *cons_ineq_mapping_);
-  }
-  
-  if(!bret) {
-    bret = interface_base.get_starting_point(nlp_transformations_.n_pre(), x0_for_user->local_data());
+
+    if(bound_duals_transformed) {
+      nlp_transformations_.apply_to_x(*zL0_user, zL0_for_hiop);
+      nlp_transformations_.apply_to_x(*zU0_user, zU0_for_hiop);
+    }
+    // there are no duals for nonexistent bounds
+    zL0_for_hiop.selectPattern(*ixl_);
+    zU0_for_hiop.selectPattern(*ixu_);
+    vl0.selectPattern(*idl_);
+    vu0.selectPattern(*idu_);
   }
   
   if(bret) {
@@ -879,6 +912,10 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
 
   /* delete the temporary buffers */
   delete lambdas;
+  if(bound_duals_transformed) {
+    delete zL0_user;
+    delete zU0_user;
+  }
 
   return bret;
 }
-- 
2.43.0


From 2efe5ec4e26da468b8d51e4be9e9044813b1d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 041/100] fix: the constraint violation one norm reported to
 the user is the one of the reported iterate

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 2c7551c..49213fc 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1155,6 +1155,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
     }
 
     //user callback
+    onenorm_pr_curr_ = resid->get_theta();
     if(!nlp->user_callback_iterate(iter_num_,
                                    _f_nlp,
                                    logbar->f_logbar,
@@ -2294,6 +2295,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
     }
 
     //user callback
+    onenorm_pr_curr_ = resid->get_theta();
     if(!nlp->user_callback_iterate(iter_num_,
                                    _f_nlp,
                                    logbar->f_logbar,
-- 
2.43.0


From 7b83da3846324af54bf31b12ac1241e38de3e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 042/100] fix: the formulation is rebuilt when a solve scaled
 it or moved its bounds, or the relaxation options changed

---
 src/Optimization/hiopNlpFormulation.cpp | 24 ++++++++++++++++++++++++
 src/Optimization/hiopNlpFormulation.hpp |  5 +++++
 2 files changed, 29 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index ebc85f4..3aa13c2 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -77,6 +77,7 @@ hiopNlpFormulation::hiopNlpFormulation(hiopInterfaceBase& interface_, const char
 #endif
     prob_type_(hiopInterfaceBase::hiopNonlinear),
     nlp_evaluated_(false),
+    nlp_modified_(false),
     nlp_transformations_(this),
     interface_base(interface_)
 {
@@ -195,11 +196,27 @@ bool hiopNlpFormulation::finalizeInitialization()
     doinit=true;
   }
 
+  // the bounds are relaxed below according to these options
+  const std::vector<double> relax_params{options->GetNumeric("bound_relax_perturb"),
+                                         options->GetString("elastic_mode") == "none" ? 0. : 1.,
+                                         options->GetNumeric("elastic_mode_bound_relax_initial"),
+                                         options->GetNumeric("fixed_var_perturb")};
+  if(relax_params_ != relax_params) {
+    doinit=true;
+  }
+
+  // a previous solve scaled the problem or moved its bounds
+  if(nlp_modified_) {
+    doinit=true;
+  }
+
   //more checks whether we should reinitialize go here (for example change in the rescaling option)
   
   if(!doinit) {
     return true;
   }
+  relax_params_ = relax_params;
+  nlp_modified_ = false;
 
   // Select memory space where to create linear algebra objects
   string mem_space = options->GetString("mem_space");
@@ -210,6 +227,9 @@ bool hiopNlpFormulation::finalizeInitialization()
   ////////////////////////////////////////////////////////////////////////////
   bool bret = interface_base.get_prob_sizes(n_vars_, n_cons_); assert(bret);
   nlp_transformations_.clear();
+  // these were deleted together with the transformations
+  nlp_scaling_ = nullptr;
+  relax_bounds_ = nullptr;
   nlp_transformations_.setUserNlpNumVars(n_vars_);
 
   delete xl_;
@@ -714,6 +734,7 @@ bool hiopNlpFormulation::apply_scaling(hiopVector& c, hiopVector& d, hiopVector&
   du_ = nlp_scaling_->apply_to_cons_ineq(*du_, n_cons_ineq_);
 
   nlp_transformations_.append(nlp_scaling_);
+  nlp_modified_ = true;
   
   return true;
 }
@@ -1522,10 +1543,13 @@ void hiopNlpFormulation::adjust_bounds(const hiopIterate& it)
 
   du_->copy_from_w_pattern(*it.get_d(), *idu_);
   du_->axpy_w_pattern(1.0, *it.get_sdu(), *idu_);
+
+  nlp_modified_ = true;
 }
 
 void hiopNlpFormulation::reset_bounds(double bound_relax_perturb)
 {
+  nlp_modified_ = true;
   relax_bounds_->relax_from_ori(bound_relax_perturb, *xl_, *xu_, *dl_, *du_);
   if(nlp_scaling_) {
     // the original bounds are those of the unscaled constraints
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 35dfcce..5b076a4 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -74,6 +74,7 @@
 #include "hiopVectorInt.hpp"
 
 #include <cstring>
+#include <vector>
 
 namespace hiop
 {
@@ -365,6 +366,10 @@ protected:
   //options for which this class was setup
   std::string strFixedVars_; //"none", "fixed", "relax"
   double dFixedVarsTol_;
+  std::vector<double> relax_params_; //the options specifying the relaxation of the bounds
+
+  /// Whether the problem was scaled or its bounds were moved since it was last initialized
+  bool nlp_modified_;
 
   /**
    * @brief Internal NLP transformations that supports fixing and relaxing variables as well as
-- 
2.43.0


From ce4782b12de84362e6445b54c959b8e92e674958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 043/100] fix: every solve starts with new objects; the iterate
 and Hessian of an earlier solve are not reused

---
 src/Optimization/hiopAlgFilterIPM.cpp | 36 ++++++---------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 49213fc..c57f5d1 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -189,22 +189,6 @@ void hiopAlgFilterIPMBase::reInitializeNlpObjects()
 
   alloc_alg_objects();
 
-  //0 LSQ (default), 1 linear update (more stable)
-  duals_update_type = nlp->options->GetString("duals_update_type")=="lsq"?0:1;
-  //0 LSQ (default), 1 set to zero
-  dualsInitializ = nlp->options->GetString("duals_init")=="lsq"?0:1;
-
-  if(duals_update_type==0) {
-    hiopNlpDenseConstraints* nlpd = dynamic_cast<hiopNlpDenseConstraints*>(nlp);
-    if(NULL==nlpd) {
-      duals_update_type = 1;
-      dualsInitializ = 1;
-      nlp->log->printf(hovWarning,
-                       "Option duals_update_type=lsq not compatible with the requested NLP formulation and will "
-                       "be set to duals_update_type=linear together with duals_init=zero\n");
-    }
-  }
-
   //parameter based initialization
   if(duals_update_type==0) {
     //lsq update
@@ -981,11 +965,9 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   //also reload options
   reload_options();
 
-  //if nlp changed internally, we need to reinitialize 'this'
-  if(it_curr->get_x()->get_size()!=nlp->n() ||
-     //Jac_c->get_local_size_n()!=nlpdc->n_local()) { <- this is prone to racing conditions
-     _Jac_c->n()!=nlpdc->n()) {
-    //size of the nlp changed internally ->  reInitializeNlpObjects();
+  //nlp may have changed internally and a previous run leaves its iterate and secant approximation
+  //behind: start with new objects, unless these were loaded from a checkpoint
+  if(!load_state_api_called_) {
     reInitializeNlpObjects();
   }
   resetSolverStatus();
@@ -1078,6 +1060,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   assert(kkt != nullptr);
 
   // assign an Null pd_perturb, i.e., all the deltas = 0.0
+  delete pd_perturb_;
   pd_perturb_ = new hiopPDPerturbationNull();
   if(!pd_perturb_->initialize(nlp)) {
     delete kkt;
@@ -2145,13 +2128,9 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
   //also reload options
   reload_options();
 
-  //if nlp changed internally, we need to reinitialize `this`
-  if(it_curr->get_x()->get_size()!=nlp->n() ||
-     //Jac_c->get_local_size_n()!=nlpdc->n_local()) { <- this is prone to racing conditions
-     _Jac_c->n()!=nlp->n()) {
-    //size of the nlp changed internally ->  reInitializeNlpObjects();
-    reInitializeNlpObjects();
-  }
+  //nlp may have changed internally and a previous run leaves its iterate and Hessian behind:
+  //start with new objects
+  reInitializeNlpObjects();
   resetSolverStatus();
 
   nlp->runStats.initialize();
@@ -2202,6 +2181,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
   hiopKKTLinSys* kkt = decideAndCreateLinearSystem(nlp);
   assert(kkt != NULL);
   
+  delete pd_perturb_;
   if(nlp->options->GetString("normaleqn_regularization_priority")=="dual_first" && nlp->options->GetString("KKTLinsys")=="normaleqn") {
     if(nlp->options->GetString("regularization_method")=="randomized") {
       pd_perturb_ = new hiopPDPerturbationDualFirstRand();
-- 
2.43.0


From cbc50547bd3cfe337007f7645a860f12db39d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 044/100] fix: the secant Hessian keeps the curvature of pairs
 from short steps in products

---
 src/Optimization/hiopHessianLowRank.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index e90eed6..2b839cf 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -1007,10 +1007,12 @@ timesVecCmn(double beta, hiopVector& y, double alpha, const hiopVector& x, bool
     sk->copyFrom(St_->local_data() + k*n_local);
     double skTyk=yk->dotProductWith(*sk);
     
-    if(skTyk < std::numeric_limits<double>::epsilon()) {
+    // the pairs stored by 'update' have sufficient curvature relative to the size of s_k and y_k: 
+    // s_k^T*y_k is positive, but it is small for short steps
+    if(skTyk < std::numeric_limits<double>::min()) {
       nlp->log->printf(hovLinAlgScalars, "hiopHessianLowRank: ||s_k^T*y_k||=%12.6e too small..."
-                       " set it to machine precision = %12.6e \n", skTyk, std::numeric_limits<double>::epsilon());
-      skTyk = std::numeric_limits<double>::epsilon();
+                       " set it to %12.6e \n", skTyk, std::numeric_limits<double>::min());
+      skTyk = std::numeric_limits<double>::min();
     }
 
     if(a[k] == nullptr && b[k] == nullptr) {
-- 
2.43.0


From c392c87adcef4efbb5668cafc4329c56585ff33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 045/100] fix: restoration from a point with a zero entry: the
 scaling of the proximal term is min(1,1/|x|) there too

---
 src/Optimization/hiopFRProb.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index eca0be5..bba6230 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -89,9 +89,10 @@ hiopFRProbSparse::hiopFRProbSparse(hiopAlgFilterIPMBase& solver_base)
 
   // build vector VR
   DR_ = x_ref_->new_copy();
+  // DR = min(1, 1/|x_ref|), also when an entry of x_ref is zero
   DR_->component_abs();
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   wrk_x_ = x_ref_->alloc_clone();
   wrk_c_ = LinearAlgebraFactory::create_vector(nlp_base_->options->GetString("mem_space"), m_eq_);
@@ -738,9 +739,10 @@ hiopFRProbMDS::hiopFRProbMDS(hiopAlgFilterIPMBase& solver_base)
 
   // build vector VR
   DR_ = x_ref_->new_copy();
+  // DR = min(1, 1/|x_ref|), also when an entry of x_ref is zero
   DR_->component_abs();
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   wrk_x_ = x_ref_->alloc_clone();
   wrk_c_ = LinearAlgebraFactory::create_vector(nlp_base_->options->GetString("mem_space"), m_eq_);
@@ -1446,9 +1448,10 @@ hiopFRProbDense::hiopFRProbDense(hiopAlgFilterIPMBase& solver_base)
 
   // build vector VR
   DR_ = x_ref_->new_copy();
+  // DR = min(1, 1/|x_ref|), also when an entry of x_ref is zero
   DR_->component_abs();
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   comm_ = MPI_COMM_WORLD;
   comm_size_ = 1;
-- 
2.43.0


From 53115d8936aea7bd5b22c8a69f3ab1ed1245fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 046/100] fix: the dense restoration problem states the type of
 all its variables and constraints

---
 src/Optimization/hiopFRProb.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index bba6230..de4306d 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -1586,8 +1586,9 @@ bool hiopFRProbDense::get_vars_info(const size_type& n, double *xlow, double* xu
   xu.copyToStarting(*wrk_primal_,0);
   wrk_primal_->copyTo(xupp);
 
-  for(index_type i_local = 0; i_local < xl.get_local_size(); ++i_local) {
-    type[i_local] = hiopNonlinear;
+  // type of the variables: x as nonlinear, p and n as linear
+  for(index_type i_local = 0; i_local < wrk_primal_->get_local_size(); ++i_local) {
+    type[i_local] = i_local < xl.get_local_size() ? hiopNonlinear : hiopLinear;
   }
   
   return true;
@@ -1614,8 +1615,8 @@ bool hiopFRProbDense::get_cons_info(const size_type& m, double* clow, double* cu
   du.copyToStarting(*wrk_dual_, (int)m_eq_);
   wrk_dual_->copyTo(cupp);
 
-  for(index_type i_local = 0; i_local < dl.get_local_size(); ++i_local) {
-    type[i_local] = hiopInterfaceBase::hiopLinear;
+  for(index_type i = 0; i < m_; ++i) {
+    type[i] = hiopInterfaceBase::hiopNonlinear;
   }
   return true;
 }
-- 
2.43.0


From e40db98dfb2bdcca959ac70af7fd000a9dda9beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 047/100] fix: restoration within restoration chooses p and n
 for the constraints at the current point and slacks

---
 src/Optimization/hiopFRProb.cpp         | 45 +++++++++++++------------
 src/Optimization/hiopNlpFormulation.cpp |  4 +--
 2 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index de4306d..4bc42e8 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -105,6 +105,7 @@ hiopFRProbSparse::hiopFRProbSparse(hiopAlgFilterIPMBase& solver_base)
   wrk_dual_ = LinearAlgebraFactory::create_vector(nlp_base_->options->GetString("mem_space"), m_);
   last_x_ = x_ref_->alloc_clone();
   last_d_ = wrk_d_->alloc_clone();
+  last_d_->copyFrom(*solver_base.get_it_curr()->get_d());
 
   // nnz for sparse matrices;
   nnz_Jac_c_ = nlp_base_->get_nnz_Jaceq() + 2 * m_eq_;
@@ -580,6 +581,7 @@ bool hiopFRProbSparse::iterate_callback(int iter,
   // evaluate c_body and d_body in base problem
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
+  last_d_->copyFrom(*wrk_d_);
   if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
     // not a candidate for terminating the restoration
     return true;
@@ -624,7 +626,6 @@ bool hiopFRProbSparse::iterate_callback(int iter,
     if(!solver_base_.filter_contains(theta_ori, trial_bar_obj_ori)) {
       // terminate FR
       last_x_->copyFrom(*wrk_x_);
-      last_d_->copyFrom(*wrk_d_);
       return false;
     }
   }
@@ -640,20 +641,21 @@ bool hiopFRProbSparse::force_update_x(const int n, double* x)
   // this function is used in FR in FR, see eq (33)
   assert( n == n_);
 
-  hiopVector* c = solver_base_.get_c();
-  hiopVector* d = solver_base_.get_d();
-  hiopVector* s = solver_base_.get_it_curr()->get_d();
   const hiopVector& crhs = nlp_base_->get_crhs();
 
   // x is fixed
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
+  // c and d at this x
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    return false;
+  }
+
   /*
   * compute pe (wrk_c_) and ne (wrk_eq_) rom equation (33)
   */
   // firstly use pe as a temp vec
   double tmp_db = mu_/(2*rho_);
-  wrk_cbody_->copyFrom(*c);
   wrk_cbody_->axpy(-1.0, crhs);     // wrk_cbody_ = (c-crhs)
   wrk_c_->setToConstant(tmp_db);
   wrk_c_->axpy(-0.5, *wrk_cbody_);   // wrk_c_ = (mu-rho*(c-crhs))/(2*rho)
@@ -673,8 +675,7 @@ bool hiopFRProbSparse::force_update_x(const int n, double* x)
   * compute pi (wrk_d_) and ni (wrk_ineq_) rom equation (33)
   */
   // firstly use pi as a temp vec
-  wrk_dbody_->copyFrom(*d);
-  wrk_dbody_->axpy(-1.0, *s);        // wrk_dbody_ = (d-s)
+  wrk_dbody_->axpy(-1.0, *last_d_);  // wrk_dbody_ = (d-s), s from the current iterate of the FR problem
   wrk_d_->setToConstant(tmp_db);
   wrk_d_->axpy(-0.5, *wrk_dbody_);   // wrk_c_ = (mu-rho*(d-s))/(2*rho)
 
@@ -755,6 +756,7 @@ hiopFRProbMDS::hiopFRProbMDS(hiopAlgFilterIPMBase& solver_base)
   wrk_dual_ = LinearAlgebraFactory::create_vector(nlp_base_->options->GetString("mem_space"), m_);
   last_x_ = x_ref_->alloc_clone();
   last_d_ = wrk_d_->alloc_clone();
+  last_d_->copyFrom(*solver_base.get_it_curr()->get_d());
 
   wrk_x_sp_ = LinearAlgebraFactory::create_vector(nlp_base_->options->GetString("mem_space"), n_x_sp_);
   wrk_x_de_ = LinearAlgebraFactory::create_vector(nlp_base_->options->GetString("mem_space"), n_x_de_);
@@ -1223,6 +1225,7 @@ bool hiopFRProbMDS::iterate_callback(int iter,
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
+  last_d_->copyFrom(*wrk_d_);
   if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
     // not a candidate for terminating the restoration
     return true;
@@ -1267,7 +1270,6 @@ bool hiopFRProbMDS::iterate_callback(int iter,
     if(!solver_base_.filter_contains(theta_ori, trial_bar_obj_ori)) {
       // terminate FR
       last_x_->copyFrom(*wrk_x_);
-      last_d_->copyFrom(*wrk_d_);
       return false;
     }
   }
@@ -1283,9 +1285,6 @@ bool hiopFRProbMDS::force_update_x(const int n, double* x)
   // this function is used in FR in FR, see eq (33)
   assert( n == n_);
 
-  hiopVector* c = solver_base_.get_c();
-  hiopVector* d = solver_base_.get_d();
-  hiopVector* s = solver_base_.get_it_curr()->get_d();
   const hiopVector& crhs = nlp_base_->get_crhs();
 
   // x is fixed
@@ -1293,12 +1292,16 @@ bool hiopFRProbMDS::force_update_x(const int n, double* x)
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
 
+  // c and d at this x
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    return false;
+  }
+
   /*
   * compute pe (wrk_c_) and ne (wrk_eq_) rom equation (33)
   */
   // firstly use pe as a temp vec
   double tmp_db = mu_/(2*rho_);
-  wrk_cbody_->copyFrom(*c);
   wrk_cbody_->axpy(-1.0, crhs);     // wrk_cbody_ = (c-crhs)
   wrk_c_->setToConstant(tmp_db);
   wrk_c_->axpy(-0.5, *wrk_cbody_);   // wrk_c_ = (mu-rho*(c-crhs))/(2*rho)
@@ -1318,8 +1321,7 @@ bool hiopFRProbMDS::force_update_x(const int n, double* x)
   * compute pi (wrk_d_) and ni (wrk_ineq_) rom equation (33)
   */
   // firstly use pi as a temp vec
-  wrk_dbody_->copyFrom(*d);
-  wrk_dbody_->axpy(-1.0, *s);        // wrk_dbody_ = (d-s)
+  wrk_dbody_->axpy(-1.0, *last_d_);  // wrk_dbody_ = (d-s), s from the current iterate of the FR problem
   wrk_d_->setToConstant(tmp_db);
   wrk_d_->axpy(-0.5, *wrk_dbody_);   // wrk_c_ = (mu-rho*(d-s))/(2*rho)
 
@@ -1497,6 +1499,7 @@ hiopFRProbDense::hiopFRProbDense(hiopAlgFilterIPMBase& solver_base)
   wrk_dbody_ = wrk_d_->alloc_clone();
   last_x_ = x_ref_->alloc_clone();
   last_d_ = wrk_d_->alloc_clone();
+  last_d_->copyFrom(*solver_base.get_it_curr()->get_d());
 
   // set mu0 to be the maximun of the current barrier parameter mu and norm_inf(|c|)*/
   theta_ref_ = solver_base_.get_resid()->get_theta(); //at current point, i.e., reference point
@@ -1944,6 +1947,7 @@ bool hiopFRProbDense::iterate_callback(int iter,
   // FIXME; add global methed. now we only have local method
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
+  last_d_->copyFrom(*wrk_d_);
   if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
     // not a candidate for terminating the restoration
     return true;
@@ -1989,7 +1993,6 @@ bool hiopFRProbDense::iterate_callback(int iter,
     if(!solver_base_.filter_contains(theta_ori, trial_bar_obj_ori)) {
       // terminate FR
       last_x_->copyFrom(*wrk_x_);
-      last_d_->copyFrom(*wrk_d_);
       return false;
     }
   }
@@ -2005,21 +2008,22 @@ bool hiopFRProbDense::force_update_x(const int n, double* x)
   // this function is used in FR in FR, see eq (33)
   assert( n == n_);
 
-  hiopVector* c = solver_base_.get_c();
-  hiopVector* d = solver_base_.get_d();
-  hiopVector* s = solver_base_.get_it_curr()->get_d();
   const hiopVector& crhs = nlp_base_->get_crhs();
 
   // x is fixed
   // FIXME; add global methed. now we only have local method
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
+  // c and d at this x
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    return false;
+  }
+
   /*
   * compute pe (wrk_c_) and ne (wrk_eq_) rom equation (33)
   */
   // firstly use pe as a temp vec
   double tmp_db = mu_/(2*rho_);
-  wrk_cbody_->copyFrom(*c);
   wrk_cbody_->axpy(-1.0, crhs);     // wrk_cbody_ = (c-crhs)
   wrk_c_->setToConstant(tmp_db);
   wrk_c_->axpy(-0.5, *wrk_cbody_);   // wrk_c_ = (mu-rho*(c-crhs))/(2*rho)
@@ -2039,8 +2043,7 @@ bool hiopFRProbDense::force_update_x(const int n, double* x)
   * compute pi (wrk_d_) and ni (wrk_ineq_) rom equation (33)
   */
   // firstly use pi as a temp vec
-  wrk_dbody_->copyFrom(*d);
-  wrk_dbody_->axpy(-1.0, *s);        // wrk_dbody_ = (d-s)
+  wrk_dbody_->axpy(-1.0, *last_d_);  // wrk_dbody_ = (d-s), s from the current iterate of the FR problem
   wrk_d_->setToConstant(tmp_db);
   wrk_d_->axpy(-0.5, *wrk_dbody_);   // wrk_c_ = (mu-rho*(d-s))/(2*rho)
 
diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 3aa13c2..0c6929e 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1490,10 +1490,8 @@ bool hiopNlpFormulation::user_force_update(int iter,
 
   // force update x
   retval = interface_base.force_update_x((int)n_vars_, x.local_data());
-  
-  assert(retval);
 
-  return true;
+  return retval;
 }
 
 void hiopNlpFormulation::print(FILE* f, const char* msg, int rank) const
-- 
2.43.0


From 24f6aae30124de3b48dd75729dd62072150b7b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 048/100] fix: integer and string options set at runtime count
 as set by the user

---
 src/Utils/hiopOptions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 7ce51f9..6b9c84c 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -363,6 +363,8 @@ bool hiopOptions::SetIntegerValue(const char* name, const int& value, const bool
       
       if(setFromFile) {
         option->specifiedInFile=true;
+      } else {
+        option->specifiedAtRuntime=true;
       }
       if(value<option->lb || value>option->ub) {
         log_printf(hovWarning,
@@ -437,6 +439,8 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
       
       if(setFromFile) {
         option->specifiedInFile = true;
+      } else {
+        option->specifiedAtRuntime = true;
       }
       string strValue(value);
       transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
-- 
2.43.0


From 9ad15a36d006efb1b1e69774c3f45fcc788d6485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 049/100] fix: warnings about options are not used as a format
 string

---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 6b9c84c..2c03e6d 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -484,9 +484,9 @@ void hiopOptions::log_printf(hiopOutVerbosity v, const char* format, ...)
   va_start (args, format);
   vsnprintf(buff,1024,format, args);
   if(log_) {
-    log_->printf(v,buff);
+    log_->printf(v, "%s", buff);
   } else {
-    hiopLogger::printf_error(v,buff);
+    hiopLogger::printf_error(v, "%s", buff);
   }
   //fprintf(stderr,buff);
   va_end (args);
-- 
2.43.0


From 457a7b4089507188b6603a939895113643df5e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 050/100] fix: the default of accum_local is one of its values

---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 2c03e6d..a12de38 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -1645,9 +1645,9 @@ void hiopOptionsPriDec::register_options()
   // option for local accumulation of function value and subgradient on evaluator ranks, then reduce
   {
     register_str_option("accum_local",
-                        "false", // default value for the option
+                        "no", // default value for the option
                         vector<string>({"yes", "no"}), // range
-                        "Accumulates recourse problem solutions locally on evaluator ranks (default 'false')");
+                        "Accumulates recourse problem solutions locally on evaluator ranks (default 'no')");
   }
 
   //
-- 
2.43.0


From 6b4d80bc05d0d98fd05c889ba4c935645a2e5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 051/100] fix: NaN is not within the range of a numeric option

---
 src/Utils/hiopOptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index a12de38..759e756 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -296,7 +296,7 @@ bool hiopOptions::SetNumericValue (const char* name, const double& value, const
         option->specifiedAtRuntime=true;
       }
       
-      if(value<option->lb || value>option->ub) {
+      if(!(value>=option->lb && value<=option->ub)) {
         log_printf(hovWarning,
                    "Hiop: option '%s' must be in [%g,%g]. Default value %g will be used.\n",
                    name, option->lb,
-- 
2.43.0


From 1f9f4ce6428fb657eae3020b4b34bab2862a0621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 052/100] fix: a value in the options file is read as a whole
 or not at all

---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 759e756..b93412b 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -194,7 +194,7 @@ void hiopOptions::load_from_file(const char* filename)
       if(on!=NULL) {
         stringstream ss(value);
         double val;
-        if(ss>>val) {
+        if((ss>>val) && ss.peek()==EOF) {
           SetNumericValue(name.c_str(), val, true);
         } else {
           log_printf(hovWarning,
@@ -212,7 +212,7 @@ void hiopOptions::load_from_file(const char* filename)
           oi = dynamic_cast<OptionInt*>(option);
           if(oi!=NULL) {
             stringstream ss(value); int val;
-            if(ss>>val) { SetIntegerValue(name.c_str(), val, true); }
+            if((ss>>val) && ss.peek()==EOF) { SetIntegerValue(name.c_str(), val, true); }
             else {
               log_printf(hovWarning,
                          "Hiop could not parse value '%s' as int for option '%s' specified in "
-- 
2.43.0


From c18161a10922929b82e0df1ee890f10dae6cac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 053/100] fix: options that are file names keep their case

---
 src/Utils/hiopOptions.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index b93412b..75a583d 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -396,7 +396,10 @@ bool hiopOptions::set_val(const char* name, const char* value_in)
       assert(false && "mismatch between name and type happened in internal 'set_val'");
     } else {
       string value(value_in);
-      transform(value.begin(), value.end(), value.begin(), ::tolower);
+      //values that are not from a predetermined range (e.g., file names) are case sensitive
+      if(!option->range.empty()) {
+        transform(value.begin(), value.end(), value.begin(), ::tolower);
+      }
       //see if it is in the range (of supported values)
       bool inrange=false;
       for(int it=0; it<static_cast<int>(option->range.size()) && !inrange; it++) {
@@ -443,7 +446,10 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
         option->specifiedAtRuntime = true;
       }
       string strValue(value);
-      transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
+      //values that are not from a predetermined range (e.g., file names) are case sensitive
+      if(!option->range.empty()) {
+        transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
+      }
       //see if it is in the range (of supported values)
       bool inrange=false;
       for(int it=0; it<static_cast<int>(option->range.size()) && !inrange; it++) {
-- 
2.43.0


From 27667bcd036556bc5b0081c20dcb54670d1ce28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:53 +0000
Subject: [PATCH 054/100] fix: options are made consistent after the whole
 options file is read, whatever the order of its lines

---
 src/Utils/hiopOptions.cpp | 18 ++++++++++++++----
 src/Utils/hiopOptions.hpp |  3 +++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 75a583d..00c2b40 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -66,7 +66,8 @@ const char* hiopOptions::default_filename_pridec_masterNLP = "hiop_pridec_master
 const char* hiopOptions::default_filename_fr = "hiop_fr.options";
   
 hiopOptions::hiopOptions()
-  : log_(nullptr)
+  : log_(nullptr),
+    loading_from_file_(false)
 {
 }
 
@@ -168,6 +169,8 @@ void hiopOptions::load_from_file(const char* filename)
     }
   }
   string line; string name, value;
+  //the outcome should not depend on the order of the options in the file: check the consistency after all are set
+  loading_from_file_ = true;
   for( std::string line; getline( input, line ); ) {
 
     line = ltrim(line);
@@ -237,6 +240,7 @@ void hiopOptions::load_from_file(const char* filename)
                  value.c_str());
     }
   } //end of the for over the lines
+  loading_from_file_ = false;
 }
 
 bool hiopOptions::is_user_defined(const char* option_name)
@@ -312,7 +316,9 @@ bool hiopOptions::SetNumericValue (const char* name, const double& value, const
                name,
                value);
   }
-  ensure_consistence();
+  if(!loading_from_file_) {
+    ensure_consistence();
+  }
   return true;
 }
 
@@ -383,7 +389,9 @@ bool hiopOptions::SetIntegerValue(const char* name, const int& value, const bool
                name,
                value);
   }
-  ensure_consistence();
+  if(!loading_from_file_) {
+    ensure_consistence();
+  }
   return true;
 }
 
@@ -479,7 +487,9 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
                name,
                value);
   }
-  ensure_consistence();
+  if(!loading_from_file_) {
+    ensure_consistence();
+  }
   return true;
 }
 
diff --git a/src/Utils/hiopOptions.hpp b/src/Utils/hiopOptions.hpp
index b011402..a849e1c 100644
--- a/src/Utils/hiopOptions.hpp
+++ b/src/Utils/hiopOptions.hpp
@@ -186,6 +186,9 @@ protected:
   std::map<std::string, Option*> mOptions_;
 
   hiopLogger* log_;
+
+  /// true while options are read from a file, in which case consistency is ensured only at the end
+  bool loading_from_file_;
 };
 
 
-- 
2.43.0


From b854be0abaffb2e557629e3e0401fde66b89ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:20 +0000
Subject: [PATCH 055/100] fix: CSR matrices without nonzeros, rows or columns
 have valid row pointers

---
 src/LinAlg/hiopMatrixSparseCSRSeq.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/hiopMatrixSparseCSRSeq.cpp b/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
index e9d4373..43f0835 100644
--- a/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
+++ b/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
@@ -86,9 +86,8 @@ hiopMatrixSparseCSRSeq::hiopMatrixSparseCSRSeq(size_type rows, size_type cols, s
   if(rows==0 || cols==0) {
     assert(nnz_==0 && "number of nonzeros must be zero when any of the dimensions are 0");
     nnz_ = 0;
-  } else {
-    alloc();
   }
+  alloc();
 }
 
 hiopMatrixSparseCSRSeq::hiopMatrixSparseCSRSeq()
@@ -99,6 +98,7 @@ hiopMatrixSparseCSRSeq::hiopMatrixSparseCSRSeq()
     buf_col_(nullptr),
     row_starts_(nullptr)
 {
+  alloc();
 }
 
   
@@ -113,7 +113,8 @@ void hiopMatrixSparseCSRSeq::alloc()
   assert(jcolind_ == nullptr);
   assert(values_ == nullptr);
 
-  irowptr_ = new index_type[nrows_+1];
+  //no nonzeros until the sparsity pattern is formed
+  irowptr_ = new index_type[nrows_+1]();
   jcolind_ = new index_type[nnz_];
   values_ = new double[nnz_];
 
-- 
2.43.0


From 45f7c85d9fd5ca187f28207a14e952c629f67048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:20 +0000
Subject: [PATCH 056/100] fix: a transposed CSR matrix can be formed again and
 from a matrix without nonzeros

---
 src/LinAlg/hiopMatrixSparseCSRSeq.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/LinAlg/hiopMatrixSparseCSRSeq.cpp b/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
index 43f0835..df06ad7 100644
--- a/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
+++ b/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
@@ -899,8 +899,9 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
   const index_type* Mirow = M.i_row();
   const index_type* Mjcol = M.j_col();
 
-  assert(nullptr == row_starts_);
-  row_starts_ = new index_type[nrows_];
+  if(nullptr == row_starts_) {
+    row_starts_ = new index_type[nrows_];
+  }
 
   //in this method we use the row_starts_ as working buffer to count nz on each row of `this`
   //at the end of this method row_starts_ keeps row starts, used by the numeric method to
@@ -964,10 +965,15 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
 
 void hiopMatrixSparseCSRSeq::form_transpose_from_numeric(const hiopMatrixSparseTriplet& M)
 {
-  assert(irowptr_ && jcolind_ && values_ && row_starts_);
+  assert(irowptr_ && jcolind_ && values_);
   assert(nrows_ == M.n());
   assert(ncols_ == M.m());
   assert(nnz_ == M.numberOfNonzeros());
+
+  if(nnz_<=0) {
+    return;
+  }
+  assert(row_starts_);
   
 #ifndef NDEBUG
   for(int i=0; i<nrows_; i++) {
@@ -1030,8 +1036,9 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
   const index_type* Mirow = M.i_row();
   const index_type* Mjcol = M.j_col();
 
-  assert(nullptr == row_starts_);
-  row_starts_ = new index_type[nrows_];
+  if(nullptr == row_starts_) {
+    row_starts_ = new index_type[nrows_];
+  }
 
   //in this method we use the row_starts_ as working buffer to count nz on each row of `this`
   //at the end of this method row_starts_ keeps row starts, used by the numeric method to
@@ -1098,10 +1105,15 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
 void hiopMatrixSparseCSRSeq::form_transpose_from_numeric(const hiopMatrixSparseCSR& M_in)
 {
   auto& M = dynamic_cast<const hiopMatrixSparseCSRSeq&>(M_in);
-  assert(irowptr_ && jcolind_ && values_ && row_starts_);
+  assert(irowptr_ && jcolind_ && values_);
   assert(nrows_ == M.n());
   assert(ncols_ == M.m());
   assert(nnz_ == M.numberOfNonzeros());
+
+  if(nnz_<=0) {
+    return;
+  }
+  assert(row_starts_);
   
 #ifndef NDEBUG
   for(int i=0; i<nrows_; i++) {
-- 
2.43.0


From 58cf86335ac7ed20fd4640a1a318b88c0c7b79be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 057/100] fix: a part added to a compound vector counts as one
 of its parts

---
 src/LinAlg/hiopVectorCompoundPD.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index 9f7d31f..f5be8bc 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -1013,6 +1013,7 @@ bool hiopVectorCompoundPD::is_equal(const hiopVector& vec) const
 void hiopVectorCompoundPD::addVector(hiopVector *v) 
 {
   vectors_.push_back(v);
+  n_parts_++;
   n_ += v->get_size();
 }
 
-- 
2.43.0


From 57de3cd2cc914786df8ccd5af5f9aa4af3ddfda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 058/100] fix: gradient of the log barrier of a compound vector
 is taken at the given vector, not at the pattern

---
 src/LinAlg/hiopVectorCompoundPD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index f5be8bc..d1e6daa 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -740,7 +740,7 @@ double hiopVectorCompoundPD::sum_local() const
 void hiopVectorCompoundPD::addLogBarrierGrad(double alpha, const hiopVector& vx, const hiopVector& select)
 {
   const hiopVectorCompoundPD& ix = dynamic_cast<const hiopVectorCompoundPD&>(select);
-  const hiopVectorCompoundPD& x = dynamic_cast<const hiopVectorCompoundPD&>(select);
+  const hiopVectorCompoundPD& x = dynamic_cast<const hiopVectorCompoundPD&>(vx);
   assert(this->get_num_parts() == ix.get_num_parts());  
   for(index_type i = 0; i < n_parts_; i++) {
     vectors_[i]->addLogBarrierGrad(alpha, x.getVector(i), ix.getVector(i));
-- 
2.43.0


From ade437c175ca561a22bbafaec4fb1a1a0b169c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 059/100] fix: projection of a compound vector fails when the
 projection of one of its parts fails

---
 src/LinAlg/hiopVectorCompoundPD.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index d1e6daa..3e07788 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -807,7 +807,14 @@ bool hiopVectorCompoundPD::projectIntoBounds_local(const hiopVector& xl_,
   assert(this->get_num_parts() == ixu.get_num_parts());
 
   for(index_type i = 0; i < n_parts_; i++) {
-    vectors_[i]->projectIntoBounds_local(xl.getVector(i),ixl.getVector(i),xu.getVector(i),ixu.getVector(i),kappa1,kappa2);
+    if(!vectors_[i]->projectIntoBounds_local(xl.getVector(i),
+                                             ixl.getVector(i),
+                                             xu.getVector(i),
+                                             ixu.getVector(i),
+                                             kappa1,
+                                             kappa2)) {
+      return false;
+    }
   }
   return true;
 }
-- 
2.43.0


From b21c621e387c01f2aba1e37f437c172c05ac154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:54 +0000
Subject: [PATCH 060/100] fix: a complex matrix without columns leaves the
 vector unscaled in timesVec

---
 src/LinAlg/hiopMatrixComplexDense.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixComplexDense.cpp b/src/LinAlg/hiopMatrixComplexDense.cpp
index ec3dbea..d51d148 100644
--- a/src/LinAlg/hiopMatrixComplexDense.cpp
+++ b/src/LinAlg/hiopMatrixComplexDense.cpp
@@ -161,7 +161,7 @@ namespace hiop
     } else {
       if( MM != 0 ) {
         int one=1; 
-        ZSCAL(&NN, &beta, ya, &one);
+        ZSCAL(&MM, &beta, ya, &one);
       } else {
         assert(MM==0);
         return;
-- 
2.43.0


From 652c6a50c74fe88024a35695fd73c7824c3423ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:54 +0000
Subject: [PATCH 061/100] fix: slices of a complex symmetric matrix miss
 entries when rows and columns differ

---
 src/LinAlg/hiopMatrixComplexSparseTriplet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp b/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
index ec322a3..0c828d3 100644
--- a/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
@@ -330,7 +330,7 @@ namespace hiop
       while(src_itnz<src_nnz && src_i[src_itnz]<row) 
 	src_itnz++;
 
-      for(int kj=ki; kj<ncols; kj++) {
+      for(int kj=0; kj<ncols; kj++) {
 	const int& col= col_idxs[kj];
 
 	if(col<row) continue;
-- 
2.43.0


From da97839610c2a594ee793baa05cb641727b5a1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:54 +0000
Subject: [PATCH 062/100] fix: a singular matrix passes as factorized by
 UMFPACK

---
 src/LinAlg/hiopLinSolverUMFPACKZ.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopLinSolverUMFPACKZ.cpp b/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
index 8ef8c94..733166e 100644
--- a/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
+++ b/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
@@ -120,7 +120,8 @@ namespace hiop
 
     status = umfpack_zi_numeric(m_colptr, m_rowidx, m_vals, (double*) NULL,
 				m_symbolic, &m_numeric, m_control, m_info);
-    if(status<0) {
+    //a singular matrix is reported by UMFPACK as a (positive) warning
+    if(status!=UMFPACK_OK) {
       umfpack_zi_report_info (m_control, m_info) ;
       umfpack_zi_report_status (m_control, status) ;
       printf("[%d] UMFPACK: error in the numeric factorization: status=%d\n",
-- 
2.43.0


From 5052ccc19001065a267173c997c89e081dd046c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:54 +0000
Subject: [PATCH 063/100] fix: a second Kron reduction on the same object
 aborts

---
 src/Utils/hiopKronReduction.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Utils/hiopKronReduction.cpp b/src/Utils/hiopKronReduction.cpp
index 05e6a46..8116c95 100644
--- a/src/Utils/hiopKronReduction.cpp
+++ b/src/Utils/hiopKronReduction.cpp
@@ -61,7 +61,6 @@ namespace hiop
 
       //Ybb\Yba
       //hiopMatrixComplexDense Ybbinv_Yba(Yba_->m(), Yba_->n());
-      assert(map_nonaux_to_aux_==NULL);
       delete map_nonaux_to_aux_;
       map_nonaux_to_aux_ = new hiopMatrixComplexDense(Yba->m(), Yba->n());
       linsolver_->solve(*Yba, *map_nonaux_to_aux_);
-- 
2.43.0


From c324ba53686b2660d5651861fb3269b6fcd4e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:54 +0000
Subject: [PATCH 064/100] fix: factorizing again leaks the previous UMFPACK
 factors

---
 src/LinAlg/hiopLinSolverUMFPACKZ.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopLinSolverUMFPACKZ.cpp b/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
index 733166e..1942a8b 100644
--- a/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
+++ b/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
@@ -38,12 +38,12 @@ namespace hiop
   hiopLinSolverUMFPACKZ::~hiopLinSolverUMFPACKZ()
   {
     if(m_symbolic) {
-      umfpack_di_free_symbolic(&m_symbolic);
+      umfpack_zi_free_symbolic(&m_symbolic);
       m_symbolic = NULL;
     }
 
     if(m_numeric) {
-      umfpack_di_free_numeric(&m_numeric) ;
+      umfpack_zi_free_numeric(&m_numeric) ;
       m_numeric = NULL;
     }
     
@@ -60,6 +60,14 @@ namespace hiop
     //UMFPACK does not handle zero-dimensioned arrays
     if(n==0) return 0;
     int status;
+
+    //free the factors of a previous call
+    if(m_symbolic) {
+      umfpack_zi_free_symbolic(&m_symbolic);
+    }
+    if(m_numeric) {
+      umfpack_zi_free_numeric(&m_numeric);
+    }
     
     //
     // copy from sys_mat triplets to UMFPACK's column form sparse format
-- 
2.43.0


From 22903615a982fdc0ef4c1d1d5af9936ca2251d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 065/100] fix: BiCGStab applies its right preconditioner in
 place

---
 src/LinAlg/hiopKrylovSolver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 25f8fe2..135cd3d 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -506,7 +506,9 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       ph_->copyFrom(*pk_);
     }
     if(MR_opr_) {
-      MR_opr_->times_vec(*ph_, *ph_);
+      // operators need not work in place (t_ is not in use at this point)
+      t_->copyFrom(*ph_);
+      MR_opr_->times_vec(*ph_, *t_);
     }
 
     A_opr_->times_vec(*v_, *ph_);
@@ -586,7 +588,9 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       ph_->copyFrom(*sk_);
     }
     if(MR_opr_) {
-      MR_opr_->times_vec(*ph_, *ph_);
+      // operators need not work in place (t_ is not in use at this point)
+      t_->copyFrom(*ph_);
+      MR_opr_->times_vec(*ph_, *t_);
     }
 
     A_opr_->times_vec(*t_, *ph_);
-- 
2.43.0


From 6f67673c6d07531c3d75583bc6c25e215e1d9e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 066/100] fix: PCG reports the residual of an earlier solve for
 a zero right-hand side

---
 src/LinAlg/hiopKrylovSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 135cd3d..3187284 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -154,6 +154,8 @@ bool hiopPCGSolver::solve(hiopVector* b)
   if(n2b == 0.0) {
     flag_ = 0;
     iter_ = 0.;
+    rel_resid_ = 0;
+    abs_resid_ = 0;
     return true;
   }
 
-- 
2.43.0


From 60e05d758c932d204595f1522ca26b3c610cd1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 067/100] fix: a Krylov solver that breaks down with NaN
 returns NaN instead of its best iterate

---
 src/LinAlg/hiopKrylovSolver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 3187284..53d1c92 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -334,7 +334,8 @@ bool hiopPCGSolver::solve(hiopVector* b)
     res_->scale(-1.0);        
     double normr_comp = res_->twonorm();
     
-    if(normr_comp <= abs_resid_) {
+    // also when abs_resid_ is NaN, in which case xk_ is not usable
+    if(!(normr_comp > abs_resid_)) {
       b->copyFrom(*xmin_);
       iter_ = imin + 1;
       abs_resid_ = normr_comp;
@@ -682,7 +683,8 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
     res_->scale(-1.0);        
     double normr_comp = res_->twonorm();
     
-    if(normr_comp <= abs_resid_) {
+    // also when abs_resid_ is NaN, in which case xk_ is not usable
+    if(!(normr_comp > abs_resid_)) {
       b->copyFrom(*xmin_);
       iter_ = imin + 1;
       abs_resid_ = normr_comp;
-- 
2.43.0


From 3ec258a9328c009ebcf77ec706766fdb60646d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 068/100] fix: BiCGStab loses the right-hand side before
 choosing the iterate to return

---
 src/LinAlg/hiopKrylovSolver.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 53d1c92..fdc995f 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -566,7 +566,6 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
         moresteps++;
         if(moresteps >= maxmsteps) {
           // tol is too small
-          b->copyFrom(*xk_);
           flag_ = 3;
           iter_ = ii + 1 - 0.5;
           break;
@@ -647,7 +646,6 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
         moresteps++;
         if(moresteps >= maxmsteps) {
           // tol is too small
-          b->copyFrom(*xk_);
           flag_ = 3;
           iter_ = ii + 1;
           break;
-- 
2.43.0


From 017f4b18c2acbfef05777a1950fab342bd618589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 069/100] fix: BiCGStab runs on to infinite iterates when it
 diverges

---
 src/LinAlg/hiopKrylovSolver.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index fdc995f..9915a09 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -533,7 +533,14 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
     }
   
     // Check for stagnation of the method
-    if(ph_->twonorm()*std::abs(alpha) < eps * xk_->twonorm()) {
+    const double step_alpha = ph_->twonorm()*std::abs(alpha);
+    if(!(step_alpha <= 1E+40)) {
+      // diverging
+      flag_ = 4;
+      iter_ = ii + 1 - 0.5;
+      break;
+    }
+    if(step_alpha < eps * xk_->twonorm()) {
       stagsteps++;
     } else {
       stagsteps = 0;
@@ -613,7 +620,14 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       break;
     }
 
-    if(ph_->twonorm()*std::abs(omega) < eps * xk_->twonorm()) {
+    const double step_omega = ph_->twonorm()*std::abs(omega);
+    if(!(step_omega <= 1E+40)) {
+      // diverging
+      flag_ = 4;
+      iter_ = ii + 1;
+      break;
+    }
+    if(step_omega < eps * xk_->twonorm()) {
       stagsteps++;
     } else {
       stagsteps = 0;
-- 
2.43.0


From 9267603fafbb33f9b5d8ae62c3d7dd09826c28b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 070/100] fix: a matrix with NaN passes as factorized by the
 dense symmetric solver

---
 src/LinAlg/hiopLinSolverSymDenseLapack.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/hiopLinSolverSymDenseLapack.hpp b/src/LinAlg/hiopLinSolverSymDenseLapack.hpp
index 39127e3..cb31729 100644
--- a/src/LinAlg/hiopLinSolverSymDenseLapack.hpp
+++ b/src/LinAlg/hiopLinSolverSymDenseLapack.hpp
@@ -153,11 +153,12 @@ public:
       //if(d<0) negEigVal++;
       if(d < -1e-14) {
 	negEigVal++;
-      } else if(d < 1e-14) {
+      } else if(d >= 1e-14) {
+	posEigVal++;
+      } else {
+	//also for NaN pivots
 	nullEigVal++;
 	//break;
-      } else {
-	posEigVal++;
       }
     }
     //printf("(pos,null,neg)=(%d,%d,%d)\n", posEigVal, nullEigVal, negEigVal);
-- 
2.43.0


From e2405461cc2447ea6684f9df9392a3a8920d56ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:02 +0000
Subject: [PATCH 071/100] fix: Krylov solvers report a recurrence residual as
 that of the returned iterate

---
 src/LinAlg/hiopKrylovSolver.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 9915a09..1e5ff77 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -328,7 +328,12 @@ bool hiopPCGSolver::solve(hiopVector* b)
              << " iter=" << iter_ << std::endl;
     b->copyFrom(*xk_);    
   } else {
-    // update residual: b-KKT*xk
+    // actual residual of the last iterate (abs_resid_ may come from the recurrence)
+    A_opr_->times_vec(*res_, *xk_);
+    res_->axpy(-1.0, *b);
+    abs_resid_ = res_->twonorm();
+
+    // update residual: b-KKT*xmin
     A_opr_->times_vec(*res_, *xmin_);
     res_->axpy(-1.0, *b);
     res_->scale(-1.0);        
@@ -689,7 +694,12 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
              << " iter=" << iter_ << std::endl;
     b->copyFrom(*xk_);    
   } else {
-    // update residual: b-KKT*xk
+    // actual residual of the last iterate (abs_resid_ may come from the recurrence)
+    A_opr_->times_vec(*res_, *xk_);
+    res_->axpy(-1.0, *b);
+    abs_resid_ = res_->twonorm();
+
+    // update residual: b-KKT*xmin
     A_opr_->times_vec(*res_, *xmin_);
     res_->axpy(-1.0, *b);
     res_->scale(-1.0);        
-- 
2.43.0


From 58e0ebb29848116fee76a6d8d3eff3f1a7dc211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:48 +0000
Subject: [PATCH 072/100] fix: C interface tells the objective and its gradient
 that no point is new

---
 src/Interface/chiopInterface.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Interface/chiopInterface.hpp b/src/Interface/chiopInterface.hpp
index d75dd56..5637dd3 100644
--- a/src/Interface/chiopInterface.hpp
+++ b/src/Interface/chiopInterface.hpp
@@ -144,13 +144,13 @@ public:
     };
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
@@ -331,13 +331,13 @@ class cppUserProblemSparse : public hiopInterfaceSparse
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob_->eval_f_(n, (double *) x, 0, &obj_value, cprob_->user_data_);
+      cprob_->eval_f_(n, (double *) x, new_x, &obj_value, cprob_->user_data_);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob_->eval_grad_f_(n, (double *) x, 0, gradf, cprob_->user_data_);
+      cprob_->eval_grad_f_(n, (double *) x, new_x, gradf, cprob_->user_data_);
 
       return true;
     };
@@ -516,13 +516,13 @@ public:
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
-- 
2.43.0


From b71ba9b8c811e07ff0567c7e7ec0c5950cdd985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:48 +0000
Subject: [PATCH 073/100] fix: deleting a problem of the Fortran interface
 leaks its starting point

---
 src/Interface/hiopFortranInterface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interface/hiopFortranInterface.c b/src/Interface/hiopFortranInterface.c
index c1953e2..68348d8 100644
--- a/src/Interface/hiopFortranInterface.c
+++ b/src/Interface/hiopFortranInterface.c
@@ -340,6 +340,7 @@ void FC_GLOBAL(deletehiopsparseprob, DELETEHIOPSPARSEPROB) (void** f_prob_in)
   free(f_prob->xupp_);
   free(f_prob->clow_);
   free(f_prob->cupp_);
+  free(f_prob->x0_);
   free(f_prob->c_prob_->solution_);
   free(f_prob->c_prob_);
   free(f_prob);
@@ -526,6 +527,7 @@ void FC_GLOBAL(deletehiopdenseprob, DELETEHIOPDENSEPROB) (void** f_prob_in)
   free(f_prob->xupp);
   free(f_prob->clow);
   free(f_prob->cupp);
+  free(f_prob->x0);
   free(f_prob->c_prob->solution);
   free(f_prob->c_prob);
   free(f_prob);
-- 
2.43.0


From 5d154696c8f86362af4ac90e380f30eba77e25cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 074/100] fix: moving_lim_abs divides by the length of the step
 it already scaled

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index c57f5d1..a8fc863 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -2866,7 +2866,7 @@ bool hiopAlgFilterIPMBase::ensure_moving_lims(const hiopIterate& it, const hiopI
     auto x_nrm = dir.get_x()->infnorm();
     auto step_nrm = alpha_pr*x_nrm;
     if(step_nrm>moving_lim_abs) {
-      alpha_pr = moving_lim_abs / step_nrm;
+      alpha_pr = moving_lim_abs / x_nrm;
       nlp->log->printf(hovLinesearch,
                        "Moving lim (absolute, [%7.3e]): step reduced: %7.3e -> %7.3e.\n",
                        moving_lim_abs,
-- 
2.43.0


From e6d8409ca35c29b86136c54bd1b77ec3ccd5c6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 075/100] fix: second-order correction moves the multipliers by
 the step computed for another direction

---
 src/Optimization/hiopAlgFilterIPM.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index a8fc863..02b56a1 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3062,6 +3062,7 @@ int hiopAlgFilterIPMBase::apply_second_order_correction(hiopKKTLinSys* kkt,
 
     if(ls_status>0) {
       _alpha_primal = alpha_primal_soc;
+      _alpha_dual = alpha_dual_soc;
       dir->copyFrom(*soc_dir);
       resid->copyFrom(*resid_trial);
       break;
-- 
2.43.0


From edf2f0eb1ae4adc857b7c4286729ffe28c43e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 076/100] fix: second-order correction ignores moving_lim_abs
 and moving_lim_rel

---
 src/Optimization/hiopAlgFilterIPM.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 02b56a1..abafbee 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3041,6 +3041,7 @@ int hiopAlgFilterIPMBase::apply_second_order_correction(hiopKKTLinSys* kkt,
     // Compute step size
     bret = it_curr->fractionToTheBdry(*soc_dir, _tau, alpha_primal_soc, alpha_dual_soc); 
     assert(bret);
+    ensure_moving_lims(*it_curr, *soc_dir, alpha_primal_soc);
     
     // Compute trial point
     bret = it_trial->takeStep_primals(*it_curr, *soc_dir, alpha_primal_soc, alpha_dual_soc); 
-- 
2.43.0


From e5168ffb8e0b618215207e706ff6f57ae575a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 077/100] fix: filter of the first barrier problem lacks the
 upper limit theta_max

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index abafbee..1e35629 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1055,6 +1055,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
 
   theta_max = theta_max_fact_*fmax(1.0,resid->get_theta());
   theta_min = theta_min_fact_*fmax(1.0,resid->get_theta());
+  filter.initialize(theta_max);
 
   hiopKKTLinSysLowRank* kkt=new hiopKKTLinSysLowRank(nlp);
   assert(kkt != nullptr);
@@ -2177,6 +2178,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
 
   theta_max = theta_max_fact_*fmax(1.0,resid->get_theta());
   theta_min = theta_min_fact_*fmax(1.0,resid->get_theta());
+  filter.initialize(theta_max);
 
   hiopKKTLinSys* kkt = decideAndCreateLinearSystem(nlp);
   assert(kkt != NULL);
-- 
2.43.0


From cb8298a8f3d03f71c61b8c02eae26b3bfd119724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 078/100] fix: soft restoration accepts its last point although
 the filter rejects it

---
 src/Optimization/hiopAlgFilterIPM.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 1e35629..2bc69a2 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3368,6 +3368,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     double theta_trial = resid_trial->get_nrmOne_bar_feasib();
     if(filter.contains(theta_trial,logbar->f_logbar_trial)) {
       //it is in the filter, reject this trial point and continue the iterates
+      bret = false;
       num_soft_fr++;
     } else {
       // continue the regular iterate from the trial point  
-- 
2.43.0


From 7206b38e94dc22f3100dbae3f3fc80a26c5a12d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 079/100] fix: filter and multiplier update use the
 infeasibility from before the second-order correction

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 2bc69a2..ce43a84 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1370,6 +1370,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
         }
         if(lsStatus>0) {
           num_adjusted_slacks = num_adjusted_slacks_soc;
+          infeas_nrm_trial = theta_trial = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
           grad_phi_dx_computed = grad_phi_dx_soc_computed;
           grad_phi_dx = grad_phi_dx_soc;
           use_soc = 1;
@@ -2600,6 +2601,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
           }
           if(lsStatus>0) {
             num_adjusted_slacks = num_adjusted_slacks_soc;
+            infeas_nrm_trial = theta_trial = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
             grad_phi_dx_computed = grad_phi_dx_soc_computed;
             grad_phi_dx = grad_phi_dx_soc;
             use_soc = 1;
-- 
2.43.0


From 5158c7be0e68450e919d06b19733d52fe1a8fb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:29 +0000
Subject: [PATCH 080/100] fix: failed least-squares multiplier update stops the
 solver although the linear update was done

---
 src/Optimization/hiopDualsUpdater.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopDualsUpdater.cpp b/src/Optimization/hiopDualsUpdater.cpp
index 510fae0..c647423 100644
--- a/src/Optimization/hiopDualsUpdater.cpp
+++ b/src/Optimization/hiopDualsUpdater.cpp
@@ -146,7 +146,13 @@ bool hiopDualsLsqUpdate::go(const hiopIterate& iter,
     return true;
   }
 
-  return do_lsq_update(iter_plus, grad_f, jac_c, jac_d);
+  if(!do_lsq_update(iter_plus, grad_f, jac_c, jac_d)) {
+    //yc and yd keep the values from the step along the search direction
+    nlp_->log->printf(hovWarning,
+                      "dual lsq update failed, likely because of dependent constraints; will use the linear "
+                      "update of the duals.\n");
+  }
+  return true;
 }
 
 hiopDualsLsqUpdateLinsysRedDense::hiopDualsLsqUpdateLinsysRedDense(hiopNlpFormulation* nlp)
-- 
2.43.0


From a56da4cef4b7a31997688c2d29ad6dfd9b263bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 081/100] fix: soft restoration divides by slacks that
 cancelled to zero

---
 src/Optimization/hiopAlgFilterIPM.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index ce43a84..ef29114 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3308,6 +3308,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
   double alpha_primal_soft;
   double alpha_dual_soft;
   double infeas_nrm_soft=0;     // to avoid uninitialized use below
+  int num_adjusted_slacks = 0;
 
   bool bret = false;
 
@@ -3340,7 +3341,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     // Compute trial point
     bret = it_trial->takeStep_primals(*it_curr, *soft_dir, alpha_primal_soft, alpha_dual_soft); 
     assert(bret);
-    it_trial->determineSlacks(); // TODO: adjust small slacks in soft FR?
+    num_adjusted_slacks = it_trial->compute_safe_slacks(*it_curr, _mu);
     
     //evaluate the problem at the trial iterate (functions only)
     if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
@@ -3374,6 +3375,12 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
       num_soft_fr++;
     } else {
       // continue the regular iterate from the trial point  
+      if(num_adjusted_slacks > 0) {
+        nlp->log->printf(hovWarning,
+                         "%d slacks are too small. Adjust corresponding variable slacks!\n",
+                         num_adjusted_slacks);
+        nlp->adjust_bounds(*it_trial);
+      }
       bret = true;
       break;
     }
-- 
2.43.0


From 293cec88bbabd6f5e8b86153d9191e0fd75c2cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 082/100] fix: soft restoration ends with its last point when
 that has less KKT error, also if the filter holds it

---
 src/Optimization/hiopAlgFilterIPM.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index ef29114..ddeea13 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3371,20 +3371,19 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     double theta_trial = resid_trial->get_nrmOne_bar_feasib();
     if(filter.contains(theta_trial,logbar->f_logbar_trial)) {
       //it is in the filter, reject this trial point and continue the iterates
-      bret = false;
       num_soft_fr++;
     } else {
       // continue the regular iterate from the trial point  
-      if(num_adjusted_slacks > 0) {
-        nlp->log->printf(hovWarning,
-                         "%d slacks are too small. Adjust corresponding variable slacks!\n",
-                         num_adjusted_slacks);
-        nlp->adjust_bounds(*it_trial);
-      }
       bret = true;
       break;
     }
   }
+  if(bret && num_adjusted_slacks > 0) {
+    nlp->log->printf(hovWarning,
+                     "%d slacks are too small. Adjust corresponding variable slacks!\n",
+                     num_adjusted_slacks);
+    nlp->adjust_bounds(*it_trial);
+  }
   return bret;
 }
 
-- 
2.43.0


From 498a1d7fa27aa13095de7203dede0e256a8b5df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:34 +0000
Subject: [PATCH 083/100] fix: primal decomposition ignores the order of the
 coupling variables when all are coupled

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 50 ++++--------------------
 1 file changed, 7 insertions(+), 43 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index e80ea62..4fde2bc 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1029,12 +1029,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         grad_acc->setToZero();
         double aux=0.;
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
         for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
           aux = 0.;
           int idx_temp = cont_idx[ri];
@@ -1081,12 +1076,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
             grad_acc->setToZero();
 
             double aux=0.;
-            if(nc_<n_) {
-              x0->copy_from_indexes(*x_, *xc_idx_);
-            } else {
-              assert(nc_==n_);
-              x0->copyFromStarting(0, *x_);
-            }
+            x0->copy_from_indexes(*x_, *xc_idx_);
             for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
               aux = 0.;
               int idx_temp = cont_idx[ri];
@@ -1146,12 +1136,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
 
         hess_appx->setToConstant(1.0);
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
 
         if(it==0) {
           hess_appx_2->initialize(rval, *x0, *grad_r);
@@ -1521,12 +1506,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         
         double aux=0.;
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
         for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
           aux = 0.;
           int idx_temp = cont_idx[ri];
@@ -1582,12 +1562,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
             //grad_acc->setToZero();
 
             double aux=0.;
-            if(nc_<n_) {
-              x0->copy_from_indexes(*x_, *xc_idx_);
-            } else {
-              assert(nc_==n_);
-              x0->copyFromStarting(0, *x_);
-            }
+            x0->copy_from_indexes(*x_, *xc_idx_);
             for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
               aux = 0.;
               int idx_temp = cont_idx[ri];
@@ -1669,12 +1644,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         
         hess_appx->setToConstant(1.0);
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
 
         if(it==0) {
           hess_appx_2->initialize(rval, *x0, *grad_r);
@@ -1872,13 +1842,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
     }
     // The number of contigencies should be larger than the number of processors, which is 1
     // idx is the next contingency to be sent out from the master
-    if(nc_<n_) {
-      //printf("xc_idx %d ",xc_idx_[0]);
-      x0->copy_from_indexes(*x_, *xc_idx_);
-    } else {
-      assert(nc_==n_);
-      x0->copyFromStarting(0, *x_);
-    }
+    x0->copy_from_indexes(*x_, *xc_idx_);
     for(int i=0; i< static_cast<int>(S_);i++) {
       int idx_temp = cont_idx[i];
       double aux=0.;
-- 
2.43.0


From 89272ad59d2bfb7faab283eee80217b062b6a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:25 +0000
Subject: [PATCH 084/100] fix: the sparse formulation passes the multipliers to
 the Hessian as [lambda_eq, lambda_ineq], as documented and as they are scaled

---
 src/Optimization/hiopNlpFormulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 0c6929e..c40b58e 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -2190,8 +2190,8 @@ bool hiopNlpSparse::eval_Hess_Lagr(const hiopVector& x,
     }
     assert(buf_lambda_);
     
-    buf_lambda_->
-      copy_from_two_vec_w_pattern(lambda_eq, *cons_eq_mapping_, lambda_ineq, *cons_ineq_mapping_);
+    buf_lambda_->copyFromStarting(0,         lambda_eq.local_data_const(),   n_cons_eq_);
+    buf_lambda_->copyFromStarting(n_cons_eq_, lambda_ineq.local_data_const(), n_cons_ineq_);
 
     // scale lambda before passing it to user interface to compute Hess
     int n_cons_eq_ineq = n_cons_eq_ + n_cons_ineq_;
-- 
2.43.0


From ce598857be196ab06e2b69bb43e550ee98c464f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 085/100] fix: the default sparse KKT formulation works in safe
 mode (MA57 on the CPU), which is the default

---
 src/Optimization/hiopKKTLinSysSparse.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSysSparse.cpp b/src/Optimization/hiopKKTLinSysSparse.cpp
index c41a857..0b817e1 100644
--- a/src/Optimization/hiopKKTLinSysSparse.cpp
+++ b/src/Optimization/hiopKKTLinSysSparse.cpp
@@ -271,8 +271,6 @@ namespace hiop
     if(nullptr==linSys_) {
       int n = nx + neq + nineq;
 
-      assert(false == safe_mode_ && "KKT_SPARSE_XYcYd linsys does not support safe mode.");
-
       auto compute_mode = nlp_->options->GetString("compute_mode");
       auto linear_solver = nlp_->options->GetString("linear_solver_sparse");
       std::string linsol_actual = "[?]";
-- 
2.43.0


From e5fe940b800bcbe06f794f38fc2c1bf329a48f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 086/100] fix: sparse evaluations stop with an error when the
 user's evaluation of the nonzero pattern fails

---
 src/Optimization/hiopNlpFormulation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index c40b58e..6b6795e 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -2129,6 +2129,10 @@ bool hiopNlpSparse::eval_Jac_c_d_interface_impl(hiopVector& x,
                                      cons_Jac->i_row(), 
                                      cons_Jac->j_col(), 
                                      nullptr);
+      if(!bret) {
+        runStats.tmEvalJac_con.stop();
+        return false;
+      }
       num_jac_eval_++;
     }
     
@@ -2214,6 +2218,10 @@ bool hiopNlpSparse::eval_Hess_Lagr(const hiopVector& x,
                                       pHessL->i_row(),
                                       pHessL->j_col(),
                                       nullptr);
+      if(!bret) {
+        runStats.tmEvalHessL.stop();
+        return false;
+      }
       num_hess_eval_++;
     }
 
-- 
2.43.0


From ecb91f2060a96d0103f4bb73ce41a141d1dfcd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 087/100] fix: sparse Hessian and Jacobian get their nonzero
 pattern again when they are allocated for another solve

---
 src/Optimization/hiopNlpFormulation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 5b076a4..b014d9f 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -621,11 +621,13 @@ public:
   }
   virtual hiopMatrix* alloc_Jac_cons()
   {
+    num_jac_eval_ = 0; //the new matrix has no nonzero pattern yet
     return LinearAlgebraFactory::create_matrix_sparse(options->GetString("mem_space"),n_cons_, n_vars_, nnz_sparse_Jaceq_ + nnz_sparse_Jacineq_);
     //return new hiopMatrixSparseTriplet(n_cons_, n_vars_, nnz_sparse_Jaceq_ + nnz_sparse_Jacineq_);
   }
   virtual hiopMatrix* alloc_Hess_Lagr()
   {
+    num_hess_eval_ = 0; //the new matrix has no nonzero pattern yet
     return LinearAlgebraFactory::create_matrix_sym_sparse(options->GetString("mem_space"),n_vars_, nnz_sparse_Hess_Lagr_);
     //return new hiopMatrixSymSparseTriplet(n_vars_, nnz_sparse_Hess_Lagr_);
   }
-- 
2.43.0


From 88e96901891b92572b48e9b488d4bdd5c95b692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:30 +0000
Subject: [PATCH 088/100] fix: XYcYd sparse linear system starts the slack
 block from the regularization, not from the previous matrix's (or
 uninitialized) values

---
 src/Optimization/hiopKKTLinSysSparse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopKKTLinSysSparse.cpp b/src/Optimization/hiopKKTLinSysSparse.cpp
index 0b817e1..bbfaa89 100644
--- a/src/Optimization/hiopKKTLinSysSparse.cpp
+++ b/src/Optimization/hiopKKTLinSysSparse.cpp
@@ -163,7 +163,7 @@ namespace hiop
        */
 
       // Dd = (Sdl)^{-1}Vu + (Sdu)^{-1}Vu + delta_wd * I
-      Dd_inv_->axpy(1., *delta_wd_);
+      Dd_inv_->copyFrom(*delta_wd_);
       Dd_inv_->axdzpy_w_pattern(1.0, *iter_->vl, *iter_->sdl, nlp_->get_idl());
       Dd_inv_->axdzpy_w_pattern(1.0, *iter_->vu, *iter_->sdu, nlp_->get_idu());
 
-- 
2.43.0


From ff759c873fe1e58b894399375dde072d4ce74d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:56 +0000
Subject: [PATCH 089/100] fix: the condensed KKT system is accepted with no
 negative eigenvalues also without RAJA

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index ddeea13..9bb79e2 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -2107,14 +2107,12 @@ decideAndCreateFactAcceptor(hiopPDPerturbation* p, hiopNlpFormulation* nlp, hiop
     return new hiopFactAcceptorInertiaFreeDWD(p, nlp->m_eq()+nlp->m_ineq());
   } else {
 #ifdef HIOP_SPARSE    
-#ifdef HIOP_USE_RAJA
     if(nullptr != dynamic_cast<hiopKKTLinSysCondensedSparse*>(kkt)) {
       // for LinSysCondensedSparse correct inertia is different
       assert(nullptr != dynamic_cast<hiopNlpSparseIneq*>(nlp) &&
              "wrong combination of optimization objects was created");
       return new hiopFactAcceptorIC(p, 0);      
     }
-#endif
 #endif    
     return new hiopFactAcceptorIC(p, nlp->m_eq()+nlp->m_ineq());
 
-- 
2.43.0


From d3e7ea783d50c5450bb107db3ec89d33618bf5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:46 +0000
Subject: [PATCH 090/100] fix: the directions of the XYcYd sparse linear system
 are recovered without the dual regularization in the slack block

---
 src/Optimization/hiopKKTLinSysSparse.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSysSparse.cpp b/src/Optimization/hiopKKTLinSysSparse.cpp
index bbfaa89..97bf0e1 100644
--- a/src/Optimization/hiopKKTLinSysSparse.cpp
+++ b/src/Optimization/hiopKKTLinSysSparse.cpp
@@ -171,9 +171,13 @@ namespace hiop
       assert(true==Dd_inv_->allPositive());
 #endif
       Dd_inv_->invert();
-      Dd_inv_->axpy(1., *delta_cd_);
 
-      Msys->copySubDiagonalFrom(nx+neq, nineq, *Dd_inv_, dest_nnz_st, -1); dest_nnz_st += nineq;
+      // Dd_inv_ itself is used to recover the directions and should not include delta_cd
+      hiopVector* Dd_inv_plus_delta_cd = Dd_inv_->new_copy();
+      Dd_inv_plus_delta_cd->axpy(1., *delta_cd_);
+
+      Msys->copySubDiagonalFrom(nx+neq, nineq, *Dd_inv_plus_delta_cd, dest_nnz_st, -1); dest_nnz_st += nineq;
+      delete Dd_inv_plus_delta_cd;
 
 
       nlp_->log->write("KKT_SPARSE_XYcYd linsys:", *Msys, hovMatrices);
-- 
2.43.0


From c6741148e6b884256557bb3e4f97c082f3a1ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:31 +0000
Subject: [PATCH 091/100] fix: a solve restarted from a checkpoint continues
 with the checkpoint's barrier parameter and its fraction to the boundary

---
 src/Optimization/hiopAlgFilterIPM.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 9bb79e2..270ab9b 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -962,8 +962,12 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   //hiopNlpFormulation nlp may need an update since user may have changed options and
   //reruning with the same hiopAlgFilterIPMQuasiNewton instance
   nlp->finalizeInitialization();
-  //also reload options
+  //also reload options; these reset mu, which should be kept if it was loaded from a checkpoint
+  const double mu_loaded = _mu;
   reload_options();
+  if(load_state_api_called_) {
+    _mu = mu_loaded;
+  }
 
   //nlp may have changed internally and a previous run leaves its iterate and secant approximation
   //behind: start with new objects, unless these were loaded from a checkpoint
@@ -1034,6 +1038,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                        "Will use user-provided starting point.\n"); 
 #endif
     }
+    //the fraction to the boundary goes with the mu of the checkpoint
+    _tau = fmax(tau_min, 1.0-_mu);
     //additionally: need to evaluate the nlp
     if(!this->evalNlp_noHess(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
       nlp->log->printf(hovError, "Failure in evaluating user NLP functions at loaded checkpoint.");
-- 
2.43.0


From bdd43eed89bee8797b2066b7bc97c7e517cffa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:31 +0000
Subject: [PATCH 092/100] fix: a checkpoint that cannot be loaded leaves no
 trace in the solve that then starts from the user's point

---
 src/Optimization/hiopAlgFilterIPM.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 270ab9b..4dec982 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1024,6 +1024,9 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       if(!chkpnt_ok) {
         nlp->log->printf(hovWarning, "Using default starting procedure (no checkpoint load!).\n");
         iter_num_total_ = 0;
+        //drop what was loaded until the error
+        reInitializeNlpObjects();
+        Hess = dynamic_cast<hiopHessianLowRank*>(_Hess_Lagr);
         //fall back on the default starting procedure (it also evaluates the nlp)
         if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
           nlp->runStats.tmOptimizTotal.stop();
@@ -1609,6 +1612,9 @@ bool hiopAlgFilterIPMQuasiNewton::load_state_from_file(const ::std::string& path
     nlp->log->printf(hovScalars, "Loaded checkpoint file [%s].\n", path2.c_str());
 
     const sidre::Group* group = ds.getRoot()->getGroup("HiOp quasi-Newton alg state");
+    if(nullptr == group) {
+      throw std::runtime_error("The file does not contain the state of HiOp's quasi-Newton solver.");
+    }
     this->load_state_from_sidre_group(*group);
     return true;
   } catch(const std::exception& exp) {
@@ -1695,7 +1701,8 @@ void hiopAlgFilterIPMQuasiNewton::save_state_to_sidre_group(::axom::sidre::Group
 
 void hiopAlgFilterIPMQuasiNewton::load_state_from_sidre_group(const sidre::Group& group)
 {
-  load_state_api_called_ = true;
+  //an exception below leaves the state partially loaded, not to be used by 'run'
+  load_state_api_called_ = false;
 
   //
   //algorithmic parameters
@@ -1788,6 +1795,8 @@ void hiopAlgFilterIPMQuasiNewton::load_state_from_sidre_group(const sidre::Group
                                   "Hess_quasiNewton_L",
                                   hqn.L_->local_data(),
                                   hqn.L_->get_local_size_n() * hqn.L_->get_local_size_m());
+
+  load_state_api_called_ = true;
 }
 
 void hiopAlgFilterIPMQuasiNewton::checkpointing_stuff()
-- 
2.43.0


From 4cf968e9ed4a166c5b78991f07ffe979d8dc59d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:31 +0000
Subject: [PATCH 093/100] fix: a run after one that was restarted from a
 checkpoint starts anew (or loads the file again)

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 4dec982..8946eb7 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1050,6 +1050,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
     }
     solver_status_ = NlpSolve_SolveNotCalled;
   }
+  //the loaded state has been used; a later run starts anew
+  load_state_api_called_ = false;
 
   //update log bar
   logbar->updateWithNlpInfo(*it_curr, _mu, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d);
-- 
2.43.0


From f10d0c92745bcd7309675b000f1c398c9d907b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:31 +0000
Subject: [PATCH 094/100] fix: a solve restarted from a checkpoint is scaled as
 the one that was checkpointed

---
 src/Optimization/hiopAlgFilterIPM.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 8946eb7..31e124e 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1041,6 +1041,13 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                        "Will use user-provided starting point.\n"); 
 #endif
     }
+    if(load_state_api_called_) {
+      //the state in the checkpoint is that of the problem scaled at the user's starting point
+      if(!startingProcedure(*it_trial, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+        nlp->runStats.tmOptimizTotal.stop();
+        return solver_status_ = Error_In_User_Function;
+      }
+    }
     //the fraction to the boundary goes with the mu of the checkpoint
     _tau = fmax(tau_min, 1.0-_mu);
     //additionally: need to evaluate the nlp
-- 
2.43.0


From 55b40cc824ef9d7db6fcc02bec6dcad859407e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:31 +0000
Subject: [PATCH 095/100] fix: a checkpoint of the first iteration, when the
 secant approximation has no pairs yet, can be loaded

---
 src/Optimization/hiopHessianLowRank.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index 2b839cf..185de9c 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -201,21 +201,22 @@ hiopHessianLowRank::~hiopHessianLowRank()
 
 void hiopHessianLowRank::alloc_for_limited_mem(const size_type& mem_length)
 {
-  //note: St_ and Yt_ always have l_curr rows
-  if(l_curr == mem_length) {
-    assert(D_->get_size() == l_curr);
+  //mem_length is -1 before the first update, when no pairs are stored
+  const size_type num_pairs = std::max(mem_length, static_cast<size_type>(0));
+  //note: St_ and Yt_ always have as many rows as pairs are stored
+  if(D_->get_size() == num_pairs && St_->get_local_size_m() == num_pairs) {
     return;
   }
   delete D_;
   delete L_;
   delete Yt_;
   delete St_;
-  St_ = nlp->alloc_multivector_primal(mem_length, l_max);
+  St_ = nlp->alloc_multivector_primal(num_pairs, l_max);
   Yt_ = St_->alloc_clone();
 
   //these are local
-  L_  = LinearAlgebraFactory::create_matrix_dense("DEFAULT", mem_length, mem_length);
-  D_  = LinearAlgebraFactory::create_vector("DEFAULT", mem_length);
+  L_  = LinearAlgebraFactory::create_matrix_dense("DEFAULT", num_pairs, num_pairs);
+  D_  = LinearAlgebraFactory::create_vector("DEFAULT", num_pairs);
 }
 
 bool hiopHessianLowRank::updateLogBarrierDiagonal(const hiopVector& Dx)
-- 
2.43.0


From 49e5e36e3ef33c64686353c570baf9d4679243bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:50 +0000
Subject: [PATCH 096/100] fix: a checkpoint with a longer secant memory than
 the option's is loaded into buffers of its length

---
 src/Optimization/hiopAlgFilterIPM.cpp   |  3 +--
 src/Optimization/hiopHessianLowRank.cpp | 15 +++++++++++++--
 src/Optimization/hiopHessianLowRank.hpp |  4 ++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 31e124e..4e20574 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1764,9 +1764,8 @@ void hiopAlgFilterIPMQuasiNewton::load_state_from_sidre_group(const sidre::Group
 
   const size_type lim_mem_length = (size_type) hqn_params[1];
   //ensure the internals are allocated for this mem length
-  hqn.alloc_for_limited_mem(lim_mem_length);
+  hqn.alloc_for_limited_mem(lim_mem_length, (size_type) hqn_params[0]);
   
-  hqn.l_max = (size_type) hqn_params[0];
   hqn.l_curr = lim_mem_length;
   hqn.sigma = hqn_params[2];
   hqn.sigma0 = hqn_params[3];
diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index 185de9c..6db27ad 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -199,14 +199,25 @@ hiopHessianLowRank::~hiopHessianLowRank()
   }
 }
 
-void hiopHessianLowRank::alloc_for_limited_mem(const size_type& mem_length)
+void hiopHessianLowRank::alloc_for_limited_mem(const size_type& mem_length, const size_type& max_mem_length)
 {
   //mem_length is -1 before the first update, when no pairs are stored
   const size_type num_pairs = std::max(mem_length, static_cast<size_type>(0));
   //note: St_ and Yt_ always have as many rows as pairs are stored
-  if(D_->get_size() == num_pairs && St_->get_local_size_m() == num_pairs) {
+  if(D_->get_size() == num_pairs && St_->get_local_size_m() == num_pairs && l_max == max_mem_length) {
     return;
   }
+  if(l_max != max_mem_length) {
+    l_max = max_mem_length;
+#ifdef HIOP_USE_MPI
+    delete[] _buff_2lxk;
+    delete[] _buff1_lxlx3;
+    delete[] _buff2_lxlx3;
+    _buff_2lxk   = new double[nlp->m() * 2*l_max];
+    _buff1_lxlx3 = new double[3*l_max*l_max];
+    _buff2_lxlx3 = new double[3*l_max*l_max];
+#endif
+  }
   delete D_;
   delete L_;
   delete Yt_;
diff --git a/src/Optimization/hiopHessianLowRank.hpp b/src/Optimization/hiopHessianLowRank.hpp
index 05457c1..df63449 100644
--- a/src/Optimization/hiopHessianLowRank.hpp
+++ b/src/Optimization/hiopHessianLowRank.hpp
@@ -211,8 +211,8 @@ private:
 private:
   //utilities
   
-  /// @brief Ensures the internal containers are ready to work with "limited memory" mem_length  
-  void alloc_for_limited_mem(const size_type& mem_length);
+  /// @brief Ensures the internal containers are ready to work with "limited memory" mem_length, growing up to max_mem_length
+  void alloc_for_limited_mem(const size_type& mem_length, const size_type& max_mem_length);
 
   /* symmetric multiplication W = beta*W + alpha*X*Diag*X^T */
   static void symmMatTimesDiagTimesMatTrans_local(double beta, hiopMatrixDense& W_,
-- 
2.43.0


From 64aac88f4c1db3ae960d14cb737fad6fd6dda3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:12 +0000
Subject: [PATCH 097/100] fix: without Axom the checkpoint options are ignored
 as announced, also the one to load on start

---
 src/Utils/hiopOptions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 00c2b40..a7d735d 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -1604,6 +1604,8 @@ void hiopOptionsNLP::ensure_consistence()
         mOptions_[opt2]->specifiedInFile = false;
         mOptions_[opt2]->specifiedAtRuntime = false;
       }
+      set_val("checkpoint_save", "no");
+      set_val("checkpoint_load_on_start", "no");
       break;
     }
   }
-- 
2.43.0


From 0480402a3cc121a9b53183349575945241cd40e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:51 +0000
Subject: [PATCH 098/100] fix: write_kkt writes the symmetric sparse systems in
 one triangle, as its format says

---
 src/Optimization/hiopKKTLinSysSparse.cpp |  2 +-
 src/Utils/hiopCSR_IO.hpp                 | 27 +++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSysSparse.cpp b/src/Optimization/hiopKKTLinSysSparse.cpp
index 97bf0e1..24e5e4e 100644
--- a/src/Optimization/hiopKKTLinSysSparse.cpp
+++ b/src/Optimization/hiopKKTLinSysSparse.cpp
@@ -1059,7 +1059,7 @@ namespace hiop
     if(write_linsys_counter_>=0) {
 #ifndef HIOP_USE_GPU
       auto* MsysSp = dynamic_cast<hiopMatrixSparseTriplet*>(linSys->sys_matrix());
-      csr_writer_.writeMatToFile(*MsysSp, write_linsys_counter_, nx, neq, nineq);
+      csr_writer_.writeMatToFile(*MsysSp, write_linsys_counter_, nx, neq, nineq, false);
 #else
     //TODO csr_writer_.writeMatToFile(*Msys, write_linsys_counter_, nx, neq, nineq);
 #endif
diff --git a/src/Utils/hiopCSR_IO.hpp b/src/Utils/hiopCSR_IO.hpp
index c28d32c..d10555e 100644
--- a/src/Utils/hiopCSR_IO.hpp
+++ b/src/Utils/hiopCSR_IO.hpp
@@ -1,7 +1,10 @@
 #ifndef HIOP_CSR_IO
 #define HIOP_CSR_IO
 
+#include <algorithm>
 #include <string>
+#include <utility>
+#include <vector>
 #ifdef HIOP_USE_MPI
 #include <mpi.h>
 #endif
@@ -162,12 +165,15 @@ namespace hiop
      * @param nx specifies the number of primal variables
      * @param meq  specifies the number of equality constraints
      * @param mineq  specifies  the number of inequality constraints
+     * @param symmetric specifies if only one of each pair of elements (i,j) and (j,i) is stored; these elements are
+     * all written in the lower triangle
      */
     void writeMatToFile(hiopMatrixSparseTriplet& Msys,
                         const int& counter,
                         const int& nx,
                         const int& meq,
-                        const int& mineq)
+                        const int& mineq,
+                        const bool& symmetric=true)
     {
 #ifdef HIOP_USE_MPI
       if(_master_rank>=0 && _master_rank != _nlp->get_rank()) return;
@@ -200,6 +206,25 @@ namespace hiop
         index_covert_extra_Diag2CSR = nullptr;
       }
       
+      if(symmetric) {
+        //the elements of the Hessian are from the upper triangle, the ones of the Jacobians from the lower triangle
+        std::vector<std::vector<std::pair<int,double> > > rows(m);
+        for(int i=0; i<m; i++) {
+          for(int k=csr_kRowPtr[i]; k<csr_kRowPtr[i+1]; k++) {
+            rows[std::max(i, csr_jCol[k])].push_back({std::min(i, csr_jCol[k]), csr_kVal[k]});
+          }
+        }
+        int k = 0;
+        for(int i=0; i<m; i++) {
+          csr_kRowPtr[i] = k;
+          std::sort(rows[i].begin(), rows[i].end());
+          for(const auto& elem : rows[i]) {
+            csr_jCol[k] = elem.first;
+            csr_kVal[k++] = elem.second;
+          }
+        }
+      }
+
       //start writing -> indexes are starting at 1
       fprintf(f, "%d\n%d\n%d\n%d\n%d\n", m, nx, meq, mineq, csr_nnz);
       
-- 
2.43.0


From 61f18e222e4a28d2caca4a26a958e63b84d9775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:04 +0000
Subject: [PATCH 099/100] fix: write_kkt with the normal equations aborts, as
 only right-hand sides and solutions are written

---
 .../hiopKKTLinSysSparseNormalEqn.cpp          |  2 +-
 src/Utils/hiopCSR_IO.hpp                      | 70 +++++++++++++++++++
 2 files changed, 71 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopKKTLinSysSparseNormalEqn.cpp b/src/Optimization/hiopKKTLinSysSparseNormalEqn.cpp
index a565536..348ffce 100644
--- a/src/Optimization/hiopKKTLinSysSparseNormalEqn.cpp
+++ b/src/Optimization/hiopKKTLinSysSparseNormalEqn.cpp
@@ -365,7 +365,7 @@ bool hiopKKTLinSysSparseNormalEqn::build_kkt_matrix(const hiopPDPerturbation& pd
     write_linsys_counter_++;
   }
   if(write_linsys_counter_>=0) {
-    // TODO csr_writer_.writeMatToFile(Msys, write_linsys_counter_, nx, 0, nineq);
+    csr_writer_.writeMatToFile(*M_normaleqn_, write_linsys_counter_, nx, neq, nineq);
   }
 
   return true; 
diff --git a/src/Utils/hiopCSR_IO.hpp b/src/Utils/hiopCSR_IO.hpp
index d10555e..25efb0b 100644
--- a/src/Utils/hiopCSR_IO.hpp
+++ b/src/Utils/hiopCSR_IO.hpp
@@ -5,6 +5,7 @@
 #include <string>
 #include <utility>
 #include <vector>
+#include "hiopMatrixSparseCSR.hpp"
 #ifdef HIOP_USE_MPI
 #include <mpi.h>
 #endif
@@ -254,6 +255,75 @@ namespace hiop
       if(csr_kVal) { delete [] csr_kVal; csr_kVal = nullptr; }
       
     }
+
+    /**
+     * @brief Writes the lower triangle of a symmetric CSR matrix (on host) in the iajaaa format
+     *
+     * @param Msys is the matrix to be written
+     * @param counter specifies the suffix in the filename, usually is the iteration number
+     * @param nx specifies the number of primal variables
+     * @param meq  specifies the number of equality constraints
+     * @param mineq  specifies  the number of inequality constraints
+     */
+    void writeMatToFile(hiopMatrixSparseCSR& Msys,
+                        const int& counter,
+                        const int& nx,
+                        const int& meq,
+                        const int& mineq)
+    {
+#ifdef HIOP_USE_MPI
+      if(_master_rank>=0 && _master_rank != _nlp->get_rank()) return;
+#endif
+      last_counter = counter;
+      m = Msys.m();
+
+      std::string fname = "kkt_linsys_"; 
+      fname += std::to_string(counter); 
+      fname += ".iajaaa";
+      FILE* f = fopen(fname.c_str(), "w+");
+      if(NULL==f) {
+        _nlp->log->printf(hovError, "Could not open '%s' for writing the linsys.\n", fname.c_str());
+        return;
+      }
+
+      const index_type* irow = Msys.i_row();
+      const index_type* jcol = Msys.j_col();
+      const double* M = Msys.M();
+
+      std::vector<int> row_ptr(m+1, 1);
+      for(int i=0; i<m; i++) {
+        row_ptr[i+1] = row_ptr[i] + std::count_if(jcol+irow[i], jcol+irow[i+1], [=](index_type j) { return j<=i; });
+      }
+      fprintf(f, "%d\n%d\n%d\n%d\n%d\n", m, nx, meq, mineq, row_ptr[m]-1);
+      
+      //array of pointers/offsets in of the first nonzero of each row; first entry is 1 and the last entry is nnz+1
+      for(int i=0; i<m+1; i++) {
+        fprintf(f, "%d ", row_ptr[i]);
+      }
+      fprintf(f, "\n");
+
+      //array of the column indexes of nonzeros
+      for(int i=0; i<m; i++) {
+        for(index_type k=irow[i]; k<irow[i+1]; k++) {
+          if(jcol[k]<=i) {
+            fprintf(f, "%d ", jcol[k]+1);
+          }
+        }
+      }
+      fprintf(f, "\n");
+
+      //array of nonzero entries of the matrix
+      for(int i=0; i<m; i++) {
+        for(index_type k=irow[i]; k<irow[i+1]; k++) {
+          if(jcol[k]<=i) {
+            fprintf(f, "%.20f ", M[k]);
+          }
+        }
+      }
+      fprintf(f, "\n");
+
+      fclose(f);
+    }
   
   private:
     hiopNlpFormulation* _nlp;
-- 
2.43.0


From dc5c1afe130693acc684dad9b130558bb01d238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:57 +0000
Subject: [PATCH 100/100] fix: fixed_var=remove with constraints and Jacobian
 evaluated in one call

The removal of fixed variables had no transformation for the Jacobian of all
the constraints: the user's callback was given a matrix of reduced size and
wrote past its end.
---
 src/Optimization/hiopNlpFormulation.cpp |  8 +++--
 src/Optimization/hiopNlpTransforms.cpp  | 40 +++++++++++++++++++++++--
 src/Optimization/hiopNlpTransforms.hpp  | 25 ++++++++++++++++
 3 files changed, 68 insertions(+), 5 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 6b6795e..089eae7 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1668,9 +1668,11 @@ bool hiopNlpDenseConstraints::eval_Jac_c_d_interface_impl(hiopVector& x, bool ne
   Jac_cde->copyRowsFrom(*cons_Jac_, cons_eq_mapping_->local_data_const(), n_cons_eq_);
   Jac_dde->copyRowsFrom(*cons_Jac_, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
   
-  // scale Jacobian matrices
-  Jac_c = *(nlp_transformations_.apply_to_jacob_eq(Jac_c, n_cons_eq_));
-  Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(Jac_d, n_cons_ineq_));
+  // scale Jacobian matrices (the other transformations were already applied to cons_Jac_)
+  if(nlp_scaling_) {
+    nlp_scaling_->apply_to_jacob_eq(Jac_c, n_cons_eq_);
+    nlp_scaling_->apply_to_jacob_ineq(Jac_d, n_cons_ineq_);
+  }
 
   runStats.tmEvalJac_con.stop();
   runStats.nEvalJac_con_eq++;
diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index 0c208b2..f3706b4 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -70,8 +70,8 @@ hiopFixedVarsRemover(hiopNlpFormulation* nlp,
                      const size_type& numFixedVars_local)
   : hiopNlpTransformation(nlp),
     n_fixed_vars_local(numFixedVars_local), fixedVarTol(fixedVarTol_),
-    Jacc_fs(nullptr), Jacd_fs(nullptr),
-    Jacc_rs_ref(nullptr), Jacd_rs_ref(nullptr),
+    Jacc_fs(nullptr), Jacd_fs(nullptr), Jac_cons_fs_(nullptr),
+    Jacc_rs_ref(nullptr), Jacd_rs_ref(nullptr), Jac_cons_rs_ref_(nullptr),
     fs2rs_idx_map(xl.get_local_size()),
     x_rs_ref_(nullptr)
 {
@@ -94,6 +94,7 @@ hiopFixedVarsRemover::~hiopFixedVarsRemover()
   delete z_fs_;
   if(Jacc_fs) delete Jacc_fs;
   if(Jacd_fs) delete Jacd_fs;
+  delete Jac_cons_fs_;
 };
 
 #ifdef HIOP_USE_MPI
@@ -198,6 +199,41 @@ bool hiopFixedVarsRemover::setupConstraintsPart(const int& neq, const int& nineq
   return true;
 }
 
+/* from rs to fs */
+hiopMatrix* hiopFixedVarsRemover::apply_inv_to_jacob_cons(hiopMatrix& Jac_in, const int& m_in)
+{
+  hiopMatrixDense* Jac_de = dynamic_cast<hiopMatrixDense*>(&Jac_in);
+  if(Jac_de==nullptr) {
+    return nullptr;
+  }
+  if(Jac_cons_fs_==nullptr) {
+#ifdef HIOP_USE_MPI
+    Jac_cons_fs_ = LinearAlgebraFactory::create_matrix_dense(nlp_->options->GetString("mem_space"),
+                                                             m_in,
+                                                             n_fs,
+                                                             fs_vec_distrib.size() ? fs_vec_distrib.data() : nullptr,
+                                                             comm);
+#else
+    Jac_cons_fs_ = LinearAlgebraFactory::create_matrix_dense(nlp_->options->GetString("mem_space"), m_in, n_fs);
+#endif
+  }
+  assert(Jac_cons_fs_->m()==m_in);
+  Jac_cons_rs_ref_ = Jac_de;
+  applyToMatrix(Jac_de->local_data(), m_in, Jac_cons_fs_->local_data());
+  return Jac_cons_fs_;
+}
+
+/* from fs to rs */
+hiopMatrix* hiopFixedVarsRemover::apply_to_jacob_cons(hiopMatrix& Jac_in, const int& m_in)
+{
+  hiopMatrixDense* Jac_de = dynamic_cast<hiopMatrixDense*>(&Jac_in);
+  if(Jac_de==nullptr) {
+    return nullptr;
+  }
+  applyInvToMatrix(Jac_de->local_data(), m_in, Jac_cons_rs_ref_->local_data());
+  return Jac_cons_rs_ref_;
+}
+
 /* "copies" a full space vector/array to a reduced space vector/array */
 void hiopFixedVarsRemover::copyFsToRs(const hiopVector& fsVec,  hiopVector& rsVec)
 {
diff --git a/src/Optimization/hiopNlpTransforms.hpp b/src/Optimization/hiopNlpTransforms.hpp
index 15dd21a..b19e58c 100644
--- a/src/Optimization/hiopNlpTransforms.hpp
+++ b/src/Optimization/hiopNlpTransforms.hpp
@@ -270,6 +270,10 @@ public:
     applyInvToMatrix(Jac_de->local_data(), m_in, Jacd_rs_ref->local_data());
     return Jacd_rs_ref;
   }
+  /* from rs to fs; for the Jacobian of all the constraints (one-call constraints) */
+  hiopMatrix* apply_inv_to_jacob_cons(hiopMatrix& Jac_in, const int& m_in);
+  /* from fs to rs */
+  hiopMatrix* apply_to_jacob_cons(hiopMatrix& Jac_in, const int& m_in);
 
   /** methods not inherited from parent class */
   bool setupDecisionVectorPart();
@@ -312,9 +316,12 @@ protected:
   hiopVector*x_fs, *grad_fs, *z_fs_;
   //working buffers for the full-space Jacobians
   hiopMatrixDense *Jacc_fs, *Jacd_fs;
+  //working buffer for the full-space Jacobian of all the constraints; allocated on first use
+  hiopMatrixDense *Jac_cons_fs_;
   
   hiopMatrixDense *Jacc_rs_ref;
   hiopMatrixDense *Jacd_rs_ref;
+  hiopMatrixDense *Jac_cons_rs_ref_;
 
   //a copy of the lower and upper bounds provided by user
   hiopVector*xl_fs, *xu_fs;
@@ -812,6 +819,24 @@ public:
     return ret;
   }
 
+  hiopMatrix* apply_inv_to_jacob_cons(hiopMatrix& Jac_in, const int& m_in)
+  {
+    hiopMatrix* ret = &Jac_in;
+    for(std::list<hiopNlpTransformation*>::reverse_iterator it=list_trans_.rbegin(); it!=list_trans_.rend(); ++it) {
+      ret = (*it)->apply_inv_to_jacob_cons(*ret, m_in);
+    }
+    return ret;
+  }
+
+  hiopMatrix* apply_to_jacob_cons(hiopMatrix& Jac_in, const int& m_in)
+  {
+    hiopMatrix* ret = &Jac_in;
+    for(std::list<hiopNlpTransformation*>::iterator it=list_trans_.begin(); it!=list_trans_.end(); ++it) {
+      ret = (*it)->apply_to_jacob_cons(*ret, m_in);
+    }
+    return ret;
+  }
+
 
 private:
   std::list<hiopNlpTransformation*> list_trans_;
-- 
2.43.0

