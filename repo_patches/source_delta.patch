From 9be025c62923442ea878608d55e4fc94c93903b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 01/17] fix: require nonnegative multipliers in the primal
 infeasibility certificate

A step whose inequality multipliers decrease was accepted as a Farkas
certificate, so feasible problems were reported as primal infeasible for some
dual initial guesses (e.g., nonzero guesses for both sides of a box).
---
 fbstab/components/full_feasibility.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fbstab/components/full_feasibility.cc b/fbstab/components/full_feasibility.cc
index 33a766a..e5e84a7 100644
--- a/fbstab/components/full_feasibility.cc
+++ b/fbstab/components/full_feasibility.cc
@@ -54,7 +54,7 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
   }
 
   // The conditions for primal infeasibility are:
-  // v'*b + l'*h < 0 and |A'*v + G'*l| \leq tol * |(v,l)|
+  // v'*b + l'*h < 0 and |A'*v + G'*l| \leq tol * |(v,l)| and v >= 0
 
   // Compute p1 = infnorm(G'*l + A'*v).
   tz_.fill(0.0);
@@ -71,8 +71,11 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
 
   const double u = std::max(x.v().lpNorm<Eigen::Infinity>(),
                             x.l().lpNorm<Eigen::Infinity>());
+  // Compute p3 = min(v), only nonnegative multipliers can certify
+  // infeasibility of the inequality constraints.
+  const double p3 = x.v().minCoeff();
   bool primal_feasible = true;
-  if ((p1 <= tol * u) && (p2 < 0)) {
+  if ((p1 <= tol * u) && (p2 < 0) && (p3 >= -tol * u)) {
     primal_feasible = false;
   }
 
-- 
2.43.0


From 5b0ee24c2f6b1a8ff610b3efcee7ed3d841997e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 02/17] fix: include the control block in MpcData::gemvGT for
 general scalings

The term a*B(i)'*v(i+1) was only added for a = 1 and a = -1.
---
 fbstab/components/mpc_data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fbstab/components/mpc_data.cc b/fbstab/components/mpc_data.cc
index 0bed8c5..9a2face 100644
--- a/fbstab/components/mpc_data.cc
+++ b/fbstab/components/mpc_data.cc
@@ -191,6 +191,7 @@ void MpcData::gemvGT(const Eigen::VectorXd& x, double a, double b,
       ui.noalias() -= B.transpose() * vp1;
     } else {
       xi.noalias() += a * A.transpose().lazyProduct(vp1);
+      ui.noalias() += a * B.transpose().lazyProduct(vp1);
     }
   }
   // The i = N step of the recursion.
-- 
2.43.0


From d958faf5fa768d2bc8c55051545feff8830d2518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 03/17] fix: do not read y in DenseData::gemv* when b is zero

The feasibility checker passes uninitialized workspace with b = 0, NaNs in it
propagated to the result and disabled infeasibility detection.
---
 fbstab/components/dense_data.cc | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/fbstab/components/dense_data.cc b/fbstab/components/dense_data.cc
index 4dd3a1c..5fbe56a 100644
--- a/fbstab/components/dense_data.cc
+++ b/fbstab/components/dense_data.cc
@@ -11,27 +11,47 @@ using VectorXd = Eigen::VectorXd;
 
 void DenseData::gemvH(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * H_ * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * H_ * x;
+  } else {
+    *y = a * H_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvG(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * G_ * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * G_ * x;
+  } else {
+    *y = a * G_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvGT(const Eigen::VectorXd &x, double a, double b,
                        Eigen::VectorXd *y) const {
-  *y = a * G_.transpose() * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * G_.transpose() * x;
+  } else {
+    *y = a * G_.transpose() * x + b * (*y);
+  }
 }
 
 void DenseData::gemvA(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * A_ * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * A_ * x;
+  } else {
+    *y = a * A_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvAT(const Eigen::VectorXd &x, double a, double b,
                        Eigen::VectorXd *y) const {
-  *y = a * A_.transpose() * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * A_.transpose() * x;
+  } else {
+    *y = a * A_.transpose() * x + b * (*y);
+  }
 }
 
 void DenseData::axpyf(double a, Eigen::VectorXd *y) const { *y += a * f_; }
-- 
2.43.0


From bb1d7d3a341afb1c396aacbc95d4f555f477149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 04/17] fix: keep the subproblem tolerance bounds ordered

Solve threw from tools::saturate when the outer residual dropped below
inner_tol_min, or when inner_tol_min exceeded inner_tol_max.
---
 fbstab/fbstab_algorithm-impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index bc5ce42..e0d307f 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -23,6 +23,7 @@ inline void AlgorithmParameters::ValidateOptions() {
 
   inner_tol_max = tools::saturate(inner_tol_max, 1e-8, 1e2);
   inner_tol_min = tools::saturate(inner_tol_min, 1e-14, 1e-2);
+  inner_tol_min = std::min(inner_tol_min, inner_tol_max);
 
   max_newton_iters = std::max(max_newton_iters, 1);
   max_prox_iters = std::max(max_prox_iters, 1);
@@ -177,7 +178,8 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
 
     // Update subproblem tolerance.
     inner_tol =
-        tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min, Ek);
+        tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min,
+                        std::max(Ek, opts_.inner_tol_min));
 
     // Solve the proximal subproblem.
     xi_->Copy(*xk_);
-- 
2.43.0


From 66c539f37d180c0a0da0f520fd0c814372965627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 05/17] fix: report the residual of the returned point at the
 proximal limit

rk_ held the residual of an inner iterate, not of the point written back.
---
 fbstab/fbstab_algorithm-impl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index e0d307f..97c2fd7 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -219,6 +219,7 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
   }  // end proximal loop
 
   // Timeout exit.
+  rk_->PenalizedNaturalResidual(*xk_);
   SolverOut output = PrepareOutput(ExitFlag::MAXITERATIONS, prox_iters_,
                                    newton_iters_, *rk_, start_time, E0, os);
   WriteVariable(*xk_, z0, l0, v0, y0);
-- 
2.43.0


From 6790ac81c741ee28245b9c6285d487b489ee66b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 06/17] fix: check the column counts of q, r, c and d in
 MpcData

---
 fbstab/components/mpc_data.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fbstab/components/mpc_data.cc b/fbstab/components/mpc_data.cc
index 9a2face..4b24455 100644
--- a/fbstab/components/mpc_data.cc
+++ b/fbstab/components/mpc_data.cc
@@ -321,7 +321,7 @@ void MpcData::ValidateInputs() const {
   if (S_.cols() != nx) {
     throw std::runtime_error("Size mismatch in S input to MpcData.");
   }
-  if (q_.rows() != nx) {
+  if (q_.rows() != nx || q_.cols() != 1) {
     throw std::runtime_error("Size mismatch in q input to MpcData.");
   }
   if (E_.cols() != nx) {
@@ -333,7 +333,7 @@ void MpcData::ValidateInputs() const {
   if (B_.rows() != nx) {
     throw std::runtime_error("Size mismatch in B input to MpcData.");
   }
-  if (c_.rows() != nx) {
+  if (c_.rows() != nx || c_.cols() != 1) {
     throw std::runtime_error("Size mismatch in c input to MpcData.");
   }
 
@@ -344,7 +344,7 @@ void MpcData::ValidateInputs() const {
   if (S_.rows() != nu) {
     throw std::runtime_error("Size mismatch in S input to MpcData.");
   }
-  if (r_.rows() != nu) {
+  if (r_.rows() != nu || r_.cols() != 1) {
     throw std::runtime_error("Size mismatch in r input to MpcData.");
   }
   if (L_.cols() != nu) {
@@ -358,7 +358,7 @@ void MpcData::ValidateInputs() const {
   if (L_.rows() != nc) {
     throw std::runtime_error("Size mismatch in L input to MpcData.");
   }
-  if (d_.rows() != nc) {
+  if (d_.rows() != nc || d_.cols() != 1) {
     throw std::runtime_error("Size mismatch in d input to MpcData.");
   }
 }
-- 
2.43.0


From 189578c545e44a16432a557f9e696c9867ea58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 07/17] fix: check the size of y in FBstabDense::Solve

---
 fbstab/fbstab_dense.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_dense.h b/fbstab/fbstab_dense.h
index 7e309c5..3c36fd8 100644
--- a/fbstab/fbstab_dense.h
+++ b/fbstab/fbstab_dense.h
@@ -172,7 +172,8 @@ class FBstabDense {
       throw std::runtime_error(
           "In FBstabDense::Solve: mismatch between *this and data dimensions.");
     }
-    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size()) {
+    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size() ||
+        nv_ != x.y.size()) {
       throw std::runtime_error(
           "In FBstabDense::Solve: mismatch between *this and initial guess "
           "dimensions.");
-- 
2.43.0


From 19a7d63c25c058176301a8f7ef91cdee9b40263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 08/17] fix: update the cached norms in FullResidual::Fill

Norm() kept returning the value from before the fill, the iteration log of a
solve showed the inner residual of the previous one.
---
 fbstab/components/full_residual.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fbstab/components/full_residual.cc b/fbstab/components/full_residual.cc
index 6c88ca5..de9a429 100644
--- a/fbstab/components/full_residual.cc
+++ b/fbstab/components/full_residual.cc
@@ -29,6 +29,9 @@ void FullResidual::Fill(double a) {
   z_.setConstant(a);
   l_.setConstant(a);
   v_.setConstant(a);
+  znorm_ = z_.norm();
+  lnorm_ = l_.norm();
+  vnorm_ = v_.norm();
 }
 
 void FullResidual::Negate() {
-- 
2.43.0


From 0960382502964b4c49dff2d3dc714cea8d4140d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 09/17] fix: throw when an input to DenseData is null, as
 documented

---
 fbstab/components/dense_data.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/fbstab/components/dense_data.h b/fbstab/components/dense_data.h
index fd6451f..1fe4d82 100644
--- a/fbstab/components/dense_data.h
+++ b/fbstab/components/dense_data.h
@@ -44,12 +44,12 @@ class DenseData : public Data {
   template <class Matrix, class Vector>
   DenseData(const Matrix* H, const Vector* f, const Matrix* G, const Vector* h,
             const Matrix* A, const Vector* b)
-      : H_(H->data(), H->rows(), H->cols()),
-        G_(G->data(), G->rows(), G->cols()),
-        A_(A->data(), A->rows(), A->cols()),
-        f_(f->data(), f->size()),
-        h_(h->data(), h->size()),
-        b_(b->data(), b->size()) {
+      : H_(NotNull(H)->data(), H->rows(), H->cols()),
+        G_(NotNull(G)->data(), G->rows(), G->cols()),
+        A_(NotNull(A)->data(), A->rows(), A->cols()),
+        f_(NotNull(f)->data(), f->size()),
+        h_(NotNull(h)->data(), h->size()),
+        b_(NotNull(b)->data(), b->size()) {
     if (H->rows() != H->cols() || H->rows() != f->size()) {
       throw std::runtime_error(
           "In DenseData::DenseData: H must be square and the same size as f");
@@ -109,6 +109,15 @@ class DenseData : public Data {
   int nv() const { return nv_; }
 
  private:
+  // Throws a runtime_error if p is null, otherwise returns p.
+  template <class T>
+  static const T* NotNull(const T* p) {
+    if (p == nullptr) {
+      throw std::runtime_error("In DenseData::DenseData: an input is null.");
+    }
+    return p;
+  }
+
   int nz_ = 0;  // Number of decision variables.
   int nl_ = 0;  // Number of equality constraints
   int nv_ = 0;  // Number of inequality constraints.
-- 
2.43.0


From 2ac336366b89322b188dd78ec5d24187ceba949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 10/17] fix: check the inputs of FullResidual::InnerResidual,
 as documented

---
 fbstab/components/full_residual.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fbstab/components/full_residual.cc b/fbstab/components/full_residual.cc
index de9a429..15c1965 100644
--- a/fbstab/components/full_residual.cc
+++ b/fbstab/components/full_residual.cc
@@ -52,6 +52,14 @@ double FullResidual::Merit() const {
 void FullResidual::InnerResidual(const FullVariable& x,
                                  const FullVariable& xbar, double sigma) {
   NullDataCheck();
+  if (sigma <= 0) {
+    throw std::runtime_error(
+        "In FullResidual::InnerResidual: sigma must be positive.");
+  }
+  if (!SameSize(x) || !SameSize(xbar)) {
+    throw std::runtime_error(
+        "In FullResidual::InnerResidual: x and xbar must be the same size.");
+  }
   // r.z = H*z + f + G'*l + A'*v + sigma*(z-zbar)
   z_.setConstant(0.0);
   data_->axpyf(1.0, &z_);
-- 
2.43.0


From 79e1e11440ea3ea6cce4c2354e916de16fdb57e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 11/17] fix: check the size of x in
 FullFeasibility::CheckFeasibility, as documented

---
 fbstab/components/full_feasibility.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fbstab/components/full_feasibility.cc b/fbstab/components/full_feasibility.cc
index e5e84a7..811a661 100644
--- a/fbstab/components/full_feasibility.cc
+++ b/fbstab/components/full_feasibility.cc
@@ -25,6 +25,11 @@ FullFeasibility::FullFeasibility(int nz, int nl, int nv) {
 FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
     const FullVariable& x, double tol) {
   NullDataCheck();
+  if (x.nz_ != nz_ || x.nl_ != nl_ || x.nv_ != nv_) {
+    throw std::runtime_error(
+        "In FullFeasibility::CheckFeasibility: x and *this must be the same "
+        "size.");
+  }
 
   // The conditions for dual-infeasibility are:
   // max(Az) <= 0 and f'*z < 0 and |Hz| <= tol * |z| and |Gz| <= tol*|z|
-- 
2.43.0


From f7cebd34d8cf76f02a1918e1cc8ddac24cbf8307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 12/17] fix: check the inputs of DenseCholeskySolver, as
 documented

Initialize ignored the number of equality constraints and Solve dereferenced
null data.
---
 fbstab/components/dense_cholesky_solver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/components/dense_cholesky_solver.cc b/fbstab/components/dense_cholesky_solver.cc
index 3e6bdda..4bd3bcf 100644
--- a/fbstab/components/dense_cholesky_solver.cc
+++ b/fbstab/components/dense_cholesky_solver.cc
@@ -36,7 +36,7 @@ bool DenseCholeskySolver::Initialize(const FullVariable& x,
     throw std::runtime_error(
         "In DenseCholeskySolver::Factor: inputs must be the same size");
   }
-  if (xbar.nz_ != nz_ || xbar.nv_ != nv_) {
+  if (xbar.nz_ != nz_ || xbar.nv_ != nv_ || xbar.nl_ != nl_) {
     throw std::runtime_error(
         "In DenseCholeskySolver::Factor: inputs must match object size.");
   }
@@ -79,6 +79,7 @@ bool DenseCholeskySolver::Initialize(const FullVariable& x,
 }
 
 bool DenseCholeskySolver::Solve(const FullResidual& r, FullVariable* x) const {
+  NullDataCheck();
   if (x == nullptr) {
     throw std::runtime_error(
         "In DenseCholeskySolver::Solve: x cannot be null.");
-- 
2.43.0


From 5c96c4eaa0e8f94cdbae1347c108a01a76ea6817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 13/17] fix: check the inputs of RiccatiLinearSolver, as
 documented

---
 fbstab/components/riccati_linear_solver.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fbstab/components/riccati_linear_solver.cc b/fbstab/components/riccati_linear_solver.cc
index 8211cab..6b74ce4 100644
--- a/fbstab/components/riccati_linear_solver.cc
+++ b/fbstab/components/riccati_linear_solver.cc
@@ -86,7 +86,10 @@ bool RiccatiLinearSolver::Initialize(const FullVariable& x,
         "In RiccatiLinearSolver::Initialize: sigma must be positive.");
   }
   NullDataCheck();
-  // TODO: Add size check with the linear solver as well!
+  if (x.nz_ != nz_ || x.nl_ != nl_ || x.nv_ != nv_) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Initialize: inputs must match object size.");
+  }
 
   Eigen::Vector2d temp;
   for (int i = 0; i < nv_; i++) {
@@ -210,12 +213,18 @@ bool RiccatiLinearSolver::Initialize(const FullVariable& x,
 }
 
 bool RiccatiLinearSolver::Solve(const FullResidual& r, FullVariable* dx) const {
+  if (dx == nullptr) {
+    throw std::runtime_error("In RiccatiLinearSolver::Solve: dx is null.");
+  }
   if (!r.SameSize(*dx)) {
     throw std::runtime_error(
         "In RiccatiLinearSolver::Solve: r and dx size mismatch.");
   }
   NullDataCheck();
-  // TODO: Add size check against the *this
+  if (dx->nz_ != nz_ || dx->nl_ != nl_ || dx->nv_ != nv_) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Solve: inputs must match object size.");
+  }
 
   // Compute the post-elimination residual,
   // r1 = rz - A'*(rv./mus) and r2 = -rl.
-- 
2.43.0


From f46915b8078d4257bb66fece24dfac0d0c38320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 14/17] fix: check every null input of DenseData before using
 it

---
 fbstab/components/dense_data.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fbstab/components/dense_data.h b/fbstab/components/dense_data.h
index 1fe4d82..d32e044 100644
--- a/fbstab/components/dense_data.h
+++ b/fbstab/components/dense_data.h
@@ -44,12 +44,12 @@ class DenseData : public Data {
   template <class Matrix, class Vector>
   DenseData(const Matrix* H, const Vector* f, const Matrix* G, const Vector* h,
             const Matrix* A, const Vector* b)
-      : H_(NotNull(H)->data(), H->rows(), H->cols()),
-        G_(NotNull(G)->data(), G->rows(), G->cols()),
-        A_(NotNull(A)->data(), A->rows(), A->cols()),
-        f_(NotNull(f)->data(), f->size()),
-        h_(NotNull(h)->data(), h->size()),
-        b_(NotNull(b)->data(), b->size()) {
+      : H_(NotNull(H)->data(), NotNull(H)->rows(), NotNull(H)->cols()),
+        G_(NotNull(G)->data(), NotNull(G)->rows(), NotNull(G)->cols()),
+        A_(NotNull(A)->data(), NotNull(A)->rows(), NotNull(A)->cols()),
+        f_(NotNull(f)->data(), NotNull(f)->size()),
+        h_(NotNull(h)->data(), NotNull(h)->size()),
+        b_(NotNull(b)->data(), NotNull(b)->size()) {
     if (H->rows() != H->cols() || H->rows() != f->size()) {
       throw std::runtime_error(
           "In DenseData::DenseData: H must be square and the same size as f");
-- 
2.43.0


From c6e89e171912ed0ba0271570944c9ddcef7e3021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 15/17] fix: throw on negative sizes in DenseCholeskySolver
 instead of aborting

---
 fbstab/components/dense_cholesky_solver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/components/dense_cholesky_solver.cc b/fbstab/components/dense_cholesky_solver.cc
index 4bd3bcf..ed9d93f 100644
--- a/fbstab/components/dense_cholesky_solver.cc
+++ b/fbstab/components/dense_cholesky_solver.cc
@@ -1,6 +1,7 @@
 #include "fbstab/components/dense_cholesky_solver.h"
 
 #include <Eigen/Dense>
+#include <algorithm>
 #include <cmath>
 
 #include "fbstab/components/dense_data.h"
@@ -10,7 +11,7 @@
 namespace fbstab {
 
 DenseCholeskySolver::DenseCholeskySolver(int nz, int nl, int nv)
-    : ldlt_(nz + nl) {
+    : ldlt_(std::max(nz + nl, 0)) {
   if (nz <= 0 || nv <= 0 || nl < 0) {
     throw std::runtime_error(
         "In DenseCholeskySolver: nz and nv must be > 0 and nl >= 0");
-- 
2.43.0


From 27c29158b8202189984586c3d07959286775be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:25 +0000
Subject: [PATCH 16/17] fix: a solve could not report a stall before its first
 step

With stall_tol at or above the norm of the placeholder step every solve
ended in success at the guess, whatever its residual.
---
 fbstab/fbstab_algorithm-impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index 97c2fd7..590db00 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -162,7 +162,8 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
     // b) ||x(k) - x(k-1)|| <= stall_tol
     rk_->PenalizedNaturalResidual(*xk_);
     Ek = rk_->Norm();
-    if (Ek <= combo_tol_ || dx_->Norm() <= opts_.stall_tol) {
+    // There is no step to measure in the first iteration.
+    if (Ek <= combo_tol_ || (k > 0 && dx_->Norm() <= opts_.stall_tol)) {
       PrintIterLine(prox_iters_, newton_iters_, *rk_, *ri_, inner_tol, os);
       SolverOut output = PrepareOutput(ExitFlag::SUCCESS, prox_iters_,
                                        newton_iters_, *rk_, start_time, E0, os);
-- 
2.43.0


From 204880d0c4d15ba4762a5628f5e23b5887efac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:18 +0000
Subject: [PATCH 17/17] fix: reject matrix sequences with more elements than an
 int can count

The element count overflowed, so that a sequence could be constructed
without the memory for its matrices.
---
 tools/matrix_sequence.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/matrix_sequence.h b/tools/matrix_sequence.h
index 7632d8d..da94f38 100644
--- a/tools/matrix_sequence.h
+++ b/tools/matrix_sequence.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <Eigen/Dense>
+#include <limits>
 #include <stdexcept>
 #include <vector>
 
@@ -35,6 +36,9 @@ class MatrixSequence {
       throw std::runtime_error(
           "Non-positive row or column count in MatrixSequence");
     }
+    if (1.0 * len * nrows * ncols > std::numeric_limits<int>::max()) {
+      throw std::runtime_error("Too many elements in MatrixSequence");
+    }
     N_ = len;
     nr_ = nrows;
     nc_ = ncols;
@@ -110,6 +114,9 @@ class MapMatrixSequence {
       throw std::runtime_error(
           "Non-positive row or column count in MapMatrixSequence");
     }
+    if (1.0 * len * nrows * ncols > std::numeric_limits<int>::max()) {
+      throw std::runtime_error("Too many elements in MapMatrixSequence");
+    }
     if (data == nullptr) {
       throw std::runtime_error(
           "Cannot initialize MapMatrixSequence will a nullptr");
-- 
2.43.0

