From 927576adac4c88dec5c2be1b05180c908a6ee6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:17 +0000
Subject: [PATCH 01/44] fix: do not treat a supernode that starts with fill-in
 as a direct copy

BindDiagonalBlock aliased the constraint block with the supernode storage
whenever the position list had the right length and was strictly increasing.
A list such as {-1, 1}, whose first variable is fill-in, also satisfies that,
and the block then ended up in the wrong rows and columns.
---
 conex/supernodal_assembler.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conex/supernodal_assembler.cc b/conex/supernodal_assembler.cc
index 464a60c..5d2aa4e 100644
--- a/conex/supernodal_assembler.cc
+++ b/conex/supernodal_assembler.cc
@@ -77,7 +77,9 @@ void T::BindDiagonalBlock(const DiagonalBlock* data) {
   int m = NumberOfVariables();
 
   if (m == data->num_vars) {
-    direct_update = true;
+    // The supernode must be exactly the variables of the clique in order. A
+    // leading negative entry denotes fill-in.
+    direct_update = data->num_vars > 0 && *(data->var_data) >= 0;
     for (int i = 1; i < data->num_vars; i++) {
       if (*(data->var_data + i) <= *(data->var_data + i - 1)) {
         direct_update = false;
-- 
2.43.0


From eebd79a99d29199cc979a63b2d2ec2971bfc2da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 02/44] fix: include vertex 0 in MaximumDegreeVertices

---
 conex/elimination_ordering.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/elimination_ordering.cc b/conex/elimination_ordering.cc
index 215e023..bb8e270 100644
--- a/conex/elimination_ordering.cc
+++ b/conex/elimination_ordering.cc
@@ -282,7 +282,7 @@ Eigen::VectorXd MaximumDegreeVertices(const Matrix& G) {
   Eigen::VectorXd sums = G * Eigen::MatrixXd::Ones(N, 1);
   std::vector<int> argmax;
   int max = sums(0);
-  for (int i = 1; i < N; i++) {
+  for (int i = 0; i < N; i++) {
     if (sums(i) >= max) {
       if (sums(i) > max) {
         argmax.clear();
-- 
2.43.0


From 019afcaecf6c4bd28a132501aeaf4af9fe148ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 03/44] fix: stop the eigenvalue recurrence when the first
 residual is exactly zero

---
 conex/jordan_matrix_algebra.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/jordan_matrix_algebra.cc b/conex/jordan_matrix_algebra.cc
index c2bbd5e..7835030 100644
--- a/conex/jordan_matrix_algebra.cc
+++ b/conex/jordan_matrix_algebra.cc
@@ -428,7 +428,7 @@ Eigen::VectorXd MatrixAlgebra<d>::ApproximateEigenvalues(
   int cnt = 0;
   for (int j = 1; j < num_iter; j++) {
     beta(j - 1) = inner_product<d>(U, U);
-    if (beta(j - 1) < 1e-5 * scaling) {
+    if (beta(j - 1) <= 1e-5 * scaling) {
       break;
     } else {
       beta(j - 1) = std::sqrt(beta(j - 1));
-- 
2.43.0


From d78b46c554fb393812b9b8d147187df1c611be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:46 +0000
Subject: [PATCH 04/44] fix: drop vacuous zero rows instead of normalizing them
 by zero

---
 conex/linear_constraint.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index be56574..6ca2ad8 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -23,19 +23,25 @@ void PreprocessLinearInequality(const MatrixXd& A, const MatrixXd& lb,
                                 const MatrixXd& ub, MatrixXd* Aineq,
                                 MatrixXd* bineq, MatrixXd* Aeq, MatrixXd* beq) {
   for (int i = 0; i < A.rows(); i++) {
+    // A row without coefficients and a bound of zero cannot be normalized; it
+    // holds everywhere and is dropped.
+    const bool zero_row = A.row(i).squaredNorm() == 0;
     if (lb.row(i) == ub.row(i)) {
+      if (zero_row && ub(i, 0) == 0) {
+        continue;
+      }
       double scale =
           1.0 / std::sqrt(A.row(i).squaredNorm() + ub.row(i).squaredNorm());
       AppendRow(Aeq, scale * A.row(i));
       AppendRow(beq, scale * ub.row(i));
     } else {
-      if (ub(i, 0) < 1e8) {
+      if (ub(i, 0) < 1e8 && !(zero_row && ub(i, 0) == 0)) {
         double scale =
             1.0 / std::sqrt(A.row(i).squaredNorm() + ub.row(i).squaredNorm());
         AppendRow(Aineq, scale * A.row(i));
         AppendRow(bineq, scale * ub.row(i));
       }
-      if (lb(i, 0) > -1e8) {
+      if (lb(i, 0) > -1e8 && !(zero_row && lb(i, 0) == 0)) {
         double scale =
             1.0 / std::sqrt(A.row(i).squaredNorm() + lb.row(i).squaredNorm());
         AppendRow(Aineq, -scale * A.row(i));
-- 
2.43.0


From c4859662c4f0fc8dc660f916108a16a5d939472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 05/44] fix: skip rows the line search cannot move instead of
 dividing 0 by 0

FindMinimumMu computed (dinfmax - d0) / delta for delta == 0; with d0 on the
bound this is 0 / 0, and a NaN in the first row made the line search return an
unbounded parameter.
---
 conex/linear_constraint.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index 6ca2ad8..dc2c6b5 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -61,6 +61,9 @@ bool FindMinimumMu(const T& d0, const T& delta, double dinfmax,
   int i = 0;
 
   for (i = 0; i < d0.size(); i++) {
+    if (delta(i) == 0 && std::fabs(d0(i)) <= dinfmax) {
+      continue;  // Satisfied for all mu (and 0 / 0 below on the boundary).
+    }
     upper_bound_i = (dinfmax - d0(i)) / delta(i);
     lower_bound_i = (-dinfmax - d0(i)) / delta(i);
 
-- 
2.43.0


From 7f2f336fa3a10a40cd5dd3eee10011af7ec8a085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:17 +0000
Subject: [PATCH 06/44] fix: do not report solved without a solution of the KKT
 system

A variable that no constraint mentions made the solver throw or crash, and in
QR mode an inconsistent (or not finite) system counted as solved: minimising -x2
over -1 <= x1 <= 1 returned x2 = 0.
---
 conex/cone_program.cc | 22 +++++++++++++++++++++-
 conex/kkt_solver.cc   | 10 ++++++++++
 conex/kkt_solver.h    |  3 +++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 3f0626a..a932cdb 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -270,6 +270,23 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     return prog.status_.solved;
   }
 
+  // A variable that appears in no constraint leaves the KKT system singular.
+  std::vector<bool> is_constrained(m, false);
+  for (const auto& clique : prog.kkt_system_manager_.cliques) {
+    for (int variable : clique) {
+      if (variable < m) {
+        is_constrained.at(variable) = true;
+      }
+    }
+  }
+  for (int i = 0; i < m; i++) {
+    if (!is_constrained.at(i)) {
+      PRINTSTATUS("Variable appears in no constraint.");
+      prog.status_.num_iterations = 0;
+      return prog.status_.solved;
+    }
+  }
+
   Initialize(prog, config);
   std::cout << "\n";
 
@@ -281,6 +298,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   double cx = 1;
   double by = -1;
   double kkt_error = 0;
+  bool kkt_system_solved = true;
 
   StepOptions newton_step_parameters;
   newton_step_parameters.affine = 0;
@@ -409,9 +427,11 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     y = newton_step_parameters.inv_sqrt_mu *
             (b * b_scaling + prog.sys.AQc * c_scaling) -
         2 * prog.sys.AW;
+    const VectorXd rhs = y.col(0);
     START_TIMER(Solve)
     solver->SolveInPlace(&y);
     END_TIMER
+    kkt_system_solved &= solver->IsSolution(rhs, y.col(0));
 
     newton_step_parameters.e_weight = 1;
     newton_step_parameters.c_weight =
@@ -495,7 +515,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     prog.status_.dual_infeasible =
         by * newton_step_parameters.inv_sqrt_mu >= .5;
   } else {
-    prog.status_.solved = true;
+    prog.status_.solved = kkt_system_solved;
   }
   if (config.prepare_dual_variables) {
     DenseMatrix y2;
diff --git a/conex/kkt_solver.cc b/conex/kkt_solver.cc
index 442ccbb..1920579 100644
--- a/conex/kkt_solver.cc
+++ b/conex/kkt_solver.cc
@@ -262,6 +262,16 @@ void T::SolveInPlace(Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>* b) const {
   return;
 }
 
+bool T::IsSolution(const Eigen::VectorXd& b, const Eigen::VectorXd& y) const {
+  if (!y.allFinite()) {
+    return false;
+  }
+  if (mode_ == CONEX_QR_FACTORIZATION) {
+    return (kkt_matrix_ * y - b).norm() <= 1e-6 * b.norm();
+  }
+  return true;
+}
+
 Eigen::MatrixXd T::KKTMatrix() const {
   Eigen::MatrixXd G =
       TriangularMatrixOperations::ToDense(mat).selfadjointView<Eigen::Lower>();
diff --git a/conex/kkt_solver.h b/conex/kkt_solver.h
index 9fcf9b9..1861397 100644
--- a/conex/kkt_solver.h
+++ b/conex/kkt_solver.h
@@ -42,6 +42,9 @@ class SupernodalKKTSolver {
   bool Factor();
   Eigen::VectorXd Solve(const Eigen::VectorXd& b) const;
   void SolveInPlace(Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>* b) const;
+  // Returns false if y, as returned by SolveInPlace, is not finite or, in QR
+  // mode, if y does not solve the (possibly inconsistent) system.
+  bool IsSolution(const Eigen::VectorXd& b, const Eigen::VectorXd& y) const;
   Eigen::MatrixXd KKTMatrix() const;
 
  private:
-- 
2.43.0


From fdfcd9e0c9222eded87e3f3a95eefc43a15f3026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:24 +0000
Subject: [PATCH 07/44] fix: start the eigenvalue approximation of a dense LMI
 away from eigenvectors

---
 conex/psd_constraint.cc | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/conex/psd_constraint.cc b/conex/psd_constraint.cc
index 579070a..fd62ca0 100644
--- a/conex/psd_constraint.cc
+++ b/conex/psd_constraint.cc
@@ -9,6 +9,22 @@ namespace conex {
 
 using Eigen::VectorXd;
 
+namespace {
+
+// Approximates the extreme eigenvalues of WS. The start vector must not be an
+// eigenvector, which a column of a (for example diagonal) slack can be.
+VectorXd ApproximateWeightedSlackEigenvalues(const Eigen::MatrixXd& WS,
+                                             const Eigen::MatrixXd& W) {
+  const int n = WS.rows();
+  VectorXd r(n);
+  for (int i = 0; i < n; i++) {
+    r(i) = 1.0 / std::sqrt(i + 2.0);
+  }
+  return ApproximateEigenvalues(WS, W, r, n / 2 + 1, true);
+}
+
+}  // namespace
+
 // Applies update  W^{1/2}( exp ( e + W^{1/2} S W^{1/2} ) W^{1/2}
 void PsdConstraint::GeodesicUpdate(double scale, const StepOptions& opt,
                                    Ref* WS) {
@@ -60,13 +76,8 @@ void PrepareStep(PsdConstraint* o, const StepOptions& opt, const Ref& y,
   o->ComputeNegativeSlack(opt.c_weight, y, &minus_s);
   WS = W * minus_s;
 
-  int n = Rank(*o);
-  // Use heuristic initialization of ApproximateEigenvalues.
   // Finds eigenvalues of -Q(w/2) s
-  int index = 0;
-  WS.diagonal().maxCoeff(&index);
-  auto gw_eig =
-      ApproximateEigenvalues(WS, workspace.W, minus_s.col(index), n / 2, true);
+  auto gw_eig = ApproximateWeightedSlackEigenvalues(WS, workspace.W);
 
   // Get eigenvalues of e - Q(w/2) s.
   const double lambda_1 = std::fabs(opt.e_weight + gw_eig.minCoeff());
@@ -105,12 +116,7 @@ void GetWeightedSlackEigenvalues(PsdConstraint* o, const Ref& y,
   WS.noalias() = workspace->W * minus_s;
 
 #if 1
-  int n = Rank(*o);
-  // VectorXd r = minus_s.col(0);
-  int index = 0;
-  WS.diagonal().maxCoeff(&index);
-  auto gw_eig =
-      ApproximateEigenvalues(WS, workspace->W, minus_s.col(index), n / 2, true);
+  auto gw_eig = ApproximateWeightedSlackEigenvalues(WS, workspace->W);
   // SWS
   const double lamda_max = -gw_eig.minCoeff();
   const double lamda_min = -gw_eig.maxCoeff();
-- 
2.43.0


From d94fb40bbb55ef35f474d7b9fcff64a393b76ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:24 +0000
Subject: [PATCH 08/44] fix: bound the octonion step and follow the sign of its
 slack

---
 conex/hermitian_psd.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 8c09c88..adb6b5f 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -140,8 +140,8 @@ void PrepareStep(HermitianPsdConstraint<Octonions>* o, const StepOptions& opt,
       T::TraceInnerProduct(T::QuadraticRepresentation(o->W, minus_s), minus_s) +
       2 * trace_ws + Rank(*o);
 
-  // TODO(FrankPermenter): replace this heuristic approximation.
-  info->norminfd = 1.0 / 3.0 * (trace_ws + Rank(*o));
+  // Use the upper bound |d|_inf <= |d|_2.
+  info->norminfd = std::sqrt(std::fabs(info->normsqrd));
 }
 
 template <>
@@ -155,13 +155,20 @@ void GetWeightedSlackEigenvalues(HermitianPsdConstraint<Octonions>* o,
   double normsqrd =
       T::TraceInnerProduct(T::QuadraticRepresentation(o->W, minus_s), minus_s);
 
+  const double trace_ws = T::TraceInnerProduct(o->W, minus_s);
+
   // Heuristic approximation based off of inequality:  |x|_1 |x|_{\infty} >=
   // |x|^2_2.
-  p->lambda_max = std::fabs(normsqrd) /
-                  (1e-15 + std::fabs(T::TraceInnerProduct(o->W, minus_s)));
+  const double norminf = std::fabs(normsqrd) / (1e-15 + std::fabs(trace_ws));
 
   // Heuristic.
-  p->lambda_min = p->lambda_max * .01;
+  if (trace_ws <= 0) {
+    p->lambda_max = norminf;
+    p->lambda_min = norminf * .01;
+  } else {
+    p->lambda_max = -norminf * .01;
+    p->lambda_min = -norminf;
+  }
   p->trace = -T::TraceInnerProduct(o->W, minus_s);
   p->frobenius_norm_squared =
       T::TraceInnerProduct(T::QuadraticRepresentation(o->W, minus_s), minus_s);
-- 
2.43.0


From 31a4511ac80de3ec69fbaa0e7afbb080613794f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:14 +0000
Subject: [PATCH 09/44] fix: do not report solved when an equality constraint
 is violated

---
 conex/cone_program.cc | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index a932cdb..3bedf39 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -213,6 +213,28 @@ double ComputeMuFromDivergence(ConstraintManager<Container>& constraints,
   return inv_sqrt_mu;
 }
 
+// Returns true if x satisfies the equality constraints up to round-off.
+bool SatisfiesEqualityConstraints(
+    const ConstraintManager<Container>& constraints, const VectorXd& x) {
+  constexpr double kTolerance = 1e-3;
+  constexpr double kRoundOff = 1e-11;
+  int i = 0;
+  for (const auto& ci : constraints.eqs) {
+    if (const auto* eq = std::any_cast<EqualityConstraints>(&ci.obj)) {
+      const VectorXd xi = Vars(x, constraints.cliques.at(i)).head(eq->A_.cols());
+      const VectorXd residual = eq->A_ * xi - eq->b_.col(0);
+      const VectorXd limit =
+          kTolerance * (eq->b_.col(0).cwiseAbs().array() + 1).matrix() +
+          kRoundOff * (eq->A_.cwiseAbs() * xi.cwiseAbs());
+      if (!(residual.array().abs() <= limit.array()).all()) {
+        return false;
+      }
+    }
+    i++;
+  }
+  return true;
+}
+
 void ApplyLimits(double* x, double lb, double ub) {
   if (*x > ub) {
     *x = ub;
@@ -515,7 +537,11 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     prog.status_.dual_infeasible =
         by * newton_step_parameters.inv_sqrt_mu >= .5;
   } else {
-    prog.status_.solved = kkt_system_solved;
+    prog.status_.solved =
+        kkt_system_solved &&
+        SatisfiesEqualityConstraints(
+            prog.kkt_system_manager_,
+            y.col(0) / (newton_step_parameters.inv_sqrt_mu * c_scaling));
   }
   if (config.prepare_dual_variables) {
     DenseMatrix y2;
-- 
2.43.0


From 785f2708cc315875286585368211365e30218f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:46 +0000
Subject: [PATCH 10/44] fix: report refused problems as not solved

CONEX_DEMAND returns 1, which a bool success code reads as success: a quadratic
cost without line search, a failed line search and a cost vector of the wrong
dimension were reported solved with the output untouched (or the cost ignored).
---
 conex/cone_program.cc | 38 +++++++++++++++++++++++++-------------
 conex/cone_program.h  |  2 +-
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 3bedf39..666ff96 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -246,8 +246,11 @@ void ApplyLimits(double* x, double lb, double ub) {
 }
 
 bool Program::AddLinearCost(const VectorXd& b) {
-  CONEX_DEMAND(GetNumberOfVariables() == b.rows(),
-               "Cost vector dimension does not equal number of variables");
+  if (GetNumberOfVariables() != b.rows()) {
+    std::cerr << "Cost vector dimension does not equal number of variables"
+              << std::endl;
+    return false;
+  }
   linear_cost_ += b;
   return true;
 }
@@ -256,18 +259,22 @@ void Program::ClearLinearCosts() { linear_cost_.setZero(); }
 
 bool Solve(Program& prog, const SolverConfiguration& config,
            double* primal_variable) {
-  CONEX_DEMAND(prog.contains_quadratic_costs_ == false ||
-                   (config.enable_line_search && !config.enable_rescaling),
-               "Must enable line search and disable rescaling for problems "
-               "with quadratic costs.");
+  prog.status_.solved = 0;
+  prog.status_.num_iterations = 0;
+  prog.status_.primal_infeasible = 0;
+  prog.status_.dual_infeasible = 0;
+  if (prog.contains_quadratic_costs_ &&
+      (!config.enable_line_search || config.enable_rescaling)) {
+    std::cerr << "Must enable line search and disable rescaling for problems "
+                 "with quadratic costs."
+              << std::endl;
+    return prog.status_.solved;
+  }
 
   VectorXd bin = -prog.linear_cost_;
 
   auto& constraints = prog.constraints_;
   auto& solver = prog.solver;
-  prog.status_.solved = 0;
-  prog.status_.primal_infeasible = 0;
-  prog.status_.dual_infeasible = 0;
   bool max_iters_reached = true;
 
 #if CONEX_VERBOSE
@@ -304,7 +311,6 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   for (int i = 0; i < m; i++) {
     if (!is_constrained.at(i)) {
       PRINTSTATUS("Variable appears in no constraint.");
-      prog.status_.num_iterations = 0;
       return prog.status_.solved;
     }
   }
@@ -424,8 +430,11 @@ bool Solve(Program& prog, const SolverConfiguration& config,
       }
 
       if (temp < 0) {
-        CONEX_DEMAND(!prog.contains_quadratic_costs_,
-                     "Solver terminating with error: line-search failed.");
+        if (prog.contains_quadratic_costs_) {
+          std::cerr << "Solver terminating with error: line-search failed."
+                    << std::endl;
+          return prog.status_.solved;
+        }
         temp = ComputeMuFromDivergence(prog.kkt_system_manager_, solver,
                                        prog.sys.AQc * c_scaling, c_scaling,
                                        b * b_scaling, config, rankK, &y);
@@ -593,7 +602,10 @@ DenseMatrix GetFeasibleObjective(Program* prg) {
 bool Solve(const DenseMatrix& b, Program& prog,
            const SolverConfiguration& config, double* primal_variable) {
   prog.ClearLinearCosts();
-  prog.AddLinearCost(-b);
+  if (!prog.AddLinearCost(-b)) {
+    prog.status_ = ConexStatus();
+    return prog.status_.solved;
+  }
   return Solve(prog, config, primal_variable);
 }
 
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 26174fb..d797f98 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -39,7 +39,7 @@ struct SolverConfiguration {
 
 struct ConexStatus {
   int solved = 0;
-  int num_iterations;
+  int num_iterations = 0;
   int primal_infeasible = 0;
   int dual_infeasible = 0;
 };
-- 
2.43.0


From afd032277a86b40cf4be8dee57e895882438eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:49 +0000
Subject: [PATCH 11/44] fix: do not double what a quadratic cone is added to

When ConstructSchurComplementSystem of a (quadratic or) second-order cone
adds to an existing system, the contributions of the other constraints were
multiplied by the factor of its Jordan inner product as well.
---
 conex/quadratic_cone_constraint.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index 9260a56..093ddbe 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -252,6 +252,16 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
   double det_w = (*o->workspace_.W0) * (*o->workspace_.W0) -
                  SquaredNorm(o->Q_, o->workspace_.W1, &Q_W1);
 
+  // Account for Jordan inner-product  <x, y> := 2 x^T y. The whole system is
+  // doubled below, hence halve what it already contains.
+  if (!initialize) {
+    sys->AQc *= .5;
+    sys->AW *= .5;
+    sys->inner_product_of_c_and_Qc *= .5;
+    sys->inner_product_of_w_and_c *= .5;
+    sys->G *= .5;
+  }
+
   if (initialize) {
     SchurComplement(A0, A_gram, *o->workspace_.W0, det_w, A_dot_x, true,
                     &sys->G);
@@ -281,7 +291,6 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
     sys->inner_product_of_w_and_c += scale;
   }
 
-  // Account for Jordan inner-product  <x, y> := 2 x^T y.
   sys->AQc *= 2;
   sys->AW *= 2;
   sys->inner_product_of_c_and_Qc *= 2;
-- 
2.43.0


From df0ca38595047242ab78d129a36e2ef669bdbc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:33 +0000
Subject: [PATCH 12/44] fix: damp the whole octonion step, not only its slack

TakeStep scaled the slack but not the identity, hence a step of size t < 1
moved along e - t Q(w^{1/2}) s instead of t (e - Q(w^{1/2}) s).
---
 conex/hermitian_psd.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index adb6b5f..23d7e75 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -119,11 +119,16 @@ bool TakeStep(HermitianPsdConstraint<Octonions>* o, const StepOptions& opt) {
   auto& minus_s = o->minus_s;
   double scale = opt.step_size;
 
+  // GeodesicUpdateScaled takes a unit step along d = e + Q(w^{1/2})(-s), i.e.,
+  // it evaluates Q(w^{1/2}) (e + d / 2)^2. For other step sizes, factor
+  //   e + scale d / 2 = k (3/2 e + 1/2 (scale / k) Q(w^{1/2})(-s)).
   if (scale != 1) {
-    minus_s = T::ScalarMultiply(minus_s, scale);
+    const double k = (1 + .5 * scale) / 1.5;
+    minus_s = T::ScalarMultiply(minus_s, scale / k);
+    o->W = T::ScalarMultiply(GeodesicUpdateScaled(o->W, minus_s), k * k);
+  } else {
+    o->W = GeodesicUpdateScaled(o->W, minus_s);
   }
-
-  o->W = GeodesicUpdateScaled(o->W, minus_s);
   return true;
 }
 
-- 
2.43.0


From c618d391597d5635ac36357df00d2ffd74d3ede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 13/44] fix: cold start when the workspace cannot be warm
 started

A warm start of a program that was never initialized, that got constraints
since, or whose workspace was sized for fewer iterations used uninitialized
memory or wrote past the end of the iteration statistics.
---
 conex/cone_program.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 666ff96..5a9a1fd 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -257,8 +257,25 @@ bool Program::AddLinearCost(const VectorXd& b) {
 
 void Program::ClearLinearCosts() { linear_cost_.setZero(); }
 
-bool Solve(Program& prog, const SolverConfiguration& config,
+// A warm start needs the workspace of a previous run: initialized, covering all
+// constraints added since, and with room for the statistics of this run.
+// The first run may also warm start if the caller provides such a workspace.
+bool CanWarmStart(const Program& prog, const SolverConfiguration& config) {
+  if (!prog.is_initialized) {
+    return prog.workspace_data_ != &prog.memory_ &&
+           prog.workspace_data_->size() > 0;
+  }
+  return prog.stats->IsInitialized() &&
+         prog.stats->max_iter_ >= config.max_iterations &&
+         prog.kkt.size() == prog.kkt_system_manager_.eqs.size();
+}
+
+bool Solve(Program& prog, const SolverConfiguration& input_config,
            double* primal_variable) {
+  SolverConfiguration config = input_config;
+  if (!CanWarmStart(prog, config)) {
+    config.initialization_mode = CONEX_INITIALIZATION_MODE_COLDSTART;
+  }
   prog.status_.solved = 0;
   prog.status_.num_iterations = 0;
   prog.status_.primal_infeasible = 0;
-- 
2.43.0


From fccfb784ef383333b75b4db2dc3a1854779fe46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:33 +0000
Subject: [PATCH 14/44] fix: provide the dual variable of octonion constraints

The view of the dual variable kept pointing at uninitialized workspace memory,
and preparing dual variables did not take the affine step.
---
 conex/hermitian_psd.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 23d7e75..07e1e7e 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -129,6 +129,13 @@ bool TakeStep(HermitianPsdConstraint<Octonions>* o, const StepOptions& opt) {
   } else {
     o->W = GeodesicUpdateScaled(o->W, minus_s);
   }
+
+  // Dual-variable-interface access to real part of W.
+  if (o->W.at(0).data() != o->workspace_.W.data()) {
+    int n = Rank(*o);
+    new (&o->workspace_.W)
+        Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>(o->W.at(0).data(), n, n);
+  }
   return true;
 }
 
@@ -139,6 +146,21 @@ void PrepareStep(HermitianPsdConstraint<Octonions>* o, const StepOptions& opt,
   auto& minus_s = o->minus_s;
   o->ComputeNegativeSlack(opt.c_weight, y, &minus_s);
 
+  if (opt.affine) {
+    auto WSW = T::QuadraticRepresentation(o->W, minus_s);
+    if (opt.e_weight != 0) {
+      o->W = T::ScalarMultiply(o->W, 1 + opt.e_weight);
+    }
+    o->W = T::Add(o->W, WSW);
+    // Dual-variable-interface access to real part of W.
+    if (o->W.at(0).data() != o->workspace_.W.data()) {
+      int n = Rank(*o);
+      new (&o->workspace_.W)
+          Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>(o->W.at(0).data(), n, n);
+    }
+    return;
+  }
+
   // || e - Q(w^{1/2}) s\|
   double trace_ws = T::TraceInnerProduct(o->W, minus_s);
   info->normsqrd =
-- 
2.43.0


From 56bbb807414038088584486e2ac09bd750e07b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:48 +0000
Subject: [PATCH 15/44] fix: initialize the order of a second-order cone given
 by matrices

---
 conex/soc_constraint.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conex/soc_constraint.h b/conex/soc_constraint.h
index c212c4e..3a9a872 100644
--- a/conex/soc_constraint.h
+++ b/conex/soc_constraint.h
@@ -11,7 +11,8 @@ class SOCConstraint {
   SOCConstraint(const T& constraint_matrix, const T& constraint_affine)
       : workspace_(constraint_matrix.rows() - 1),
         constraint_matrix_(constraint_matrix),
-        constraint_affine_(constraint_affine) {
+        constraint_affine_(constraint_affine),
+        n_(constraint_matrix.rows() - 1) {
     assert(constraint_matrix_.rows() == constraint_affine_.rows());
   }
 
-- 
2.43.0


From 44c398e44e0a056d82281b0f01095620720a2c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:48 +0000
Subject: [PATCH 16/44] fix: do not report solved when final centering did not
 converge

---
 conex/cone_program.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 5a9a1fd..da2cb02 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -344,6 +344,7 @@ bool Solve(Program& prog, const SolverConfiguration& input_config,
   double by = -1;
   double kkt_error = 0;
   bool kkt_system_solved = true;
+  bool is_centered = false;
 
   StepOptions newton_step_parameters;
   newton_step_parameters.affine = 0;
@@ -506,6 +507,8 @@ bool Solve(Program& prog, const SolverConfiguration& input_config,
 
     const double d_2 = std::sqrt(std::fabs(info.normsqrd));
     const double d_inf = std::fabs(info.norminfd);
+    // If |d|_inf <= 1, both y and the dual variables are feasible.
+    is_centered = d_inf <= 1;
     by = b.col(0).dot(y.col(0)) * 1.0 /
          (newton_step_parameters.inv_sqrt_mu * c_scaling);
     // inv_sqrt_mu * <c, x> = c' Q(w^{1/2}) (e + d)
@@ -596,6 +599,9 @@ bool Solve(Program& prog, const SolverConfiguration& input_config,
     if (max_iters_reached) {
       prog.status_.solved = false;
       PRINTSTATUS("Terminating at maximum iteration limit.");
+    } else if (!is_centered) {
+      prog.status_.solved = false;
+      PRINTSTATUS("Final centering did not converge.");
     } else {
       PRINTSTATUS("Solved.");
     }
-- 
2.43.0


From bd5d9b46a90ff940caeefd9df6239d92d7964208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:48 +0000
Subject: [PATCH 17/44] fix: do not report solved when iterations ran out
 before the target mu

---
 conex/cone_program.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index da2cb02..b894548 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -553,6 +553,12 @@ bool Solve(Program& prog, const SolverConfiguration& input_config,
     }
   }
 
+  // Centering because iterations run out does not solve the problem.
+  if (newton_step_parameters.inv_sqrt_mu < inv_sqrt_mu_max &&
+      !(kkt_error > config.kkt_error_tolerance)) {
+    max_iters_reached = true;
+  }
+
   prog.status_.num_iterations = prog.stats->num_iter;
   yout = y.topRows(m);
 
-- 
2.43.0


From b5aa85a3c0dc85be28a528be03041244d8f4ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:00 +0000
Subject: [PATCH 18/44] fix: cold start when the workspace holds dual variables
 outside of the cone

---
 conex/cone_program.cc | 8 ++++++--
 conex/cone_program.h  | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index b894548..d95091a 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -90,6 +90,7 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
       prog.stats->b_scaling() = 1;
       prog.stats->c_scaling() = 1;
       SetIdentity(&prog.constraints_);
+      prog.workspace_in_cone_ = true;
     }
 
     START_TIMER(Sparsity Analysis);
@@ -258,14 +259,15 @@ bool Program::AddLinearCost(const VectorXd& b) {
 void Program::ClearLinearCosts() { linear_cost_.setZero(); }
 
 // A warm start needs the workspace of a previous run: initialized, covering all
-// constraints added since, and with room for the statistics of this run.
+// constraints added since, inside of the cone, and with room for the statistics
+// of this run.
 // The first run may also warm start if the caller provides such a workspace.
 bool CanWarmStart(const Program& prog, const SolverConfiguration& config) {
   if (!prog.is_initialized) {
     return prog.workspace_data_ != &prog.memory_ &&
            prog.workspace_data_->size() > 0;
   }
-  return prog.stats->IsInitialized() &&
+  return prog.stats->IsInitialized() && prog.workspace_in_cone_ &&
          prog.stats->max_iter_ >= config.max_iterations &&
          prog.kkt.size() == prog.kkt_system_manager_.eqs.size();
 }
@@ -594,6 +596,8 @@ bool Solve(Program& prog, const SolverConfiguration& input_config,
     StepInfo info;
     PrepareStep(&prog.kkt_system_manager_, newton_step_parameters, y2map,
                 &info);
+    // Only a centered W steps to dual variables inside of the cone.
+    prog.workspace_in_cone_ = is_centered;
   }
 
   if (prog.status_.solved) {
diff --git a/conex/cone_program.h b/conex/cone_program.h
index d797f98..5548512 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -230,6 +230,8 @@ class Program {
   Eigen::VectorXd memory_;
   Eigen::VectorXd* workspace_data_;
   bool is_initialized = false;
+  // False if the workspace holds dual variables outside of the cone.
+  bool workspace_in_cone_ = true;
   bool contains_quadratic_costs_ = false;
   ConexStatus status_;
 
-- 
2.43.0


From 1294cff594212e6ec4175ef587b7a80e29b33ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:06 +0000
Subject: [PATCH 19/44] fix: set the default of every option

---
 interfaces/conex.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 6ce1495..0d679fd 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -251,9 +251,11 @@ void CONEX_SetDefaultOptions(CONEX_SolverConfiguration* c) {
       config.initial_centering_steps_coldstart;
   c->warmstart_abort_threshold = config.warmstart_abort_threshold;
   c->max_iterations = config.max_iterations;
+  c->iterative_refinement_iterations = config.iterative_refinement_iterations;
   c->infeasibility_threshold = config.infeasibility_threshold;
   c->kkt_error_tolerance = config.kkt_error_tolerance;
   c->enable_rescaling = config.enable_rescaling;
+  c->kkt_solver = config.kkt_solver;
 }
 
 void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
-- 
2.43.0


From c43e0b02b20803b9ec5fbf995bd6d188c7b145c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:51 +0000
Subject: [PATCH 20/44] fix: accept programs that have been solved before

---
 interfaces/conex.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 0d679fd..663cf43 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -21,7 +21,8 @@
   CONEX_DEMAND(x, "Program pointer is null.");                             \
   prog = static_cast<Program*>(x);                                         \
   if (prog->is_initialized) {                                              \
-    if (prog->NumberOfConstraints() + 2 !=                                 \
+    /* Two workspaces per constraint of the last run and two of its own. */ \
+    if (2 * prog->NumberOfConstraints() + 2 <                              \
         static_cast<int>(prog->workspaces.size())) {                       \
       CONEX_DEMAND(false, "Program corrupted or invalid pointer.");        \
     }                                                                      \
-- 
2.43.0


From 5185d226f9c24baf1c90062d65d3e955e7a60d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:51 +0000
Subject: [PATCH 21/44] fix: provide no statistics of iterations that did not
 take place

---
 conex/cone_program.cc | 1 +
 conex/workspace.h     | 2 +-
 interfaces/conex.cc   | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index d95091a..6c3d102 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -366,6 +366,7 @@ bool Solve(Program& prog, const SolverConfiguration& input_config,
   auto& c_scaling = prog.stats->c_scaling();
   auto& b_scaling = prog.stats->b_scaling();
 
+  prog.stats->num_iter = 0;
   solver->SetIterativeRefinementIterations(
       config.iterative_refinement_iterations);
   solver->SetSolverMode(config.kkt_solver);
diff --git a/conex/workspace.h b/conex/workspace.h
index 3766a4c..4380c2d 100644
--- a/conex/workspace.h
+++ b/conex/workspace.h
@@ -111,7 +111,7 @@ struct WorkspaceStats {
     return *c_scaling_;
   }
 
-  int num_iter;
+  int num_iter = 0;
   int max_iter_;
   bool initialized = false;
 };
diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 663cf43..0997833 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -268,7 +268,7 @@ void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
 
   auto& program = *reinterpret_cast<Program*>(prog);
 
-  if (!program.stats->IsInitialized()) {
+  if (!program.stats || !program.stats->IsInitialized()) {
     std::cerr << "No statistics available.";
     return;
   }
-- 
2.43.0


From 73a7ea0aac71fd55ee9617b5ac09892867a1ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:51 +0000
Subject: [PATCH 22/44] fix: treat equality constraints passed by reference as
 such

---
 conex/cone_program.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index 5548512..82e337a 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -190,7 +190,8 @@ class Program {
 
   template <typename T>
   bool AddConstraint(T&& d) {
-    if constexpr (!std::is_same<T, EqualityConstraints>::value) {
+    if constexpr (!std::is_same<std::decay_t<T>,
+                               EqualityConstraints>::value) {
       bool result = kkt_system_manager_.AddConstraint<T>(std::forward<T>(d));
       if (result == CONEX_SUCCESS) {
         constraints_.push_back(&kkt_system_manager_.eqs.back().constraint);
@@ -198,13 +199,14 @@ class Program {
       return result;
     } else {
       return kkt_system_manager_.AddEqualityConstraint(
-          std::forward<EqualityConstraints>(d));
+          EqualityConstraints(std::forward<T>(d)));
     }
   }
 
   template <typename T>
   bool AddConstraint(T&& d, const std::vector<int>& variables) {
-    if constexpr (!std::is_same<T, EqualityConstraints>::value) {
+    if constexpr (!std::is_same<std::decay_t<T>,
+                               EqualityConstraints>::value) {
       bool result =
           kkt_system_manager_.AddConstraint<T>(std::forward<T>(d), variables);
       if (result == CONEX_SUCCESS) {
@@ -213,7 +215,7 @@ class Program {
       return result;
     } else {
       return kkt_system_manager_.AddEqualityConstraint(
-          std::forward<EqualityConstraints>(d), variables);
+          EqualityConstraints(std::forward<T>(d)), variables);
     }
   }
 
-- 
2.43.0


From ab2bbff407205ebedfd9cd3d35475b7b3313c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:51 +0000
Subject: [PATCH 23/44] fix: refuse negative variable indices

---
 conex/constraint_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/constraint_manager.h b/conex/constraint_manager.h
index 851d694..81dcfab 100644
--- a/conex/constraint_manager.h
+++ b/conex/constraint_manager.h
@@ -12,7 +12,7 @@ inline int IsUnique(int N, const std::vector<int>& x) {
   Eigen::VectorXd y(N);
   y.setZero();
   for (auto& xi : x) {
-    if (xi >= N) {
+    if (xi < 0 || xi >= N) {
       return false;
     }
     y(xi)++;
-- 
2.43.0


From 20c03b5665f774aa1fbf8397931d345dd1683bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:51 +0000
Subject: [PATCH 24/44] fix: refuse updates of entries and variables that do
 not exist

---
 conex/cone_program.h       | 11 +++++++++++
 conex/linear_constraint.cc |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index 82e337a..a3988bb 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -147,6 +147,15 @@ class Program {
   int UpdateLinearOperatorOfConstraint(int i, double value, int variable,
                                        int row, int col,
                                        int hyper_complex_dim) {
+    CONEX_DEMAND(
+        variable >= 0 && row >= 0 && col >= 0 && hyper_complex_dim >= 0,
+        "Indices cannot be negative.");
+    // The number of variables may not be set yet.
+    CONEX_DEMAND(GetNumberOfVariables() == 0 ||
+                     (i >= 0 && i < NumberOfConstraints() &&
+                      variable < static_cast<int>(
+                                     kkt_system_manager_.cliques.at(i).size())),
+                 "Variable index out of bounds.");
     int cnt = 0;
     for (auto& ci : kkt_system_manager_.eqs) {
       if (cnt == i) {
@@ -160,6 +169,8 @@ class Program {
 
   int UpdateAffineTermOfConstraint(int i, double value, int row, int col,
                                    int hyper_complex_dim) {
+    CONEX_DEMAND(row >= 0 && col >= 0 && hyper_complex_dim >= 0,
+                 "Indices cannot be negative.");
     int cnt = 0;
     for (auto& ci : kkt_system_manager_.eqs) {
       if (cnt == i) {
diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index dc2c6b5..ebc3cd4 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -219,6 +219,8 @@ bool UpdateLinearOperator(LinearConstraint* o, double val, int var, int r,
   CONEX_DEMAND(c == 0, "Linear constraint is not matrix valued.");
   CONEX_DEMAND(r < o->constraint_matrix_.rows(), "Row index out of bounds.");
   CONEX_DEMAND((var >= 0) && (r >= 0), "Indices cannot be negative.");
+  CONEX_DEMAND(var < o->constraint_matrix_.cols(),
+               "Variable index out of bounds.");
 
   o->constraint_matrix_(r, var) = val;
   return CONEX_SUCCESS;
-- 
2.43.0


From f307af5d7502f26353f8434bb896ed39a920627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:28 +0000
Subject: [PATCH 25/44] fix: refuse to solve programs with constraints on no
 variables

---
 conex/cone_program.cc | 7 +++++++
 interfaces/conex.cc   | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 6c3d102..97c323e 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -318,6 +318,13 @@ bool Solve(Program& prog, const SolverConfiguration& input_config,
     return prog.status_.solved;
   }
 
+  for (const auto& clique : prog.kkt_system_manager_.cliques) {
+    if (clique.empty()) {
+      PRINTSTATUS("Constraint has no variables.");
+      return prog.status_.solved;
+    }
+  }
+
   // A variable that appears in no constraint leaves the KKT system singular.
   std::vector<bool> is_constrained(m, false);
   for (const auto& clique : prog.kkt_system_manager_.cliques) {
diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 0997833..aec77f0 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -405,6 +405,8 @@ CONEX_STATUS CONEX_SetNumberOfVariables(void* p, int number_of_variables) {
   SAFER_CAST_TO_Program(p, prg);
   CONEX_DEMAND(prg->GetNumberOfVariables() == 0,
                "Number of variables already set.");
+  CONEX_DEMAND(prg->NumberOfConstraints() == 0,
+               "Number of variables must be set before adding constraints.");
   prg->SetNumberOfVariables(number_of_variables);
   return CONEX_SUCCESS;
 }
-- 
2.43.0


From d92dc5a841243c6963c7bc6c91f9a85664093acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:28 +0000
Subject: [PATCH 26/44] fix: let entries of new constraints be zero until they
 are updated

---
 interfaces/conex.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index aec77f0..ff42d1a 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -89,6 +89,15 @@ SolverConfiguration APIConvertSolverConfiguration(
   c.kkt_solver = config->kkt_solver;
   return c;
 }
+
+// The entries of the new constraint are zero until they are updated.
+template <typename T>
+bool AddZeroHermitianConstraint(Program* prg, int order) {
+  std::vector<typename T::Matrix> A(prg->GetNumberOfVariables(),
+                                    T::Zero(order, order));
+  return prg->AddConstraint(
+      HermitianPsdConstraint<T>(order, A, T::Zero(order, order)));
+}
 }  // namespace
 
 int CONEX_Maximize(void* prog_ptr, const double* b, int br,
@@ -301,18 +310,18 @@ CONEX_STATUS CONEX_NewLinearMatrixInequality(void* p, int order,
 
   switch (hyper_complex_dim) {
     case 1:
-      prg->AddConstraint(HermitianPsdConstraint<conex::Real>(order));
+      AddZeroHermitianConstraint<conex::Real>(prg, order);
       break;
     case 2:
-      prg->AddConstraint(HermitianPsdConstraint<conex::Complex>(order));
+      AddZeroHermitianConstraint<conex::Complex>(prg, order);
       break;
     case 4:
-      prg->AddConstraint(HermitianPsdConstraint<conex::Quaternions>(order));
+      AddZeroHermitianConstraint<conex::Quaternions>(prg, order);
       break;
     case 8:
       CONEX_DEMAND(order <= 3,
                    "Order of octonion algebra cannot be greater than 3.");
-      prg->AddConstraint(HermitianPsdConstraint<conex::Octonions>(order));
+      AddZeroHermitianConstraint<conex::Octonions>(prg, order);
   }
   *constraint_id = prg->NumberOfConstraints() - 1;
   return CONEX_SUCCESS;
@@ -394,7 +403,10 @@ CONEX_STATUS CONEX_NewLorentzConeConstraint(void* p, int order,
   Program* prg;
   SAFER_CAST_TO_Program(p, prg);
 
-  prg->AddConstraint(conex::SOCConstraint(order));
+  Eigen::MatrixXd A =
+      Eigen::MatrixXd::Zero(order + 1, prg->GetNumberOfVariables());
+  Eigen::MatrixXd b = Eigen::MatrixXd::Zero(order + 1, 1);
+  prg->AddConstraint(conex::SOCConstraint(A, b));
   *constraint_id = prg->NumberOfConstraints() - 1;
   return CONEX_SUCCESS;
 }
-- 
2.43.0


From f6071ca8b6f55656f101ce9cdb529fe620dab3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:28 +0000
Subject: [PATCH 27/44] fix: validate the size of quadratic costs and linear
 inequalities

---
 interfaces/conex.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index ff42d1a..4400574 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -330,6 +330,7 @@ CONEX_STATUS CONEX_NewLinearMatrixInequality(void* p, int order,
 CONEX_STATUS CONEX_NewLinearInequality(void* program, int num_rows,
                                        int* constraint_id) {
   CONEX_DEMAND(constraint_id, "Received output null pointer.");
+  CONEX_DEMAND(num_rows >= 1, "Number of rows must be > 0.");
   Program* prg;
   SAFER_CAST_TO_Program(program, prg);
   int n = prg->GetNumberOfVariables();
@@ -356,11 +357,16 @@ CONEX_STATUS CONEX_AddQuadraticCost(void* p, const double* A, int Ar, int Ac) {
   Program* prg;
   SAFER_CAST_TO_Program(p, prg);
   int n = prg->GetNumberOfVariables();
+  CONEX_DEMAND(Ar == n && Ac == n,
+               "Order of matrix must equal number of variables.");
   Eigen::MatrixXd Q;
   std::vector<int> vars;
 
   Eigen::Map<const DenseMatrix> input(A, Ar, Ac);
   NonZeroSubMat(input, &vars, &Q);
+  if (vars.empty()) {
+    return CONEX_SUCCESS;
+  }
   bool status = prg->AddQuadraticCost(Q, vars);
   return status;
 }
-- 
2.43.0


From 0da146844a628bd0c8d36b446bc536c570e307b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:29 +0000
Subject: [PATCH 28/44] fix: use the symmetric part of quadratic costs

---
 conex/quadratic_cost.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index 278f37c..570e140 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -50,9 +50,10 @@ class QuadraticFunction {
     auto& A_ = o->A_;
     if (initialize) {
       sys.setZero();
-      sys.G.topLeftCorner(A_.rows(), A_.cols()) = A_;
+      sys.G.topLeftCorner(A_.rows(), A_.cols()) = .5 * (A_ + A_.transpose());
     } else {
-      sys.G.topLeftCorner(A_.rows(), A_.cols()) += A_;
+      sys.G.topLeftCorner(A_.rows(), A_.cols()) +=
+          .5 * (A_ + A_.transpose());
     }
   }
 
-- 
2.43.0


From c533b91053123a144d57402f434782b7ec3de3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:29 +0000
Subject: [PATCH 29/44] fix: check sizes and variables received by the C
 interface

---
 interfaces/conex.cc | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 4400574..2c8141a 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -111,6 +111,11 @@ int CONEX_Maximize(void* prog_ptr, const double* b, int br,
 
   Program& prog = *reinterpret_cast<Program*>(prog_ptr);
 
+  if (yr != prog.GetNumberOfVariables()) {
+    std::cerr << "Size of y must equal number of variables." << std::endl;
+    return 0;
+  }
+
   return Solve(blinear, prog, config, y);
 }
 
@@ -118,12 +123,23 @@ int CONEX_Solve(void* prog_ptr, const CONEX_SolverConfiguration* config_input,
                 double* y, int yr) {
   SolverConfiguration config = APIConvertSolverConfiguration(config_input);
   Program& prog = *reinterpret_cast<Program*>(prog_ptr);
+  if (yr != prog.GetNumberOfVariables()) {
+    std::cerr << "Size of y must equal number of variables." << std::endl;
+    return 0;
+  }
   return Solve(prog, config, y);
 }
 
 void CONEX_GetDualVariable(void* prog_ptr, int i, double* x, int xr, int xc) {
   Program& prog = *reinterpret_cast<Program*>(prog_ptr);
-  assert(prog.GetDualVariableSize(i) == xr * xc);
+  if (!prog.stats || prog.stats->num_iter == 0) {
+    std::cerr << "No dual variables available." << std::endl;
+    return;
+  }
+  if (prog.GetDualVariableSize(i) != xr * xc) {
+    std::cerr << "Invalid constraint or size of dual variable." << std::endl;
+    return;
+  }
 
   using InputMatrix = Eigen::Map<DenseMatrix>;
 
@@ -151,6 +167,11 @@ int CONEX_AddDenseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
   assert(cc == cr);
 
   using InputMatrix = Eigen::Map<const DenseMatrix>;
+  auto& program = *reinterpret_cast<Program*>(prog);
+  if (m != program.GetNumberOfVariables()) {
+    std::cerr << "One matrix per variable is required." << std::endl;
+    return -1;
+  }
   auto offset = A;
   std::vector<DenseMatrix> Avect;
   for (int i = 0; i < m; i++) {
@@ -163,7 +184,6 @@ int CONEX_AddDenseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
   int n = cc;
 
   DenseLMIConstraint T3{n, Avect, Cmap};
-  auto& program = *reinterpret_cast<Program*>(prog);
   int constraint_id = program.NumberOfConstraints();
   program.AddConstraint(T3);
   return constraint_id;
@@ -193,7 +213,10 @@ int CONEX_AddSparseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
   conex::DenseLMIConstraint T3{Avect, Cmap};
   auto& program = *reinterpret_cast<Program*>(prog);
   int constraint_id = program.NumberOfConstraints();
-  program.AddConstraint(T3, variables);
+  if (program.AddConstraint(T3, variables) != CONEX_SUCCESS) {
+    std::cerr << "Invalid or repeated variable index." << std::endl;
+    return -1;
+  }
   return constraint_id;
 }
 
@@ -202,6 +225,11 @@ int CONEX_AddLinearInequalities(void* prog, const double* A, int Ar, int Ac,
                                 int num_ub) {
   assert(Ar == num_lb);
   assert(Ar == num_ub);
+  auto& program = *reinterpret_cast<Program*>(prog);
+  if (Ac != program.GetNumberOfVariables()) {
+    std::cerr << "One column per variable is required." << std::endl;
+    return -1;
+  }
   Eigen::MatrixXd Ain = Eigen::Map<const Eigen::MatrixXd>(A, Ar, Ac);
   Eigen::MatrixXd lbin = Eigen::Map<const Eigen::MatrixXd>(lb, Ar, 1);
   Eigen::MatrixXd ubin = Eigen::Map<const Eigen::MatrixXd>(ub, Ar, 1);
@@ -213,7 +241,6 @@ int CONEX_AddLinearInequalities(void* prog, const double* A, int Ar, int Ac,
   conex::PreprocessLinearInequality(Ain, lbin, ubin, &Aineq, &bineq, &Aeq,
                                     &beq);
 
-  auto& program = *reinterpret_cast<Program*>(prog);
   if (Aineq.rows() > 0) {
     program.AddConstraint(conex::LinearConstraint(Aineq, bineq));
   }
@@ -230,8 +257,13 @@ int CONEX_AddDenseLinearConstraint(void* prog, const double* A, int Ar, int Ac,
   int n = Ar;
   int m = Ac;
 
-  conex::LinearConstraint T3{n, m, A, c};
   auto& program = *reinterpret_cast<Program*>(prog);
+  if (m != program.GetNumberOfVariables()) {
+    std::cerr << "One column per variable is required." << std::endl;
+    return -1;
+  }
+
+  conex::LinearConstraint T3{n, m, A, c};
 
   int constraint_id = program.NumberOfConstraints();
   program.AddConstraint(T3);
-- 
2.43.0


From 5a3ac7c8a70f1f5d677f2aed00b7489807677733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:32 +0000
Subject: [PATCH 30/44] fix: report the number of iterations of runs that fail

---
 conex/cone_program.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 97c323e..7c9f47f 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -440,6 +440,7 @@ bool Solve(Program& prog, const SolverConfiguration& input_config,
         continue;
       }
       prog.status_.solved = 0;
+      prog.status_.num_iterations = prog.stats->num_iter;
       PRINTSTATUS("Factorization failed.");
       return prog.status_.solved;
     }
@@ -461,6 +462,7 @@ bool Solve(Program& prog, const SolverConfiguration& input_config,
         if (prog.contains_quadratic_costs_) {
           std::cerr << "Solver terminating with error: line-search failed."
                     << std::endl;
+          prog.status_.num_iterations = prog.stats->num_iter;
           return prog.status_.solved;
         }
         temp = ComputeMuFromDivergence(prog.kkt_system_manager_, solver,
-- 
2.43.0


From 06da9855d23275bb2edd049099cb5db1b599cd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:43 +0000
Subject: [PATCH 31/44] fix: balance the gradient of quadratic costs by the
 dual variables

---
 conex/cone_program.cc      | 12 +++++++++++-
 conex/linear_constraint.cc |  8 ++++----
 conex/linear_constraint.h  |  2 +-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 7c9f47f..39a7653 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -597,11 +597,21 @@ bool Solve(Program& prog, const SolverConfiguration& input_config,
     solver->Factor();
     DenseMatrix bres =
         newton_step_parameters.inv_sqrt_mu * b * b_scaling - 1 * prog.sys.AW;
-    y2 = solver->Solve(bres);
 
     newton_step_parameters.affine = true;
     newton_step_parameters.e_weight = 0;
     newton_step_parameters.c_weight = 0;
+    if (prog.contains_quadratic_costs_) {
+      // The dual variables also balance the gradient of the quadratic cost,
+      // so y2 has to approximate the solution.
+      newton_step_parameters.e_weight = 1;
+      newton_step_parameters.c_weight =
+          newton_step_parameters.inv_sqrt_mu * c_scaling;
+      bres += newton_step_parameters.inv_sqrt_mu * prog.sys.AQc * c_scaling -
+              1 * prog.sys.AW;
+    }
+    y2 = solver->Solve(bres);
+
     Ref y2map(y2.data(), y2.rows(), y2.cols());
     StepInfo info;
     PrepareStep(&prog.kkt_system_manager_, newton_step_parameters, y2map,
diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index ebc3cd4..154fc37 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -113,7 +113,6 @@ bool PerformLineSearch(LinearConstraint* o, const LineSearchParameters& params,
 
 void SetIdentity(LinearConstraint* o) { o->workspace_.W.setConstant(1); }
 
-// TODO: use e_weight and c_weight
 void PrepareStep(LinearConstraint* o, const StepOptions& options, const Ref& y,
                  StepInfo* info) {
   auto* workspace = &o->workspace_;
@@ -131,7 +130,7 @@ void PrepareStep(LinearConstraint* o, const StepOptions& options, const Ref& y,
     info->normsqrd = d.squaredNorm();
 
   } else {
-    o->ComputeNegativeSlack(0, y, &minus_s);
+    o->ComputeNegativeSlack(options.c_weight, y, &minus_s);
     TakeStep(o, options);
   }
 }
@@ -147,7 +146,7 @@ bool TakeStep(LinearConstraint* o, const StepOptions& options) {
     W = W.cwiseProduct(d);
   } else {
     auto& minus_s = o->workspace_.temp_1;
-    o->AffineUpdate(minus_s);
+    o->AffineUpdate(options.e_weight, minus_s);
   }
   return true;
 }
@@ -176,10 +175,11 @@ void LinearConstraint::ComputeNegativeSlack(double inv_sqrt_mu, const Ref& y,
   minus_s->noalias() -= (constraint_affine_)*inv_sqrt_mu;
 }
 
-void LinearConstraint::AffineUpdate(const Ref& minus_s) {
+void LinearConstraint::AffineUpdate(double e_weight, const Ref& minus_s) {
   auto& W = workspace_.W;
   auto& SW = workspace_.temp_1;
   SW = minus_s.cwiseProduct(W);
+  SW.array() += e_weight;
   W += W.cwiseProduct(SW);
 }
 
diff --git a/conex/linear_constraint.h b/conex/linear_constraint.h
index 8981c15..45b18d5 100644
--- a/conex/linear_constraint.h
+++ b/conex/linear_constraint.h
@@ -76,7 +76,7 @@ class LinearConstraint {
  private:
   void ComputeNegativeSlack(double inv_sqrt_mu, const Ref& y, Ref* minus_s);
   void GeodesicUpdate(const Ref& S, StepInfo* data);
-  void AffineUpdate(const Ref& S);
+  void AffineUpdate(double e_weight, const Ref& minus_s);
 
   WorkspaceLinear workspace_;
   DenseMatrix constraint_matrix_;
-- 
2.43.0


From 99ece45ff3319ff99a65e63e144f88eb1ba6a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:55 +0000
Subject: [PATCH 32/44] fix: refuse to solve without iterations

---
 conex/cone_program.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 39a7653..942e62f 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -290,6 +290,11 @@ bool Solve(Program& prog, const SolverConfiguration& input_config,
     return prog.status_.solved;
   }
 
+  if (config.max_iterations < 1) {
+    std::cerr << "Maximum number of iterations must be positive." << std::endl;
+    return prog.status_.solved;
+  }
+
   VectorXd bin = -prog.linear_cost_;
 
   auto& constraints = prog.constraints_;
-- 
2.43.0


From 48ff92cb147dca73be5183baaa8f23600e385c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:11 +0000
Subject: [PATCH 33/44] fix: record the iteration that aborts a warm start

---
 conex/cone_program.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 942e62f..77f8c4d 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -442,6 +442,9 @@ bool Solve(Program& prog, const SolverConfiguration& input_config,
         PRINTSTATUS("Aborting warmstart...");
         SetIdentity(&prog.constraints_);
         warmstart_aborted = true;
+        prog.stats->num_iter = i + 1;
+        prog.stats->sqrt_inv_mu[i] =
+            std::sqrt(1.0 / (1e-15 + config.maximum_mu));
         continue;
       }
       prog.status_.solved = 0;
-- 
2.43.0


From ddd2950877ed7fb67072836b48e6a46384bb60e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:34 +0000
Subject: [PATCH 34/44] fix: keep the linear cost when a cost of the wrong size
 is refused

---
 conex/cone_program.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 77f8c4d..91348a2 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -662,11 +662,14 @@ DenseMatrix GetFeasibleObjective(Program* prg) {
 
 bool Solve(const DenseMatrix& b, Program& prog,
            const SolverConfiguration& config, double* primal_variable) {
-  prog.ClearLinearCosts();
-  if (!prog.AddLinearCost(-b)) {
+  if (b.rows() != prog.GetNumberOfVariables()) {
+    std::cerr << "Cost vector dimension does not equal number of variables"
+              << std::endl;
     prog.status_ = ConexStatus();
     return prog.status_.solved;
   }
+  prog.ClearLinearCosts();
+  prog.AddLinearCost(-b);
   return Solve(prog, config, primal_variable);
 }
 
-- 
2.43.0


From ed9fdfa3e5058d706cf8689b72939dcdc0ddd2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:34 +0000
Subject: [PATCH 35/44] fix: report no dual variables for constraints that do
 not exist

---
 conex/cone_program.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index a3988bb..b5d4ce7 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -141,7 +141,8 @@ class Program {
       }
       cnt++;
     }
-    CONEX_DEMAND(false, "Invalid Constraint");
+    std::cerr << "Invalid Constraint" << std::endl;
+    return 0;
   }
 
   int UpdateLinearOperatorOfConstraint(int i, double value, int variable,
-- 
2.43.0


From fcff9f40d2a915fe69fe97130d3680275188da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:34 +0000
Subject: [PATCH 36/44] fix: check sizes and variable indices before reading
 through them

---
 interfaces/conex.cc | 51 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 2c8141a..27cfd68 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -103,14 +103,19 @@ bool AddZeroHermitianConstraint(Program* prg, int order) {
 int CONEX_Maximize(void* prog_ptr, const double* b, int br,
                    const CONEX_SolverConfiguration* config_input, double* y,
                    int yr) {
-  using InputMatrix = Eigen::Map<const DenseMatrix>;
-  InputMatrix bmap(b, br, 1);
-  DenseMatrix blinear = bmap;
-
   SolverConfiguration config = APIConvertSolverConfiguration(config_input);
 
   Program& prog = *reinterpret_cast<Program*>(prog_ptr);
 
+  if (br != prog.GetNumberOfVariables()) {
+    std::cerr << "Size of b must equal number of variables." << std::endl;
+    return 0;
+  }
+
+  using InputMatrix = Eigen::Map<const DenseMatrix>;
+  InputMatrix bmap(b, br, 1);
+  DenseMatrix blinear = bmap;
+
   if (yr != prog.GetNumberOfVariables()) {
     std::cerr << "Size of y must equal number of variables." << std::endl;
     return 0;
@@ -162,9 +167,10 @@ void CONEX_DeleteConeProgram(void* prog) {
 
 int CONEX_AddDenseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
                                 int m, const double* c, int cr, int cc) {
-  assert(Ar == Ac);
-  assert(Ar == cr);
-  assert(cc == cr);
+  if (Ar < 1 || Ar != Ac || Ar != cr || cc != cr) {
+    std::cerr << "Matrices must be square and of equal order." << std::endl;
+    return -1;
+  }
 
   using InputMatrix = Eigen::Map<const DenseMatrix>;
   auto& program = *reinterpret_cast<Program*>(prog);
@@ -192,10 +198,21 @@ int CONEX_AddDenseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
 int CONEX_AddSparseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
                                  int num_vars, const double* c, int cr, int cc,
                                  const long* vars, int vars_rows) {
-  assert(Ar == Ac);
-  assert(Ar == cr);
-  assert(cc == cr);
-  assert(vars_rows == num_vars);
+  if (Ar < 1 || Ar != Ac || Ar != cr || cc != cr) {
+    std::cerr << "Matrices must be square and of equal order." << std::endl;
+    return -1;
+  }
+  if (num_vars < 0 || vars_rows != num_vars) {
+    std::cerr << "One matrix per variable is required." << std::endl;
+    return -1;
+  }
+  auto& program = *reinterpret_cast<Program*>(prog);
+  for (int i = 0; i < num_vars; i++) {
+    if (vars[i] < 0 || vars[i] >= program.GetNumberOfVariables()) {
+      std::cerr << "Invalid or repeated variable index." << std::endl;
+      return -1;
+    }
+  }
 
   // TODO(FrankPermenter): Remove these copies.
   using InputMatrix = Eigen::Map<const DenseMatrix>;
@@ -211,7 +228,6 @@ int CONEX_AddSparseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
   InputMatrix Cmap(c, cr, cc);
 
   conex::DenseLMIConstraint T3{Avect, Cmap};
-  auto& program = *reinterpret_cast<Program*>(prog);
   int constraint_id = program.NumberOfConstraints();
   if (program.AddConstraint(T3, variables) != CONEX_SUCCESS) {
     std::cerr << "Invalid or repeated variable index." << std::endl;
@@ -223,8 +239,10 @@ int CONEX_AddSparseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
 int CONEX_AddLinearInequalities(void* prog, const double* A, int Ar, int Ac,
                                 const double* lb, int num_lb, const double* ub,
                                 int num_ub) {
-  assert(Ar == num_lb);
-  assert(Ar == num_ub);
+  if (Ar < 0 || Ar != num_lb || Ar != num_ub) {
+    std::cerr << "One lower and upper bound per row is required." << std::endl;
+    return -1;
+  }
   auto& program = *reinterpret_cast<Program*>(prog);
   if (Ac != program.GetNumberOfVariables()) {
     std::cerr << "One column per variable is required." << std::endl;
@@ -252,7 +270,10 @@ int CONEX_AddLinearInequalities(void* prog, const double* A, int Ar, int Ac,
 }
 int CONEX_AddDenseLinearConstraint(void* prog, const double* A, int Ar, int Ac,
                                    const double* c, int cr) {
-  assert(Ar == cr);
+  if (Ar < 0 || Ar != cr) {
+    std::cerr << "One right-hand side per row is required." << std::endl;
+    return -1;
+  }
 
   int n = Ar;
   int m = Ac;
-- 
2.43.0


From 8f54a69b06298a2080a517852a7c2caafe8470c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:11 +0000
Subject: [PATCH 37/44] fix: give the workspace of a second-order cone room for
 its last member

---
 conex/workspace_soc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/workspace_soc.h b/conex/workspace_soc.h
index 71909a1..5302474 100644
--- a/conex/workspace_soc.h
+++ b/conex/workspace_soc.h
@@ -8,7 +8,7 @@ struct WorkspaceSOC {
   WorkspaceSOC(int n) : n_(n), W(n + 1, 1) {}
 
   static constexpr int size_of(int n) {
-    return get_size_aligned(n) + 4 * get_size_aligned(n);
+    return 4 * get_size_aligned(n) + get_size_aligned(1);
   }
 
   friend int SizeOf(const WorkspaceSOC& o) { return size_of(o.n_); }
-- 
2.43.0


From efa78f2982300afdd346b931aab8d367be1286a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:11 +0000
Subject: [PATCH 38/44] fix: lay the temporaries of a dense PSD workspace out
 one after the other

---
 conex/hermitian_psd.h  | 3 ++-
 conex/psd_constraint.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 84f3485..0f72faf 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -12,7 +12,8 @@ struct WorkspaceDenseHermitian {
   WorkspaceDenseHermitian(int n, double* data)
       : W(data, n, n),
         temp_1(data + get_size_aligned(n * n), n, n),
-        temp_2(data + get_size_aligned(n * n), n, n) {}
+        temp_2(data + 2 * get_size_aligned(n * n), n, n),
+        n_(n) {}
   static constexpr int size_of(int n) { return 3 * (get_size_aligned(n * n)); }
 
   friend int SizeOf(const WorkspaceDenseHermitian& o) { return size_of(o.n_); }
diff --git a/conex/psd_constraint.h b/conex/psd_constraint.h
index 5d01ed2..a088c0b 100644
--- a/conex/psd_constraint.h
+++ b/conex/psd_constraint.h
@@ -11,7 +11,8 @@ struct WorkspaceDensePSD {
   WorkspaceDensePSD(int n, double* data)
       : W(data, n, n),
         temp_1(data + get_size_aligned(n * n), n, n),
-        temp_2(data + get_size_aligned(n * n), n, n) {}
+        temp_2(data + 2 * get_size_aligned(n * n), n, n),
+        n_(n) {}
   static constexpr int size_of(int n) { return 3 * (get_size_aligned(n * n)); }
 
   friend int SizeOf(const WorkspaceDensePSD& o) { return size_of(o.n_); }
-- 
2.43.0


From 68ad2fc311dcba3ee6e4d002a63e6f76d529aeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:11 +0000
Subject: [PATCH 39/44] fix: start cold when the caller's memory cannot hold a
 workspace to warm start from

---
 conex/cone_program.cc |  6 ++++--
 conex/cone_program.h  | 12 ++++++++++++
 conex/hermitian_psd.h |  6 ++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 91348a2..ba1bd95 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -262,10 +262,12 @@ void Program::ClearLinearCosts() { linear_cost_.setZero(); }
 // constraints added since, inside of the cone, and with room for the statistics
 // of this run.
 // The first run may also warm start if the caller provides such a workspace.
-bool CanWarmStart(const Program& prog, const SolverConfiguration& config) {
+bool CanWarmStart(Program& prog, const SolverConfiguration& config) {
   if (!prog.is_initialized) {
+    // Resizing the provided workspace would discard its contents.
     return prog.workspace_data_ != &prog.memory_ &&
-           prog.workspace_data_->size() > 0;
+           prog.workspace_data_->size() >=
+               prog.SizeOfWorkspace(config.max_iterations);
   }
   return prog.stats->IsInitialized() && prog.workspace_in_cone_ &&
          prog.stats->max_iter_ >= config.max_iterations &&
diff --git a/conex/cone_program.h b/conex/cone_program.h
index b5d4ce7..831eb9d 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -183,6 +183,18 @@ class Program {
     CONEX_DEMAND(false, "Invalid Constraint");
   }
 
+  // The size of the workspace for a run of max_iterations.
+  int SizeOfWorkspace(int max_iterations) {
+    WorkspaceSchurComplement residuals(kkt_system_manager_.SizeOfKKTSystem());
+    residuals.residual_only_ = true;
+    int size = SizeOf(residuals) + SizeOf(WorkspaceStats(max_iterations));
+    for (auto& c : kkt_system_manager_.eqs) {
+      size += SizeOf(c.constraint.workspace()) +
+              SizeOf(c.supernodal_assembler.submatrix_data_);
+    }
+    return size;
+  }
+
   void InitializeWorkspace() {
     workspaces.clear();
     for (auto& c : kkt_system_manager_.eqs) {
diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 0f72faf..f615c45 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -43,13 +43,15 @@ class HermitianPsdConstraint {
  public:
   using Matrix = typename T::Matrix;
 
-  HermitianPsdConstraint(int n) : rank_(n), workspace_(n) {}
+  HermitianPsdConstraint(int n)
+      : rank_(n), workspace_(n), W(T::Identity(n)) {}
 
   HermitianPsdConstraint(int n, const std::vector<Matrix>& a, const Matrix& c)
       : rank_(n),
         workspace_(n),
         constraint_matrices_(a),
-        constraint_affine_(c) {}
+        constraint_affine_(c),
+        W(T::Identity(n)) {}
 
   WorkspaceDenseHermitian* workspace() { return &workspace_; }
   friend void SetIdentity(HermitianPsdConstraint* o) {
-- 
2.43.0


From a5b4ea180b7e8defd28db28b93d539ca0d3882dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:44 +0000
Subject: [PATCH 40/44] fix: let the Python wrapper add inequalities of one
 row, and keep a right-hand side given as a column

---
 interfaces/python/ConexProgram.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interfaces/python/ConexProgram.py b/interfaces/python/ConexProgram.py
index 811f71c..ee8a6db 100644
--- a/interfaces/python/ConexProgram.py
+++ b/interfaces/python/ConexProgram.py
@@ -96,17 +96,17 @@ class Conex:
 
         cost = self.wrapper.CONEX_AddQuadraticCost(self.a, P)
     def AddLinearInequality(self, A, c): 
-        c_ = np.squeeze(np.array(c[:])).transpose()
+        c_ = np.array(c).reshape(-1)
         const_id = self.wrapper.CONEX_AddDenseLinearConstraint(self.a, A, c_)
         self.m = A.shape[1]
         self.n = A.shape[0]
         self.A.append(np.matrix(A))
-        self.c.append(np.matrix(c))
+        self.c.append(np.matrix(c_))
         self.num_constraints = self.num_constraints + 1
 
     def AddLinearInequalities(self, A, lb, ub): 
-        lb_ = np.squeeze(np.array(lb[:])).transpose()
-        ub_ = np.squeeze(np.array(ub[:])).transpose()
+        lb_ = np.array(lb).reshape(-1)
+        ub_ = np.array(ub).reshape(-1)
         const_id = self.wrapper.CONEX_AddLinearInequalities(self.a, A, lb_, ub_)
         #TODO(FrankPermenter) Correctly build these matrices
         self.A.append(np.matrix(A))
-- 
2.43.0


From eb16cba4ec7ad5414ac7377c9c0706acd8da9fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:44 +0000
Subject: [PATCH 41/44] fix: let the Python wrapper raise when a constraint is
 refused and return the dual variables of its own constraints

---
 interfaces/python/ConexProgram.py | 37 ++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/interfaces/python/ConexProgram.py b/interfaces/python/ConexProgram.py
index ee8a6db..cdc4330 100644
--- a/interfaces/python/ConexProgram.py
+++ b/interfaces/python/ConexProgram.py
@@ -66,11 +66,18 @@ class Conex:
         self.linear_constraints = []
         self.A = []
         self.c = []
+        # The constraints c belongs to.
+        self.constraint_ids = []
         self.m = m
 
     def __del__(self): 
         self.wrapper.CONEX_DeleteConeProgram(self.a);
 
+    def AddConstraintId(self, constraint_id):
+        if constraint_id < 0:
+            raise NameError("Failed to add constraint.")
+        self.constraint_ids.append(constraint_id)
+
     def GetIterationStats(self):
         stats = self.GetIterationNumberStats(-1)
         last_iteration_number = stats.iteration_number;
@@ -98,6 +105,7 @@ class Conex:
     def AddLinearInequality(self, A, c): 
         c_ = np.array(c).reshape(-1)
         const_id = self.wrapper.CONEX_AddDenseLinearConstraint(self.a, A, c_)
+        self.AddConstraintId(const_id)
         self.m = A.shape[1]
         self.n = A.shape[0]
         self.A.append(np.matrix(A))
@@ -111,6 +119,7 @@ class Conex:
         #TODO(FrankPermenter) Correctly build these matrices
         self.A.append(np.matrix(A))
         self.c.append(np.matrix(ub_))
+        self.constraint_ids.append(const_id)
         self.num_constraints = self.num_constraints + 1
     def DefaultConfiguration(self):
         config = self.wrapper.CONEX_SolverConfiguration()
@@ -157,12 +166,12 @@ class Conex:
 
     def GetDualVariables(self):
         x = []
-        for i in range(0, self.num_constraints):
+        for i in range(0, len(self.constraint_ids)):
             c = np.matrix(self.c[i]).transpose()
             n2 = c.shape[0]
             n1 = c.shape[1]
             xi = np.ones((n1, n2)).astype(real)
-            self.wrapper.CONEX_GetDualVariable(self.a, i, xi)
+            self.wrapper.CONEX_GetDualVariable(self.a, self.constraint_ids[i], xi)
             xi = np.matrix(xi).transpose()
             x.append(xi)
 
@@ -174,6 +183,7 @@ class Conex:
         if status != 0:
             raise NameError("Failed to add constraint.")
         self.num_constraints = self.num_constraints + 1
+        self.AddConstraintId(constraint.value())
         self.c.append(np.zeros((order, order)).astype(real))
         return constraint.value()
 
@@ -183,6 +193,8 @@ class Conex:
         if status != 0:
             raise NameError("Failed to add constraint.")
         self.num_constraints = self.num_constraints + 1
+        self.AddConstraintId(constraint.value())
+        self.c.append(np.zeros(order + 1).astype(real))
         return constraint.value()
 
     def NewLinearInequality(self, num_rows):
@@ -191,6 +203,8 @@ class Conex:
         if status != 0:
             raise NameError("Failed to add constraint.")
         self.num_constraints = self.num_constraints + 1
+        self.AddConstraintId(constraint.value())
+        self.c.append(np.zeros(num_rows).astype(real))
         return constraint.value()
 
     def NewQuadraticCost(self):
@@ -220,25 +234,26 @@ class Conex:
             raise NameError("Failed to update affine term.")
 
     def AddDenseLinearMatrixInequality(self, A, c): 
+        operator = LMIOperator(A)
+        const_id = self.wrapper.CONEX_AddDenseLMIConstraint(self.a, A, c)
+        self.AddConstraintId(const_id)
         self.n = A.shape[1]
         self.m = A.shape[2]
-        self.A.append(LMIOperator(A))
+        self.A.append(operator)
         self.c.append(c)
-
-        variables = np.arange(0, self.m)
-        variables = variables.astype('int_')
-        self.wrapper.CONEX_AddDenseLMIConstraint(self.a, A, c)
         self.num_constraints = self.num_constraints + 1
 
     def AddSparseLinearMatrixInequality(self, A, c, variables): 
         if np.max(variables) + 1 > self.m:
             print self.m
-            raise NameError("Invalid sparse LMI." + str(self.m) + "!=" + str(np.max(variables+1)))
-        self.A.append(LMIOperator(A, [self.m, variables]))
-        self.c.append(c)
+            raise NameError("Invalid sparse LMI." + str(self.m) + "!=" + str(np.max(variables) + 1))
+        operator = LMIOperator(A, [self.m, variables])
 
         variables = np.array(variables).astype('int_')
-        self.wrapper.CONEX_AddSparseLMIConstraint(self.a, A, c, variables) 
+        const_id = self.wrapper.CONEX_AddSparseLMIConstraint(self.a, A, c, variables) 
+        self.AddConstraintId(const_id)
+        self.A.append(operator)
+        self.c.append(c)
         self.num_constraints = self.num_constraints + 1
 
     def ComputeErrors(self, y, xa, b):
-- 
2.43.0


From a57b2c1c73f01cb303977b360c3a4e9316390f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:44 +0000
Subject: [PATCH 42/44] fix: let the Python wrapper add up the errors of all
 constraints of one call, and transpose a transposed operator back

---
 interfaces/python/ConexProgram.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/interfaces/python/ConexProgram.py b/interfaces/python/ConexProgram.py
index cdc4330..583ff4d 100644
--- a/interfaces/python/ConexProgram.py
+++ b/interfaces/python/ConexProgram.py
@@ -9,10 +9,11 @@ def eye(n):
     return np.matrix(np.eye(n, n))
 
 class Errors:
-    Ax_minus_b = 0
-    x_dot_s = 0
-    min_eig_S = []
-    min_eig_X = []
+    def __init__(self):
+        self.Ax_minus_b = 0
+        self.x_dot_s = 0
+        self.min_eig_S = []
+        self.min_eig_X = []
 
 class Solution:
     err = Errors()
@@ -52,7 +53,7 @@ class LMIOperator:
 
     def transpose(self):
         y = LMIOperator(self.matrices, [self.m, self.variables])
-        y.transposed = not y.transposed
+        y.transposed = not self.transposed
         return y;
 
 class Conex:
@@ -280,7 +281,7 @@ class Conex:
             sa.append(s)
 
             if n2 == 1 or n1 == 1:
-                err.x_dot_s = s.transpose() * x
+                err.x_dot_s = err.x_dot_s + s.transpose() * x
                 err.min_eig_S.append(min(s))
                 err.min_eig_X.append(min(x))
             else:
-- 
2.43.0


From 8047848fb5431b335519b2d18a78a61b3d2f71a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:45 +0000
Subject: [PATCH 43/44] fix: do not regularize the entry behind an empty matrix
 in RLDLT

An empty supernode wrote to the first entry of the next block.
---
 conex/RLDLT.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/RLDLT.h b/conex/RLDLT.h
index d945e9a..0d90321 100644
--- a/conex/RLDLT.h
+++ b/conex/RLDLT.h
@@ -310,7 +310,7 @@ struct rldlt_inplace<Lower> {
     const double regularization_value = 1e-9;
 
     if (size <= 1) {
-      if (std::fabs(mat.coeff(0, 0)) < regularization_value) {
+      if (size == 1 && std::fabs(mat.coeff(0, 0)) < regularization_value) {
         if (mat.coeff(0, 0) < 0) {
           mat.coeffRef(0, 0) = -regularization_value;
         } else {
-- 
2.43.0


From 17be8be27cc781d378b306fcc73cd656741091cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:51 +0000
Subject: [PATCH 44/44] fix: let the column operations of a sparse triangular
 matrix pass over empty supernodes

---
 conex/supernodal_solver.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/conex/supernodal_solver.cc b/conex/supernodal_solver.cc
index cff384a..baae312 100644
--- a/conex/supernodal_solver.cc
+++ b/conex/supernodal_solver.cc
@@ -42,7 +42,7 @@ int GetMax(const std::vector<Clique>& cliques) {
 class TriangularMatrixColumnOperations {
  public:
   TriangularMatrixColumnOperations(T::Matrix* mat) : mat_(mat) {
-    dense_size = mat_->supernode_size.at(0);
+    SkipEmptySupernodes();
   }
   void NextColumn() {
     supernode_column_++;
@@ -51,7 +51,7 @@ class TriangularMatrixColumnOperations {
     if (supernode_column_ >= mat_->supernode_size.at(supernode_index_)) {
       supernode_index_++;
       supernode_column_ = 0;
-      dense_size = mat_->supernode_size.at(supernode_index_);
+      SkipEmptySupernodes();
     }
   }
 
@@ -95,6 +95,13 @@ class TriangularMatrixColumnOperations {
   }
 
  private:
+  void SkipEmptySupernodes() {
+    while (mat_->supernode_size.at(supernode_index_) == 0) {
+      supernode_index_++;
+    }
+    dense_size = mat_->supernode_size.at(supernode_index_);
+  }
+
   int supernode_index_ = 0;
   int dense_size = 0;
   int column = 0;
@@ -164,7 +171,7 @@ class LowerTriangularSuperNodal {
   // The smallest super-node less than i.
   int LookupSuperNode(int index, int start) const {
     for (int j = static_cast<int>(path_.size()) - 1; j >= 0; j--) {
-      if (index >= path_.at(j).at(0)) {
+      if (supernode_size_.at(j) > 0 && index >= path_.at(j).at(0)) {
         return j;
       }
     }
-- 
2.43.0

