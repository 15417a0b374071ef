From f7dea4738e6ac8af8c763d23fcd298e82bd5e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 01/53] fix: JointPosConstraint reads the expanded coefficients
 when splitting range bounds

---
 trajopt_ifopt/src/constraints/joint_position_constraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
index af72551..3f120fe 100644
--- a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
@@ -126,14 +126,14 @@ JointPosConstraint::JointPosConstraint(const std::vector<Bounds>& bounds,
         bounds_.emplace_back(-double(INFINITY), b.getUpper());
         split_indices.push_back(indices_[i]);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
       else
       {
         bounds_.push_back(b);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
     }
 
-- 
2.43.0


From 58ed128852b0e7cc54e8181d36dbcde665da4669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 02/53] fix: Problem reports the sum of all cost terms and the
 gradient of that sum

---
 trajopt_ifopt/src/core/problem.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/trajopt_ifopt/src/core/problem.cpp b/trajopt_ifopt/src/core/problem.cpp
index d73ae7c..ee26c48 100644
--- a/trajopt_ifopt/src/core/problem.cpp
+++ b/trajopt_ifopt/src/core/problem.cpp
@@ -68,11 +68,8 @@ void Problem::setVariables(const double* x)
 
 double Problem::evaluateCostFunction()
 {
-  Eigen::VectorXd g = Eigen::VectorXd::Zero(1);
-  if (hasCostTerms())
-    g = costs_.getValues();
-
-  return g(0);
+  // The total cost is the sum of all cost terms, which are stored as stacked rows
+  return hasCostTerms() ? costs_.getValues().sum() : 0.0;
 }
 
 Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference_approximation, double epsilon)
@@ -105,7 +102,8 @@ Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference
     }
   }
 
-  return jac.row(0).transpose();
+  // The gradient of the total cost is the sum of the gradients of all cost terms, which are stored as stacked rows
+  return jac.transpose() * Eigen::VectorXd::Ones(jac.rows());
 }
 
 std::vector<Bounds> Problem::getBoundsOnConstraints() const { return constraints_.getBounds(); }
-- 
2.43.0


From e2756c8c430a4bf21b8dcbe70f2d09ce0bfb1770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:58 +0000
Subject: [PATCH 03/53] fix: QuadExprs::create keeps the linear term of
 expressions without a Hessian

---
 trajopt_optimizers/trajopt_sqp/src/expressions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
index bb59d1b..2f303e6 100644
--- a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
@@ -182,7 +182,7 @@ void QuadExprs::create(const Eigen::Ref<const Eigen::VectorXd>& func_errors,
   assert(x.size() == n);
 
   linear_coeffs.resize(m, n);
-  linear_coeffs.setZero();  // keep existing behavior: rows with no Hessian stay zero
+  linear_coeffs.setZero();
 
   // constants = f(x₀) − J(x₀) x₀
   constants.resize(m);
@@ -203,6 +203,8 @@ void QuadExprs::create(const Eigen::Ref<const Eigen::VectorXd>& func_errors,
     const auto& H = func_hessians[static_cast<std::size_t>(i)];
     if (H.nonZeros() == 0)
     {
+      // Purely affine: J_i
+      linear_coeffs.row(i) = trajopt_ifopt::Jacobian(func_jacobian.row(i));
       Q.resize(0, 0);
       continue;
     }
-- 
2.43.0


From 846d3752dfc05c64b5ef9cb40fff8c3d8bf361a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 04/53] fix: QuadExprs evaluates quadratics of a single
 variable as documented

---
 trajopt_optimizers/trajopt_sqp/src/expressions.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
index 2f303e6..c295319 100644
--- a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
@@ -97,7 +97,8 @@ void AffExprs::square(QuadExprs& quad_expr, const Eigen::Ref<const Eigen::Vector
 
     // Iterate Bw row i (RowMajor outer index is the row)
     for (trajopt_ifopt::Jacobian::InnerIterator it(scratch_bw_, static_cast<int>(i)); it; ++it)
-      scratch_qi_trips_.emplace_back(0, it.col(), it.value());
+      // With one variable a 1×1 matrix is read as the general quadratic w_i * b_i^2
+      scratch_qi_trips_.emplace_back(0, it.col(), n > 1 ? it.value() : it.value() * it.value());
 
     if (scratch_qi_trips_.empty())
     {
@@ -134,7 +135,7 @@ void QuadExprs::values(Eigen::Ref<Eigen::VectorXd> out, const Eigen::Ref<const E
 
   // We support two representations:
   //  1) General quadratic: Q_i is n×n -> add x^T Q_i x
-  //  2) Squared-affine fast path: Q_i is 1×n row vector q_i -> add (q_i * x)^2
+  //  2) Squared-affine fast path: Q_i is 1×n row vector q_i (n > 1) -> add (q_i * x)^2
   //
   // Only allocate scratch_ if/when we hit the general quadratic path.
   bool scratch_ready = false;
@@ -145,7 +146,7 @@ void QuadExprs::values(Eigen::Ref<Eigen::VectorXd> out, const Eigen::Ref<const E
     if (Q.rows() == 0)
       continue;
 
-    if (Q.rows() == 1)
+    if (Q.rows() == 1 && Q.cols() > 1)
     {
       // Encoded q_i (1×n): add (q_i * x)^2
       double t = 0.0;
-- 
2.43.0


From bd95b7a6bee7d08594ba3daaa1d3a316bb953006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:54 +0000
Subject: [PATCH 05/53] fix: TrajOptQPProblem::setup can be called again
 without losing static components

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 8d88f0b..9f2a4fe 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -567,6 +567,9 @@ void TrajOptQPProblem::Implementation::update()
 
 void TrajOptQPProblem::Implementation::setup()
 {
+  // All component information is rebuilt below, including that of the static components
+  initialized = false;
+
   objective_terms.clear();
   objective_terms.insert(objective_terms.end(), squared_costs.begin(), squared_costs.end());
   objective_terms.insert(objective_terms.end(), dyn_squared_costs.begin(), dyn_squared_costs.end());
-- 
2.43.0


From 04429b868d1019c6ddf96f1a54d24f6bb4324bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:47 +0000
Subject: [PATCH 06/53] fix: a constraint without rows no longer shifts the
 merit coefficients of the following constraints

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 9f2a4fe..a18b3e5 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -748,6 +748,11 @@ void TrajOptQPProblem::Implementation::convexify()
   {
     const auto& info = cvp.constraint_term_infos[i].get();
     const auto& cnt = constraint_terms[i];
+
+    // The merit coefficients are per component, including components which currently have no rows
+    const double merit_coeff =
+        (info.type == ComponentInfoType::kMeritConstraint) ? constraint_merit_coeff(merit_constraint_index++) : 1;
+
     if (info.rows == 0)
       continue;
 
@@ -771,8 +776,6 @@ void TrajOptQPProblem::Implementation::convexify()
     cc = cnt->getValues();
     cc.noalias() -= jac * x_initial;
 
-    const double merit_coeff =
-        (info.type == ComponentInfoType::kMeritConstraint) ? constraint_merit_coeff(merit_constraint_index++) : 1;
     for (Eigen::Index k = 0; k < jac.outerSize(); ++k)
     {
       for (trajopt_ifopt::Jacobian::InnerIterator it(jac, k); it; ++it)
-- 
2.43.0


From 448f54844e497f7d7e38f67633eb3f9584297b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:01 +0000
Subject: [PATCH 07/53] fix: hinge and absolute costs of TrajOptQPProblem are
 weighted and evaluated without slack variables

---
 .../trajopt_sqp/src/trajopt_qp_problem.cpp           | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index a18b3e5..d109a4f 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -130,7 +130,7 @@ struct ConvexProblem
 
 Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen::VectorXd>& var_vals) const
 {
-  /** @note The legacy trajop appears to use all variables include slack for convex cost evaluation */
+  /** @note Slack variables absorb the violation and must not be part of the evaluated penalty */
   const auto total_cost = static_cast<Eigen::Index>(objective_term_infos.size() + penalty_constraint_infos.size());
 
   if (total_cost == 0)
@@ -172,7 +172,7 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
       continue;
     }
 
-    auto jac = constraint_matrix.middleRows(row_offset, c_info.rows);
+    auto jac = constraint_matrix.middleRows(row_offset, c_info.rows).leftCols(n_nlp_vars);
     auto constant = constraint_constant.segment(row_offset, c_info.rows);
 
     // Ensure scratch buffers big enough (no allocation after first growth)
@@ -185,13 +185,13 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
     auto err = scratch_err.head(c_info.rows);
 
     // scratch_val = constant + jac * var_vals
-    val = constant;                   // copy into scratch (but no alloc)
-    val.noalias() += jac * var_vals;  // mat-vec into existing memory
+    val = constant;                    // copy into scratch (but no alloc)
+    val.noalias() += jac * var_block;  // mat-vec into existing memory
 
     // compute violations in-place
     trajopt_ifopt::calcBoundsViolations(err, val, c_info.bounds);
 
-    costs(cost_idx++) = err.sum();
+    costs(cost_idx++) = err.dot(c_info.coeffs);
     assert(!(err.array() < -1e-8).any());
     row_offset += c_info.rows;
   }
@@ -1019,7 +1019,7 @@ Eigen::VectorXd TrajOptQPProblem::Implementation::getExactCosts() const
     auto err = scratch_err.head(c->getRows());
 
     trajopt_ifopt::calcBoundsViolations(err, c->getValues(), c->getBounds());
-    g(cost_idx++) = err.sum();
+    g(cost_idx++) = (err.array() * c->getCoefficients().array()).sum();
   }
 
   return g;
-- 
2.43.0


From 166a269052bb8a8f31d2d10f358e6ee672aa6793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 08/53] fix: IfoptQPProblem weights its exact costs with the
 coefficients used by the model

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 9adb993..5aab89b 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -62,13 +62,13 @@ void IfoptQPProblem::addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet> co
   {
     case CostPenaltyType::kSquared:
     {
-      auto cost = std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set);
+      auto cost = std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set, constraint_set->getCoefficients());
       nlp_->addCostSet(std::move(cost));
       break;
     }
     case CostPenaltyType::kAbsolute:
     {
-      auto cost = std::make_shared<trajopt_ifopt::AbsoluteCost>(constraint_set);
+      auto cost = std::make_shared<trajopt_ifopt::AbsoluteCost>(constraint_set, constraint_set->getCoefficients());
       nlp_->addCostSet(std::move(cost));
       break;
     }
-- 
2.43.0


From a6ab12e8c07f3613a3c5fc74995c380f571dbce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 09/53] fix: IfoptQPProblem::setup does not accumulate names
 when called again

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 5aab89b..2f8a933 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -94,6 +94,8 @@ void IfoptQPProblem::setup()
   constraint_types_.resize(static_cast<std::size_t>(num_nlp_cnts_));
 
   // Get NLP Cost and Constraint Names for Debug Print
+  constraint_names_.clear();
+  cost_names_.clear();
   for (const auto& cnt : nlp_->getConstraints().getComponents())
   {
     for (Eigen::Index j = 0; j < cnt->getRows(); j++)
-- 
2.43.0


From 51c1fb66a7a85e8072f75362520b084f9a31fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 10/53] fix: IfoptQPProblem models every cost term separately
 and does not ignore non-squared costs

---
 .../include/trajopt_sqp/ifopt_qp_problem.h    |  6 ++
 .../trajopt_sqp/src/ifopt_qp_problem.cpp      | 68 ++++++++++++-------
 2 files changed, 49 insertions(+), 25 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
index f7a12e6..0ac2c51 100644
--- a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
+++ b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
@@ -117,6 +117,12 @@ protected:
 
   /** @brief Raw constraint sets underlying each SquaredCost, saved for Hessian/gradient computation */
   std::vector<std::shared_ptr<trajopt_ifopt::ConstraintSet>> cost_constraints_;
+  /** @brief Index of the cost term built from each of cost_constraints_ (increasing) */
+  std::vector<std::size_t> cost_constraint_indices_;
+
+  /** @brief Quadratic (half-Hessian) and linear coefficients of the model of each cost term */
+  std::vector<trajopt_ifopt::Jacobian> cost_hessians_;
+  Eigen::MatrixXd cost_gradients_;
 
   trajopt_ifopt::Jacobian constraint_matrix_;
   Eigen::VectorXd bounds_lower_;
diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 2f8a933..ee91805 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -53,15 +53,17 @@ void IfoptQPProblem::addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet> co
   if (constraint_set->isDynamic())
     throw std::runtime_error("IfoptQPProblem, dynamic cost sets are not supported");
 
-  // Save raw constraint for Hessian/gradient computation (SquaredCost wraps it
-  // but doesn't expose the raw Jacobian needed for the Gauss-Newton Hessian)
   constraint_set->linkWithVariables(nlp_->getOptVariables());
-  cost_constraints_.push_back(constraint_set);
 
   switch (penalty_type)
   {
     case CostPenaltyType::kSquared:
     {
+      // Save raw constraint for Hessian/gradient computation (SquaredCost wraps it
+      // but doesn't expose the raw Jacobian needed for the Gauss-Newton Hessian)
+      cost_constraints_.push_back(constraint_set);
+      cost_constraint_indices_.push_back(nlp_->getCosts().getComponents().size());
+
       auto cost = std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set, constraint_set->getCoefficients());
       nlp_->addCostSet(std::move(cost));
       break;
@@ -182,6 +184,9 @@ void IfoptQPProblem::updateHessian()
   hessian_.resize(num_qp_vars_, num_qp_vars_);
   hessian_.setZero();
 
+  // The remaining costs use a linear model (see updateGradient)
+  cost_hessians_.assign(static_cast<std::size_t>(num_nlp_costs_), trajopt_ifopt::Jacobian(num_nlp_vars_, num_nlp_vars_));
+
   if (cost_constraints_.empty())
     return;
 
@@ -189,8 +194,9 @@ void IfoptQPProblem::updateHessian()
   trajopt_ifopt::Jacobian H_nlp(num_nlp_vars_, num_nlp_vars_);
 
   bool first = true;
-  for (const auto& c : cost_constraints_)
+  for (std::size_t i = 0; i < cost_constraints_.size(); ++i)
   {
+    const auto& c = cost_constraints_[i];
     const trajopt_ifopt::Jacobian J = c->getJacobian();  // m_i × n
     const Eigen::VectorXd w = c->getCoefficients();      // m_i weights
 
@@ -208,6 +214,7 @@ void IfoptQPProblem::updateHessian()
 
     // Evaluate product into row-major temp (Eigen requires matching storage order for +=)
     trajopt_ifopt::Jacobian JtWJ = Jw.transpose() * Jw;
+    cost_hessians_[cost_constraint_indices_[i]] = JtWJ;
     if (first)
     {
       H_nlp = JtWJ;
@@ -261,9 +268,21 @@ void IfoptQPProblem::updateGradient()
   //   q = 2 * J^T W e  -  2 * (J^T W J) * x0
   ////////////////////////////////////////////////////////
   gradient_ = Eigen::VectorXd::Zero(num_qp_vars_);
+  cost_gradients_ = Eigen::MatrixXd::Zero(num_nlp_costs_, num_nlp_vars_);
 
-  for (const auto& c : cost_constraints_)
+  const Eigen::VectorXd x0 = nlp_->getVariableValues().head(num_nlp_vars_);
+  std::size_t next_squared{ 0 };
+  for (Eigen::Index i = 0; i < num_nlp_costs_; ++i)
   {
+    const auto cost_idx = static_cast<std::size_t>(i);
+    if (next_squared == cost_constraints_.size() || cost_constraint_indices_[next_squared] != cost_idx)
+    {
+      // Not a squared cost, use the linear model  f(x0) + J * (x - x0)
+      cost_gradients_.row(i) = Eigen::RowVectorXd(nlp_->getCosts().getComponents()[cost_idx]->getJacobian().row(0));
+      continue;
+    }
+
+    const auto& c = cost_constraints_[next_squared++];
     const trajopt_ifopt::Jacobian J = c->getJacobian();  // m × n
     const Eigen::VectorXd w = c->getCoefficients();      // m weights
 
@@ -274,19 +293,19 @@ void IfoptQPProblem::updateGradient()
     Eigen::VectorXd errors(c->getRows());
     trajopt_ifopt::calcBoundsErrors(errors, c->getValues(), c->getBounds());
 
-    // g += 2 * J^T * diag(w) * e
+    // g = 2 * J^T * diag(w) * e
     Eigen::VectorXd we = (w.array() * errors.array()).matrix();  // w .* e
-    gradient_.head(num_nlp_vars_) += 2.0 * (J.transpose() * we);
-  }
+    Eigen::VectorXd g = 2.0 * (J.transpose() * we);
 
-  // Hessian correction: q = g - 2 * H * x0
-  // (hessian_ stores J^T W J = half-Hessian, so multiply by 2)
-  if (hessian_.nonZeros() > 0)
-  {
-    const Eigen::VectorXd x0 = nlp_->getVariableValues().head(num_nlp_vars_);
-    gradient_.head(num_nlp_vars_) -= 2.0 * (hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * x0);
+    // Hessian correction: q = g - 2 * H * x0
+    // (cost_hessians_ stores J^T W J = half-Hessian, so multiply by 2)
+    g -= 2.0 * (cost_hessians_[cost_idx] * x0);
+    cost_gradients_.row(i) = g.transpose();
   }
 
+  for (Eigen::Index i = 0; i < num_nlp_costs_; ++i)
+    gradient_.head(num_nlp_vars_) += cost_gradients_.row(i).transpose();
+
   ////////////////////////////////////////////////////////
   // Set the gradient of the constraint slack variables
   ////////////////////////////////////////////////////////
@@ -386,19 +405,16 @@ void IfoptQPProblem::updateCostsConstantExpression()
   // When convexifying the function it need to produce the same cost values at the values used to calculate
   // the Jacobian and Hessian, so f(x_initial) = a + b * x + c * x^2 = cost_initial_value.
   // Therefore a = cost_initial_value - b * x - c * x^2
-  //     where: b = gradient_
-  //            c = hessian_
+  //     where: b = cost_gradients_
+  //            c = cost_hessians_
   //            x = x_initial
   //            a = quadratic constant (cost_constant_)
   //
   // Note: This is not used by the QP solver directly but by the Trust Regions Solver
   //       to calculate the merit of the solve.
 
-  // The block excludes the slack variables
-  /** @todo I am not sure this is correct because the gradient_ is not each individual cost function gradient */
-  const double result_quad = x_initial.transpose() * hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * x_initial;
-  const double result_lin = x_initial.dot(gradient_.head(num_nlp_vars_));
-  cost_constant_ = cost_initial_value.array() - result_quad - result_lin;
+  cost_constant_.setZero(num_nlp_costs_);
+  cost_constant_ = cost_initial_value - evaluateConvexCosts(x_initial);
 }
 
 void IfoptQPProblem::updateConstraintsConstantExpression()
@@ -518,10 +534,12 @@ Eigen::VectorXd IfoptQPProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen
   if (num_nlp_costs_ == 0)
     return {};
 
-  auto var_block = var_vals.head(num_nlp_vars_);
-  const double result_quad = var_block.transpose() * hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * var_block;
-  const double result_lin = var_block.dot(gradient_.head(num_nlp_vars_));
-  return cost_constant_.array() + result_lin + result_quad;
+  const Eigen::VectorXd var_block = var_vals.head(num_nlp_vars_);
+  Eigen::VectorXd costs = cost_constant_ + cost_gradients_ * var_block;
+  for (Eigen::Index i = 0; i < num_nlp_costs_; ++i)
+    costs(i) += var_block.dot(cost_hessians_[static_cast<std::size_t>(i)] * var_block);
+
+  return costs;
 }
 
 double IfoptQPProblem::getTotalExactCost() const { return nlp_->evaluateCostFunction(); }
-- 
2.43.0


From 07548a0105df8dc3438a8a6cae569c3e12ecb685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 11/53] fix: TrustRegionSQPSolver stops when a callback returns
 false

---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp           | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index eeccd77..1a4e3d4 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -123,6 +123,10 @@ void TrustRegionSQPSolver::solve(const QPProblem::Ptr& qp_problem)
         break;
     }
 
+    // A callback requested to stop, so leave the results as they are
+    if (status_ == SQPStatus::kStoppedByCallback)
+      break;
+
     // Check if constraints are satisfied
     if (verifySQPSolverConvergence())
     {
@@ -246,6 +250,10 @@ bool TrustRegionSQPSolver::stepSQPSolver()
   // Trust region loop
   runTrustRegionLoop();
 
+  // A callback requested to stop
+  if (status_ == SQPStatus::kStoppedByCallback)
+    return true;
+
   // Check if the NLP has converged
   if (status_ == SQPStatus::kConverged)
     return true;
-- 
2.43.0


From 16462cc07d71a1e8ece9682b29fce9a60bb9f4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:21 +0000
Subject: [PATCH 12/53] fix: TrustRegionSQPSolver aborts when the QP solver
 failed too many times

---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp           | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index 1a4e3d4..18132f5 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -123,8 +123,8 @@ void TrustRegionSQPSolver::solve(const QPProblem::Ptr& qp_problem)
         break;
     }
 
-    // A callback requested to stop, so leave the results as they are
-    if (status_ == SQPStatus::kStoppedByCallback)
+    // A callback requested to stop or the QP solver failed too many times, so leave the results as they are
+    if (status_ == SQPStatus::kStoppedByCallback || status_ == SQPStatus::kQPSolveFailed)
       break;
 
     // Check if constraints are satisfied
@@ -264,7 +264,9 @@ bool TrustRegionSQPSolver::stepSQPSolver()
     status_ = SQPStatus::kConverged;
     return true;
   }
-  return false;
+
+  // The QP solver failed too many times
+  return status_ == SQPStatus::kQPSolveFailed;
 }
 
 void TrustRegionSQPSolver::runTrustRegionLoop()
-- 
2.43.0


From 185049519e7fd30956f4fe67332ae20b51a9e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:21 +0000
Subject: [PATCH 13/53] fix: TrustRegionSQPSolver respects max_iterations while
 it shrinks the trust region

---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp      | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index 18132f5..46ec57d 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -265,8 +265,8 @@ bool TrustRegionSQPSolver::stepSQPSolver()
     return true;
   }
 
-  // The QP solver failed too many times
-  return status_ == SQPStatus::kQPSolveFailed;
+  // The QP solver failed too many times or the iteration limit was reached
+  return status_ == SQPStatus::kQPSolveFailed || status_ == SQPStatus::kIterationLimit;
 }
 
 void TrustRegionSQPSolver::runTrustRegionLoop()
@@ -275,6 +275,14 @@ void TrustRegionSQPSolver::runTrustRegionLoop()
   int qp_solver_failures = 0;
   while (results_.box_size.maxCoeff() >= params.min_trust_box_size)
   {
+    // Every QP solve counts, so the limit may be reached before a step is accepted
+    if (results_.trust_region_iteration > 0 && results_.overall_iteration >= params.max_iterations)
+    {
+      CONSOLE_BRIDGE_logDebug("Iteration limit");
+      status_ = SQPStatus::kIterationLimit;
+      return;
+    }
+
     if (SUPER_DEBUG_MODE)
       qp_problem->print();
 
-- 
2.43.0


From b7aab630c393f1f7c46fc53fc1e81fc4d9fa23ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 14/53] fix: ConvexObjective::addMax minimises and owns its max
 variable

---
 trajopt_sco/src/modeling.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index 5185c9f..20229ae 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -75,12 +75,14 @@ void ConvexObjective::addL2Norm(const AffExprVector& ev)
 void ConvexObjective::addMax(const AffExprVector& ev)
 {
   Var const m = model_->addVar("max", static_cast<double>(-INFINITY), static_cast<double>(INFINITY));
+  vars_.push_back(m);
   ineqs_.reserve(ineqs_.size() + ev.size());
   for (const auto& i : ev)
   {
     ineqs_.push_back(i);
     exprDec(ineqs_.back(), m);
   }
+  exprInc(quad_, m);
 }
 
 void ConvexObjective::addConstraintsToModel()
-- 
2.43.0


From 698917465c1e17861c372f45569d4e2d5ce0a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 15/53] fix: OptProb::getClosestFeasiblePoint respects both
 bounds

---
 trajopt_sco/src/modeling.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index 20229ae..84cadd1 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -265,9 +265,9 @@ DblVec OptProb::getClosestFeasiblePoint(const DblVec& x, const double& delta)
   DblVec y(x.size());
   for (std::size_t i = 0; i < x.size(); i++)
   {
-    // Force it a tiny bit inside the bounds
-    y[i] = fmax(lower_bounds_[i] + delta, x[i]);
-    y[i] = fmin(upper_bounds_[i] - delta, x[i]);
+    // Force it a tiny bit inside the bounds (to the middle of a range narrower than that)
+    const double margin = fmin(delta, (upper_bounds_[i] - lower_bounds_[i]) / 2);
+    y[i] = fmin(upper_bounds_[i] - margin, fmax(lower_bounds_[i] + margin, x[i]));
   }
   return y;
 }
-- 
2.43.0


From 243e59ea97840a9f4b52f576f2a1ae3e48671842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 16/53] fix: setting an affine objective replaces a previous
 quadratic one

---
 trajopt_sco/src/bpmpd_interface.cpp   | 2 +-
 trajopt_sco/src/osqp_interface.cpp    | 2 +-
 trajopt_sco/src/qpoases_interface.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index b6e522a..68e2e32 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -540,7 +540,7 @@ CvxOptStatus BPMPDModel::optimize()
 
   // exit(0);
 }
-void BPMPDModel::setObjective(const AffExpr& expr) { m_objective.affexpr = expr; }
+void BPMPDModel::setObjective(const AffExpr& expr) { m_objective = QuadExpr(expr); }
 void BPMPDModel::setObjective(const QuadExpr& expr) { m_objective = expr; }
 void BPMPDModel::writeToFile(const std::string& /*fname*/) const
 {
diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index c64b205..6fdb369 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -613,7 +613,7 @@ CvxOptStatus OSQPModel::optimize()
 
   return CVX_FAILED;
 }
-void OSQPModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void OSQPModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void OSQPModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 
 VarVector OSQPModel::getVars() const { return vars_; }
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 1886201..66b9d80 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -259,7 +259,7 @@ CvxOptStatus qpOASESModel::optimize()
 
   return CVX_FAILED;
 }
-void qpOASESModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void qpOASESModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void qpOASESModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 void qpOASESModel::writeToFile(const std::string& /*fname*/) const {}
 VarVector qpOASESModel::getVars() const { return vars_; }
-- 
2.43.0


From de61d07f048997acb690522974f93395fb52c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 17/53] fix: bpmpd_io completes partial pipe reads and writes

---
 trajopt_sco/include/trajopt_sco/bpmpd_io.hpp | 41 ++++++++++++++++++--
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
index 7ab80ec..79b5827 100644
--- a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
+++ b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
@@ -3,6 +3,7 @@
 TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <vector>
 #include <cassert>
+#include <cerrno>
 #include <cstdint>
 #include <cstdlib>
 #include <unistd.h>
@@ -16,6 +17,38 @@ enum SerMode : std::uint8_t
   SER
 };
 
+/** @brief Write the whole buffer; a single write may transfer only a part of it */
+inline ssize_t writeAll(int fp, const void* data, std::size_t size)
+{
+  std::size_t done = 0;
+  while (done < size)
+  {
+    const ssize_t n = write(fp, static_cast<const char*>(data) + done, size - done);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      break;
+    done += static_cast<std::size_t>(n);
+  }
+  return static_cast<ssize_t>(done);
+}
+
+/** @brief Read until the buffer is full; a single read from a pipe may return only a part of it */
+inline ssize_t readAll(int fp, void* data, std::size_t size)
+{
+  std::size_t done = 0;
+  while (done < size)
+  {
+    const ssize_t n = read(fp, static_cast<char*>(data) + done, size - done);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      break;
+    done += static_cast<std::size_t>(n);
+  }
+  return static_cast<ssize_t>(done);
+}
+
 template <typename T>
 void ser(int fp, T& x, SerMode mode)
 {
@@ -24,14 +57,14 @@ void ser(int fp, T& x, SerMode mode)
     case SER:
     {
       T xcopy = x;
-      const ssize_t n = write(fp, &xcopy, sizeof(T));
+      const ssize_t n = writeAll(fp, &xcopy, sizeof(T));
       assert(n == sizeof(T));
       UNUSED(n);
       break;
     }
     case DESER:
     {
-      const ssize_t n = read(fp, &x, sizeof(T));
+      const ssize_t n = readAll(fp, &x, sizeof(T));
       assert(n == sizeof(T));
       UNUSED(n);
       break;
@@ -48,7 +81,7 @@ void ser(int fp, std::vector<T>& x, SerMode mode)
   {
     case SER:
     {
-      const long n = write(fp, x.data(), sizeof(T) * size);
+      const long n = writeAll(fp, x.data(), sizeof(T) * size);
       assert(static_cast<unsigned long>(n) == sizeof(T) * size);
       UNUSED(n);
       break;
@@ -56,7 +89,7 @@ void ser(int fp, std::vector<T>& x, SerMode mode)
     case DESER:
     {
       x.resize(size);
-      const long n = read(fp, x.data(), sizeof(T) * size);
+      const long n = readAll(fp, x.data(), sizeof(T) * size);
       assert(static_cast<unsigned long>(n) == sizeof(T) * size);
       UNUSED(n);
       break;
-- 
2.43.0


From a7579216091c0a01ca14f2252f8ac83105940caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 18/53] fix: BasicArray::middleRows and bottomRows fill the
 returned rows

---
 trajopt_common/include/trajopt_common/basic_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_common/include/trajopt_common/basic_array.hpp b/trajopt_common/include/trajopt_common/basic_array.hpp
index d2995bd..98d3e40 100644
--- a/trajopt_common/include/trajopt_common/basic_array.hpp
+++ b/trajopt_common/include/trajopt_common/basic_array.hpp
@@ -71,7 +71,7 @@ struct BasicArray
     {
       for (int j = 0; j < m_nCol; ++j)
       {
-        out(i, j) = at(i, j);
+        out(i - start, j) = at(i, j);
       }
     }
     return out;
-- 
2.43.0


From 708e7cf0303ca6fcaa25bbd9e76af4a91c6b8996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 19/53] fix: ModelType names follow the order of its values

---
 trajopt_sco/src/solver_interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index be35ea8..36f1c16 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -11,7 +11,7 @@ TRAJOPT_IGNORE_WARNINGS_POP
 
 namespace sco
 {
-const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "BPMPD", "OSQP", "QPOASES", "AUTO_SOLVER" };
+const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "OSQP", "QPOASES", "BPMPD", "AUTO_SOLVER" };
 
 void vars2inds(const VarVector& vars, SizeTVec& inds)
 {
@@ -214,7 +214,7 @@ std::ostream& operator<<(std::ostream& o, const QuadExpr& e)
 std::ostream& operator<<(std::ostream& os, const ModelType& cs)
 {
   auto cs_ivalue_ = static_cast<std::size_t>(cs.value_);
-  if (cs_ivalue_ > ModelType::MODEL_NAMES_.size())
+  if (cs_ivalue_ >= ModelType::MODEL_NAMES_.size())
   {
     std::stringstream conversion_error;
     conversion_error << "Error converting ModelType to string - " << "enum value is " << cs_ivalue_ << '\n';
-- 
2.43.0


From 7889d49d29367b212028bfd7d56e51c95b00cd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 20/53] fix: report malformed JSON values as the documented
 error (Json::Exception is no std::runtime_error)

---
 trajopt/src/json_marshal.cpp         | 8 ++++----
 trajopt_sco/src/solver_interface.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/trajopt/src/json_marshal.cpp b/trajopt/src/json_marshal.cpp
index db10516..f38a138 100644
--- a/trajopt/src/json_marshal.cpp
+++ b/trajopt/src/json_marshal.cpp
@@ -13,7 +13,7 @@ void fromJson(const Json::Value& v, bool& ref)
   {
     ref = v.asBool();
   }
-  catch (const std::runtime_error&)
+  catch (const std::exception&)
   {
     PRINT_AND_THROW(boost::format("expected: %s, got %s") % ("bool") % (v));
   }
@@ -25,7 +25,7 @@ void fromJson(const Json::Value& v, int& ref)
   {
     ref = v.asInt();
   }
-  catch (const std::runtime_error&)
+  catch (const std::exception&)
   {
     PRINT_AND_THROW(boost::format("expected: %s, got %s") % ("int") % (v));
   }
@@ -37,7 +37,7 @@ void fromJson(const Json::Value& v, double& ref)
   {
     ref = v.asDouble();
   }
-  catch (const std::runtime_error&)
+  catch (const std::exception&)
   {
     PRINT_AND_THROW(boost::format("expected: %s, got %s") % ("double") % (v));
   }
@@ -49,7 +49,7 @@ void fromJson(const Json::Value& v, std::string& ref)
   {
     ref = v.asString();
   }
-  catch (const std::runtime_error&)
+  catch (const std::exception&)
   {
     PRINT_AND_THROW(boost::format("expected: %s, got %s") % ("string") % (v));
   }
diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index 36f1c16..f759c31 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -252,7 +252,7 @@ void ModelType::fromJson(const Json::Value& v)
     const ModelType cs(ref);
     value_ = cs.value_;
   }
-  catch (const std::runtime_error&)
+  catch (const std::exception&)
   {
     PRINT_AND_THROW(boost::format("expected: %s, got %s") % ("string") % (v));
   }
-- 
2.43.0


From adb03d1ad42a0f6deebc50049be9123f8b460042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 21/53] fix: OSQPModel compares whole sparsity patterns before
 reusing the workspace

---
 trajopt_sco/src/osqp_interface.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index 6fdb369..eaaa789 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -195,10 +195,8 @@ bool OSQPModel::updateObjective(bool check_sparsity)
   eigenToCSC(triangular_sm, P_row_indices_, P_column_pointers_, P_csc_data_);
 
   // Check if sparsity has changed
-  sparsity_equal = sparsity_equal &&
-                   memcmp(prev_column_pointers.data(), P_column_pointers_.data(), static_cast<size_t>(P_->n) + 1) == 0;
-  sparsity_equal =
-      sparsity_equal && (memcmp(prev_row_indices.data(), P_row_indices_.data(), static_cast<size_t>(P_->nzmax)) == 0);
+  sparsity_equal = sparsity_equal && prev_column_pointers == P_column_pointers_;
+  sparsity_equal = sparsity_equal && prev_row_indices == P_row_indices_;
 
   P_.reset(OSQPCscMatrix_new(n_,
                              n_,
@@ -265,10 +263,8 @@ bool OSQPModel::updateConstraints(bool check_sparsity)
   eigenToCSC(sm, A_row_indices_, A_column_pointers_, A_csc_data_);
 
   // Check if sparsity has changed
-  sparsity_equal = sparsity_equal &&
-                   memcmp(prev_column_pointers.data(), A_column_pointers_.data(), static_cast<size_t>(A_->n) + 1) == 0;
-  sparsity_equal =
-      sparsity_equal && (memcmp(prev_row_indices.data(), A_row_indices_.data(), static_cast<size_t>(A_->nzmax)) == 0);
+  sparsity_equal = sparsity_equal && prev_column_pointers == A_column_pointers_;
+  sparsity_equal = sparsity_equal && prev_row_indices == A_row_indices_;
 
   A_.reset(OSQPCscMatrix_new(m_,
                              n_,
-- 
2.43.0


From a38056432df9740b81471b6b72f90c2cd5b22635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 22/53] fix: BasicTrustRegionSQP does not report convergence
 when the time limit precedes the first evaluation

---
 trajopt_sco/src/optimizers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index fce8e57..94569c7 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -742,7 +742,9 @@ OptStatus BasicTrustRegionSQP::optimize()
         LOG_INFO("Elapsed time %f has exceeded max time %f", elapsed_time, param_.max_time);
         retval = OPT_TIME_LIMIT;
 
-        if (results_.cnt_viols.empty() || vecMax(results_.cnt_viols) < param_.cnt_tolerance)
+        // Without a single evaluation nothing is known about the constraints
+        if (constraints.empty() ||
+            (!results_.cnt_viols.empty() && vecMax(results_.cnt_viols) < param_.cnt_tolerance))
         {
           retval = OPT_CONVERGED;
           if (!results_.cnt_viols.empty())
-- 
2.43.0


From f80bc2f1e271255f682f236e89a7eb77081608e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 23/53] fix: BasicTrustRegionSQP closes only the log files it
 could open

---
 trajopt_sco/src/optimizers.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index 94569c7..3796d0f 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -979,15 +979,11 @@ cleanup:
   LOG_INFO("\n==================\n%s==================", CSTR(results_));
   callCallbacks();
 
-  // NOLINTBEGIN(clang-analyzer-core.NonNullParamChecker)
-  if (param_.log_results || trajopt_common::GetLogLevel() >= trajopt_common::LevelDebug)
+  for (std::FILE* stream : { log_solver_stream, log_vars_stream, log_costs_stream, log_constraints_stream })
   {
-    std::fclose(log_solver_stream);
-    std::fclose(log_vars_stream);
-    std::fclose(log_costs_stream);
-    std::fclose(log_constraints_stream);
+    if (stream != nullptr)
+      std::fclose(stream);
   }
-  // NOLINTEND(clang-analyzer-core.NonNullParamChecker)
 
   return retval;
 }
-- 
2.43.0


From 06ecac2832360baadf8e3e29474ba717d793100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 24/53] fix: continuous collision constraints refuse a single
 missing position variable

---
 .../constraints/collision/continuous_collision_constraint.cpp | 4 ++--
 .../collision/continuous_collision_numerical_constraint.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
index 8303d7f..abcfb44 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
@@ -54,7 +54,7 @@ ContinuousCollisionConstraint::ContinuousCollisionConstraint(
   , collision_evaluator_(std::move(collision_evaluator))
   , fixed_sparsity_(fixed_sparsity)
 {
-  if (position_vars_[0] == nullptr && position_vars_[1] == nullptr)
+  if (position_vars_[0] == nullptr || position_vars_[1] == nullptr)
     throw std::runtime_error("ContinuousCollisionConstraint: position_vars contains a nullptr!");
 
   // All vars must have same size
@@ -257,7 +257,7 @@ ContinuousCollisionConstraintD::ContinuousCollisionConstraintD(
   , vars1_fixed_(vars1_fixed)
   , collision_evaluator_(std::move(collision_evaluator))
 {
-  if (position_vars_[0] == nullptr && position_vars_[1] == nullptr)
+  if (position_vars_[0] == nullptr || position_vars_[1] == nullptr)
     throw std::runtime_error("ContinuousCollisionConstraint: position_vars contains a nullptr!");
 
   // All vars must have same size
diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index 3bad743..f4cd761 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -52,7 +52,7 @@ ContinuousCollisionNumericalConstraint::ContinuousCollisionNumericalConstraint(
   , vars1_fixed_(vars1_fixed)
   , collision_evaluator_(std::move(collision_evaluator))
 {
-  if (position_vars_[0] == nullptr && position_vars_[1] == nullptr)
+  if (position_vars_[0] == nullptr || position_vars_[1] == nullptr)
     throw std::runtime_error("position_vars contains a nullptr!");
 
   // Set n_dof_ for convenience
-- 
2.43.0


From f0ba26732908c5ac7a080a29bfa60ec15371b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 25/53] fix: ContinuousCollisionNumericalConstraint perturbs
 the second state when differentiating with respect to it

---
 .../continuous_collision_numerical_constraint.cpp        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index f4cd761..6a98f0a 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -171,7 +171,7 @@ Jacobian ContinuousCollisionNumericalConstraint::getJacobian() const
   const double margin_buffer = collision_evaluator_->getCollisionMarginBuffer();
 
   // Calculate collisions
-  Eigen::VectorXd joint_vals0 = position_vars_[0]->value();
+  const Eigen::VectorXd joint_vals0 = position_vars_[0]->value();
   const Eigen::VectorXd joint_vals1 = position_vars_[1]->value();
 
   trajopt_common::CollisionCacheData collision_data_delta;
@@ -184,7 +184,12 @@ Jacobian ContinuousCollisionNumericalConstraint::getJacobian() const
     {
       jv(j) += delta;
       collision_evaluator_->calcCollisionData(
-          collision_data_delta, jv, joint_vals1, vars0_fixed_, vars1_fixed_, bounds_.size());
+          collision_data_delta,
+          (p == 0) ? jv : joint_vals0,
+          (p == 0) ? joint_vals1 : jv,
+          vars0_fixed_,
+          vars1_fixed_,
+          bounds_.size());
 
       for (int i = 0; i < static_cast<int>(cnt); ++i)
       {
-- 
2.43.0


From c587b91f117076a5b68b9eb3a4b90653908bff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 26/53] fix: weighted average gradients accept contacts exactly
 at margin plus buffer

---
 .../src/constraints/collision/weighted_average_methods.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp b/trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp
index dd10a1a..5425421 100644
--- a/trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp
+++ b/trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp
@@ -36,7 +36,7 @@ Eigen::VectorXd getWeightedAvgGradientT0(const trajopt_common::GradientResultsSe
   if (grad_results_set.results.empty())
     return grad_vec;
 
-  assert(max_error_with_buffer > 0);
+  assert(!(max_error_with_buffer < 0));
   double total_weight = 0;
   long cnt{ 0 };
   for (const auto& grad : grad_results_set.results)
@@ -75,7 +75,7 @@ Eigen::VectorXd getWeightedAvgGradientT1(const trajopt_common::GradientResultsSe
   if (grad_results_set.results.empty())
     return grad_vec;
 
-  assert(max_error_with_buffer > 0);
+  assert(!(max_error_with_buffer < 0));
   double total_weight = 0;
   long cnt{ 0 };
   for (const auto& grad : grad_results_set.results)
-- 
2.43.0


From d2138b50c85c1ef2b98156860d61f9726e5dd187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 27/53] fix: SingleTimestepCollisionEvaluator ranks contacts by
 the worst error of either link

---
 .../src/constraints/collision/discrete_collision_evaluators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp b/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
index 4d80d56..98dfb1c 100644
--- a/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
+++ b/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
@@ -142,7 +142,7 @@ void SingleTimestepCollisionEvaluator::calcCollisions(trajopt_common::CollisionC
     std::sort(collision_data.gradient_results_sets.begin(),
               collision_data.gradient_results_sets.end(),
               [](const trajopt_common::GradientResultsSet& a, const trajopt_common::GradientResultsSet& b) {
-                return a.max_error[0].error > b.max_error[0].error;
+                return a.getMaxErrorWithBufferT0() > b.getMaxErrorWithBufferT0();
               });
   }
 }
-- 
2.43.0


From 047abe8a8e02246d6c8a9493f18ce7bb13584a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 28/53] fix: singularity terms over a joint subset work in
 builds without assertions

---
 trajopt/src/kinematic_terms.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/trajopt/src/kinematic_terms.cpp b/trajopt/src/kinematic_terms.cpp
index dd20e24..4fa91d5 100644
--- a/trajopt/src/kinematic_terms.cpp
+++ b/trajopt/src/kinematic_terms.cpp
@@ -643,10 +643,11 @@ MatrixXd AvoidSingularityJacCalculator::operator()(const VectorXd& var_vals) con
 
 VectorXd AvoidSingularitySubsetErrCalculator::operator()(const VectorXd& var_vals) const
 {
-  UNUSED(var_vals);
   // Get the subset of the input variable values
   VectorXd subset_var_vals(fwd_kin_->numJoints());
-  assert(getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals) == true);
+  const bool found = getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals);
+  assert(found);
+  UNUSED(found);
 
   // Return the cost using the base class
   return AvoidSingularityErrCalculator::operator()(subset_var_vals);
@@ -654,10 +655,11 @@ VectorXd AvoidSingularitySubsetErrCalculator::operator()(const VectorXd& var_val
 
 MatrixXd AvoidSingularitySubsetJacCalculator::operator()(const VectorXd& var_vals) const
 {
-  UNUSED(var_vals);
   // Calculate the gradient using the subset kinematics
   VectorXd subset_var_vals(fwd_kin_->numJoints());
-  assert(getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals) == true);
+  const bool found = getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals);
+  assert(found);
+  UNUSED(found);
   MatrixXd subset_jac = AvoidSingularityJacCalculator::operator()(subset_var_vals);
 
   // Create an all-zero gradient that is the size of the superset joints
@@ -666,9 +668,10 @@ MatrixXd AvoidSingularitySubsetJacCalculator::operator()(const VectorXd& var_val
 
   // Update the all-zero superset gradient with the values from the subset gradient
   VectorXd tmp(superset_kin_->numJoints());
-  assert(updateFromSubset(
-             superset_kin_->getJointNames(), superset_jac.row(0), fwd_kin_->getJointNames(), subset_jac.row(0), tmp) ==
-         true);
+  const bool updated = updateFromSubset(
+      superset_kin_->getJointNames(), superset_jac.row(0), fwd_kin_->getJointNames(), subset_jac.row(0), tmp);
+  assert(updated);
+  UNUSED(updated);
 
   // Create the output gradient
   MatrixXd jac(1, superset_kin_->numJoints());
-- 
2.43.0


From 2871484417f641a4cb9d7b9c35709732e25981f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 29/53] fix: analytic Jacobian of the Cartesian pose constraint

The rotation rows were assigned a six-component difference, and the twists were
expressed in the other frame although they are applied to a pose in the world.
---
 .../constraints/cartesian_position_constraint.cpp  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
index 6b6cad3..21643d9 100644
--- a/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
@@ -334,27 +334,33 @@ void CartPosConstraint::calcJacobianBlock(Jacobian& jac_block,
     if (type_ == Type::kTargetActive)
     {
       jac0 = manip_->calcJacobian(joint_vals, target_frame_, target_frame_offset_.translation());
+
+      // The twists are applied to a pose in the world frame, so they must be taken before changing the base
+      const Eigen::MatrixXd jac_world = jac0;
       tesseract::common::jacobianChangeBase(jac0, (transforms_cache_[source_frame_] * source_frame_offset_).inverse());
 
       for (int c = 0; c < jac0.cols(); ++c)
       {
-        auto perturbed_target_tf = trajopt_common::addTwist(target_tf, jac0.col(c), eps);
+        auto perturbed_target_tf = trajopt_common::addTwist(target_tf, jac_world.col(c), eps);
         const Eigen::VectorXd error_diff =
             tesseract::common::calcJacobianTransformErrorDiff(source_tf, target_tf, perturbed_target_tf);
-        jac0.col(c).tail(3) = (error_diff / eps);
+        jac0.col(c).tail(3) = error_diff.tail(3) / eps;
       }
     }
     else
     {
       jac0 = manip_->calcJacobian(joint_vals, source_frame_, source_frame_offset_.translation());
+
+      // The twists are applied to a pose in the world frame, so they must be taken before changing the base
+      const Eigen::MatrixXd jac_world = jac0;
       tesseract::common::jacobianChangeBase(jac0, (transforms_cache_[target_frame_] * target_frame_offset_).inverse());
 
       for (int c = 0; c < jac0.cols(); ++c)
       {
-        auto perturbed_source_tf = trajopt_common::addTwist(source_tf, jac0.col(c), eps);
+        auto perturbed_source_tf = trajopt_common::addTwist(source_tf, jac_world.col(c), eps);
         const Eigen::VectorXd error_diff =
             tesseract::common::calcJacobianTransformErrorDiff(target_tf, source_tf, perturbed_source_tf);
-        jac0.col(c).tail(3) = (error_diff / eps);
+        jac0.col(c).tail(3) = error_diff.tail(3) / eps;
       }
     }
 
-- 
2.43.0


From 5bd37dea78785c0a03946baeb6d5f4cd6efc398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 30/53] fix: Jacobian of a Cartesian line constraint with fewer
 than six rows

---
 trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index 609ecc0..c5be392 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -176,14 +176,14 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
       dof_vals_pert(i) = joint_vals(i);
     }
 
-    for (int i = 0; i < 6; i++)
+    for (int i = 0; i < info_.indices.size(); i++)
     {
       jac_block.startVec(i);
       for (int j = 0; j < n_dof_; j++)
       {
         // Each jac_block will be for a single variable but for all timesteps. Therefore we must index down to the
         // correct timestep for this variable
-        jac_block.insertBack(i, position_var_->getIndex() + j) = jac0.coeffRef(info_.indices[i], j);
+        jac_block.insertBack(i, position_var_->getIndex() + j) = jac0(i, j);
       }
     }
   }
@@ -235,7 +235,7 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
     //    Jacobian jac_block = jac0.sparseView();
 
     // This does work but could be faster
-    for (int i = 0; i < 6; i++)
+    for (int i = 0; i < info_.indices.size(); i++)
     {
       jac_block.startVec(i);
       for (int j = 0; j < n_dof_; j++)
-- 
2.43.0


From 9cf1fa8381867d4691533efb9fc56350c7ec619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 31/53] fix: analytic Jacobian of the Cartesian line constraint

The rotation rows were assigned a six-component difference, the twists were
expressed in the target frame although they are applied to a pose in the world,
and the motion of the nearest point on the line was ignored.
---
 .../src/constraints/cartesian_line_constraint.cpp          | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index c5be392..536ec41 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -200,7 +200,6 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
 
     Eigen::MatrixXd jac0 =
         info_.manip->calcJacobian(joint_vals, info_.source_frame, info_.source_frame_offset.translation());
-    tesseract::common::jacobianChangeBase(jac0, target_tf.inverse());
 
     // Paper:
     // https://ethz.ch/content/dam/ethz/special-interest/mavt/robotics-n-intelligent-systems/rsl-dam/documents/RobotDynamics2016/RD2016script.pdf
@@ -215,8 +214,8 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
     // below should be sufficient and faster than numerical calculations using the err function.
 
     // The approach below leverages the geometric jacobian and a small step in time to approximate
-    // the partial derivative of the error function. Note that the rotational portion is the only part
-    // that is required to be modified per the paper.
+    // the partial derivative of the error function. Note that the position rows need it as well, because the
+    // nearest point on the line moves with the source.
     for (int c = 0; c < jac0.cols(); ++c)
     {
       auto perturbed_source_tf = trajopt_common::addTwist(source_tf, jac0.col(c), eps);
@@ -227,7 +226,7 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
       const Eigen::VectorXd error_diff = tesseract::common::calcJacobianTransformErrorDiff(
           target_tf, perturbed_target_tf, source_tf, perturbed_source_tf);
 
-      jac0.col(c).tail(3) = (error_diff / eps);
+      jac0.col(c) = error_diff / eps;
     }
 
     // Convert to a sparse matrix and set the jacobian
-- 
2.43.0


From 43cf6fa9789e8ef252e65b1b9fa6464e9c9f56a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 32/53] fix: nearest point on a Cartesian line

The distance along the line used absolute coordinate differences, so a line in a
negative direction was projected to its wrong end; it was compared with 1 instead
of the length of the line; and the point was given in the target frame instead of
the world frame.
---
 .../constraints/cartesian_line_constraint.cpp | 33 +++++++------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index 536ec41..012c511 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -36,6 +36,7 @@ TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <tesseract/kinematics/joint_group.h>
 #include <tesseract/common/utils.h>
 #include <console_bridge/console.h>
+#include <algorithm>
 #include <cassert>
 TRAJOPT_IGNORE_WARNINGS_POP
 
@@ -271,36 +272,24 @@ Eigen::Isometry3d CartLineConstraint::getLinePoint(const Eigen::Isometry3d& sour
                                                    const Eigen::Isometry3d& target_tf1,
                                                    const Eigen::Isometry3d& target_tf2) const
 {
-  // distance 1; distance from new pose to first point on line
-  const Eigen::Vector3d d1 = (source_tf.translation() - target_tf1.translation()).array().abs();
-
   // Get the line
   const Eigen::Vector3d line = target_tf2.translation() - target_tf1.translation();
+  const double length_squared = line.squaredNorm();
 
-  // Point D, the nearest point on line AB to point C, can be found with:
-  // (AC - (AC * AB)) * AB
-  Eigen::Isometry3d line_point;
-  const Eigen::Vector3d line_norm = line.normalized();
-  const double mag = d1.dot(line_norm);
+  // Position of point D, the nearest point on line AB to point C, along the line: 0 at A, 1 at B.
+  // If point C is not between the line endpoints the nearest point is an endpoint
+  double t = 0;
+  if (length_squared > 0)
+    t = (source_tf.translation() - target_tf1.translation()).dot(line) / length_squared;
+  t = std::max(0.0, std::min(1.0, t));
 
-  // If point C is not between the line endpoints, set nearest point to endpoint
-  if (mag > 1.0)
-  {
-    line_point.translation() = info_.target_frame_offset2.translation();
-  }
-  else if (mag < 0)
-  {
-    line_point.translation() = info_.target_frame_offset1.translation();
-  }
-  else
-  {
-    line_point.translation() = info_.target_frame_offset1.translation() + mag * line_norm;
-  }
+  Eigen::Isometry3d line_point;
+  line_point.translation() = target_tf1.translation() + t * line;
 
   // The orientation of the line_point is found using quaternion SLERP
   const Eigen::Quaterniond quat_a(target_tf1.rotation());
   const Eigen::Quaterniond quat_b(target_tf2.rotation());
-  const Eigen::Quaterniond slerp = quat_a.slerp(mag, quat_b);
+  const Eigen::Quaterniond slerp = quat_a.slerp(t, quat_b);
   line_point.linear() = slerp.toRotationMatrix();
 
   return line_point;
-- 
2.43.0


From 52ef7f0f4e5b52cc2a4be4085b857b7de1be3860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 33/53] fix: collision evaluators do not abort Debug builds
 when only one end of a moving pair is fixed

---
 trajopt/include/trajopt/collision_terms.hpp |  8 ---
 trajopt/src/collision_terms.cpp             | 62 ---------------------
 2 files changed, 70 deletions(-)

diff --git a/trajopt/include/trajopt/collision_terms.hpp b/trajopt/include/trajopt/collision_terms.hpp
index 6253827..6535127 100644
--- a/trajopt/include/trajopt/collision_terms.hpp
+++ b/trajopt/include/trajopt/collision_terms.hpp
@@ -300,14 +300,6 @@ protected:
                                          std::vector<double>& exprs_margin,
                                          std::vector<double>& exprs_coeff);
 
-  /**
-   * @brief Remove any results that are invalid.
-   * Invalid state are contacts that occur at fixed states or have distances outside the threshold.
-   * @param contact_results Contact results vector to process.
-   * @param margin The contact margin
-   */
-  void removeInvalidContactResults(tesseract::collision::ContactResultVector& contact_results, double margin) const;
-
 private:
   CollisionEvaluator() = default;
 };
diff --git a/trajopt/src/collision_terms.cpp b/trajopt/src/collision_terms.cpp
index 23cd58b..7105a78 100644
--- a/trajopt/src/collision_terms.cpp
+++ b/trajopt/src/collision_terms.cpp
@@ -555,50 +555,6 @@ void CollisionEvaluator::CalcDistExpressionsSingleTimeStep(const DblVec& x,
   }
 }
 
-void CollisionEvaluator::removeInvalidContactResults(tesseract::collision::ContactResultVector& contact_results,
-                                                     double margin) const
-{
-  auto end = std::remove_if(
-      contact_results.begin(), contact_results.end(), [this, margin](const tesseract::collision::ContactResult& r) {
-        switch (evaluator_type_)
-        {
-          case CollisionExpressionEvaluatorType::START_FREE_END_FREE:
-          {
-            break;
-          }
-          case CollisionExpressionEvaluatorType::START_FIXED_END_FREE:
-          {
-            if (r.cc_type[0] == tesseract::collision::ContinuousCollisionType::CCType_Time0)
-              return true;
-
-            if (r.cc_type[1] == tesseract::collision::ContinuousCollisionType::CCType_Time0)
-              return true;
-
-            break;
-          }
-          case CollisionExpressionEvaluatorType::START_FREE_END_FIXED:
-          {
-            if (r.cc_type[0] == tesseract::collision::ContinuousCollisionType::CCType_Time1)
-              return true;
-
-            if (r.cc_type[1] == tesseract::collision::ContinuousCollisionType::CCType_Time1)
-              return true;
-
-            break;
-          }
-          default:
-          {
-            PRINT_AND_THROW("Invalid CollisionExpressionEvaluatorType for "
-                            "CollisionEvaluator::removeInvalidContactResults!");
-          }
-        }
-
-        return (r.distance > (margin + margin_buffer_));
-      });
-
-  contact_results.erase(end, contact_results.end());
-}
-
 SingleTimestepCollisionEvaluator::SingleTimestepCollisionEvaluator(
     std::shared_ptr<const tesseract::kinematics::JointGroup> manip,
     std::shared_ptr<const tesseract::environment::Environment> env,
@@ -867,16 +823,7 @@ void DiscreteCollisionEvaluator::CalcCollisions(const Eigen::Ref<const Eigen::Ve
     const double margin = margin_data_.getCollisionMargin(pair.first.first, pair.first.second);
 
     // Don't include contacts at the fixed state
-#ifndef NDEBUG
-    tesseract::collision::ContactResultVector copy{ pair.second };
-#endif
-
     trajopt_common::removeInvalidContactResults(pair.second, margin, margin_buffer_, vars0_fixed_, vars1_fixed_);
-
-#ifndef NDEBUG
-    removeInvalidContactResults(copy, margin);
-    assert(copy.size() == pair.second.size());
-#endif
   };
 
   // Perform casted collision checking for sub trajectory and store results in contacts_vector
@@ -1103,16 +1050,7 @@ void CastCollisionEvaluator::CalcCollisions(const Eigen::Ref<const Eigen::Vector
     const double margin = margin_data_.getCollisionMargin(pair.first.first, pair.first.second);
 
     // Don't include contacts at the fixed state
-#ifndef NDEBUG
-    tesseract::collision::ContactResultVector copy{ pair.second };
-#endif
-
     trajopt_common::removeInvalidContactResults(pair.second, margin, margin_buffer_, vars0_fixed_, vars1_fixed_);
-
-#ifndef NDEBUG
-    removeInvalidContactResults(copy, margin);
-    assert(copy.size() == pair.second.size());
-#endif
   };
 
   if (dist > collision_check_config_.longest_valid_segment_length)
-- 
2.43.0


From d3163aca01271e38b840f55891cc3e813ec61f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 34/53] fix: cache finds only values that were put into it

---
 trajopt/include/trajopt/cache.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trajopt/include/trajopt/cache.hxx b/trajopt/include/trajopt/cache.hxx
index 0ec2445..3cebad0 100644
--- a/trajopt/include/trajopt/cache.hxx
+++ b/trajopt/include/trajopt/cache.hxx
@@ -16,6 +16,7 @@ public:
   {
     keybuf_[m_] = key;
     valbuf_[m_] = value;
+    size_ = std::max(size_, static_cast<std::size_t>(m_) + 1);
     ++m_;
     if (static_cast<unsigned>(m_) == bufsize_)
       m_ = 0;
@@ -23,12 +24,15 @@ public:
 
   ValueT* get(const KeyT& key)
   {
-    auto it = std::find(keybuf_.begin(), keybuf_.end(), key);
-    return (it == keybuf_.end()) ? nullptr : &valbuf_[std::distance(keybuf_.begin(), it)];
+    // Only the filled part of the buffer holds valid entries
+    auto end = keybuf_.begin() + static_cast<std::ptrdiff_t>(size_);
+    auto it = std::find(keybuf_.begin(), end, key);
+    return (it == end) ? nullptr : &valbuf_[std::distance(keybuf_.begin(), it)];
   }
 
 private:
   int m_{ 0 };
+  std::size_t size_{ 0 };
   std::size_t bufsize_;
   std::vector<KeyT> keybuf_;    // circular buffer
   std::vector<ValueT> valbuf_;  // circular buffer
-- 
2.43.0


From 8a30cdb89e08e3fe523d6fa69561453b0c3053f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 35/53] fix: continuous collision evaluator does not subdivide
 the segment unless asked for longest valid segments

---
 trajopt/src/collision_terms.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt/src/collision_terms.cpp b/trajopt/src/collision_terms.cpp
index 7105a78..f333f70 100644
--- a/trajopt/src/collision_terms.cpp
+++ b/trajopt/src/collision_terms.cpp
@@ -1053,7 +1053,8 @@ void CastCollisionEvaluator::CalcCollisions(const Eigen::Ref<const Eigen::Vector
     trajopt_common::removeInvalidContactResults(pair.second, margin, margin_buffer_, vars0_fixed_, vars1_fixed_);
   };
 
-  if (dist > collision_check_config_.longest_valid_segment_length)
+  if (collision_check_config_.type == tesseract::collision::CollisionEvaluatorType::LVS_CONTINUOUS &&
+      dist > collision_check_config_.longest_valid_segment_length)
   {
     // Calculate the number state to interpolate
     auto cnt = static_cast<long>(std::ceil(dist / collision_check_config_.longest_valid_segment_length)) + 1;
-- 
2.43.0


From ded83de2b3a4e8570b54d47319295957db8bde66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 36/53] fix: steps of joint velocity, acceleration and jerk
 terms stay inside the trajectory

---
 trajopt/src/problem_description.cpp | 90 +++++++++++++----------------
 1 file changed, 40 insertions(+), 50 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 6e77143..2d43e90 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1,5 +1,6 @@
 #include <trajopt_common/macros.h>
 TRAJOPT_IGNORE_WARNINGS_PUSH
+#include <algorithm>
 #include <limits>
 #include <boost/algorithm/string.hpp>
 #include <json/json.h>
@@ -88,6 +89,42 @@ void checkParameterSize(trajopt::DblVec& parameter,
   }
 }
 
+/**
+ * @brief Adjust the steps of a term on finite differences to the trajectory, such that they hold at least one difference
+ * @param first_step The first step of the term
+ * @param last_step The last step of the term
+ * @param n_steps The number of steps of the trajectory
+ * @param n_points The number of consecutive steps a single difference is made of
+ * @param name The name to use when printing an error or warning
+ */
+void adjustStepRange(int& first_step, int& last_step, int n_steps, int n_points, const std::string& name)
+{
+  if (n_steps < n_points)
+  {
+    PRINT_AND_THROW(boost::format("%s needs at least %i time steps, got %i") % name % n_points % n_steps);
+  }
+
+  if (last_step <= -1)
+    last_step = n_steps - 1;
+
+  // Check time step is valid
+  first_step = std::min(first_step, n_steps - 1);
+  last_step = std::min(last_step, n_steps - 1);
+
+  if (last_step < first_step)
+  {
+    std::swap(first_step, last_step);
+    CONSOLE_BRIDGE_logWarn("Last time step for %s comes before first step. Reversing them.", name.c_str());
+  }
+
+  // If only one time step is desired, calculate the difference with the next steps
+  const bool single_step = (first_step == last_step);
+  // Adjust if calculating near the end of a trajectory
+  first_step = std::min(first_step, n_steps - n_points);
+  if (single_step)
+    last_step = first_step + n_points - 1;
+}
+
 #if 0
 BoolVec toMask(const VectorXd& x) {
   BoolVec out(x.size());
@@ -1205,23 +1242,8 @@ void JointVelTermInfo::hatch(TrajOptProb& prob)
     upper_tols = DblVec(n_dof, 0);
   if (lower_tols.empty())
     lower_tols = DblVec(n_dof, 0);
-  if (last_step <= -1)
-    last_step = prob.GetNumSteps() - 1;
 
-  // If only one time step is desired, calculate velocity with next step (2 steps are needed for 1 velocity calculation)
-  if ((prob.GetNumSteps() - 2) <= first_step)
-    first_step = prob.GetNumSteps() - 2;
-  if ((prob.GetNumSteps() - 1) <= last_step)
-    last_step = prob.GetNumSteps() - 1;
-  if (last_step == first_step)
-    last_step += 1;
-  if (last_step < first_step)
-  {
-    const int tmp = first_step;
-    first_step = last_step;
-    last_step = tmp;
-    CONSOLE_BRIDGE_logWarn("Last time step for JointVelTerm comes before first step. Reversing them.");
-  }
+  adjustStepRange(first_step, last_step, prob.GetNumSteps(), 2, "JointVelTerm");
 
   // Check if parameters are the correct size.
   checkParameterSize(coeffs, n_dof, "JointVelTermInfo coeffs", true);
@@ -1401,24 +1423,8 @@ void JointAccTermInfo::hatch(TrajOptProb& prob)
     upper_tols = DblVec(n_dof, 0);
   if (lower_tols.empty())
     lower_tols = DblVec(n_dof, 0);
-  if (last_step <= -1)
-    last_step = prob.GetNumSteps() - 1;
 
-  // Adjust final timesteps if calculating near the end of a trajectory
-  if ((prob.GetNumSteps() - 3) <= first_step)
-    first_step = prob.GetNumSteps() - 3;
-  if ((prob.GetNumSteps() - 1) <= last_step)
-    last_step = prob.GetNumSteps() - 1;
-  // If only one time step is desired, calculate velocity with next step (3 steps are needed for 1 accel calculation)
-  if (last_step == first_step)
-    last_step += 2;
-  if (last_step < first_step)
-  {
-    const int tmp = first_step;
-    first_step = last_step;
-    last_step = tmp;
-    CONSOLE_BRIDGE_logWarn("Last time step for JointAccTerm comes before first step. Reversing them.");
-  }
+  adjustStepRange(first_step, last_step, prob.GetNumSteps(), 3, "JointAccTerm");
 
   // Check if parameters are the correct size.
   checkParameterSize(coeffs, n_dof, "JointAccTermInfo coeffs", true);
@@ -1523,24 +1529,8 @@ void JointJerkTermInfo::hatch(TrajOptProb& prob)
     upper_tols = DblVec(n_dof, 0);
   if (lower_tols.empty())
     lower_tols = DblVec(n_dof, 0);
-  if (last_step <= -1)
-    last_step = prob.GetNumSteps() - 1;
 
-  // Adjust final timesteps if calculating near the end of a trajectory
-  if ((prob.GetNumSteps() - 4) <= first_step)
-    first_step = prob.GetNumSteps() - 4;
-  if ((prob.GetNumSteps() - 1) <= last_step)
-    last_step = prob.GetNumSteps() - 1;
-  // If only one time step is desired, calculate velocity with next step (5 steps are needed for 1 jerk calculation)
-  if (last_step == first_step)
-    last_step += 4;
-  if (last_step < first_step)
-  {
-    const int tmp = first_step;
-    first_step = last_step;
-    last_step = tmp;
-    CONSOLE_BRIDGE_logWarn("Last time step for JointJerkTerm comes before first step. Reversing them.");
-  }
+  adjustStepRange(first_step, last_step, prob.GetNumSteps(), 4, "JointJerkTerm");
 
   // Check if parameters are the correct size.
   checkParameterSize(coeffs, n_dof, "JointJerkTermInfo coeffs", true);
-- 
2.43.0


From 9d26d3b916d4caab61212ef1bf53942c6a73f79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 37/53] fix: Cartesian velocity term up to the last step of the
 trajectory

---
 trajopt/src/problem_description.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 2d43e90..471a485 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1059,7 +1059,7 @@ void CartVelTermInfo::hatch(TrajOptProb& prob)
   }
   else if (static_cast<bool>(term_type & TermType::TT_COST) && static_cast<bool>(~(term_type | ~TermType::TT_USE_TIME)))
   {
-    for (int iStep = first_step; iStep <= last_step; ++iStep)
+    for (int iStep = first_step; iStep <= last_step && iStep + 1 < prob.GetNumSteps(); ++iStep)
     {
       auto f = std::make_shared<CartVelErrCalculator>(prob.GetKin(), link, max_displacement);
       auto dfdx = std::make_shared<CartVelJacCalculator>(prob.GetKin(), link, max_displacement);
@@ -1074,7 +1074,7 @@ void CartVelTermInfo::hatch(TrajOptProb& prob)
   }
   else if (static_cast<bool>(term_type & TermType::TT_CNT) && static_cast<bool>(~(term_type | ~TermType::TT_USE_TIME)))
   {
-    for (int iStep = first_step; iStep <= last_step; ++iStep)
+    for (int iStep = first_step; iStep <= last_step && iStep + 1 < prob.GetNumSteps(); ++iStep)
     {
       auto f = std::make_shared<CartVelErrCalculator>(prob.GetKin(), link, max_displacement);
       auto dfdx = std::make_shared<CartVelJacCalculator>(prob.GetKin(), link, max_displacement);
-- 
2.43.0


From 2b9f237349d95171b4b4fb88ab00affa9a9b586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 38/53] fix: fixed time steps and joints outside of the problem
 are refused

---
 trajopt/src/problem_description.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 471a485..763f0ed 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -523,7 +523,7 @@ TrajOptProb::Ptr ConstructProblem(const ProblemConstructionInfo& pci)
   {
     for (const int& t_idx : bi.fixed_timesteps)
     {
-      if (init_traj.rows() < t_idx)
+      if (t_idx < 0 || init_traj.rows() <= t_idx)
       {
         PRINT_AND_THROW("Fixed timestep index is outside the bounds of the initial trajectory.");
       }
@@ -547,7 +547,7 @@ TrajOptProb::Ptr ConstructProblem(const ProblemConstructionInfo& pci)
   {
     for (const int& dof_ind : bi.fixed_dofs)
     {
-      if (static_cast<int>(n_dof) < dof_ind)
+      if (dof_ind < 0 || static_cast<int>(n_dof) <= dof_ind)
       {
         PRINT_AND_THROW("DOF(aka Joint) indice is greater than the number of DOF available.");
       }
-- 
2.43.0


From e23cb7eec996935aad9852ad24bc215835c619d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 39/53] fix: collision term accepts its own field
 safety_margin_buffer

---
 trajopt/src/problem_description.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 763f0ed..d2a5077 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1695,6 +1695,7 @@ void CollisionTermInfo::fromJson(ProblemConstructionInfo& pci, const Json::Value
                                "fixed_steps",
                                "contact_test_type",
                                "longest_valid_segment_length",
+                               "safety_margin_buffer",
                                "coeffs",
                                "dist_pen",
                                "pairs" };
-- 
2.43.0


From 8c54e3c6cb15a27a29c36f8811cd91c40736a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 40/53] fix: collision term between two fixed steps is refused
 as stated

---
 trajopt/src/problem_description.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index d2a5077..a438dbb 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1724,11 +1724,11 @@ void CollisionTermInfo::hatch(TrajOptProb& prob)
         {
           expression_evaluator_type = CollisionExpressionEvaluatorType::START_FREE_END_FREE;
         }
-        else if (current_fixed)
+        else if (current_fixed && !next_fixed)
         {
           expression_evaluator_type = CollisionExpressionEvaluatorType::START_FIXED_END_FREE;
         }
-        else if (next_fixed)
+        else if (!current_fixed && next_fixed)
         {
           expression_evaluator_type = CollisionExpressionEvaluatorType::START_FREE_END_FIXED;
         }
@@ -1784,11 +1784,11 @@ void CollisionTermInfo::hatch(TrajOptProb& prob)
         {
           expression_evaluator_type = CollisionExpressionEvaluatorType::START_FREE_END_FREE;
         }
-        else if (current_fixed)
+        else if (current_fixed && !next_fixed)
         {
           expression_evaluator_type = CollisionExpressionEvaluatorType::START_FIXED_END_FREE;
         }
-        else if (next_fixed)
+        else if (!current_fixed && next_fixed)
         {
           expression_evaluator_type = CollisionExpressionEvaluatorType::START_FREE_END_FIXED;
         }
-- 
2.43.0


From 7c7d9e71b6fa0f63c85910447682b3d32235572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 41/53] fix: total time term without time variables is refused

---
 trajopt/src/problem_description.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index a438dbb..0e8d4c7 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1841,6 +1841,9 @@ void TotalTimeTermInfo::fromJson(ProblemConstructionInfo& /*pci*/, const Json::V
 
 void TotalTimeTermInfo::hatch(TrajOptProb& prob)
 {
+  if (!prob.GetHasTime())
+    PRINT_AND_THROW("TotalTimeTermInfo needs a problem with time variables (basic_info.use_time = true)");
+
   Eigen::VectorXd coeff_vec(1);
   coeff_vec[0] = coeff;
 
-- 
2.43.0


From 23cd620ac4aa3fda6dbde2ba631852510d86338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 42/53] fix: node observers can be constructed and are notified
 until they end

---
 .../trajopt_ifopt/variable_sets/nodes_observer.h     | 10 ++++++++--
 .../trajopt_ifopt/variable_sets/nodes_variables.h    | 12 +++++++++---
 trajopt_ifopt/src/variable_sets/nodes_observer.cpp   | 10 ++++++++--
 trajopt_ifopt/src/variable_sets/nodes_variables.cpp  |  8 +++++++-
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h b/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h
index 64fd7b8..397b1a9 100644
--- a/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h
+++ b/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h
@@ -47,7 +47,7 @@ class NodesVariables;
  * This class implements the observer pattern:
  * https://sourcemaking.com/design_patterns/observer
  */
-class NodesObserver : public std::enable_shared_from_this<NodesObserver>
+class NodesObserver
 {
 public:
   /**
@@ -55,7 +55,13 @@ public:
    * @param subject  The subject holding the Hermite node values.
    */
   NodesObserver(std::weak_ptr<NodesVariables> subject);
-  virtual ~NodesObserver() = default;
+  /** @brief Removes this observer from the subject if that still exists. */
+  virtual ~NodesObserver();
+
+  NodesObserver(const NodesObserver&) = delete;
+  NodesObserver& operator=(const NodesObserver&) = delete;
+  NodesObserver(NodesObserver&&) = delete;
+  NodesObserver& operator=(NodesObserver&&) = delete;
 
   /**
    * @brief Callback method called every time the subject changes.
diff --git a/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_variables.h b/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_variables.h
index ce37833..eb6d221 100644
--- a/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_variables.h
+++ b/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_variables.h
@@ -98,9 +98,15 @@ public:
 
   /**
    * @brief Adds a dependent observer that gets notified when the nodes change.
-   * @param spline Usually a pointer to a spline which uses the node values.
+   * @param observer Usually a pointer to a spline which uses the node values. It must be removed before it is destroyed.
    */
-  void addObserver(std::shared_ptr<NodesObserver> observer);
+  void addObserver(NodesObserver* observer);
+
+  /**
+   * @brief Removes an observer, which is not notified any more.
+   * @param observer The observer to remove
+   */
+  void removeObserver(NodesObserver* observer);
 
   /**
    * @returns  The dimensions (x,y,z) of every node.
@@ -113,7 +119,7 @@ protected:
   std::vector<Bounds> bounds_;  ///< the bounds on the node values.
   std::vector<std::shared_ptr<Node>> nodes_;
   Eigen::Index n_dim_{ 0 };
-  std::vector<std::shared_ptr<NodesObserver>> observers_;
+  std::vector<NodesObserver*> observers_;
 
   /**
    * @brief Add node to the variable set
diff --git a/trajopt_ifopt/src/variable_sets/nodes_observer.cpp b/trajopt_ifopt/src/variable_sets/nodes_observer.cpp
index c589a07..3e7808a 100644
--- a/trajopt_ifopt/src/variable_sets/nodes_observer.cpp
+++ b/trajopt_ifopt/src/variable_sets/nodes_observer.cpp
@@ -36,8 +36,14 @@ NodesObserver::NodesObserver(std::weak_ptr<NodesVariables> subject) : subject_(s
 {
   auto subject_shared = subject_.lock();  // Convert weak_ptr to shared_ptr
   if (subject_shared)
-    subject_shared->addObserver(shared_from_this());  // register observer to subject so this class always up-to-date
-  else                                                // Handle the case where the weak_ptr is expired
+    subject_shared->addObserver(this);  // register observer to subject so this class always up-to-date
+  else                                  // Handle the case where the weak_ptr is expired
     throw std::runtime_error("Failed to lock weak_ptr; the object might have been destroyed.");
 }
+
+NodesObserver::~NodesObserver()
+{
+  if (auto subject_shared = subject_.lock())
+    subject_shared->removeObserver(this);
+}
 }  // namespace trajopt_ifopt
diff --git a/trajopt_ifopt/src/variable_sets/nodes_variables.cpp b/trajopt_ifopt/src/variable_sets/nodes_variables.cpp
index 921b38b..ac0e3ac 100644
--- a/trajopt_ifopt/src/variable_sets/nodes_variables.cpp
+++ b/trajopt_ifopt/src/variable_sets/nodes_variables.cpp
@@ -32,6 +32,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <trajopt_ifopt/variable_sets/node.h>
 #include <trajopt_common/collision_utils.h>
 
+#include <algorithm>
 #include <cassert>
 
 namespace trajopt_ifopt
@@ -97,7 +98,12 @@ void NodesVariables::updateObservers()
     o->updateNodes();
 }
 
-void NodesVariables::addObserver(std::shared_ptr<NodesObserver> observer) { observers_.push_back(std::move(observer)); }
+void NodesVariables::addObserver(NodesObserver* observer) { observers_.push_back(observer); }
+
+void NodesVariables::removeObserver(NodesObserver* observer)
+{
+  observers_.erase(std::remove(observers_.begin(), observers_.end(), observer), observers_.end());
+}
 
 Eigen::Index NodesVariables::getDim() const { return n_dim_; }
 
-- 
2.43.0


From d8de3bd5f0d6f60948994c9c6573bc9069809776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 43/53] fix: verbose step table of a problem without
 constraints

---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index 46ec57d..7df8a4b 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -579,7 +579,10 @@ void TrustRegionSQPSolver::printStepInfo() const
 
   // Constraint
   const std::string constraints_satisfied =
-      (results_.new_constraint_violations.maxCoeff() < params.cnt_tolerance) ? "True" : "False";
+      (results_.new_constraint_violations.size() == 0 ||
+       results_.new_constraint_violations.maxCoeff() < params.cnt_tolerance) ?
+          "True" :
+          "False";
   std::printf("| %s |\n", std::string(88, '=').c_str());
   std::printf("| %10s | %10.3e | %10.3e | %10.3e | %10s | %10s | %10s | SUM CONSTRAINTS (WITHOUT MERIT), Satisfied "
               "(%s)\n",
-- 
2.43.0


From a7598469eb37f0b4ab114f276f641107ebc7ffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 44/53] fix: bounds of line and numerical collision constraints
 are set per row

---
 trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp     | 2 +-
 .../collision/continuous_collision_numerical_constraint.cpp     | 2 +-
 .../collision/discrete_collision_numerical_constraint.cpp       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index 012c511..13c32cd 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -148,7 +148,7 @@ std::vector<Bounds> CartLineConstraint::getBounds() const { return bounds_; }
 
 void CartLineConstraint::setBounds(const std::vector<Bounds>& bounds)
 {
-  assert(bounds.size() == 6);
+  assert(bounds.size() == static_cast<std::size_t>(rows_));
   bounds_ = bounds;
 }
 
diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index 6a98f0a..ab4b7ef 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -234,7 +234,7 @@ Eigen::VectorXd ContinuousCollisionNumericalConstraint::getCoefficients() const
 
 void ContinuousCollisionNumericalConstraint::setBounds(const std::vector<Bounds>& bounds)
 {
-  assert(bounds.size() == 1);
+  assert(bounds.size() == static_cast<std::size_t>(rows_));
   bounds_ = bounds;
 }
 
diff --git a/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
index 367b736..75a8982 100644
--- a/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
@@ -135,7 +135,7 @@ DiscreteCollisionNumericalConstraint::calcValues(const Eigen::Ref<const Eigen::V
 
 void DiscreteCollisionNumericalConstraint::setBounds(const std::vector<Bounds>& bounds)
 {
-  assert(bounds.size() == 1);
+  assert(bounds.size() == static_cast<std::size_t>(rows_));
   bounds_ = bounds;
 }
 
-- 
2.43.0


From 7162dace64a9bc5f2da3fda478c19d3ab43bcdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 45/53] fix: qpOASES restarts with its full number of
 iterations

The iteration limit is an in/out argument: after a failed hotstart it holds the
iterations performed (possibly zero), and init was limited to that.
---
 trajopt_sco/src/qpoases_interface.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 66b9d80..7589c3d 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -226,7 +226,8 @@ CvxOptStatus qpOASESModel::optimize()
   qpOASES::returnValue val = qpOASES::RET_QP_SOLUTION_STARTED;
 
   // Solve Problem
-  int nWSR = 255;
+  const int max_nWSR = 255;
+  int nWSR = max_nWSR;
   if (qpoases_problem_->isInitialised() == qpOASES::BT_TRUE)
   {
     val = qpoases_problem_->hotstart(
@@ -240,6 +241,8 @@ CvxOptStatus qpOASESModel::optimize()
     //      tests pass.
     createSolver();
 
+    // nWSR is overwritten with the number of iterations performed by hotstart
+    nWSR = max_nWSR;
     val = qpoases_problem_->init(&H_, g_.data(), &A_, lb_.data(), ub_.data(), lbA_.data(), ubA_.data(), nWSR, nullptr);
   }
 
-- 
2.43.0


From baadb7df68dcc9d99c263ffaefeb484e46a6efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 46/53] fix: collision configuration accepts the legacy field
 buffer as stated

---
 trajopt_common/include/trajopt_common/yaml_extensions.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_common/include/trajopt_common/yaml_extensions.h b/trajopt_common/include/trajopt_common/yaml_extensions.h
index 8f3a29c..4f83493 100644
--- a/trajopt_common/include/trajopt_common/yaml_extensions.h
+++ b/trajopt_common/include/trajopt_common/yaml_extensions.h
@@ -126,6 +126,8 @@ struct convert<trajopt_common::TrajOptCollisionConfig>
     // Accept both 'collision_margin_buffer' and legacy alias 'buffer'
     if (const YAML::Node& n = node["collision_margin_buffer"])
       rhs.collision_margin_buffer = n.as<double>();
+    else if (const YAML::Node& legacy = node["buffer"])
+      rhs.collision_margin_buffer = legacy.as<double>();
 
     if (const YAML::Node& n = node["max_num_cnt"])
       rhs.max_num_cnt = n.as<int>();
-- 
2.43.0


From de9017afd9a7567bf4ce2a4fcb342c60e6a3858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 47/53] fix: lock the QP models while variable bounds are set

Model::addVar(name, lb, ub) adds the variable under the model's mutex and
then sets its bounds without it. BasicTrustRegionSQPMultiThreaded convexifies
terms in parallel, so another thread can be growing the bound arrays at that
moment: the bounds are written to storage that is being replaced and are lost.
---
 trajopt_sco/src/bpmpd_interface.cpp   | 1 +
 trajopt_sco/src/osqp_interface.cpp    | 1 +
 trajopt_sco/src/qpoases_interface.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index 68e2e32..8fd87c4 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -332,6 +332,7 @@ void BPMPDModel::update()
 
 void BPMPDModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(m_mutex);
   for (unsigned i = 0; i < vars.size(); ++i)
   {
     auto varind = static_cast<std::size_t>(vars[i].var_rep->index);
diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index eaaa789..6f19856 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -415,6 +415,7 @@ void OSQPModel::update()
 
 void OSQPModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(mutex_);
   for (unsigned i = 0; i < vars.size(); ++i)
   {
     const std::size_t varind = vars[i].var_rep->index;
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 7589c3d..babc72f 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -199,6 +199,7 @@ void qpOASESModel::update()
 
 void qpOASESModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(mutex_);
   for (std::size_t i = 0; i < vars.size(); ++i)
   {
     const std::size_t varind = vars[i].var_rep->index;
-- 
2.43.0


From 8c48cbdbcd204e1afc5ac226ef7c28aaf58c63a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:55 +0000
Subject: [PATCH 48/53] fix: do not plot the time of a step as a joint value

---
 trajopt/src/plot_callback.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trajopt/src/plot_callback.cpp b/trajopt/src/plot_callback.cpp
index 8825b16..03cf982 100644
--- a/trajopt/src/plot_callback.cpp
+++ b/trajopt/src/plot_callback.cpp
@@ -44,9 +44,11 @@ void PlotCosts(const std::shared_ptr<tesseract::visualization::Visualization>& p
   }
 
   auto traj = getTraj(results.x, vars);
+  // The last column holds the time when the problem has it
+  const auto n_joints = static_cast<Eigen::Index>(joint_names.size());
   tesseract::common::JointTrajectory joint_trajectory;
   for (long i = 0; i < traj.rows(); ++i)
-    joint_trajectory.states.emplace_back(joint_names, traj.row(i));
+    joint_trajectory.states.emplace_back(joint_names, traj.row(i).head(n_joints));
 
   plotter->plotTrajectory(joint_trajectory, state_solver);
   plotter->waitForInput();
-- 
2.43.0


From 0d3e1ae0e0ec54e828e658cb32ae40886cae7e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:55 +0000
Subject: [PATCH 49/53] fix: keep a copy of the joint names in the plot
 callback

---
 trajopt/src/plot_callback.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt/src/plot_callback.cpp b/trajopt/src/plot_callback.cpp
index 03cf982..ff59124 100644
--- a/trajopt/src/plot_callback.cpp
+++ b/trajopt/src/plot_callback.cpp
@@ -112,7 +112,7 @@ sco::Optimizer::Callback PlotProbCallback(const std::shared_ptr<tesseract::visua
                                           const tesseract::scene_graph::StateSolver& state_solver,
                                           const std::vector<std::string>& joint_names)
 {
-  return [plotter, &state_solver, &joint_names](sco::OptProb* opt_problem, sco::OptResults& opt_results) {
+  return [plotter, &state_solver, joint_names](sco::OptProb* opt_problem, sco::OptResults& opt_results) {
     PlotProb(plotter, state_solver, joint_names, opt_problem, opt_results);
   };
 }
-- 
2.43.0


From b73adf2e07935c514c8387292484f3b9897bf878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:55 +0000
Subject: [PATCH 50/53] fix: leave the time of a step out of the joint values
 given to the kinematics

---
 trajopt/src/file_write_callback.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/file_write_callback.cpp b/trajopt/src/file_write_callback.cpp
index 289c146..d698c60 100644
--- a/trajopt/src/file_write_callback.cpp
+++ b/trajopt/src/file_write_callback.cpp
@@ -53,8 +53,8 @@ void WriteFile(const std::shared_ptr<std::ofstream>& file,
       joint_angles(j) = traj(i, j);
     }
 
-    // Calc cartesian pose
-    const tesseract::common::TransformMap state = manip->calcFwdKin(joint_angles);
+    // Calc cartesian pose (the last column holds the time when the problem has it)
+    const tesseract::common::TransformMap state = manip->calcFwdKin(joint_angles.head(manip->numJoints()));
 
     for (const auto& it : state)
     {
-- 
2.43.0


From c91c80e8fb340d489eaa46947b7944189c05d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 51/53] fix: plot the Cartesian target where the constraint has
 it

---
 .../constraints/cartesian_position_constraint.h           | 6 ++++++
 .../src/constraints/cartesian_position_constraint.cpp     | 8 ++++++++
 .../trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp | 2 +-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/trajopt_ifopt/include/trajopt_ifopt/constraints/cartesian_position_constraint.h b/trajopt_ifopt/include/trajopt_ifopt/constraints/cartesian_position_constraint.h
index 624dc74..fa33853 100644
--- a/trajopt_ifopt/include/trajopt_ifopt/constraints/cartesian_position_constraint.h
+++ b/trajopt_ifopt/include/trajopt_ifopt/constraints/cartesian_position_constraint.h
@@ -123,6 +123,12 @@ public:
    */
   Eigen::Isometry3d getCurrentPose() const;
 
+  /**
+   * @brief Returns the current target pose in world frame given the input kinematic info and the current variable values
+   * @return The target frame with its offset applied, in the same frame as getCurrentPose
+   */
+  Eigen::Isometry3d getCurrentTargetPose() const;
+
   /** @brief If true, numeric differentiation will be used. Default: true
    *
    * Note: While the logic for using the jacobian from KDL will be used if set to false, this has been buggy. Set this
diff --git a/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
index 21643d9..c4fe80e 100644
--- a/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
@@ -404,4 +404,12 @@ Eigen::Isometry3d CartPosConstraint::getCurrentPose() const
   return transforms_cache_[source_frame_] * source_frame_offset_;
 }
 
+Eigen::Isometry3d CartPosConstraint::getCurrentTargetPose() const
+{
+  transforms_cache_.clear();
+  manip_->calcFwdKin(transforms_cache_, position_var_->value());
+
+  return transforms_cache_[target_frame_] * target_frame_offset_;
+}
+
 }  // namespace trajopt_ifopt
diff --git a/trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp b/trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp
index 157b729..e523c8c 100644
--- a/trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp
@@ -44,7 +44,7 @@ void CartesianErrorPlottingCallback::plot(const QPProblem& /*problem*/)
   for (const auto& cnt : cart_position_cnts_)
   {
     Eigen::Isometry3d current_pose = cnt->getCurrentPose();
-    Eigen::Isometry3d target_pose = cnt->getTargetPose();
+    Eigen::Isometry3d target_pose = cnt->getCurrentTargetPose();
 
     if (plotter_)
     {
-- 
2.43.0


From 1706b8edfa08e59a1862b65c5b0fed94d2ef83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 52/53] fix: plot single timestep contact gradients from points
 in the link frame

---
 trajopt/src/collision_terms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/collision_terms.cpp b/trajopt/src/collision_terms.cpp
index f333f70..86e1757 100644
--- a/trajopt/src/collision_terms.cpp
+++ b/trajopt/src/collision_terms.cpp
@@ -674,13 +674,13 @@ void SingleTimestepCollisionEvaluator::Plot(const std::shared_ptr<tesseract::vis
 
     if (manip_->isActiveLinkName(res.link_names[0]))
     {
-      Eigen::MatrixXd jac = manip_->calcJacobian(dofvals, res.link_names[0], res.nearest_points[0]);
+      Eigen::MatrixXd jac = manip_->calcJacobian(dofvals, res.link_names[0], res.nearest_points_local[0]);
 
       const Eigen::VectorXd dist_grad = -res.normal.transpose() * jac.topRows(3);
 
       const Eigen::Isometry3d pose2 = manip_->calcFwdKin(dofvals + dist_grad)[res.link_names[0]];
 
-      tesseract::visualization::ArrowMarker am(res.nearest_points[0], pose2 * res.nearest_points[0]);
+      tesseract::visualization::ArrowMarker am(res.nearest_points[0], pose2 * res.nearest_points_local[0]);
       am.material = std::make_shared<tesseract::scene_graph::Material>("collision_error_material");
       am.material->color << 1, 1, 1, 1;
       plotter->plotMarker(am);
-- 
2.43.0


From 5592740d88caaf0c4940b0eb40f852484f7fbd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 53/53] fix: print the quadratic part of an expression at its
 full value

---
 trajopt_sco/src/solver_interface.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index f759c31..066f164 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -192,9 +192,10 @@ std::ostream& operator<<(std::ostream& o, const QuadExpr& e)
     if (e.coeffs[i] != 0)
     {
       o << op;
-      if (e.coeffs[i] != 1)
+      const double coeff = 2 * e.coeffs[i];  // the brackets are halved
+      if (coeff != 1)
       {
-        o << e.coeffs[i] << " ";
+        o << coeff << " ";
       }
       if (e.vars1[i].var_rep->name == e.vars2[i].var_rep->name)
       {
-- 
2.43.0

