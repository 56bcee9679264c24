From f885a0efc8ca3f9d59e657ee9b6ea1f474069f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 01/19] fix: constant-fold log(0) and log10(0) to -infinity
 instead of zero

---
 include/sleipnir/autodiff/expression.hpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/include/sleipnir/autodiff/expression.hpp b/include/sleipnir/autodiff/expression.hpp
index 7e1397f..7434084 100644
--- a/include/sleipnir/autodiff/expression.hpp
+++ b/include/sleipnir/autodiff/expression.hpp
@@ -1448,12 +1448,6 @@ ExpressionPtr<Scalar> log(const ExpressionPtr<Scalar>& x) {
   using enum ExpressionType;
   using std::log;
 
-  // Prune expression
-  if (x->is_constant(Scalar(0))) {
-    // Return zero, which x currently is
-    return x;
-  }
-
   // Evaluate constant
   if (x->type() == CONSTANT) {
     return constant_ptr(log(x->val));
@@ -1502,12 +1496,6 @@ ExpressionPtr<Scalar> log10(const ExpressionPtr<Scalar>& x) {
   using enum ExpressionType;
   using std::log10;
 
-  // Prune expression
-  if (x->is_constant(Scalar(0))) {
-    // Return zero, which x currently is
-    return x;
-  }
-
   // Evaluate constant
   if (x->type() == CONSTANT) {
     return constant_ptr(log10(x->val));
-- 
2.43.0


From 02d5f3e5309f147a9107945c266ddb6effe10012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 02/19] fix: evaluate pow() of a zero constant base for
 constant exponents

---
 include/sleipnir/autodiff/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/expression.hpp b/include/sleipnir/autodiff/expression.hpp
index 7434084..5a99283 100644
--- a/include/sleipnir/autodiff/expression.hpp
+++ b/include/sleipnir/autodiff/expression.hpp
@@ -1707,7 +1707,7 @@ ExpressionPtr<Scalar> pow(const ExpressionPtr<Scalar>& base,
   using std::pow;
 
   // Prune expression
-  if (base->is_constant(Scalar(0))) {
+  if (base->is_constant(Scalar(0)) && power->type() != CONSTANT) {
     // Return zero, which base currently is
     return base;
   } else if (base->is_constant(Scalar(1))) {
-- 
2.43.0


From 7cf1aa0885f27b369965e466600ecb202ef73b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 03/19] fix: return every column from solve() for 1x1 systems

---
 include/sleipnir/autodiff/variable_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 6562a6a..93b1997 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -1520,7 +1520,7 @@ VariableMatrix<Scalar> solve(const VariableMatrix<Scalar>& A,
 
   if (A.rows() == 1 && A.cols() == 1) {
     // Compute optimal inverse instead of using Eigen's general solver
-    return B[0, 0] / A[0, 0];
+    return B / A[0, 0];
   } else if (A.rows() == 2 && A.cols() == 2) {
     // Compute optimal inverse instead of using Eigen's general solver
     //
-- 
2.43.0


From aed18a06dfe1898073b83713faffbd060b024d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 04/19] fix: make block, row, col, segment and post-decrement
 of const VariableBlock compile

---
 include/sleipnir/autodiff/variable_block.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 9edeb0e..3dc7b60 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -357,7 +357,7 @@ class VariableBlock : public SleipnirBase {
                                             int row_slice_length,
                                             Slice col_slice,
                                             int col_slice_length) const {
-    return VariableBlock{
+    return VariableBlock<const Mat>{
         *m_mat,
         {m_row_slice.start + row_slice.start * m_row_slice.step,
          m_row_slice.start + row_slice.stop * m_row_slice.step,
@@ -386,7 +386,7 @@ class VariableBlock : public SleipnirBase {
   /// @param offset The offset of the segment.
   /// @param length The length of the segment.
   /// @return A segment of the variable vector.
-  const VariableBlock<Mat> segment(int offset, int length) const {
+  const VariableBlock<const Mat> segment(int offset, int length) const {
     slp_assert(cols() == 1);
     slp_assert(offset >= 0 && offset < rows());
     slp_assert(length >= 0 && length <= rows() - offset);
@@ -707,7 +707,7 @@ class VariableBlock : public SleipnirBase {
     }
 
     constexpr const_iterator operator--(int) noexcept {
-      iterator retval = *this;
+      const_iterator retval = *this;
       --(*this);
       return retval;
     }
-- 
2.43.0


From f6580791b86d3e4e8ac70f17676cc2c9990dda96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 05/19] fix: evaluate in-place matrix products and scalings
 before an aliased operand changes

---
 include/sleipnir/autodiff/variable_block.hpp  | 24 ++++++++-----------
 include/sleipnir/autodiff/variable_matrix.hpp | 24 ++++++++-----------
 2 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 3dc7b60..e0e98fc 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -436,18 +436,8 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
-    for (int i = 0; i < rows(); ++i) {
-      Mat lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
-      }
-    }
-
-    return *this;
+    // Evaluate the product first because rhs may alias this block
+    return *this = *this * rhs;
   }
 
   /// Compound matrix multiplication-assignment operator.
@@ -455,9 +445,12 @@ class VariableBlock : public SleipnirBase {
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
   VariableBlock<Mat>& operator*=(const ScalarLike auto& rhs) {
+    // Copy rhs first because it may be an element of this block
+    const auto rhs_copy = rhs;
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] *= rhs;
+        (*this)[row, col] *= rhs_copy;
       }
     }
 
@@ -469,9 +462,12 @@ class VariableBlock : public SleipnirBase {
   /// @param rhs Variable to divide.
   /// @return Result of division.
   VariableBlock<Mat>& operator/=(const ScalarLike auto& rhs) {
+    // Copy rhs first because it may be an element of this block
+    const auto rhs_copy = rhs;
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] /= rhs;
+        (*this)[row, col] /= rhs_copy;
       }
     }
 
diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 93b1997..5c73cdc 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -643,18 +643,8 @@ class VariableMatrix : public SleipnirBase {
   VariableMatrix& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
-    for (int i = 0; i < rows(); ++i) {
-      VariableMatrix lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
-      }
-    }
-
-    return *this;
+    // Evaluate the product first because rhs may alias this matrix
+    return *this = *this * rhs;
   }
 
   /// Compound matrix-scalar multiplication-assignment operator.
@@ -662,9 +652,12 @@ class VariableMatrix : public SleipnirBase {
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
   VariableMatrix& operator*=(const ScalarLike auto& rhs) {
+    // Copy rhs first because it may be an element of this matrix
+    const auto rhs_copy = rhs;
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] *= rhs;
+        (*this)[row, col] *= rhs_copy;
       }
     }
 
@@ -733,9 +726,12 @@ class VariableMatrix : public SleipnirBase {
   /// @param rhs Variable to divide.
   /// @return Result of division.
   VariableMatrix& operator/=(const ScalarLike auto& rhs) {
+    // Copy rhs first because it may be an element of this matrix
+    const auto rhs_copy = rhs;
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] /= rhs;
+        (*this)[row, col] /= rhs_copy;
       }
     }
 
-- 
2.43.0


From c7e4077943deeb442c86df1fe2f7c4f94b6bd17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 06/19] fix: don't report success when the KKT error is NaN

---
 include/sleipnir/optimization/solver/interior_point.hpp | 3 ++-
 include/sleipnir/optimization/solver/newton.hpp         | 3 ++-
 include/sleipnir/optimization/solver/sqp.hpp            | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 408cbaa..c5ff586 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -379,7 +379,8 @@ ExitStatus interior_point(
     }
   }};
 
-  while (E_0 > Scalar(options.tolerance)) {
+  // Negated so a NaN error isn't treated as convergence
+  while (!(E_0 <= Scalar(options.tolerance))) {
     ScopedProfiler inner_iter_profiler{inner_iter_prof};
     ScopedProfiler feasibility_check_profiler{feasibility_check_prof};
 
diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index 76304f0..e439f2f 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -158,7 +158,8 @@ ExitStatus newton(
     }
   }};
 
-  while (E_0 > Scalar(options.tolerance)) {
+  // Negated so a NaN error isn't treated as convergence
+  while (!(E_0 <= Scalar(options.tolerance))) {
     ScopedProfiler inner_iter_profiler{inner_iter_prof};
     ScopedProfiler feasibility_check_profiler{feasibility_check_prof};
 
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index f3c3cfb..cd77d02 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -256,7 +256,8 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
     }
   }};
 
-  while (E_0 > Scalar(options.tolerance)) {
+  // Negated so a NaN error isn't treated as convergence
+  while (!(E_0 <= Scalar(options.tolerance))) {
     ScopedProfiler inner_iter_profiler{inner_iter_prof};
     ScopedProfiler feasibility_check_profiler{feasibility_check_prof};
 
-- 
2.43.0


From 07849edb9dfd266670fce244ab9367dd537715a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 07/19] fix: reject trial points with a NaN constraint
 violation in the filter

---
 include/sleipnir/optimization/solver/util/filter.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/util/filter.hpp b/include/sleipnir/optimization/solver/util/filter.hpp
index 5ecc11d..8761c97 100644
--- a/include/sleipnir/optimization/solver/util/filter.hpp
+++ b/include/sleipnir/optimization/solver/util/filter.hpp
@@ -111,8 +111,10 @@ class Filter {
     using std::isfinite;
     using std::pow;
 
-    // Reject steps with nonfinite cost or constraint violation above maximum
+    // Reject steps with nonfinite cost, nonfinite constraint violation, or
+    // constraint violation above maximum
     if (!isfinite(trial_entry.cost) ||
+        !isfinite(trial_entry.constraint_violation) ||
         trial_entry.constraint_violation > max_constraint_violation) {
       return false;
     }
-- 
2.43.0


From 41f8483a655e0439843ea269626b6a91725b01aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 08/19] fix: clear the filter's last-rejection flag when
 rejecting for other reasons

---
 include/sleipnir/optimization/solver/util/filter.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sleipnir/optimization/solver/util/filter.hpp b/include/sleipnir/optimization/solver/util/filter.hpp
index 8761c97..cec1bd5 100644
--- a/include/sleipnir/optimization/solver/util/filter.hpp
+++ b/include/sleipnir/optimization/solver/util/filter.hpp
@@ -116,6 +116,7 @@ class Filter {
     if (!isfinite(trial_entry.cost) ||
         !isfinite(trial_entry.constraint_violation) ||
         trial_entry.constraint_violation > max_constraint_violation) {
+      m_last_rejection_due_to_filter = false;
       return false;
     }
 
-- 
2.43.0


From 37261c7cd3633f44c862ff5068f6a6a0e18fa0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 09/19] fix: report factorization failures in Newton's method

---
 include/sleipnir/optimization/solver/newton.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index e439f2f..296800d 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -184,7 +184,9 @@ ExitStatus newton(
     // Solve the Newton-KKT system
     //
     // Hpˣ = −∇f
-    solver.compute(H);
+    if (solver.compute(H).info() != Eigen::Success) [[unlikely]] {
+      return ExitStatus::FACTORIZATION_FAILED;
+    }
 
     kkt_matrix_decomp_profiler.stop();
     ScopedProfiler kkt_system_solve_profiler{kkt_system_solve_prof};
-- 
2.43.0


From af1d9231dd0474e6994e11514487ad858fc6cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 10/19] fix: keep the constraint Hessian when embedding it in
 the feasibility restoration Hessian

---
 .../optimization/solver/util/feasibility_restoration.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index 2261215..198c3e6 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -228,7 +228,7 @@ ExitStatus feasibility_restoration(
         //
         //   −∇ₓₓ²yᵀcₑ(x)
         auto H_c = matrices.H_c(x, y);
-        H_c.resize(x_p.rows(), x_p.rows());
+        H_c.conservativeResize(x_p.rows(), x_p.rows());
 
         // Lagrangian Hessian
         //
@@ -483,7 +483,7 @@ ExitStatus feasibility_restoration(
         //
         //   −∇ₓₓ²yᵀcₑ(x) − ∇ₓₓ²zᵀcᵢ(x)
         auto H_c = matrices.H_c(x, y, z);
-        H_c.resize(x_p.rows(), x_p.rows());
+        H_c.conservativeResize(x_p.rows(), x_p.rows());
 
         // Lagrangian Hessian
         //
-- 
2.43.0


From bcf7dd25761f0a410380cd211f5bec227c7f3b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 11/19] fix: don't treat linear constraints whose variable
 cancels as bounds

---
 .../sleipnir/optimization/solver/util/bounds.hpp    | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/bounds.hpp b/include/sleipnir/optimization/solver/util/bounds.hpp
index 85e46fb..b645714 100644
--- a/include/sleipnir/optimization/solver/util/bounds.hpp
+++ b/include/sleipnir/optimization/solver/util/bounds.hpp
@@ -105,9 +105,8 @@ Bounds<Scalar> get_bounds(
     const Eigen::SparseVector<Scalar>& row_A_i =
         A_i.innerVector(constraint_index);
     const auto non_zeros = row_A_i.nonZeros();
-    slp_assert(non_zeros != 0);
-    if (non_zeros > 1) {
-      // Constraint is in more than one variable and therefore not a bound.
+    if (non_zeros != 1) {
+      // Constraint isn't in exactly one variable and therefore not a bound.
       continue;
     }
 
@@ -123,6 +122,10 @@ Bounds<Scalar> get_bounds(
     const auto constraint_coefficient =
         row_iter
             .value();  // The nonzero value of the j-th constraint's gradient.
+    if (constraint_coefficient == Scalar(0)) {
+      // The variable's terms cancel, so the constraint is not a bound.
+      continue;
+    }
     const auto decision_variable_index = row_iter.index();
     const auto decision_variable_value =
         decision_variables[decision_variable_index].value();
@@ -137,10 +140,6 @@ Bounds<Scalar> get_bounds(
       constraint_constant = inequality_constraints[constraint_index].value();
     }
 
-    // Shouldn't happen since the constraint is supposed to be linear and not a
-    // constant.
-    slp_assert(constraint_coefficient != Scalar(0));
-
     using std::isfinite;
 
     // We should always get a finite value when evaluating the constraint at
-- 
2.43.0


From d25f49fa704e2624858708720a23a98f10a9d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 12/19] fix: never prefer a failed multistart solve over a
 successful one

---
 include/sleipnir/optimization/multistart.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/multistart.hpp b/include/sleipnir/optimization/multistart.hpp
index 9527994..f4f1a10 100644
--- a/include/sleipnir/optimization/multistart.hpp
+++ b/include/sleipnir/optimization/multistart.hpp
@@ -64,8 +64,9 @@ MultistartResult<Scalar, DecisionVariables> multistart(
 
   return *std::ranges::min_element(results, [](const auto& a, const auto& b) {
     // Prioritize successful solve
-    if (a.status == ExitStatus::SUCCESS && b.status != ExitStatus::SUCCESS) {
-      return true;
+    if ((a.status == ExitStatus::SUCCESS) !=
+        (b.status == ExitStatus::SUCCESS)) {
+      return a.status == ExitStatus::SUCCESS;
     }
 
     // Otherwise prioritize solution with lower cost
-- 
2.43.0


From 25be5b8e4a09b48c57a936816cc428f741fcbf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 13/19] fix: report a callback's stop request during
 feasibility restoration

Returning true from a user's callback while feasibility restoration ran was
taken for restoration's own stop: the solver resumed as if the restored point
had been accepted.
---
 .../sleipnir/optimization/solver/interior_point.hpp | 13 +++++++++++--
 include/sleipnir/optimization/solver/sqp.hpp        | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index c5ff586..8d75aee 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -733,8 +733,14 @@ ExitStatus interior_point(
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
+      bool callback_requested_stop = false;
       for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          if (callback(info)) {
+            callback_requested_stop = true;
+          }
+          return callback_requested_stop;
+        });
       }
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
@@ -762,7 +768,10 @@ ExitStatus interior_point(
 #endif
                                           x, s, y, z, μ, iterations);
 
-      if (status != ExitStatus::SUCCESS) {
+      if (callback_requested_stop) {
+        // Report that a user's callback stopped feasibility restoration
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      } else if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
       }
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index cd77d02..f408859 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -516,8 +516,14 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
+      bool callback_requested_stop = false;
       for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          if (callback(info)) {
+            callback_requested_stop = true;
+          }
+          return callback_requested_stop;
+        });
       }
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
@@ -537,7 +543,10 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       auto status = feasibility_restoration<Scalar>(matrices, callbacks,
                                                     options, x, y, iterations);
 
-      if (status != ExitStatus::SUCCESS) {
+      if (callback_requested_stop) {
+        // Report that a user's callback stopped feasibility restoration
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      } else if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
       }
-- 
2.43.0


From f6dcfc2796a71d04a9cd6cbb9d794281066c9def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 14/19] fix: release the old object last when assigning
 intrusive shared pointers

Assigning from a pointer held by the object being released read freed memory,
and moving from it left the object owning itself. Converting move assignment
did not compile.
---
 .../sleipnir/util/intrusive_shared_ptr.hpp    | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/sleipnir/util/intrusive_shared_ptr.hpp b/include/sleipnir/util/intrusive_shared_ptr.hpp
index b4f0c32..8e5c7d7 100644
--- a/include/sleipnir/util/intrusive_shared_ptr.hpp
+++ b/include/sleipnir/util/intrusive_shared_ptr.hpp
@@ -86,16 +86,17 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    if (m_ptr != nullptr) {
-      dec_ref_count(m_ptr);
-    }
-
-    m_ptr = rhs.m_ptr;
+    // Decrement last because that may destroy rhs
+    T* old_ptr = std::exchange(m_ptr, rhs.m_ptr);
 
     if (m_ptr != nullptr) {
       inc_ref_count(m_ptr);
     }
 
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
+
     return *this;
   }
 
@@ -112,16 +113,17 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    if (m_ptr != nullptr) {
-      dec_ref_count(m_ptr);
-    }
-
-    m_ptr = rhs.m_ptr;
+    // Decrement last because that may destroy rhs
+    T* old_ptr = std::exchange(m_ptr, rhs.m_ptr);
 
     if (m_ptr != nullptr) {
       inc_ref_count(m_ptr);
     }
 
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
+
     return *this;
   }
 
@@ -150,7 +152,12 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    std::swap(m_ptr, rhs.m_ptr);
+    // Decrement last because that may destroy rhs
+    T* old_ptr = std::exchange(m_ptr, std::exchange(rhs.m_ptr, nullptr));
+
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
 
     return *this;
   }
@@ -167,7 +174,12 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    std::swap(m_ptr, rhs.m_ptr);
+    // Decrement last because that may destroy rhs
+    T* old_ptr = std::exchange(m_ptr, std::exchange(rhs.m_ptr, nullptr));
+
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
 
     return *this;
   }
-- 
2.43.0


From 66596493208b060c107fa55673b54f8222959213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 15/19] fix: pool reuses blocks only for requests of the same
 size

Expressions of different scalar types have different sizes, so a block
freed by a smaller one could be handed out for a larger one, which then
overwrote its neighbor.
---
 include/sleipnir/util/pool.hpp | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/sleipnir/util/pool.hpp b/include/sleipnir/util/pool.hpp
index 32c4495..c378b87 100644
--- a/include/sleipnir/util/pool.hpp
+++ b/include/sleipnir/util/pool.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <cstddef>
+#include <map>
 #include <memory>
 
 #include <gch/small_vector.hpp>
@@ -48,24 +49,29 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   [[nodiscard]]
   void* allocate(size_t bytes, [[maybe_unused]] size_t alignment =
                                    alignof(std::max_align_t)) {
-    if (m_free_list.empty()) {
-      add_chunk(bytes);
+    // Blocks are only reused for requests of the same size
+    auto& free_list = m_free_lists[bytes];
+
+    if (free_list.empty()) {
+      add_chunk(bytes, free_list);
     }
 
-    auto ptr = m_free_list.back();
-    m_free_list.pop_back();
+    auto ptr = free_list.back();
+    free_list.pop_back();
+    ++m_blocks_in_use;
     return ptr;
   }
 
   /// Gives a block of memory back to the pool.
   ///
   /// @param p A pointer to the block of memory.
-  /// @param bytes Number of bytes in the block (unused).
+  /// @param bytes Number of bytes in the block.
   /// @param alignment Alignment of the block (unused).
   void deallocate(
-      void* p, [[maybe_unused]] size_t bytes,
+      void* p, size_t bytes,
       [[maybe_unused]] size_t alignment = alignof(std::max_align_t)) {
-    m_free_list.emplace_back(p);
+    m_free_lists[bytes].emplace_back(p);
+    --m_blocks_in_use;
   }
 
   /// Returns true if this pool resource has the same backing storage as
@@ -81,23 +87,24 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   /// Returns the number of blocks from this pool resource that are in use.
   ///
   /// @return The number of blocks from this pool resource that are in use.
-  size_t blocks_in_use() const noexcept {
-    return m_buffer.size() * blocks_per_chunk - m_free_list.size();
-  }
+  size_t blocks_in_use() const noexcept { return m_blocks_in_use; }
 
  private:
   gch::small_vector<std::unique_ptr<std::byte[]>> m_buffer;
-  gch::small_vector<void*> m_free_list;
+  /// Free blocks by block size in bytes.
+  std::map<size_t, gch::small_vector<void*>> m_free_lists;
   size_t blocks_per_chunk;
+  size_t m_blocks_in_use = 0;
 
   /// Adds a memory chunk to the pool, partitions it into blocks with the given
   /// number of bytes, and appends pointers to them to the free list.
   ///
   /// @param bytes_per_block Number of bytes in the block.
-  void add_chunk(size_t bytes_per_block) {
+  /// @param free_list Free list for blocks of that size.
+  void add_chunk(size_t bytes_per_block, gch::small_vector<void*>& free_list) {
     m_buffer.emplace_back(new std::byte[bytes_per_block * blocks_per_chunk]);
     for (int i = blocks_per_chunk - 1; i >= 0; --i) {
-      m_free_list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
+      free_list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
     }
   }
 };
-- 
2.43.0


From 83c39fac9b7b8611e338b788d0fd71e94083f5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 16/19] fix: function_ref assignment from a non-const
 function_ref copies it

It wrapped a reference to the other function_ref instead, so rebinding
or destroying the source changed what the target called.
---
 include/sleipnir/util/function_ref.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/util/function_ref.hpp b/include/sleipnir/util/function_ref.hpp
index 55cd08a..fab629b 100644
--- a/include/sleipnir/util/function_ref.hpp
+++ b/include/sleipnir/util/function_ref.hpp
@@ -55,7 +55,8 @@ class function_ref<R(Args...)> {
   /// @param f Callable to which to refer.
   /// @return `*this`
   template <typename F>
-    requires std::is_invocable_r_v<R, F&&, Args...>
+    requires(!std::is_same_v<std::decay_t<F>, function_ref> &&
+             std::is_invocable_r_v<R, F &&, Args...>)
   constexpr function_ref<R(Args...)>& operator=(F&& f) noexcept {
     obj_ = reinterpret_cast<void*>(std::addressof(f));
     callback_ = [](void* obj, Args... args) {
-- 
2.43.0


From abf827eafb5f1dadb07f1436308ac4bd8adf4423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 17/19] fix: list LINE_SEARCH_FAILED among the documented exit
 statuses

It was missing, and the values of the statuses after it were off by one.
---
 docs/usage.md | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/docs/usage.md b/docs/usage.md
index 0235c07..f89cf05 100644
--- a/docs/usage.md
+++ b/docs/usage.md
@@ -323,28 +323,33 @@ Possible exit statuses include:
     <td>The linear system factorization failed.</td>
   </tr>
   <tr>
-    <td>FEASIBILITY_RESTORATION_FAILED</td>
+    <td>LINE_SEARCH_FAILED</td>
     <td>-5</td>
+    <td>The backtracking line search failed, and the problem isn't locally infeasible.</td>
+  </tr>
+  <tr>
+    <td>FEASIBILITY_RESTORATION_FAILED</td>
+    <td>-6</td>
     <td>The solver failed to reach the desired tolerance, and feasibility restoration failed to converge.</td>
   </tr>
   <tr>
     <td>NONFINITE_INITIAL_GUESS</td>
-    <td>-6</td>
+    <td>-7</td>
     <td>The solver encountered nonfinite initial cost, constraints, or derivatives and gave up.</td>
   </tr>
   <tr>
     <td>DIVERGING_ITERATES</td>
-    <td>-7</td>
+    <td>-8</td>
     <td>The solver encountered diverging primal iterates xₖ and/or sₖ and gave up.</td>
   </tr>
   <tr>
     <td>MAX_ITERATIONS_EXCEEDED</td>
-    <td>-8</td>
+    <td>-9</td>
     <td>The solver returned its solution so far after exceeding the maximum number of iterations.</td>
   </tr>
   <tr>
     <td>TIMEOUT</td>
-    <td>-9</td>
+    <td>-10</td>
     <td>The solver returned its solution so far after exceeding the maximum elapsed wall clock time.</td>
   </tr>
 </table>
-- 
2.43.0


From 9d22e8aa0fda3256b5001eeec9f293aa2afff70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 18/19] fix: keep the matrix alive while its row() and col()
 views exist in Python

VariableMatrix.row() and col() return a block that refers to the matrix, but
unlike __getitem__ they did not keep it alive: the row of a temporary matrix
read freed memory.
---
 python/cpp/autodiff/bind_variable_block.cpp  | 4 ++--
 python/cpp/autodiff/bind_variable_matrix.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/cpp/autodiff/bind_variable_block.cpp b/python/cpp/autodiff/bind_variable_block.cpp
index 0cdebc0..cb872b7 100644
--- a/python/cpp/autodiff/bind_variable_block.cpp
+++ b/python/cpp/autodiff/bind_variable_block.cpp
@@ -218,10 +218,10 @@ void bind_variable_block(
       "slices"_a);
   cls.def("row",
           nb::overload_cast<int>(&VariableBlock<VariableMatrix<double>>::row),
-          "row"_a, DOC(slp, VariableBlock, row));
+          nb::keep_alive<0, 1>(), "row"_a, DOC(slp, VariableBlock, row));
   cls.def("col",
           nb::overload_cast<int>(&VariableBlock<VariableMatrix<double>>::col),
-          "col"_a, DOC(slp, VariableBlock, col));
+          nb::keep_alive<0, 1>(), "col"_a, DOC(slp, VariableBlock, col));
 
   // https://numpy.org/doc/stable/user/basics.dispatch.html
   cls.def(
diff --git a/python/cpp/autodiff/bind_variable_matrix.cpp b/python/cpp/autodiff/bind_variable_matrix.cpp
index a272c36..a068755 100644
--- a/python/cpp/autodiff/bind_variable_matrix.cpp
+++ b/python/cpp/autodiff/bind_variable_matrix.cpp
@@ -232,10 +232,10 @@ void bind_variable_matrix(nb::module_& autodiff,
       },
       nb::keep_alive<0, 1>(), "slices"_a,
       DOC(slp, VariableMatrix, operator, array));
-  cls.def("row", nb::overload_cast<int>(&VariableMatrix<double>::row), "row"_a,
-          DOC(slp, VariableMatrix, row));
-  cls.def("col", nb::overload_cast<int>(&VariableMatrix<double>::col), "col"_a,
-          DOC(slp, VariableMatrix, col));
+  cls.def("row", nb::overload_cast<int>(&VariableMatrix<double>::row),
+          nb::keep_alive<0, 1>(), "row"_a, DOC(slp, VariableMatrix, row));
+  cls.def("col", nb::overload_cast<int>(&VariableMatrix<double>::col),
+          nb::keep_alive<0, 1>(), "col"_a, DOC(slp, VariableMatrix, col));
 
   // Matrix-matrix multiplication
   cls.def(
-- 
2.43.0


From 1380a64d3c37460b83cbd880948e49aa4d717d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 19/19] fix: accept a negative row index with a column slice in
 VariableMatrix.__getitem__

A[-1, :] asserted (or read out of bounds without assertions) although
A[-1, :] = value, A[:, -1] and the same index on a VariableBlock work.
---
 python/cpp/autodiff/bind_variable_matrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/cpp/autodiff/bind_variable_matrix.cpp b/python/cpp/autodiff/bind_variable_matrix.cpp
index a068755..565be97 100644
--- a/python/cpp/autodiff/bind_variable_matrix.cpp
+++ b/python/cpp/autodiff/bind_variable_matrix.cpp
@@ -208,6 +208,9 @@ void bind_variable_matrix(nb::module_& autodiff,
           row_slice_length = t.get<3>();
         } else {
           int start = nb::cast<int>(row_elem);
+          if (start < 0) {
+            start += self.rows();
+          }
           row_slice = Slice{start, start + 1};
           row_slice_length = 1;
         }
-- 
2.43.0

