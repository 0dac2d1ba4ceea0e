From 3eeb4b6fce27802b9aa2c435f18c5f973001b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:24 +0000
Subject: [PATCH 01/26] fix: negate the whole expression, not the argument list
 of its operator

---
 src/Functions/FunctionMul.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 9383f1a..780ca01 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -141,6 +141,14 @@ FunctionExpression::operator*(FunctionExpression &&_that) && {
 }
 FunctionExpression FunctionExpression::operator-() const & {
 
+  if (get_type() != UNIQUE) {
+    std::list<std::unique_ptr<FunctionBase>> result_array;
+    result_array.push_back(this->clone());
+    return FunctionExpression(get_domain(), get_codom_dim(),
+                              FunctionExpression::Type::NEGATIVE,
+                              std::move(result_array));
+  }
+
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
                             function_array_);
@@ -148,6 +156,14 @@ FunctionExpression FunctionExpression::operator-() const & {
 
 FunctionExpression FunctionExpression::operator-() && {
 
+  if (get_type() != UNIQUE) {
+    std::list<std::unique_ptr<FunctionBase>> result_array;
+    result_array.push_back(this->move_clone());
+    return FunctionExpression(get_domain(), get_codom_dim(),
+                              FunctionExpression::Type::NEGATIVE,
+                              std::move(result_array));
+  }
+
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
                             std::move(function_array_));
-- 
2.43.0


From 3b5d162dcd5bc2b3b42a16384394777ed3c1b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:24 +0000
Subject: [PATCH 02/26] fix: in-place composition and concatenation update the
 domain

---
 src/Functions/FunctionsComp.cpp   | 1 +
 src/Functions/FunctionsConcat.cpp | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Functions/FunctionsComp.cpp b/src/Functions/FunctionsComp.cpp
index 8666a04..bd0f7b6 100644
--- a/src/Functions/FunctionsComp.cpp
+++ b/src/Functions/FunctionsComp.cpp
@@ -96,6 +96,7 @@ FunctionExpression::compose(const FunctionExpression &_that) && {
     } else {
       function_array_.push_front(_that.clone());
     }
+    set_domain(_that.get_domain().first, _that.get_domain().second);
     return std::move(*this);
   }
 
diff --git a/src/Functions/FunctionsConcat.cpp b/src/Functions/FunctionsConcat.cpp
index 094ca37..3048e14 100644
--- a/src/Functions/FunctionsConcat.cpp
+++ b/src/Functions/FunctionsConcat.cpp
@@ -97,8 +97,10 @@ FunctionExpression::concat(const FunctionExpression &_that) && {
     target_array.push_back(_that.clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
 
@@ -124,8 +126,10 @@ FunctionExpression FunctionExpression::concat(FunctionExpression &&_that) && {
     target_array.push_back(_that.move_clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
   return FunctionExpression(
-- 
2.43.0


From d6c4920306b00279e543b0c0020d5323ecc63bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:24 +0000
Subject: [PATCH 03/26] fix: in-place sum and product reject incompatible
 operands

---
 src/Functions/FunctionMul.cpp | 16 ++++++++++++++++
 src/Functions/FunctionSum.cpp |  5 +++++
 2 files changed, 21 insertions(+)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 780ca01..26df026 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -17,6 +17,17 @@ void compatibility_mul(const FunctionExpression &_f1,
   }
 }
 
+void compatibility_inplace_mul(const FunctionExpression &_f1,
+                               const FunctionExpression &_f2) {
+
+  compatibility_mul(_f1, _f2);
+
+  if (_f2.get_codom_dim() > 1) {
+    throw std::invalid_argument(
+        "A function can only be multiplied in place by a scalar function");
+  }
+}
+
 const FunctionExpression &
 return_first_or_max_codom_dim(const FunctionExpression &_f1,
                               const FunctionExpression &_f2) {
@@ -179,6 +190,9 @@ FunctionExpression operator*(double _value, FunctionExpression &&_that) {
 }
 
 void FunctionExpression::operator*=(FunctionExpression &&that) {
+
+  compatibility_inplace_mul(*this, that);
+
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = MULTIPLICATION;
@@ -195,6 +209,8 @@ void FunctionExpression::operator*=(FunctionExpression &&that) {
 
 void FunctionExpression::operator*=(const FunctionExpression &that) {
 
+  compatibility_inplace_mul(*this, that);
+
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = MULTIPLICATION;
diff --git a/src/Functions/FunctionSum.cpp b/src/Functions/FunctionSum.cpp
index fea1634..554a87d 100644
--- a/src/Functions/FunctionSum.cpp
+++ b/src/Functions/FunctionSum.cpp
@@ -137,6 +137,9 @@ FunctionExpression *deriv_sum_functions(
 }
 
 void FunctionExpression::operator+=(FunctionExpression &&that) {
+
+  sum_throw(*this, that);
+
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = SUM;
@@ -153,6 +156,8 @@ void FunctionExpression::operator+=(FunctionExpression &&that) {
 
 void FunctionExpression::operator+=(const FunctionExpression &that) {
 
+  sum_throw(*this, that);
+
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = SUM;
-- 
2.43.0


From 8ff268698de358b440b7782ca343b281307edba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:24 +0000
Subject: [PATCH 04/26] fix: multiplying two functions prints nothing

---
 src/Functions/FunctionMul.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 26df026..f8869a9 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -60,8 +60,6 @@ return_second_or_mim_codom_dim(const FunctionExpression &_f1,
 FunctionExpression
 FunctionExpression::operator*(const FunctionExpression &_that) const & {
 
-  printf("FunctionExpression::operator*(const FunctionExpression &_that) const "
-         "&\n");
   compatibility_mul(*this, _that);
 
   const FunctionExpression &f_vector =
-- 
2.43.0


From c6b9259c6ba0848dccdf385fbff609ea25e6396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 05/26] fix: a concatenation is defined on the gaps that concat
 accepts

---
 src/Functions/FunctionsConcat.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Functions/FunctionsConcat.cpp b/src/Functions/FunctionsConcat.cpp
index 3048e14..fcb794d 100644
--- a/src/Functions/FunctionsConcat.cpp
+++ b/src/Functions/FunctionsConcat.cpp
@@ -218,8 +218,17 @@ void eval_concat_functions(
               1, _function_array.back()->get_domain().second),
           temp);
     } else {
-      throw std::invalid_argument(
-          "The functions is not defined for this value");
+      // the point lies in the gap, not larger than the domain tolerance, that
+      // concat accepts between a piece and the next one
+      f = std::find_if(_function_array.begin(), _function_array.end(),
+                       [&](const std::unique_ptr<FunctionBase> &element) {
+                         return _domain_points[i] < element->get_domain().first;
+                       });
+      if (f == _function_array.end()) {
+        throw std::invalid_argument(
+            "The functions is not defined for this value");
+      }
+      (*f)->value(Eigen::VectorXd::Constant(1, (*f)->get_domain().first), temp);
     }
     _result.row(i) = temp.row(0);
   }
-- 
2.43.0


From bf42aa2f2243388e3bc455b46cdd4103fe0e7342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 06/26] fix: dot product and integral reject incompatible
 functions

---
 src/FunctionalAnalysis/Integral.cpp  |  5 ++++-
 src/Functions/ElementalFunctions.cpp | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/FunctionalAnalysis/Integral.cpp b/src/FunctionalAnalysis/Integral.cpp
index fb2625d..fed2e9f 100644
--- a/src/FunctionalAnalysis/Integral.cpp
+++ b/src/FunctionalAnalysis/Integral.cpp
@@ -1,5 +1,6 @@
 #include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
 #include <gsplines/FunctionalAnalysis/Integral.hpp>
+#include <stdexcept>
 
 namespace gsplines {
 namespace functional_analysis {
@@ -7,7 +8,9 @@ namespace functional_analysis {
 double integral(const functions::FunctionBase &_in, std::size_t _n_glp,
                 std::size_t _n_int) {
 
-  assert(_in.get_codom_dim() == 1);
+  if (_in.get_codom_dim() != 1) {
+    throw std::invalid_argument("Only scalar functions can be integrated");
+  }
 
   Eigen::VectorXd glp;
   Eigen::VectorXd glw;
diff --git a/src/Functions/ElementalFunctions.cpp b/src/Functions/ElementalFunctions.cpp
index e69afe5..52d0d32 100644
--- a/src/Functions/ElementalFunctions.cpp
+++ b/src/Functions/ElementalFunctions.cpp
@@ -194,24 +194,33 @@ CanonicPolynomial *CanonicPolynomial::deriv_impl(std::size_t _deg) const {
   return new CanonicPolynomial(get_domain(), std::move(result.head(vsize)));
 } // namespace functions
 
+static void dot_throw(const FunctionBase &_f1, const FunctionBase &_f2) {
+  if (not FunctionBase::same_domain(_f1, _f2)) {
+    throw std::invalid_argument("Functions with different domains");
+  }
+  if (not FunctionBase::same_codomain(_f1, _f2)) {
+    throw std::invalid_argument("Functions with different codomains");
+  }
+}
+
 DotProduct::DotProduct(const FunctionBase &_f1, const FunctionBase &_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(_f1, _f2);
 }
 DotProduct::DotProduct(FunctionBase &&_f1, FunctionBase &&_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(_f1, _f2);
 }
 
 DotProduct::DotProduct(const FunctionBase &_f1, FunctionBase &&_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(_f1, _f2);
 }
 
 DotProduct::DotProduct(const DotProduct &_that)
-- 
2.43.0


From 6e44fcfd21c79b88871804f61db61f64bcadf780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 07/26] fix: each Sobolev weight multiplies only its own
 derivative term

---
 src/FunctionalAnalysis/Sobolev.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/FunctionalAnalysis/Sobolev.cpp b/src/FunctionalAnalysis/Sobolev.cpp
index 4fd654c..87254d5 100644
--- a/src/FunctionalAnalysis/Sobolev.cpp
+++ b/src/FunctionalAnalysis/Sobolev.cpp
@@ -50,8 +50,9 @@ void SobolevNorm::deriv_wrt_interval_len(
     // initialize the matrix buffers and compute the de matrix values
     matrix_.setZero();
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     // compute y^T dQdtau_i y
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
@@ -79,8 +80,9 @@ double SobolevNorm::inner_prod(
     matrix_.setZero();
     tau = _interval_lengths(interval_coor);
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
       const Eigen::Ref<const Eigen::VectorXd> v1 = get_coefficient_segment(
-- 
2.43.0


From 16396abda29659c428074e6ff7dd9b38e13f239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 08/26] fix: gsplines on different domains are neither equal
 nor summable

---
 src/GSpline.cpp | 2 +-
 src/Tools.cpp   | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 7231b74..73b1b09 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -195,7 +195,7 @@ Eigen::MatrixXd GSplineBase::get_waypoints() const {
 
 bool GSplineBase::same_vector_space(const GSplineBase& _that) const {
   return get_basis() == _that.get_basis() and
-         get_codom_dim() == _that.get_codom_dim() and
+         get_codom_dim() == _that.get_codom_dim() and same_domain(_that) and
          tools::approx_equal(get_interval_lengths(),
                              _that.get_interval_lengths(), 1.0e-8);
 }
diff --git a/src/Tools.cpp b/src/Tools.cpp
index dd69101..4194bfa 100644
--- a/src/Tools.cpp
+++ b/src/Tools.cpp
@@ -48,6 +48,8 @@ bool approx_equal(const GSplineBase &_lhs, const GSplineBase &_rhs,
 
   return approx_equal(_lhs.get_coefficients(), _rhs.get_coefficients(),
                       _tol) and
+         approx_equal(_lhs.get_domain().first, _rhs.get_domain().first,
+                      _tol) and
          approx_equal(_lhs.get_interval_lengths(), _rhs.get_interval_lengths(),
                       _tol) and
          _lhs.get_basis() == _rhs.get_basis();
-- 
2.43.0


From a2144f6998c94834877141903b6bd7f7d8290a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 09/26] fix: the interpolator throws instead of returning stale
 buffers

---
 src/Interpolator.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index ef00399..8d16c1d 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -112,6 +112,12 @@ void Interpolator::fill_interpolating_matrix(
 void Interpolator::fill_interpolating_vector(
     const Eigen::Ref<const Eigen::MatrixXd> _waypoints) {
 
+  if (_waypoints.rows() != (long)num_intervals_ + 1 or
+      _waypoints.cols() != (long)codom_dim_) {
+    throw std::invalid_argument(
+        "Cannot fill vector. The waypoints do not match the number of "
+        "intervals or the codomain dimension");
+  }
   unsigned int interval_coor = 0;
   unsigned int codom_coor = 0;
   unsigned int vector_coor = 0;
@@ -262,8 +268,8 @@ Eigen::Ref<const Eigen::VectorXd> Interpolator::get_coeff_derivative_wrt_tau(
   }
   if (_interval_lengths.size() != (long)num_intervals_ or _tau_idx < 0 or
       _tau_idx >= num_intervals_) {
-    fprintf(stderr, "Cannot compute derivative of coefficients wrt tau ");
-    return coefficients_vector_;
+    throw std::invalid_argument(
+        "Cannot compute derivative of coefficients wrt tau ");
   }
 
   Eigen::SparseMatrix<double> &mat = interpolation_matrix_ders_[_tau_idx];
@@ -340,6 +346,10 @@ Eigen::Ref<const Eigen::VectorXd> Interpolator::get_coeff_derivative_wrt_tau(
   fill_interpolating_matrix(_interval_lengths);
   Eigen::SparseLU<Eigen::SparseMatrix<double>> solver;
   solver.compute(interpolating_matrix_);
+  if (solver.info() != Eigen::ComputationInfo::Success) {
+    throw std::runtime_error(
+        "get_coeff_derivative_wrt_tau: the interpolating matrix is singular");
+  }
   coefficients_vector_ = -solver.solve(coefficients_vector_);
   return coefficients_vector_;
 }
@@ -362,7 +372,8 @@ const Eigen::Ref<const Eigen::VectorXd> Interpolator::solve_interpolation(
     print_info();
     std::cout << "interval lengths:\n" << _interval_lengths.transpose() << "\n";
     print_interpolating_matrix();
-    return sol_buffer_;
+    throw std::runtime_error(
+        "solve_interpolation: the interpolating matrix is singular");
   }
   sol_buffer_ = solver.solve(interpolating_vector_);
   // 4. Return the interpolating function
-- 
2.43.0


From 58b7aa358a8d763874311aa47c603ee8c2f20489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 10/26] fix: a gspline checks the number of its interval
 lengths

---
 src/GSpline.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 73b1b09..52e2946 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -51,7 +51,8 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
       basis_(_basis.clone()),
       basis_buffer_(basis_->get_dim()) {
   if (coefficients_.size() !=
-      (long)(_n_intervals * basis_->get_dim() * _codom_dim)) {
+          (long)(_n_intervals * basis_->get_dim() * _codom_dim) or
+      domain_interval_lengths_.size() != (long)_n_intervals) {
     throw std::invalid_argument(
         "GSplineBase instantation Error: The number of coefficients is "
         "incorrect "
@@ -75,7 +76,8 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
       basis_(_basis.clone()),
       basis_buffer_(basis_->get_dim()) {
   if (coefficients_.size() !=
-      (long)(_n_intervals * basis_->get_dim() * _codom_dim)) {
+          (long)(_n_intervals * basis_->get_dim() * _codom_dim) or
+      domain_interval_lengths_.size() != (long)_n_intervals) {
     throw std::invalid_argument(
         "GSplineBase instantation Error: The number of coefficients is "
         "incorrect "
-- 
2.43.0


From 6b2dca6c2631096c710acfefec2bd23d70eef4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 11/26] fix: a random gspline has the requested domain

---
 src/GSpline.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 52e2946..6a91f04 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -244,8 +244,11 @@ GSpline random_gspline(std::pair<double, double> _domain,
       3 * Eigen::MatrixXd::Random(static_cast<long>(number_of_intervals) + 1,
                                   static_cast<long>(_codom_dim));
 
-  const GSpline result = interpolate(tau, wp, _basis);
-  return result.linear_scaling_new_execution_time(_domain.second);
+  const GSpline result =
+      interpolate(tau, wp, _basis)
+          .linear_scaling_new_execution_time(_domain.second - _domain.first);
+  return GSpline(_domain, _codom_dim, number_of_intervals, result.get_basis(),
+                 result.get_coefficients(), result.get_interval_lengths());
 }
 
 }  // namespace gsplines
-- 
2.43.0


From 0ecac39d81d106bf04401061889248a9456fcb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 12/26] fix: no unsynchronised state shared between unrelated
 functions

---
 .../gsplines/Functions/FunctionExpression.hpp  |  9 +++++----
 include/gsplines/Tools.hpp                     |  4 ++--
 src/Functions/FunctionExpression.cpp           | 18 ++++++++++--------
 src/Tools.cpp                                  |  4 ++--
 4 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/gsplines/Functions/FunctionExpression.hpp b/include/gsplines/Functions/FunctionExpression.hpp
index 1d25887..7e5b745 100644
--- a/include/gsplines/Functions/FunctionExpression.hpp
+++ b/include/gsplines/Functions/FunctionExpression.hpp
@@ -3,6 +3,7 @@
 #ifndef FUNCTION_EXPRESSION
 #define FUNCTION_EXPRESSION
 
+#include <atomic>
 #include <cstddef>
 #include <eigen3/Eigen/Core>
 #include <functional>
@@ -50,10 +51,10 @@ private:
 
   Eigen::VectorXd domain_break_points_;
 
-  static std::size_t num_call_constructor_;
-  static std::size_t num_call_copy_constructor_;
-  static std::size_t num_call_simple_constructor_;
-  static std::size_t num_call_move_constructor_;
+  static std::atomic<std::size_t> num_call_constructor_;
+  static std::atomic<std::size_t> num_call_copy_constructor_;
+  static std::atomic<std::size_t> num_call_simple_constructor_;
+  static std::atomic<std::size_t> num_call_move_constructor_;
 
 public:
   FunctionExpression(
diff --git a/include/gsplines/Tools.hpp b/include/gsplines/Tools.hpp
index 37fb129..383d65e 100644
--- a/include/gsplines/Tools.hpp
+++ b/include/gsplines/Tools.hpp
@@ -4,8 +4,8 @@
 namespace gsplines {
 namespace tools {
 
-extern double last_error;
-extern double last_relative_error;
+extern thread_local double last_error;
+extern thread_local double last_relative_error;
 
 bool approx_equal(double _lhs, double _rhs, double _tol);
 
diff --git a/src/Functions/FunctionExpression.cpp b/src/Functions/FunctionExpression.cpp
index 54dcf3f..f2e64fe 100644
--- a/src/Functions/FunctionExpression.cpp
+++ b/src/Functions/FunctionExpression.cpp
@@ -11,10 +11,10 @@ namespace functions {
  *  Function Construction
  * -----*/
 
-std::size_t FunctionExpression::num_call_constructor_ = 0;
-std::size_t FunctionExpression::num_call_simple_constructor_ = 0;
-std::size_t FunctionExpression::num_call_copy_constructor_ = 0;
-std::size_t FunctionExpression::num_call_move_constructor_ = 0;
+std::atomic<std::size_t> FunctionExpression::num_call_constructor_{0};
+std::atomic<std::size_t> FunctionExpression::num_call_simple_constructor_{0};
+std::atomic<std::size_t> FunctionExpression::num_call_copy_constructor_{0};
+std::atomic<std::size_t> FunctionExpression::num_call_move_constructor_{0};
 
 FunctionExpression::FunctionExpression(
     std::pair<double, double> _domain, std::size_t _codom_dim, Type _type,
@@ -93,11 +93,13 @@ FunctionExpression::FunctionExpression(FunctionBase &&_that)
 }
 
 void FunctionExpression::print_performace() {
-  printf("Num call of the constructor %zu\n", num_call_constructor_);
-  printf("Num call of the COPY constructor %zu\n", num_call_copy_constructor_);
-  printf("Num call of the MOVE constructor %zu\n", num_call_move_constructor_);
+  printf("Num call of the constructor %zu\n", num_call_constructor_.load());
+  printf("Num call of the COPY constructor %zu\n",
+         num_call_copy_constructor_.load());
+  printf("Num call of the MOVE constructor %zu\n",
+         num_call_move_constructor_.load());
   printf("Num call of the SIMPLE constructor %zu\n",
-         num_call_simple_constructor_);
+         num_call_simple_constructor_.load());
 }
 
 std::vector<std::pair<double, double>>
diff --git a/src/Tools.cpp b/src/Tools.cpp
index 4194bfa..f877cb2 100644
--- a/src/Tools.cpp
+++ b/src/Tools.cpp
@@ -3,8 +3,8 @@
 namespace gsplines {
 namespace tools {
 
-double last_error = 0.0;
-double last_relative_error = 0.0;
+thread_local double last_error = 0.0;
+thread_local double last_relative_error = 0.0;
 bool approx_equal(double _lhs, double _rhs, double _tol) {
 
   double err = std::fabs(_lhs - _rhs);
-- 
2.43.0


From a9d3f01b1e58107e7812d1c284d7582ea7c38554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 13/26] fix: in-place sum of gsplines compiles

---
 include/gsplines/GSpline.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index 07692ea..dee5a5c 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -218,7 +218,7 @@ class GSplineInheritanceHelper
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
     Base::coefficients_ += that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current& operator-=(const Current& that) {
@@ -227,7 +227,7 @@ class GSplineInheritanceHelper
     }
 
     Base::coefficients_ -= that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current linear_scaling_new_execution_time(double _new_exec_time) const {
-- 
2.43.0


From 433c0af9b440770e05346707ec5903d7054fe8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 14/26] fix: the Legendre derivative Gram matrices are D^T L D

---
 src/Basis/BasisLegendre.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 9c3b328..ef48dad 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -28,8 +28,8 @@ BasisLegendre::BasisLegendre(std::size_t _dim)
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
   for (std::size_t i = 1; i < _dim + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() *
+                                          l2normbase_matrix * dmat);
     dmat *= derivative_matrix_;
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From 2ee4173b0353202291909b98f6e83306335938c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 15/26] fix: the Lagrange Gram matrices are fully initialised
 and D^T L D

---
 src/Basis/BasisLagrange.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 7c5e3d3..646a55a 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -43,16 +43,16 @@ BasisLagrange::BasisLagrange(Eigen::Ref<const Eigen::VectorXd> _domain_points)
   Eigen::MatrixXd points_to_glp_matrix(change_interpolation_points(
       _domain_points, collocation::legendre_gauss_lobatto_points(get_dim())));
 
-  Eigen::MatrixXd l2normbase_matrix(get_dim(), get_dim());
-
-  l2normbase_matrix.diagonal() =
-      collocation::legendre_gauss_lobatto_weights(get_dim());
+  Eigen::MatrixXd l2normbase_matrix =
+      points_to_glp_matrix.transpose() *
+      collocation::legendre_gauss_lobatto_weights(get_dim()).asDiagonal() *
+      points_to_glp_matrix;
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
 
   for (std::size_t i = 1; i < get_dim() + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() *
+                                          l2normbase_matrix * dmat);
     dmat = derivative_matrix(domain_points_, i + 1);
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From 57d8e16f338211763172a3096e70c958da63177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 16/26] fix: a matching interpolation point affects only its
 own row

---
 src/Basis/BasisLagrange.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 646a55a..d80c231 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -266,6 +266,7 @@ Eigen::MatrixXd BasisLagrange::change_interpolation_points(
   Eigen::VectorXd bw = barycentric_weights(_old_points);
 
   for (std::size_t k = 0; k < book_m; k++) {
+    book_row_has_match = false;
     for (std::size_t j = 0; j < book_n; j++) {
       result(k, j) = 0.0;
       if (almost_equal(_new_points(k), _old_points(j), 1.0e-9)) {
-- 
2.43.0


From 5cbad810357e6c3ae5927347160ef7739dbffba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 17/26] fix: the derivative matrix of basis0101 is the power of
 the first one

---
 src/Basis/Basis0101.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index fe4bd16..5d58ed9 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -168,9 +168,10 @@ Eigen::MatrixXd Basis0101::derivative_matrix_impl(std::size_t _deg) const {
   Eigen::MatrixXd Q(Eigen::Map<const Eigen::MatrixXd>(d1matrix.data(), 6, 6));
 
   Q *= tauk;
+  const Eigen::MatrixXd D1(Q);
 
   for (std::size_t i = 2; i <= _deg; i++) {
-    Q *= Q;
+    Q *= D1;
   }
 
   return Q;
-- 
2.43.0


From d644ffac61d6c277b72505d643aa791efc240937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 18/26] fix: the continuity matrix evaluates the derivatives of
 any basis

---
 src/Basis/Basis.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/Basis/Basis.cpp b/src/Basis/Basis.cpp
index 5d317fa..43b1537 100644
--- a/src/Basis/Basis.cpp
+++ b/src/Basis/Basis.cpp
@@ -62,13 +62,9 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
 
     get_derivative_matrix_block(_deriv_order);
 
-    eval_derivative_on_window(-1.0, 2.0, 0, left_buffer.row(0));
-    eval_derivative_on_window(1.0, 2.0, 0, right_buffer.row(0));
-
-    for (std::size_t der = 1; der <= _deriv_order; der++) {
-      const Eigen::MatrixXd& dblock = get_derivative_matrix_block(der);
-      left_buffer.row(der) = dblock.row(0);
-      right_buffer.row(der) = dblock.bottomRows(1);
+    for (std::size_t der = 0; der <= _deriv_order; der++) {
+      eval_derivative_on_window(-1.0, 2.0, der, left_buffer.row(der));
+      eval_derivative_on_window(1.0, 2.0, der, right_buffer.row(der));
     }
 
     std::size_t i0, j0;
-- 
2.43.0


From d4c6377beffd1ba34efdee7d70550a8d47973a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 19/26] fix: high derivatives of the Legendre basis are zero

---
 src/Basis/BasisLegendre.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index ef48dad..e73f152 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -53,6 +53,9 @@ void BasisLegendre::eval_derivative_on_window(
   double aux = 0;
   double mutiplier = 1.0;
   _buff.setZero();
+  if (_deg >= get_dim()) {
+    return;
+  }
   buff_next.setZero();
   _buff(0) = 1.0;
   _buff(1) = _s;
-- 
2.43.0


From 30216bd0d2edc1f9978344a3c56204af3415290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 20/26] fix: collocation points of intervals with different
 lengths

---
 include/gsplines/Collocation/GaussLobattoLagrange.hpp | 4 ++--
 src/Collocation/GaussLobattoPointsWeights.cpp         | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index 7212784..49b323d 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -112,8 +112,8 @@ public:
 
   std::size_t get_nglp() const { return get_basis_dim(); }
   Eigen::VectorXd get_domain_discretization() const {
-    return legendre_gauss_lobatto_points(get_domain(), get_nglp(),
-                                         get_number_of_intervals());
+    return legendre_gauss_lobatto_points(get_domain().first, get_nglp(),
+                                         get_interval_lengths());
   }
 
   GaussLobattoLagrangeSpline
diff --git a/src/Collocation/GaussLobattoPointsWeights.cpp b/src/Collocation/GaussLobattoPointsWeights.cpp
index 6cca8b7..d4efdd9 100644
--- a/src/Collocation/GaussLobattoPointsWeights.cpp
+++ b/src/Collocation/GaussLobattoPointsWeights.cpp
@@ -190,10 +190,9 @@ legendre_gauss_lobatto_points(double _left_bound, std::size_t _nglp,
 
   for (long interval = 0; interval < _intervals.size(); interval++) {
 
-    double local_left_bound = left_bound + interval * _intervals[interval];
-
     result.segment(interval * _nglp, _nglp) =
-        (glp.array() + 1.0) * _intervals[interval] / 2.0 + local_left_bound;
+        (glp.array() + 1.0) * _intervals[interval] / 2.0 + left_bound;
+    left_bound += _intervals[interval];
   }
   return result;
 }
-- 
2.43.0


From 79460417ea5cbe845050c7b5540380fb224f3ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 21/26] fix: number of intervals and of points when
 approximating a function

---
 src/Collocation/GaussLobattoLagrange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index a856c26..3fa5a18 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -55,7 +55,7 @@ GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(GSpline &&_that)
 GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(
     const ::gsplines::functions::FunctionBase &_that, std::size_t _n_intervals,
     std::size_t _n_glp)
-    : GaussLobattoLagrangeSpline(approximate(_that, _n_intervals, _n_glp)) {}
+    : GaussLobattoLagrangeSpline(approximate(_that, _n_glp, _n_intervals)) {}
 
 GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
     const GaussLobattoLagrangeSpline &_that) & {
-- 
2.43.0


From be315cd30faa72500ebffb7b0c3bbde981578470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 22/26] fix: assigning a collocation spline assigns its
 interval lengths

---
 src/Collocation/GaussLobattoLagrange.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index 3fa5a18..2bc6e27 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -67,6 +67,7 @@ GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
 
   set_domain(_that.get_domain());
 
+  domain_interval_lengths_ = _that.domain_interval_lengths_;
   coefficients_ = _that.coefficients_;
   return *this;
 }
@@ -81,6 +82,7 @@ GaussLobattoLagrangeSpline::operator=(GaussLobattoLagrangeSpline &&_that) & {
     throw std::invalid_argument("Assigmention requires same codomain");
 
   set_domain(_that.get_domain());
+  domain_interval_lengths_ = std::move(_that.domain_interval_lengths_);
   coefficients_ = std::move(_that.coefficients_);
   return *this;
 }
-- 
2.43.0


From 9b9e58e5d74751e9e2d837816988f6f180d5e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 23/26] fix: the product of collocation splines requires the
 same intervals

---
 src/Collocation/GaussLobattoLagrange.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index 2bc6e27..ba8e1ca 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -227,7 +227,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
@@ -255,7 +257,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
@@ -295,7 +299,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
@@ -335,7 +341,9 @@ GaussLobattoLagrangeSpline::operator*(GaussLobattoLagrangeSpline &&_that) && {
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
-- 
2.43.0


From 94ae89eb9b5f58ff9d7109de8d5b567bf8d32f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 24/26] fix: set_from_array reports vectors of the wrong size

---
 include/gsplines/Collocation/GaussLobattoLagrange.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index 49b323d..98b45b8 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -151,10 +151,10 @@ public:
       long interval = index / get_basis().get_dim();
       decltype(auto) vec = _fun(*it);
       if (vec.cols() != 1) {
-        std::invalid_argument("This function only accept eigen row vectors");
+        throw std::invalid_argument("This function only accept eigen row vectors");
       }
       if (vec.rows() != static_cast<long>(get_codom_dim())) {
-        std::invalid_argument(__FILE__ "Vector dimension error");
+        throw std::invalid_argument(__FILE__ "Vector dimension error");
       }
       get_value_block(interval).row(index % get_basis().get_dim()) = vec;
     }
@@ -163,8 +163,7 @@ public:
   template <typename IteratorType>
   void set_from_array(std::pair<double, double> _domain,
                       const IteratorType &_begin, const IteratorType &_end) {
-    set_domain(_domain);
-    set_from_array(_begin, _end,
+    set_from_array(_domain, _begin, _end,
                    [](const Eigen::MatrixXd &_in) -> const Eigen::MatrixXd & {
                      return _in;
                    });
-- 
2.43.0


From 56f1b16bf7ba35bad4aea3ad116f7fabf8a11e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 25/26] fix: time scaling works with only one of the two bounds

---
 include/gsplines/GSpline.hpp | 45 +++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index dee5a5c..5ecf828 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -292,8 +292,10 @@ class GSplineInheritanceHelper
     if (_dt < 1.0e-8) {
       throw std::invalid_argument("dt cannot be negative or too small");
     }
-    if (_velocity_bound.value().size() != this->get_codom_dim() ||
-        _acceleration_bound.value().size() != this->get_codom_dim()) {
+    if ((_velocity_bound.has_value() &&
+         _velocity_bound.value().size() != this->get_codom_dim()) ||
+        (_acceleration_bound.has_value() &&
+         _acceleration_bound.value().size() != this->get_codom_dim())) {
       throw std::invalid_argument(
           "Bounds for velocity and acceleration must correspont to codom dim");
     }
@@ -312,23 +314,28 @@ class GSplineInheritanceHelper
     Eigen::MatrixXd gspline_diff_1_evaluated = gspline_diff_1(time_spam);
     Eigen::MatrixXd gspline_diff_2_evaluated = gspline_diff_2(time_spam);
 
-    const Eigen::Map<const Eigen::VectorXd> velocity_bound(
-        _velocity_bound.value().data(),
-        static_cast<long>(_velocity_bound.value().size()));
-    const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
-        _acceleration_bound.value().data(),
-        static_cast<long>(_acceleration_bound.value().size()));
-
-    const double max_velocity_ratio =
-        (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
-         velocity_bound.transpose().array())
-            .maxCoeff();
-
-    const double max_acceleration_ratio =
-        Eigen::sqrt(
-            gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
-            acceleration_bound.transpose().array())
-            .maxCoeff();
+    double max_velocity_ratio = 0.0;
+    if (_velocity_bound.has_value()) {
+      const Eigen::Map<const Eigen::VectorXd> velocity_bound(
+          _velocity_bound.value().data(),
+          static_cast<long>(_velocity_bound.value().size()));
+      max_velocity_ratio =
+          (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
+           velocity_bound.transpose().array())
+              .maxCoeff();
+    }
+
+    double max_acceleration_ratio = 0.0;
+    if (_acceleration_bound.has_value()) {
+      const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
+          _acceleration_bound.value().data(),
+          static_cast<long>(_acceleration_bound.value().size()));
+      max_acceleration_ratio =
+          Eigen::sqrt(
+              gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
+              acceleration_bound.transpose().array())
+              .maxCoeff();
+    }
 
     const double time_scale_factor =
         std::max(max_velocity_ratio, max_acceleration_ratio);
-- 
2.43.0


From d9b9fd129ff517776e0dcddf8f09d184d592f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:54 +0000
Subject: [PATCH 26/26] fix: Basis0101 second-derivative Gram block integrates
 time derivatives

---
 src/Basis/Basis0101.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index 5d58ed9..3a2b3b0 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -747,6 +747,10 @@ void compute_Qd2_block(double _tau, double _alpha,
   _res(5, 3) = 0;
   _res(5, 4) = 0;
   _res(5, 5) = 0;
+
+  // the entries above integrate the derivatives with respect to the window
+  // scaled by tau / 2 each; bring them to derivatives with respect to time
+  _res *= 4.0 / (_tau * _tau);
 }
 
 void compute_Q_block(double _tau, double _alpha,
-- 
2.43.0

