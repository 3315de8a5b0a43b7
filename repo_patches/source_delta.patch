From f2ff0e73b6a1aaab7738bfb9a1144297a23ce737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:40 +0000
Subject: [PATCH 01/42] fix: vector minus expression returned expression minus
 vector

---
 src/placo/problem/expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index ad96bb3..38f134b 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -190,7 +190,7 @@ Expression Expression::operator-(const Eigen::VectorXd v) const
 
 Expression operator-(const Eigen::VectorXd v, const Expression& e)
 {
-  return e - v;
+  return (-e) + v;
 }
 
 Expression Expression::operator+(const double f) const
-- 
2.43.0


From c0ce678da54e358ebfef8b0e2c1504ac8432e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:41 +0000
Subject: [PATCH 02/42] fix: expression minus number only subtracted from the
 first row

---
 src/placo/problem/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 38f134b..7ca0c3a 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -208,8 +208,8 @@ Expression operator+(double f, const Expression& e)
 
 Expression Expression::operator-(const double f) const
 {
-  Eigen::VectorXd fv(1);
-  fv(0, 0) = f;
+  Eigen::VectorXd fv(rows());
+  fv.setConstant(f);
 
   return (*this) - fv;
 }
-- 
2.43.0


From abebf0b69b8ae976d3fa3063a56ce48efdc6adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:41 +0000
Subject: [PATCH 03/42] fix: mean of an expression divided by the number of
 columns instead of rows

---
 src/placo/problem/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 7ca0c3a..2fbee34 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -253,8 +253,8 @@ Expression Expression::sum()
 Expression Expression::mean()
 {
   Expression e = sum();
-  e.A /= (double)cols();
-  e.b /= (double)cols();
+  e.A /= (double)rows();
+  e.b /= (double)rows();
 
   return e;
 }
-- 
2.43.0


From 627b69172e8ab0c223ae8dd61c76138238655cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:46 +0000
Subject: [PATCH 04/42] fix: cross terms of soft constraints were dropped from
 the objective when using sparsity

---
 src/placo/problem/problem.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index ff53c15..a2d729a 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -235,8 +235,14 @@ void Problem::solve()
 
           Eigen::MatrixXd block = expression_A.block(0, interval.start, constraints, size);
 
-          P.block(interval.start, interval.start, size, size).noalias() +=
-              constraint->weight * block.transpose() * block;
+          // The product of two different intervals also contributes to the objective
+          for (auto other : sparsity.intervals)
+          {
+            int other_size = 1 + other.end - other.start;
+
+            P.block(interval.start, other.start, size, other_size).noalias() +=
+                constraint->weight * block.transpose() * expression_A.block(0, other.start, constraints, other_size);
+          }
         }
 
         q.block(0, 0, expression_A.cols(), 1).noalias() +=
-- 
2.43.0


From 4c956b2ce438afe14f70649335f54293d6adb9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:46 +0000
Subject: [PATCH 05/42] fix: sizes of hard equalities were checked after being
 copied out of bounds

---
 src/placo/problem/problem.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index a2d729a..0b5c376 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -118,6 +118,19 @@ void Problem::solve()
 
   for (auto constraint : constraints)
   {
+    if (constraint->expression.cols() > n_variables)
+    {
+      throw QPError("Problem: Inconsistent problem size");
+    }
+    if (constraint->expression.A.rows() == 0 || constraint->expression.b.rows() == 0)
+    {
+      throw QPError("Problem: A or b is empty");
+    }
+    if (constraint->expression.A.rows() != constraint->expression.b.rows())
+    {
+      throw QPError("Problem: A.rows() != b.rows()");
+    }
+
     if (constraint->type == ProblemConstraint::Inequality)
     {
       constraint->is_active = false;
@@ -197,19 +210,6 @@ void Problem::solve()
   // Scanning the constraints (counting inequalities and equalities, building objectif function)
   for (auto constraint : constraints)
   {
-    if (constraint->expression.cols() > n_variables)
-    {
-      throw QPError("Problem: Inconsistent problem size");
-    }
-    if (constraint->expression.A.rows() == 0 || constraint->expression.b.rows() == 0)
-    {
-      throw QPError("Problem: A or b is empty");
-    }
-    if (constraint->expression.A.rows() != constraint->expression.b.rows())
-    {
-      throw QPError("Problem: A.rows() != b.rows()");
-    }
-
     if (constraint->type == ProblemConstraint::Inequality)
     {
       // If the constraint is hard, this will be the true inequality, else, this will be the inequality
-- 
2.43.0


From a6a4d1f8c1017a8f664b776cbf1c6fbab4820005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:46 +0000
Subject: [PATCH 06/42] fix: integrator input expression at the final step
 wrote out of the variable bounds

---
 src/placo/problem/integrator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 809ddf9..714bfb0 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -140,8 +140,8 @@ Expression Integrator::expr(int step, int diff)
 
   if (diff == order)
   {
-    // At order, we just select the relevant variable
-    return variable->expr(step, 1);
+    // At order, we just select the relevant variable (the last one is held at the final step)
+    return variable->expr(std::min(step, N - 1), 1);
   }
   else
   {
-- 
2.43.0


From eb25339435b3d17f6576f5d009c56c8146584de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:46 +0000
Subject: [PATCH 07/42] fix: integrator trajectory duration counted one step
 too many

---
 src/placo/problem/integrator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 714bfb0..620eb2e 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -40,7 +40,7 @@ double Integrator::Trajectory::value(double t, int diff)
 
 double Integrator::Trajectory::duration()
 {
-  return keyframes.size() * dt;
+  return variable_value.size() * dt;
 }
 
 Integrator::Integrator()
-- 
2.43.0


From 956108ac605d3f825ae601e73664eee1cc6a0346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:05 +0000
Subject: [PATCH 08/42] fix: operations between an expression and a vector or
 matrix of another size read out of bounds instead of being rejected

---
 src/placo/problem/expression.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 2fbee34..532a0c6 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -169,6 +169,13 @@ Expression Expression::operator*(const Expression& other) const
 
 Expression Expression::operator+(const Eigen::VectorXd v) const
 {
+  if (rows() != v.rows())
+  {
+    std::ostringstream oss;
+    oss << "Trying to add an expression and a vector with different # of rows (" << rows() << " vs " << v.rows() << ")";
+    throw std::runtime_error(oss.str());
+  }
+
   Expression e(*this);
   e.b += v;
 
@@ -182,6 +189,13 @@ Expression operator+(const Eigen::VectorXd v, const Expression& e)
 
 Expression Expression::operator-(const Eigen::VectorXd v) const
 {
+  if (rows() != v.rows())
+  {
+    std::ostringstream oss;
+    oss << "Trying to subtract an expression and a vector with different # of rows (" << rows() << " vs " << v.rows() << ")";
+    throw std::runtime_error(oss.str());
+  }
+
   Expression e(*this);
   e.b -= v;
 
@@ -221,6 +235,13 @@ Expression operator-(double f, const Expression& e)
 
 Expression operator*(const Eigen::MatrixXd M, const Expression& e_)
 {
+  if (M.cols() != e_.rows())
+  {
+    std::ostringstream oss;
+    oss << "Trying to multiply an expression of " << e_.rows() << " rows by a matrix of " << M.cols() << " columns";
+    throw std::runtime_error(oss.str());
+  }
+
   Expression e(e_);
   e.A = M.operator*(e.A);
   e.b = M.operator*(e.b);
-- 
2.43.0


From a78a017c738bbbb1ae1122a992df218132224502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:47 +0000
Subject: [PATCH 09/42] fix: integrator expression at a time accepted out of
 range derivative orders

---
 src/placo/problem/integrator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 620eb2e..24af481 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -169,6 +169,8 @@ Expression Integrator::expr(int step, int diff)
 
 Expression Integrator::expr_t(double t, int diff)
 {
+  check_diff(order, diff, true);
+
   t -= t_start;
 
   int step = std::max<int>(std::min<int>(variable->size() - 1, t / dt), 0);
-- 
2.43.0


From 65242c57893f4a8325e2fbaf57ab14959f4136fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:45 +0000
Subject: [PATCH 10/42] fix: coefficients of high order derivatives of
 polynomials overflowed

---
 src/placo/tools/polynom.cpp | 4 ++--
 src/placo/tools/polynom.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/placo/tools/polynom.cpp b/src/placo/tools/polynom.cpp
index 4c40ecd..60e5ef4 100644
--- a/src/placo/tools/polynom.cpp
+++ b/src/placo/tools/polynom.cpp
@@ -6,14 +6,14 @@ Polynom::Polynom(Eigen::VectorXd coefficients) : coefficients(coefficients)
 {
 }
 
-int Polynom::derivative_coefficient(int degree, int derivative)
+double Polynom::derivative_coefficient(int degree, int derivative)
 {
   if (derivative > degree)
   {
     return 0;
   }
 
-  int coefficient = 1;
+  double coefficient = 1;
 
   while (derivative > 0)
   {
diff --git a/src/placo/tools/polynom.h b/src/placo/tools/polynom.h
index 018bff7..187f0da 100644
--- a/src/placo/tools/polynom.h
+++ b/src/placo/tools/polynom.h
@@ -15,7 +15,7 @@ public:
    * @param derivative number of differentiations
    * @return coefficient
    */
-  static int derivative_coefficient(int degree, int derivative);
+  static double derivative_coefficient(int degree, int derivative);
 
   /**
    * @brief Computes the value of polynom
-- 
2.43.0


From c42ddde075819edaed401855dbba564af68bd957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:59 +0000
Subject: [PATCH 11/42] fix: equality constraints had no columns for the slack
 variables when not rewriting equalities

---
 src/placo/problem/problem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 0b5c376..1b483d1 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -196,6 +196,12 @@ void Problem::solve()
     A.resize(0, 0);
     b.resize(0);
   }
+  else
+  {
+    // The slack variables are not involved in the equality constraints
+    A.conservativeResize(n_equalities, n_variables + slack_variables);
+    A.rightCols(slack_variables).setZero();
+  }
 
   Eigen::MatrixXd P(free_variables + slack_variables, free_variables + slack_variables);
   Eigen::VectorXd q(free_variables + slack_variables);
-- 
2.43.0


From ce435b54ea8bbe36a72e0ba9b9a174b61cf1493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:38 +0000
Subject: [PATCH 12/42] fix: duration of a cubic spline read splines not
 computed yet (undefined before the first evaluation, stale after adding
 points)

---
 src/placo/tools/cubic_spline.cpp | 375 ++++++++++++++++---------------
 1 file changed, 190 insertions(+), 185 deletions(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index e7aa5d7..cf30174 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -1,185 +1,190 @@
-#include "placo/tools/cubic_spline.h"
-#include "placo/tools/utils.h"
-#include <Eigen/Dense>
-#include <algorithm>
-#include <cmath>
-#include <iostream>
-#include <vector>
-
-namespace placo::tools
-{
-CubicSpline::CubicSpline(bool angular) : angular(angular)
-{
-}
-
-void CubicSpline::add_point(double t, double x, double dx)
-{
-  // Discontinuity of angle
-  if (angular && _points.size() > 0)
-  {
-    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
-  }
-  struct Point point = { t, x, dx };
-
-  if (_points.size() > 0 && t <= _points.back().t)
-  {
-    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
-  }
-
-  _points.push_back(point);
-  dirty = true;
-}
-
-void CubicSpline::clear()
-{
-  _points.clear();
-  _splines.clear();
-}
-
-double CubicSpline::duration() const
-{
-  return _splines[_splines.size() - 1].t_end - _splines[0].t_start;
-}
-
-/**
- * Return the spline interpolation
- * for given x position
- */
-double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
-{
-  if (dirty)
-  {
-    compute_splines();
-    dirty = false;
-  }
-
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-  else if (_points.size() == 1)
-  {
-    if (type == Value)
-    {
-      return _points.front().x;
-    }
-    else
-    {
-      return _points.front().dx;
-    }
-  }
-  else
-  {
-    if (t < _splines.front().t_start)
-    {
-      t = _splines.front().t_start;
-    }
-    if (t > _splines.back().t_end)
-    {
-      t = _splines.back().t_end;
-    }
-
-    for (size_t i = 0; i < _splines.size(); i++)
-    {
-      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
-      {
-        if (type == Value)
-        {
-          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Speed)
-        {
-          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Acceleration)
-        {
-          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
-        }
-      }
-    }
-    return 0.0;
-  }
-}
-
-double CubicSpline::pos(double t)
-{
-  return interpolation(t, Value);
-}
-
-double CubicSpline::vel(double t)
-{
-  return interpolation(t, Speed);
-}
-
-double CubicSpline::acc(double t)
-{
-  return interpolation(t, Acceleration);
-}
-
-/**
- * Access to internal Points container
- */
-const CubicSpline::Points& CubicSpline::points() const
-{
-  return _points;
-}
-
-double CubicSpline::polynom_value(double t, const Polynom& p)
-{
-  return p.d + t * (t * (p.a * t + p.b) + p.c);
-}
-
-double CubicSpline::polynom_diff(double t, const Polynom& p)
-{
-  return t * (3 * p.a * t + 2 * p.b) + p.c;
-}
-
-double CubicSpline::polynom_diff2(double t, const Polynom& p)
-{
-  return 6 * p.a * t + 2 * p.b;
-}
-
-CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
-{
-  Eigen::Matrix4d M;
-  double t1_2 = t1 * t1;
-  double t1_3 = t1_2 * t1;
-  double t2_2 = t2 * t2;
-  double t2_3 = t2_2 * t2;
-
-  M << t1_3, t1_2, t1, 1,      //
-      3 * t1_2, 2 * t1, 1, 0,  //
-      t2_3, t2_2, t2, 1,       //
-      3 * t2_2, 2 * t2, 1, 0   //
-      ;
-
-  Eigen::Vector4d v;
-  v << x1, dx1, x2, dx2;
-
-  Eigen::Vector4d abcd = M.inverse() * v;
-
-  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
-
-  return polynom;
-}
-
-void CubicSpline::compute_splines()
-{
-  _splines.clear();
-  if (_points.size() < 2)
-  {
-    return;
-  }
-
-  for (size_t i = 1; i < _points.size(); i++)
-  {
-    double t_start = _points[i - 1].t;
-    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
-                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
-                             _points[i - 1].t, _points[i].t };
-
-    _splines.push_back(spline);
-  }
-}
-
-}  // namespace placo::tools
+#include "placo/tools/cubic_spline.h"
+#include "placo/tools/utils.h"
+#include <Eigen/Dense>
+#include <algorithm>
+#include <cmath>
+#include <iostream>
+#include <vector>
+
+namespace placo::tools
+{
+CubicSpline::CubicSpline(bool angular) : angular(angular)
+{
+}
+
+void CubicSpline::add_point(double t, double x, double dx)
+{
+  // Discontinuity of angle
+  if (angular && _points.size() > 0)
+  {
+    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
+  }
+  struct Point point = { t, x, dx };
+
+  if (_points.size() > 0 && t <= _points.back().t)
+  {
+    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
+  }
+
+  _points.push_back(point);
+  dirty = true;
+}
+
+void CubicSpline::clear()
+{
+  _points.clear();
+  _splines.clear();
+}
+
+double CubicSpline::duration() const
+{
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+
+  return _points.back().t - _points.front().t;
+}
+
+/**
+ * Return the spline interpolation
+ * for given x position
+ */
+double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
+{
+  if (dirty)
+  {
+    compute_splines();
+    dirty = false;
+  }
+
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+  else if (_points.size() == 1)
+  {
+    if (type == Value)
+    {
+      return _points.front().x;
+    }
+    else
+    {
+      return _points.front().dx;
+    }
+  }
+  else
+  {
+    if (t < _splines.front().t_start)
+    {
+      t = _splines.front().t_start;
+    }
+    if (t > _splines.back().t_end)
+    {
+      t = _splines.back().t_end;
+    }
+
+    for (size_t i = 0; i < _splines.size(); i++)
+    {
+      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
+      {
+        if (type == Value)
+        {
+          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Speed)
+        {
+          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Acceleration)
+        {
+          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
+        }
+      }
+    }
+    return 0.0;
+  }
+}
+
+double CubicSpline::pos(double t)
+{
+  return interpolation(t, Value);
+}
+
+double CubicSpline::vel(double t)
+{
+  return interpolation(t, Speed);
+}
+
+double CubicSpline::acc(double t)
+{
+  return interpolation(t, Acceleration);
+}
+
+/**
+ * Access to internal Points container
+ */
+const CubicSpline::Points& CubicSpline::points() const
+{
+  return _points;
+}
+
+double CubicSpline::polynom_value(double t, const Polynom& p)
+{
+  return p.d + t * (t * (p.a * t + p.b) + p.c);
+}
+
+double CubicSpline::polynom_diff(double t, const Polynom& p)
+{
+  return t * (3 * p.a * t + 2 * p.b) + p.c;
+}
+
+double CubicSpline::polynom_diff2(double t, const Polynom& p)
+{
+  return 6 * p.a * t + 2 * p.b;
+}
+
+CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
+{
+  Eigen::Matrix4d M;
+  double t1_2 = t1 * t1;
+  double t1_3 = t1_2 * t1;
+  double t2_2 = t2 * t2;
+  double t2_3 = t2_2 * t2;
+
+  M << t1_3, t1_2, t1, 1,      //
+      3 * t1_2, 2 * t1, 1, 0,  //
+      t2_3, t2_2, t2, 1,       //
+      3 * t2_2, 2 * t2, 1, 0   //
+      ;
+
+  Eigen::Vector4d v;
+  v << x1, dx1, x2, dx2;
+
+  Eigen::Vector4d abcd = M.inverse() * v;
+
+  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
+
+  return polynom;
+}
+
+void CubicSpline::compute_splines()
+{
+  _splines.clear();
+  if (_points.size() < 2)
+  {
+    return;
+  }
+
+  for (size_t i = 1; i < _points.size(); i++)
+  {
+    double t_start = _points[i - 1].t;
+    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
+                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
+                             _points[i - 1].t, _points[i].t };
+
+    _splines.push_back(spline);
+  }
+}
+
+}  // namespace placo::tools
-- 
2.43.0


From 6de507bd4744a616f9954dcb772e1c8733d0f698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:38 +0000
Subject: [PATCH 13/42] fix: acceleration of a cubic spline with a single point
 returned its slope

---
 src/placo/tools/cubic_spline.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index cf30174..65c2e42 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -68,10 +68,14 @@ double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
     {
       return _points.front().x;
     }
-    else
+    else if (type == Speed)
     {
       return _points.front().dx;
     }
+    else
+    {
+      return 0.0;
+    }
   }
   else
   {
-- 
2.43.0


From 802bb547aa21c4ee655e5ac120570e7eb105da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:38 +0000
Subject: [PATCH 14/42] fix: setting the end of a segment from Python wrote its
 start

---
 bindings/expose-tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-tools.cpp b/bindings/expose-tools.cpp
index 6ff38ad..47d9295 100644
--- a/bindings/expose-tools.cpp
+++ b/bindings/expose-tools.cpp
@@ -88,7 +88,7 @@ void exposeTools()
 
   class__<Segment>("Segment", init<Eigen::Vector2d, Eigen::Vector2d>())
       .add_property("start", &Segment::start, &Segment::start)
-      .add_property("end", &Segment::end, &Segment::start)
+      .add_property("end", &Segment::end, &Segment::end)
       .def("norm", &Segment::norm)
       .def("is_parallel", &Segment::is_parallel)
       .def("is_point_aligned", &Segment::is_point_aligned)
-- 
2.43.0


From 1de657667706b16c436bc5d6c9ce01bacc1d33e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:40 +0000
Subject: [PATCH 15/42] fix: dzmp of LIPM trajectories added the jerk term
 instead of subtracting it

---
 src/placo/humanoid/lipm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/lipm.cpp b/src/placo/humanoid/lipm.cpp
index 3e9ca1b..1e95559 100644
--- a/src/placo/humanoid/lipm.cpp
+++ b/src/placo/humanoid/lipm.cpp
@@ -37,7 +37,7 @@ Eigen::VectorXd LIPM::Trajectory::zmp(double t, double omega_2)
 
 Eigen::VectorXd LIPM::Trajectory::dzmp(double t, double omega_2)
 {
-  return vel(t) + (1 / omega_2) * jerk(t);
+  return vel(t) - (1 / omega_2) * jerk(t);
 }
 
 LIPM::LIPM()
-- 
2.43.0


From 1461a12e39627e9e0b6b5c5abc22671cdd4ad259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:50 +0000
Subject: [PATCH 16/42] fix: restore the CRLF line endings of cubic_spline.cpp

---
 src/placo/tools/cubic_spline.cpp | 388 +++++++++++++++----------------
 1 file changed, 194 insertions(+), 194 deletions(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index 65c2e42..2664615 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -1,194 +1,194 @@
-#include "placo/tools/cubic_spline.h"
-#include "placo/tools/utils.h"
-#include <Eigen/Dense>
-#include <algorithm>
-#include <cmath>
-#include <iostream>
-#include <vector>
-
-namespace placo::tools
-{
-CubicSpline::CubicSpline(bool angular) : angular(angular)
-{
-}
-
-void CubicSpline::add_point(double t, double x, double dx)
-{
-  // Discontinuity of angle
-  if (angular && _points.size() > 0)
-  {
-    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
-  }
-  struct Point point = { t, x, dx };
-
-  if (_points.size() > 0 && t <= _points.back().t)
-  {
-    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
-  }
-
-  _points.push_back(point);
-  dirty = true;
-}
-
-void CubicSpline::clear()
-{
-  _points.clear();
-  _splines.clear();
-}
-
-double CubicSpline::duration() const
-{
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-
-  return _points.back().t - _points.front().t;
-}
-
-/**
- * Return the spline interpolation
- * for given x position
- */
-double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
-{
-  if (dirty)
-  {
-    compute_splines();
-    dirty = false;
-  }
-
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-  else if (_points.size() == 1)
-  {
-    if (type == Value)
-    {
-      return _points.front().x;
-    }
-    else if (type == Speed)
-    {
-      return _points.front().dx;
-    }
-    else
-    {
-      return 0.0;
-    }
-  }
-  else
-  {
-    if (t < _splines.front().t_start)
-    {
-      t = _splines.front().t_start;
-    }
-    if (t > _splines.back().t_end)
-    {
-      t = _splines.back().t_end;
-    }
-
-    for (size_t i = 0; i < _splines.size(); i++)
-    {
-      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
-      {
-        if (type == Value)
-        {
-          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Speed)
-        {
-          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Acceleration)
-        {
-          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
-        }
-      }
-    }
-    return 0.0;
-  }
-}
-
-double CubicSpline::pos(double t)
-{
-  return interpolation(t, Value);
-}
-
-double CubicSpline::vel(double t)
-{
-  return interpolation(t, Speed);
-}
-
-double CubicSpline::acc(double t)
-{
-  return interpolation(t, Acceleration);
-}
-
-/**
- * Access to internal Points container
- */
-const CubicSpline::Points& CubicSpline::points() const
-{
-  return _points;
-}
-
-double CubicSpline::polynom_value(double t, const Polynom& p)
-{
-  return p.d + t * (t * (p.a * t + p.b) + p.c);
-}
-
-double CubicSpline::polynom_diff(double t, const Polynom& p)
-{
-  return t * (3 * p.a * t + 2 * p.b) + p.c;
-}
-
-double CubicSpline::polynom_diff2(double t, const Polynom& p)
-{
-  return 6 * p.a * t + 2 * p.b;
-}
-
-CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
-{
-  Eigen::Matrix4d M;
-  double t1_2 = t1 * t1;
-  double t1_3 = t1_2 * t1;
-  double t2_2 = t2 * t2;
-  double t2_3 = t2_2 * t2;
-
-  M << t1_3, t1_2, t1, 1,      //
-      3 * t1_2, 2 * t1, 1, 0,  //
-      t2_3, t2_2, t2, 1,       //
-      3 * t2_2, 2 * t2, 1, 0   //
-      ;
-
-  Eigen::Vector4d v;
-  v << x1, dx1, x2, dx2;
-
-  Eigen::Vector4d abcd = M.inverse() * v;
-
-  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
-
-  return polynom;
-}
-
-void CubicSpline::compute_splines()
-{
-  _splines.clear();
-  if (_points.size() < 2)
-  {
-    return;
-  }
-
-  for (size_t i = 1; i < _points.size(); i++)
-  {
-    double t_start = _points[i - 1].t;
-    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
-                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
-                             _points[i - 1].t, _points[i].t };
-
-    _splines.push_back(spline);
-  }
-}
-
-}  // namespace placo::tools
+#include "placo/tools/cubic_spline.h"
+#include "placo/tools/utils.h"
+#include <Eigen/Dense>
+#include <algorithm>
+#include <cmath>
+#include <iostream>
+#include <vector>
+
+namespace placo::tools
+{
+CubicSpline::CubicSpline(bool angular) : angular(angular)
+{
+}
+
+void CubicSpline::add_point(double t, double x, double dx)
+{
+  // Discontinuity of angle
+  if (angular && _points.size() > 0)
+  {
+    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
+  }
+  struct Point point = { t, x, dx };
+
+  if (_points.size() > 0 && t <= _points.back().t)
+  {
+    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
+  }
+
+  _points.push_back(point);
+  dirty = true;
+}
+
+void CubicSpline::clear()
+{
+  _points.clear();
+  _splines.clear();
+}
+
+double CubicSpline::duration() const
+{
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+
+  return _points.back().t - _points.front().t;
+}
+
+/**
+ * Return the spline interpolation
+ * for given x position
+ */
+double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
+{
+  if (dirty)
+  {
+    compute_splines();
+    dirty = false;
+  }
+
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+  else if (_points.size() == 1)
+  {
+    if (type == Value)
+    {
+      return _points.front().x;
+    }
+    else if (type == Speed)
+    {
+      return _points.front().dx;
+    }
+    else
+    {
+      return 0.0;
+    }
+  }
+  else
+  {
+    if (t < _splines.front().t_start)
+    {
+      t = _splines.front().t_start;
+    }
+    if (t > _splines.back().t_end)
+    {
+      t = _splines.back().t_end;
+    }
+
+    for (size_t i = 0; i < _splines.size(); i++)
+    {
+      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
+      {
+        if (type == Value)
+        {
+          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Speed)
+        {
+          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Acceleration)
+        {
+          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
+        }
+      }
+    }
+    return 0.0;
+  }
+}
+
+double CubicSpline::pos(double t)
+{
+  return interpolation(t, Value);
+}
+
+double CubicSpline::vel(double t)
+{
+  return interpolation(t, Speed);
+}
+
+double CubicSpline::acc(double t)
+{
+  return interpolation(t, Acceleration);
+}
+
+/**
+ * Access to internal Points container
+ */
+const CubicSpline::Points& CubicSpline::points() const
+{
+  return _points;
+}
+
+double CubicSpline::polynom_value(double t, const Polynom& p)
+{
+  return p.d + t * (t * (p.a * t + p.b) + p.c);
+}
+
+double CubicSpline::polynom_diff(double t, const Polynom& p)
+{
+  return t * (3 * p.a * t + 2 * p.b) + p.c;
+}
+
+double CubicSpline::polynom_diff2(double t, const Polynom& p)
+{
+  return 6 * p.a * t + 2 * p.b;
+}
+
+CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
+{
+  Eigen::Matrix4d M;
+  double t1_2 = t1 * t1;
+  double t1_3 = t1_2 * t1;
+  double t2_2 = t2 * t2;
+  double t2_3 = t2_2 * t2;
+
+  M << t1_3, t1_2, t1, 1,      //
+      3 * t1_2, 2 * t1, 1, 0,  //
+      t2_3, t2_2, t2, 1,       //
+      3 * t2_2, 2 * t2, 1, 0   //
+      ;
+
+  Eigen::Vector4d v;
+  v << x1, dx1, x2, dx2;
+
+  Eigen::Vector4d abcd = M.inverse() * v;
+
+  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
+
+  return polynom;
+}
+
+void CubicSpline::compute_splines()
+{
+  _splines.clear();
+  if (_points.size() < 2)
+  {
+    return;
+  }
+
+  for (size_t i = 1; i < _points.size(); i++)
+  {
+    double t_start = _points[i - 1].t;
+    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
+                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
+                             _points[i - 1].t, _points[i].t };
+
+    _splines.push_back(spline);
+  }
+}
+
+}  // namespace placo::tools
-- 
2.43.0


From 3ae8c6d3415f19cbd485d3b22618be68df07e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:13 +0000
Subject: [PATCH 17/42] fix: quintic swing foot was fitted in absolute time
 (missed its start and target as time grows), with oversized coefficient
 vectors and unset t_start/t_end

---
 src/placo/humanoid/swing_foot_quintic.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/placo/humanoid/swing_foot_quintic.cpp b/src/placo/humanoid/swing_foot_quintic.cpp
index 25fd927..55c3f30 100644
--- a/src/placo/humanoid/swing_foot_quintic.cpp
+++ b/src/placo/humanoid/swing_foot_quintic.cpp
@@ -5,7 +5,7 @@ namespace placo::humanoid
 {
 Eigen::VectorXd quintic_pos_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << pow(t, 5), pow(t, 4), pow(t, 3), pow(t, 2), pow(t, 1), 1;
 
@@ -14,7 +14,7 @@ Eigen::VectorXd quintic_pos_times(double t)
 
 Eigen::VectorXd quintic_d_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << 5 * pow(t, 4), 4 * pow(t, 3), 3 * pow(t, 2), 2 * pow(t, 1), 1, 0;
 
@@ -23,7 +23,7 @@ Eigen::VectorXd quintic_d_times(double t)
 
 Eigen::VectorXd quintic_dd_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << 20 * pow(t, 3), 12 * pow(t, 2), 6 * pow(t, 1), 2, 0, 0;
 
@@ -34,6 +34,12 @@ SwingFootQuintic::Trajectory SwingFootQuintic::make_trajectory(double t_start, d
                                                                Eigen::Vector3d start, Eigen::Vector3d target)
 {
   Trajectory trajectory;
+  trajectory.t_start = t_start;
+  trajectory.t_end = t_end;
+
+  // The polynom is expressed relatively to t_start, else the system gets ill-conditioned
+  t_end -= t_start;
+  t_start = 0.;
 
   double t_a = t_start + (t_end - t_start) / 4.;
   double t_b = t_start + 3 * (t_end - t_start) / 4.;
@@ -90,6 +96,7 @@ SwingFootQuintic::Trajectory SwingFootQuintic::make_trajectory(double t_start, d
 
 Eigen::Vector3d SwingFootQuintic::Trajectory::pos(double t)
 {
+  t -= t_start;
   double t_2 = t * t;
   double t_3 = t_2 * t;
   double t_4 = t_3 * t;
@@ -100,6 +107,7 @@ Eigen::Vector3d SwingFootQuintic::Trajectory::pos(double t)
 
 Eigen::Vector3d SwingFootQuintic::Trajectory::vel(double t)
 {
+  t -= t_start;
   double t_2 = t * t;
   double t_3 = t_2 * t;
   double t_4 = t_3 * t;
-- 
2.43.0


From fa4adcf750fc26b461bda2279b54e2e91350c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:13 +0000
Subject: [PATCH 18/42] fix: support polygons were returned from a cache not
 updated when a footstep's frame changes

---
 src/placo/humanoid/footsteps_planner.cpp | 40 +++++++++++-------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index a9262bd..37e5838 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -41,11 +41,9 @@ std::vector<Eigen::Vector2d> FootstepsPlanner::Footstep::compute_polygon(double
 
 std::vector<Eigen::Vector2d> FootstepsPlanner::Footstep::support_polygon()
 {
-  if (!computed_polygon)
-  {
-    polygon = compute_polygon();
-    computed_polygon = true;
-  }
+  // The frame and dimensions can be changed at any time by the user
+  polygon = compute_polygon();
+  computed_polygon = true;
 
   return polygon;
 }
@@ -108,29 +106,27 @@ FootstepsPlanner::Support::Support(std::vector<Footstep> footsteps) : footsteps(
 
 std::vector<Eigen::Vector2d> FootstepsPlanner::Support::support_polygon()
 {
-  if (!computed_polygon)
-  {
-    polygon.clear();
+  // The footsteps can be changed at any time by the user
+  polygon.clear();
 
-    b_polygon poly, hull;
-    for (auto& footstep : footsteps)
+  b_polygon poly, hull;
+  for (auto& footstep : footsteps)
+  {
+    for (auto& pt : footstep.support_polygon())
     {
-      for (auto& pt : footstep.support_polygon())
-      {
-        boost::geometry::append(poly, b_point(pt.x(), pt.y()));
-      }
+      boost::geometry::append(poly, b_point(pt.x(), pt.y()));
     }
+  }
 
-    // Boost convex hull is also clockwise
-    boost::geometry::convex_hull(poly, hull);
+  // Boost convex hull is also clockwise
+  boost::geometry::convex_hull(poly, hull);
 
-    for (auto& pt : hull.outer())
-    {
-      polygon.push_back(Eigen::Vector2d(pt.get<0>(), pt.get<1>()));
-    }
-    polygon.pop_back();
-    computed_polygon = true;
+  for (auto& pt : hull.outer())
+  {
+    polygon.push_back(Eigen::Vector2d(pt.get<0>(), pt.get<1>()));
   }
+  polygon.pop_back();
+  computed_polygon = true;
 
   return polygon;
 }
-- 
2.43.0


From a858e776eba52ab8cb4026c535029a8ae20b04f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:54 +0000
Subject: [PATCH 19/42] fix: footsteps crossing each other without a corner
 inside the other were not seen as overlapping

---
 src/placo/humanoid/footsteps_planner.cpp | 36 +++++++++++++++++-------
 src/placo/humanoid/footsteps_planner.h   |  5 ++++
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index 37e5838..4186d6c 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -68,29 +68,45 @@ bool FootstepsPlanner::Footstep::polygon_contains(std::vector<Eigen::Vector2d>&
   return true;
 }
 
-bool FootstepsPlanner::Footstep::overlap(Footstep& other, double margin)
+bool FootstepsPlanner::Footstep::polygon_separates(std::vector<Eigen::Vector2d>& polygon,
+                                                   std::vector<Eigen::Vector2d>& other)
 {
-  std::vector<Eigen::Vector2d> support1 = compute_polygon(margin);
-  std::vector<Eigen::Vector2d> support2 = other.compute_polygon(margin);
+  Eigen::Vector2d last_point = polygon[polygon.size() - 1];
 
-  for (auto pt : support1)
+  for (auto current_point : polygon)
   {
-    if (polygon_contains(support2, pt))
+    Eigen::Vector2d v = current_point - last_point;
+    Eigen::Vector2d n(v.y(), -v.x());
+    bool separates = true;
+
+    for (auto point : other)
     {
-      return true;
+      if (n.dot(point - last_point) >= 0)
+      {
+        separates = false;
+      }
     }
-  }
-  for (auto pt : support2)
-  {
-    if (polygon_contains(support1, pt))
+
+    if (separates)
     {
       return true;
     }
+
+    last_point = current_point;
   }
 
   return false;
 }
 
+bool FootstepsPlanner::Footstep::overlap(Footstep& other, double margin)
+{
+  std::vector<Eigen::Vector2d> support1 = compute_polygon(margin);
+  std::vector<Eigen::Vector2d> support2 = other.compute_polygon(margin);
+
+  // Two convex polygons are disjoint if and only if one of their edges separates them
+  return !polygon_separates(support1, support2) && !polygon_separates(support2, support1);
+}
+
 bool FootstepsPlanner::Footstep::operator==(const Footstep& other)
 {
   return side == other.side && frame.isApprox(other.frame);
diff --git a/src/placo/humanoid/footsteps_planner.h b/src/placo/humanoid/footsteps_planner.h
index 1b5ba4e..ebd36aa 100644
--- a/src/placo/humanoid/footsteps_planner.h
+++ b/src/placo/humanoid/footsteps_planner.h
@@ -35,6 +35,11 @@ public:
     bool overlap(Footstep& other, double margin = 0.);
 
     static bool polygon_contains(std::vector<Eigen::Vector2d>& polygon, Eigen::Vector2d point);
+
+    /**
+     * @brief Checks whether all the points of other are outside of one edge of the (clockwise) polygon
+     */
+    static bool polygon_separates(std::vector<Eigen::Vector2d>& polygon, std::vector<Eigen::Vector2d>& other);
   };
 
   /**
-- 
2.43.0


From 8c6eab27d2136815c2af80aa0364530359b4010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:39 +0000
Subject: [PATCH 20/42] fix: axis align task when the axes are already parallel
 (the rotation axis vanished and A became NaN)

---
 src/placo/kinematics/axis_align_task.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/placo/kinematics/axis_align_task.cpp b/src/placo/kinematics/axis_align_task.cpp
index 561f28e..2e02b32 100644
--- a/src/placo/kinematics/axis_align_task.cpp
+++ b/src/placo/kinematics/axis_align_task.cpp
@@ -20,7 +20,13 @@ void AxisAlignTask::update()
   // the rotation about z to be the error, and about y to be zero.
   Eigen::Matrix3d R_world_axisframe;
   R_world_axisframe.col(0) = (T_world_frame.rotation() * axis_frame).normalized();
-  R_world_axisframe.col(2) = R_world_axisframe.col(0).cross(targetAxis_world_normalized).normalized();
+  Eigen::Vector3d rotation_axis = R_world_axisframe.col(0).cross(targetAxis_world_normalized);
+  if (rotation_axis.norm() < 1e-8)
+  {
+    // The axes are parallel, any axis orthogonal to them can be used
+    rotation_axis = R_world_axisframe.col(0).unitOrthogonal();
+  }
+  R_world_axisframe.col(2) = rotation_axis.normalized();
   R_world_axisframe.col(1) = R_world_axisframe.col(2).cross(R_world_axisframe.col(0));
 
   // Computing the error angle we want to compensate
-- 
2.43.0


From ca89045fa195644844863a85ba6245e2af5db92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:48 +0000
Subject: [PATCH 21/42] fix: KineticEnergyRegularizationTask is a Task in the
 Python bindings (none of its methods could be called)

---
 bindings/expose-kinematics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-kinematics.cpp b/bindings/expose-kinematics.cpp
index a348cf4..2d7a020 100644
--- a/bindings/expose-kinematics.cpp
+++ b/bindings/expose-kinematics.cpp
@@ -235,7 +235,7 @@ void exposeKinematics()
       .def_readwrite("minimize", &ManipulabilityTask::minimize)
       .def_readonly("manipulability", &ManipulabilityTask::manipulability);
 
-  class__<KineticEnergyRegularizationTask, bases<RegularizationTask>>("KineticEnergyRegularizationTask");
+  class__<KineticEnergyRegularizationTask, bases<Task>>("KineticEnergyRegularizationTask");
 
   class__<Constraint, bases<tools::Prioritized>, boost::noncopyable>("KinematicsConstraint", no_init);
 
-- 
2.43.0


From 474ecfaf620a9b481792082fcedf39f5b06a5de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:13 +0000
Subject: [PATCH 22/42] fix: kinematics limits on a robot without joints (empty
 constraints were added and the solve failed)

---
 src/placo/kinematics/kinematics_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/kinematics/kinematics_solver.cpp b/src/placo/kinematics/kinematics_solver.cpp
index 8fbd85b..7871556 100644
--- a/src/placo/kinematics/kinematics_solver.cpp
+++ b/src/placo/kinematics/kinematics_solver.cpp
@@ -294,7 +294,7 @@ void KinematicsSolver::compute_limits_inequalities()
     throw std::runtime_error("You enabled velocity limits but didn't set solver.dt");
   }
 
-  if (joint_limits)
+  if (joint_limits && N > 6)
   {
     problem.add_constraint(robot.state.q.bottomRows(N - 6) + qd->expr(6) <=
                            robot.model.upperPositionLimit.bottomRows(N - 6));
@@ -303,7 +303,7 @@ void KinematicsSolver::compute_limits_inequalities()
                            robot.state.q.bottomRows(N - 6) + qd->expr(6));
   }
 
-  if (velocity_limits)
+  if (velocity_limits && N > 6)
   {
     problem.add_constraint(qd->expr(6) <= dt * robot.model.velocityLimit.bottomRows(N - 6));
     problem.add_constraint(-dt * robot.model.velocityLimit.bottomRows(N - 6) <= qd->expr(6));
-- 
2.43.0


From c911bb242bb012c18c462e8fbf606632053c0894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:09 +0000
Subject: [PATCH 23/42] fix: yaw constraint when the x axis is not in the plane
 (the derivative of the yaw was scaled by the axis' horizontal length)

---
 src/placo/kinematics/yaw_constraint.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/placo/kinematics/yaw_constraint.cpp b/src/placo/kinematics/yaw_constraint.cpp
index f4d84fd..4ec7f60 100644
--- a/src/placo/kinematics/yaw_constraint.cpp
+++ b/src/placo/kinematics/yaw_constraint.cpp
@@ -32,6 +32,13 @@ void YawConstraint::add_constraint(placo::problem::Problem& problem)
 
   Eigen::MatrixXd J_angle = yaw_axis.transpose() * J_relative;
 
+  // The yaw is the angle of the projection of the x axis on the xy plane
+  double projection = x_axis.head(2).norm();
+  if (projection > 0)
+  {
+    J_angle /= projection;
+  }
+
   // Expression for the angle
   problem::Expression e;
   e.A.resize(2, solver->N);
-- 
2.43.0


From 50b5e139c396e00f5595d643c5bff36b3d5f9ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:02 +0000
Subject: [PATCH 24/42] fix: tangential forces penalty of planar and line
 contacts (it applied to y and to the normal z instead of x and y)

---
 src/placo/dynamics/contacts.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index 2062cd3..f76f84d 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -138,7 +138,7 @@ void Contact6D::add_constraints(Problem& problem)
   }
   if (weight_tangentials > 0)
   {
-    problem.add_constraint(f.slice(F_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
+    problem.add_constraint(f.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
   {
@@ -212,7 +212,7 @@ void LineContact::add_constraints(Problem& problem)
   if (weight_tangentials > 0)
   {
     Expression f_surface = R_world_surface.transpose() * f;
-    problem.add_constraint(f_surface.slice(F_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
+    problem.add_constraint(f_surface.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
   {
-- 
2.43.0


From f7cf27d0cbc0b798124cce1dda0ff2f2483e29c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:02 +0000
Subject: [PATCH 25/42] fix: line contacts have five force components (the
 surface rotation was applied to all of them and M_Z was taken for M_Y)

---
 src/placo/dynamics/contacts.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index f76f84d..440ef13 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -184,7 +184,10 @@ void LineContact::add_constraints(Problem& problem)
     }
 
     // Expressing the force in the surface frame
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
+
+    // In a line contact, there are only two moments (M_Y and M_Z)
+    Expression m_y = f.slice(3, 1);
 
     // The contact is unilateral
     problem.add_constraint(f_surface.slice(F_Z, 1) >= 0);
@@ -192,8 +195,8 @@ void LineContact::add_constraints(Problem& problem)
     // We want the ZMPs to remain in the contacts
     // We add constraints in the form of:
     // -l_1 f_x <= m_y <= l_1 f_x
-    problem.add_constraint(f_surface.slice(M_Y, 1) <= ((length / 2) * f_surface.slice(F_Z, 1)));
-    problem.add_constraint((-(length / 2) * f_surface.slice(F_Z, 1)) <= f_surface.slice(M_Y, 1));
+    problem.add_constraint(m_y <= ((length / 2) * f_surface.slice(F_Z, 1)));
+    problem.add_constraint((-(length / 2) * f_surface.slice(F_Z, 1)) <= m_y);
 
     // We don't slip
     problem.add_constraint(f_surface.slice(F_X, 1) <= mu * f_surface.slice(F_Z, 1));
@@ -206,12 +209,12 @@ void LineContact::add_constraints(Problem& problem)
   // Objective
   if (weight_forces > 0)
   {
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
     problem.add_constraint(f_surface.slice(F_X, 3) == 0).configure(ProblemConstraint::Soft, weight_forces);
   }
   if (weight_tangentials > 0)
   {
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
     problem.add_constraint(f_surface.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
@@ -223,7 +226,9 @@ void LineContact::add_constraints(Problem& problem)
 
 Eigen::Vector3d LineContact::zmp()
 {
-  return Eigen::Vector3d(-wrench(M_Y, 0) / wrench(F_Z, 0), 0, 0);
+  double f_z = (R_world_surface.transpose() * wrench.head(3))(F_Z);
+
+  return Eigen::Vector3d(-wrench(3, 0) / f_z, 0, 0);
 }
 
 ExternalWrenchContact::ExternalWrenchContact(model::RobotWrapper::FrameIndex frame_index,
-- 
2.43.0


From 0bd005a661bd2433271a012a3fe04e2e3349b54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:11 +0000
Subject: [PATCH 26/42] fix: dynamics relative position task drift (angular
 instead of linear Jacobian variations, centripetal term counted twice)

---
 src/placo/dynamics/relative_position_task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/dynamics/relative_position_task.cpp b/src/placo/dynamics/relative_position_task.cpp
index 9b35bfc..79e2abc 100644
--- a/src/placo/dynamics/relative_position_task.cpp
+++ b/src/placo/dynamics/relative_position_task.cpp
@@ -50,8 +50,8 @@ void RelativePositionTask::update()
   J += a_R_w * (Jb.block(0, 0, 3, solver->N) - Ja.block(0, 0, 3, solver->N));
 
   Eigen::Vector3d e = 2 * pinocchio::skew(a_omega_w) * a_R_w * w_dAB;
-  e += 2 * pinocchio::skew(a_omega_w) * pinocchio::skew(a_omega_w) * a_AB;
-  e += a_R_w * (dJb.block(3, 0, 3, solver->N) - dJa.block(3, 0, 3, solver->N)) * solver->robot.state.qd;
+  e += pinocchio::skew(a_omega_w) * pinocchio::skew(a_omega_w) * a_AB;
+  e += a_R_w * (dJb.block(0, 0, 3, solver->N) - dJa.block(0, 0, 3, solver->N)) * solver->robot.state.qd;
   e += pinocchio::skew(a_AB) * a_R_w * dJa.block(3, 0, 3, solver->N) * solver->robot.state.qd;
 
   A = mask.apply(J);
-- 
2.43.0


From 1b6f6290f33025bd37724519c94beccecabed6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:11 +0000
Subject: [PATCH 27/42] fix: dynamics relative orientation task (logarithm
 Jacobian mixed with accelerations, target acceleration not rotated, frame
 rotation missing from the drift)

---
 src/placo/dynamics/relative_orientation_task.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/placo/dynamics/relative_orientation_task.cpp b/src/placo/dynamics/relative_orientation_task.cpp
index 95c1008..3b3a98a 100644
--- a/src/placo/dynamics/relative_orientation_task.cpp
+++ b/src/placo/dynamics/relative_orientation_task.cpp
@@ -39,14 +39,13 @@ void RelativeOrientationTask::update()
   Eigen::Vector3d world_omega_a_b_real = world_omega_b - world_omega_a;
   Eigen::Vector3d velocity_error_world = R_world_a * omega_a_b - world_omega_a_b_real;
 
-  Eigen::Vector3d desired_acceleration = kp * orientation_error_world + get_kd() * velocity_error_world + domega_a_b;
+  Eigen::Vector3d desired_acceleration = kp * orientation_error_world + get_kd() * velocity_error_world + R_world_a * domega_a_b;
 
-  Eigen::Matrix3d Jlog;
-  pinocchio::Jlog3(M, Jlog);
+  // Relative acceleration, as seen from the frame a (which rotates): J * qdd + e
+  Eigen::Vector3d e = (dJb - dJa) * solver->robot.state.qd - world_omega_a.cross(world_omega_a_b_real);
 
-  // Acceleration is: J * qdd + dJ * qd
-  A = mask.apply(Jlog * (Jb - Ja));
-  b = mask.apply(desired_acceleration - Jlog * (dJb * solver->robot.state.qd - dJa * solver->robot.state.qd));
+  A = mask.apply(Jb - Ja);
+  b = mask.apply(desired_acceleration - e);
   error = mask.apply(orientation_error_world);
   derror = mask.apply(velocity_error_world);
 }
-- 
2.43.0


From 1c5c3c43c976ea5ad004a4b93f48c2dfa38ce615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:11 +0000
Subject: [PATCH 28/42] fix: dynamics GearTask::set_gear removed the gears of
 every other joint

---
 src/placo/dynamics/gear_task.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/placo/dynamics/gear_task.cpp b/src/placo/dynamics/gear_task.cpp
index d5af82b..b0aac01 100644
--- a/src/placo/dynamics/gear_task.cpp
+++ b/src/placo/dynamics/gear_task.cpp
@@ -9,7 +9,9 @@ GearTask::GearTask()
 
 void GearTask::set_gear(std::string target, std::string source, double ratio)
 {
-  gears.clear();
+  int target_id = solver->robot.get_joint_v_offset(target);
+  gears[target_id].clear();
+
   add_gear(target, source, ratio);
 }
 
-- 
2.43.0


From a9efc19b1a77de4f1cb9d8b0e90d2d948c87dc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:11 +0000
Subject: [PATCH 29/42] fix: sign of the stiffness of torque tasks (the joint
 was pushed away instead of acting as the documented spring)

---
 src/placo/dynamics/torque_task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/dynamics/torque_task.cpp b/src/placo/dynamics/torque_task.cpp
index 4c7612a..e452acb 100644
--- a/src/placo/dynamics/torque_task.cpp
+++ b/src/placo/dynamics/torque_task.cpp
@@ -36,7 +36,7 @@ void TorqueTask::update()
   {
     TargetTau target = entry.second;
     A(k, solver->robot.get_joint_v_offset(entry.first)) = 1;
-    b(k, 0) = target.torque + target.kp * solver->robot.get_joint(entry.first) -
+    b(k, 0) = target.torque - target.kp * solver->robot.get_joint(entry.first) -
               target.kd * solver->robot.get_joint_velocity(entry.first);
     k++;
   }
-- 
2.43.0


From 73815c88816f93aba0e27deccfd3941e9a956c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:11 +0000
Subject: [PATCH 30/42] fix: R_world_surface of line contacts could not be read
 or written from Python (bound for point contacts)

---
 bindings/expose-dynamics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index f4744e1..6ccc508 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -77,8 +77,8 @@ void exposeDynamics()
       .def_readwrite("length", &LineContact::length)
       .def("zmp", &LineContact::zmp)
       .add_property(
-          "R_world_surface", +[](PointContact& contact) { return contact.R_world_surface; },
-          +[](PointContact& contact, Eigen::Matrix3d R) { contact.R_world_surface = R; });
+          "R_world_surface", +[](LineContact& contact) { return contact.R_world_surface; },
+          +[](LineContact& contact, Eigen::Matrix3d R) { contact.R_world_surface = R; });
 
   class__<ExternalWrenchContact, bases<Contact>>("ExternalWrenchContact", init<RobotWrapper::FrameIndex>())
       .add_property("frame_index", &ExternalWrenchContact::frame_index)
-- 
2.43.0


From 922d4298124280d252c3e97bc4c43f87aa8a401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:11 +0000
Subject: [PATCH 31/42] fix: dynamics of a robot without joints (empty
 constraints made every solve fail)

---
 src/placo/dynamics/dynamics_solver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/placo/dynamics/dynamics_solver.cpp b/src/placo/dynamics/dynamics_solver.cpp
index e112249..026a2d7 100644
--- a/src/placo/dynamics/dynamics_solver.cpp
+++ b/src/placo/dynamics/dynamics_solver.cpp
@@ -216,7 +216,7 @@ void DynamicsSolver::compute_limits_inequalities(Expression& tau)
     throw std::runtime_error("DynamicsSolver::compute_limits_inequalities: dt is not set");
   }
 
-  if (torque_limits)
+  if (torque_limits && N > 6)
   {
     Eigen::VectorXd effort_limit = robot.model.effortLimit;
     for (auto& entry : overriden_torque_limits)
@@ -510,7 +510,10 @@ DynamicsSolver::Result DynamicsSolver::solve(bool integrate)
   }
 
   // We want to minimize actuated torques
-  problem.add_constraint(tau.slice(6) == 0).configure(ProblemConstraint::Soft, torque_cost);
+  if (N > 6)
+  {
+    problem.add_constraint(tau.slice(6) == 0).configure(ProblemConstraint::Soft, torque_cost);
+  }
 
   try
   {
-- 
2.43.0


From ae313ff5dda8717cfdde596b3b4d5b6391bc26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:12 +0000
Subject: [PATCH 32/42] fix: DynamicsSolver::remove_task deleted tasks it does
 not own

---
 src/placo/dynamics/dynamics_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/placo/dynamics/dynamics_solver.cpp b/src/placo/dynamics/dynamics_solver.cpp
index 026a2d7..f7afe52 100644
--- a/src/placo/dynamics/dynamics_solver.cpp
+++ b/src/placo/dynamics/dynamics_solver.cpp
@@ -569,7 +569,10 @@ void DynamicsSolver::remove_task(Task& task)
 {
   tasks.erase(&task);
 
-  delete &task;
+  if (task.solver_memory)
+  {
+    delete &task;
+  }
 }
 
 void DynamicsSolver::remove_task(FrameTask& task)
-- 
2.43.0


From a00afba91b2b5d4fcca7ec7f9d942a7046c62837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:46 +0000
Subject: [PATCH 33/42] fix: unknown joint names are rejected by all joint
 accessors

get_joint_size, get_joint_v_offset, get_joint_v_size (and everything built on them)
and the joint Jacobians indexed the model out of bounds instead of throwing.
---
 src/placo/model/robot_wrapper.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 152501c..8d5c10a 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -193,7 +193,7 @@ double RobotWrapper::get_joint(const std::string& name)
   return state.q[get_joint_offset(name)];
 }
 
-int RobotWrapper::get_joint_offset(const std::string& name)
+static pinocchio::JointIndex get_joint_index(const pinocchio::Model& model, const std::string& name)
 {
   if (!model.existJointName(name))
   {
@@ -202,25 +202,30 @@ int RobotWrapper::get_joint_offset(const std::string& name)
     throw std::runtime_error(oss.str());
   }
 
-  auto index = model.getJointId(name);
+  return model.getJointId(name);
+}
+
+int RobotWrapper::get_joint_offset(const std::string& name)
+{
+  auto index = get_joint_index(model, name);
   return model.joints[index].idx_q();
 }
 
 int RobotWrapper::get_joint_size(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].nq();
 }
 
 int RobotWrapper::get_joint_v_offset(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].idx_v();
 }
 
 int RobotWrapper::get_joint_v_size(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].nv();
 }
 
@@ -585,7 +590,7 @@ Eigen::MatrixXd RobotWrapper::frame_jacobian_time_variation(pinocchio::FrameInde
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian(model.getJointId(joint), string_to_reference(reference));
+  return joint_jacobian(get_joint_index(model, joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
@@ -599,7 +604,7 @@ Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocc
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian(model.getJointId(joint), string_to_reference(reference));
+  return joint_jacobian(get_joint_index(model, joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
-- 
2.43.0


From 874aa2f5a6b6d3fa1826463b5c2cc39af749ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:46 +0000
Subject: [PATCH 34/42] fix: joint_jacobian_time_variation(name, reference)
 returns the time variation

---
 src/placo/model/robot_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 8d5c10a..8df11f5 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -604,7 +604,7 @@ Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocc
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian(get_joint_index(model, joint), string_to_reference(reference));
+  return joint_jacobian_time_variation(get_joint_index(model, joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
-- 
2.43.0


From f69884773cf40e06034836bc5ae7946ee7d87120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:46 +0000
Subject: [PATCH 35/42] fix: torques with a fixed frame account for the
 floating base acceleration

torques_from_acceleration_with_fixed_frame ignored the inertial coupling of the actuated
accelerations with the floating base (which moves when the frame is fixed).
---
 src/placo/model/robot_wrapper.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 8df11f5..089fbbc 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -741,15 +741,19 @@ Eigen::VectorXd RobotWrapper::torques_from_acceleration_with_fixed_frame(Eigen::
   auto h = non_linear_effects();
   auto M = mass_matrix();
 
-  // Compute f the forces fixing the frame
+  // The frame being fixed, the acceleration of the floating base is given by J * qdd + dJ * qd = 0
   Eigen::MatrixXd J = frame_jacobian(frameIndex);
-  Eigen::VectorXd f = J.transpose().block(0, 0, 6, 6).inverse() * h.block(0, 0, 6, 1);
+  Eigen::MatrixXd dJ = frame_jacobian_time_variation(frameIndex);
+  Eigen::MatrixXd Ju_inv = J.leftCols(6).inverse();
+  Eigen::VectorXd qdd(model.nv);
+  qdd << -Ju_inv * (J.rightCols(model.nv - 6) * qdd_a + dJ * state.qd), qdd_a;
 
-  auto h_a = h.bottomRows(model.nv - 6);
-  auto M_a = M.bottomRightCorner(model.nv - 6, model.nv - 6);
+  // Compute f the forces fixing the frame, no torque can be provided by the floating base
+  Eigen::VectorXd tau = M * qdd + h;
+  Eigen::VectorXd f = Ju_inv.transpose() * tau.topRows(6);
 
   // Compute the torques
-  return M_a * qdd_a + h_a - (J.transpose() * f).bottomRows(model.nv - 6);
+  return (tau - J.transpose() * f).bottomRows(model.nv - 6);
 }
 
 Eigen::VectorXd RobotWrapper::torques_from_acceleration_with_fixed_frame(Eigen::VectorXd qdd_a, std::string frame)
-- 
2.43.0


From 47696fc6bfb0a2f1fdb3751fa24e5c464026cb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:50 +0000
Subject: [PATCH 36/42] fix: get_prev_support overwrote a part of the
 trajectory

The previous part was assigned through a reference to the current one.
---
 src/placo/humanoid/walk_pattern_generator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 2df25ab..39425b0 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -280,12 +280,13 @@ FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_next_support(dou
 
 FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_prev_support(double t, int n)
 {
-  TrajectoryPart& part = _findPart(parts, t);
-  for (int i = 0; i < n; i++)
+  int index;
+  _findPart(parts, t, &index);
+  if (index - n < 0)
   {
-    part = _findPart(parts, part.t_start - 1e-4);
+    return T * parts.front().support;
   }
-  return T * part.support;
+  return T * parts[index - n].support;
 }
 
 std::vector<FootstepsPlanner::Support> WalkPatternGenerator::Trajectory::get_supports()
-- 
2.43.0


From ece36df430a81df3d76a12815c8e2828b20c4b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:50 +0000
Subject: [PATCH 37/42] fix: the velocity of the feet is zero in double support
 (it threw)

---
 src/placo/humanoid/walk_pattern_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 39425b0..eace7ab 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -124,7 +124,7 @@ Eigen::Affine3d WalkPatternGenerator::Trajectory::get_T_world_foot(HumanoidRobot
 Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_left(double t)
 {
   TrajectoryPart& part = _findPart(parts, t);
-  if (part.support.side() == HumanoidRobot::Right)
+  if (is_flying(HumanoidRobot::Left, t))
   {
     return T.linear() * part.swing_trajectory.vel(t);
   }
@@ -134,7 +134,7 @@ Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_left(double t)
 Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_right(double t)
 {
   TrajectoryPart& part = _findPart(parts, t);
-  if (part.support.side() == HumanoidRobot::Left)
+  if (is_flying(HumanoidRobot::Right, t))
   {
     return T.linear() * part.swing_trajectory.vel(t);
   }
-- 
2.43.0


From 981c882dc233d3429a5ea1ed3e5098d44a91f427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:50 +0000
Subject: [PATCH 38/42] fix: get_com_velocity assumed 20 actuated degrees of
 freedom

---
 src/placo/humanoid/humanoid_robot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/humanoid_robot.cpp b/src/placo/humanoid/humanoid_robot.cpp
index cd38c52..c55b0fb 100644
--- a/src/placo/humanoid/humanoid_robot.cpp
+++ b/src/placo/humanoid/humanoid_robot.cpp
@@ -140,7 +140,7 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   // CoM Jacobians
   Eigen::Matrix3Xd J_C = com_jacobian();
   Eigen::Matrix3Xd J_u_C = J_C.leftCols(6);
-  Eigen::Matrix3Xd J_a_C = J_C.rightCols(20);
+  Eigen::Matrix3Xd J_a_C = J_C.rightCols(model.nv - 6);
 
   // Support foot
   Eigen::MatrixXd J_contact = frame_jacobian(support_frame, pinocchio::ReferenceFrame::LOCAL);
@@ -151,7 +151,7 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   Eigen::MatrixXd J(6, J_contact.cols());
   J << J_contact.topRows(3), J_IMU.bottomRows(3);
   Eigen::MatrixXd J_u = J.leftCols(6);
-  Eigen::MatrixXd J_a = J.rightCols(20);
+  Eigen::MatrixXd J_a = J.rightCols(model.nv - 6);
 
   Eigen::MatrixXd J_u_inv = J_u.inverse();
 
-- 
2.43.0


From f6a87bd513372c0199d43a7faefc26d645e3c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:05 +0000
Subject: [PATCH 39/42] fix: the position errors of the feet overwrote their
 orientation errors in get_tasks_error

---
 src/placo/humanoid/walk_tasks.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index 8f46098..9ccc3ec 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -150,8 +150,8 @@ std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
   std::map<std::string, Eigen::Vector3d> error;
   error["left_foot_orientation"] = left_foot_task.orientation->error();
   error["right_foot_orientation"] = right_foot_task.orientation->error();
-  error["left_foot_orientation"] = left_foot_task.position->error();
-  error["right_foot_orientation"] = right_foot_task.position->error();
+  error["left_foot_position"] = left_foot_task.position->error();
+  error["right_foot_position"] = right_foot_task.position->error();
   error["trunk_orientation"] = trunk_orientation_task->error();
   if (trunk_mode)
   {
-- 
2.43.0


From ebde88b2efeadd28a49f6a15fbccdf4fd60ed537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:05 +0000
Subject: [PATCH 40/42] fix: the accumulated DCM error of the walk tasks was
 not initialised

---
 src/placo/humanoid/walk_tasks.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.h b/src/placo/humanoid/walk_tasks.h
index 38a43b6..3bf6f65 100644
--- a/src/placo/humanoid/walk_tasks.h
+++ b/src/placo/humanoid/walk_tasks.h
@@ -48,7 +48,7 @@ public:
   double K_d = 0.;
 
   double lambda = 0.01;
-  Eigen::Vector2d integral;
-  Eigen::Vector2d last_error;
+  Eigen::Vector2d integral = Eigen::Vector2d::Zero();
+  Eigen::Vector2d last_error = Eigen::Vector2d::Zero();
 };
 }  // namespace placo::humanoid
\ No newline at end of file
-- 
2.43.0


From f78dd127820d042c151ba35ff7bf204870bbd2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:05 +0000
Subject: [PATCH 41/42] fix: reading WalkTasks.solver from Python copied the
 solver and freed its tasks

---
 bindings/expose-walk-pattern-generator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 705461b..2b3c4f0 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -132,8 +132,9 @@ void exposeWalkPatternGenerator()
             }
             return dict;
           })
-      .add_property(
-          "solver", +[](WalkTasks& tasks) { return *tasks.solver; })
+      .add_property("solver", make_function(
+                                  +[](WalkTasks& tasks) -> KinematicsSolver& { return *tasks.solver; },
+                                  return_value_policy<reference_existing_object>()))
       .add_property("scaled", &WalkTasks::scaled, &WalkTasks::scaled)
       .add_property("left_foot_task", &WalkTasks::left_foot_task)
       .add_property("right_foot_task", &WalkTasks::right_foot_task)
-- 
2.43.0


From cc5ee79a653bd44653ccfa2a45c21ea3242868f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:21 +0000
Subject: [PATCH 42/42] fix: the dummy walk placed its support from outdated
 kinematics

---
 src/placo/humanoid/dummy_walk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/placo/humanoid/dummy_walk.cpp b/src/placo/humanoid/dummy_walk.cpp
index ebb7718..85b6d3b 100644
--- a/src/placo/humanoid/dummy_walk.cpp
+++ b/src/placo/humanoid/dummy_walk.cpp
@@ -94,6 +94,8 @@ void DummyWalk::update_T_world_support(Eigen::Affine3d T_world_support)
   T_world_right = tools::flatten_on_floor(T * T_world_right);
   T_world_next = tools::flatten_on_floor(T * T_world_next);
 
+  // The last solve changed the configuration since the kinematics were updated
+  robot.update_kinematics();
   if (support_left)
   {
     robot.set_T_world_frame("left_foot", T_world_left);
-- 
2.43.0

