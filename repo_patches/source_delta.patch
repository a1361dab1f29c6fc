From e1ff34339842834c60c24778502c12af4ee04057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 01/27] fix: use the parity of the leading non-zero term when
 evaluating a Polynomial at infinity

---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 837c3a6..739812d 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -242,7 +242,7 @@ namespace sym {
 	for(size_t i = Order; i > 0; --i)
 	  if (f[i] != empty_sum(f[0])) {
 	    //Determine if this is an odd or even function of x
-	    if (Order % 2)
+	    if (i % 2)
 	      //This is an odd function of x, the sign of x matters
 	      return f[i] * x;
 	    else
-- 
2.43.0


From 9a43a49dad1079c85e76e25cc2268c02d1c33ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 02/27] fix: deflating a linear Polynomial must not run the
 deflation loop out of bounds

---
 stator/symbolic/polynomial.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 739812d..7164d13 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -711,6 +711,10 @@ namespace sym {
     b[Order-1] = a[Order];
     b[0] = - a[0] / root;
 
+    //A linear polynomial has no further coefficients to calculate
+    if (Order < 2)
+	return b;
+
     size_t i_t = Order-2;
     size_t i_b = 1;
     while (i_t >= i_b) {
-- 
2.43.0


From b4259c074e0334cc83736931353567e50ad52cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 03/27] fix: report the double root of x^2 once, like every
 other double root

---
 stator/symbolic/polynomial.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 7164d13..d9c2fd1 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -793,6 +793,10 @@ namespace sym {
     //Scale the constant of x^2 to 1
     f = expand(f / f[2]);
     
+    if ((f[0] == 0) && (f[1] == 0))
+	//We have x^2 = 0, a double root at zero
+	return StackVector<double, 2>{0.0};
+
     if (f[0] == 0)
 	//There is no constant term, so we actually have x^2 + f[1] * x = 0
 	return StackVector<double, 2>{std::min(-f[1], 0.0), std::max(-f[1], 0.0)};
-- 
2.43.0


From d273916ab34c1c44d6ea4cbf43111f23c4dba5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 04/27] fix: keep the root x=0 when the general root solver
 deflates a zero constant term

---
 stator/symbolic/polynomial.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index d9c2fd1..67c53bb 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1876,9 +1876,17 @@ namespace sym {
   StackVector<Coeff_t, Order>
   solve_real_roots(const Polynomial<Order, Coeff_t, PolyVar>& f) {
     //Handle special cases 
-    //The constant coefficient is zero: deflate the polynomial
-    if (f[0] == Coeff_t())
-	return solve_real_roots(deflate_polynomial(f, Null()));
+    //The constant coefficient is zero: x=0 is a root, deflate the
+    //polynomial to find the others
+    if (f[0] == Coeff_t()) {
+	StackVector<Coeff_t, Order> roots = solve_real_roots(deflate_polynomial(f, Null()));
+	if (f[1] != Coeff_t()) {
+	  //The deflated polynomial does not have the root x=0 too
+	  roots.push_back(Coeff_t());
+	  std::sort(roots.begin(), roots.end());
+	}
+	return roots;
+    }
     
     //The highest order coefficient is zero: drop to lower order
     //solvers
-- 
2.43.0


From 5d4c9721aff963057d763dd73e4840d822d96e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:45 +0000
Subject: [PATCH 05/27] fix: schroeder_step used twice the product of value and
 derivative instead of the Newton ratio

---
 stator/symbolic/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/numeric.hpp b/stator/symbolic/numeric.hpp
index 3484956..e57e9f1 100644
--- a/stator/symbolic/numeric.hpp
+++ b/stator/symbolic/numeric.hpp
@@ -141,7 +141,7 @@ namespace stator {
 	//Cannot proceed with a zero first derivative
 	return 0;
 
-      return detail::process_iterative_step(f, curr_state, x, x - 2 * curr_state[0] * curr_state[1] - curr_state[2] * curr_state[0] * curr_state[0] / (2 * curr_state[1] * curr_state[1] * curr_state[1]), low_bound, high_bound, x_precision);
+      return detail::process_iterative_step(f, curr_state, x, x - curr_state[0] / curr_state[1] - curr_state[2] * curr_state[0] * curr_state[0] / (2 * curr_state[1] * curr_state[1] * curr_state[1]), low_bound, high_bound, x_precision);
     }
 
     /*! \brief A single bisection step.
-- 
2.43.0


From 0512b71657f07ba76e3423a279f2e3fe28a68a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:48 +0000
Subject: [PATCH 06/27] fix: StackVector compares by size and elements and
 includes what it uses

---
 stator/orphan/stack_vector.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/stator/orphan/stack_vector.hpp b/stator/orphan/stack_vector.hpp
index 01b6fa5..b6e4042 100644
--- a/stator/orphan/stack_vector.hpp
+++ b/stator/orphan/stack_vector.hpp
@@ -20,6 +20,7 @@
 #pragma once
 
 // C++
+#include <algorithm>
 #include <array>
 #include <ostream>
 
@@ -142,6 +143,19 @@ namespace stator {
       size_t _size;
     };
 
+    /*! \brief Element-wise comparison of the elements currently stored
+        (the unused storage of the containers is ignored). */
+    template<class T, size_t Nmax1, size_t Nmax2>
+    bool operator==(const StackVector<T, Nmax1>& l, const StackVector<T, Nmax2>& r) {
+      return (l.size() == r.size()) && std::equal(l.begin(), l.end(), r.begin());
+    }
+
+    /*! \brief Inequality comparison of StackVector classes. */
+    template<class T, size_t Nmax1, size_t Nmax2>
+    bool operator!=(const StackVector<T, Nmax1>& l, const StackVector<T, Nmax2>& r) {
+      return !(l == r);
+    }
+
     /*! Output operator for pretty printing StackVector classes. */
     template<class T, size_t Nmax>
     std::ostream& operator<<(std::ostream& os, const StackVector<T,Nmax>&s) {
-- 
2.43.0


From 5608e7a39b41ebb6d366dfbc0f694896bfeeb24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:48 +0000
Subject: [PATCH 07/27] fix: iterating over a fixed-size Array stops at its
 last element

---
 stator/symbolic/array.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stator/symbolic/array.hpp b/stator/symbolic/array.hpp
index d07595b..10e55f8 100644
--- a/stator/symbolic/array.hpp
+++ b/stator/symbolic/array.hpp
@@ -113,8 +113,9 @@ namespace sym
 
     auto begin() const { return Base::_store.begin(); }
     auto begin() { return Base::_store.begin(); }
-    auto end() const { return Base::_store.end(); }
-    auto end() { return Base::_store.end(); }
+    // The storage may be larger than the array if it is fixed-size
+    auto end() const { return Base::_store.begin() + size(); }
+    auto end() { return Base::_store.begin() + size(); }
 
     void resize(const Coords &d)
     {
@@ -175,8 +176,9 @@ namespace sym
 
     auto begin() const { return Base::_store.begin(); }
     auto begin() { return Base::_store.begin(); }
-    auto end() const { return Base::_store.end(); }
-    auto end() { return Base::_store.end(); }
+    // The storage may be larger than the array if it is fixed-size
+    auto end() const { return Base::_store.begin() + size(); }
+    auto end() { return Base::_store.begin() + size(); }
 
     Coords getDimensions() const { return _dimensions; }
 
-- 
2.43.0


From 21d89002e781e3382d65f095e4247c0b0e6e155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:48 +0000
Subject: [PATCH 08/27] fix: sin of odd multiples of pi/2 is a constant

---
 stator/symbolic/constants.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/constants.hpp b/stator/symbolic/constants.hpp
index ca8a954..015fafc 100644
--- a/stator/symbolic/constants.hpp
+++ b/stator/symbolic/constants.hpp
@@ -181,9 +181,12 @@ namespace sym {
 	   typename = typename std::enable_if<is_whole_factor<std::ratio<num, den>, pi>::value>::type>
   constexpr Null sin_Cimpl(const C<num, den>& a, detail::choice<0>) { return {}; }
 
+  //simplify sin((i + 1/2) * pi), which is 1 for even i and -1 for odd i
   template<std::intmax_t num, std::intmax_t den,
 	   typename = typename std::enable_if<is_whole_factor<std::ratio<num, den>, pi, decltype(pi() / C<2>())>::value>::type>
-  constexpr Unity sin_Cimpl(const C<num, den>& a, detail::choice<0>) { return {}; }
+  constexpr auto sin_Cimpl(const C<num, den>& a, detail::choice<0>) {
+    return C<1 - 2 * (decltype(C<num, den>() / pi() - C<1,2>())::num % 2 != 0)>();
+  }
 
   template<std::intmax_t num, std::intmax_t den,
 	   typename = typename std::enable_if<is_whole_factor<std::ratio<num, den>, pi>::value>::type>
-- 
2.43.0


From b6aa7118a99e53d8245cb6041437eddcfd602c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:48 +0000
Subject: [PATCH 09/27] fix: ad of non-negative integer powers where the base
 is zero

---
 stator/symbolic/ad.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/stator/symbolic/ad.hpp b/stator/symbolic/ad.hpp
index 1c65049..14b2780 100644
--- a/stator/symbolic/ad.hpp
+++ b/stator/symbolic/ad.hpp
@@ -164,6 +164,22 @@ namespace sym {
     Eigen::Matrix<double, Nd+1,1> ad_pow(const LHS_t& lhs, const double& a, const EqualityOp<Var_t, Arg_t>& sub) {
       Eigen::Matrix<double, Nd+1,1> g = ad<Nd>(lhs, sub);
       Eigen::Matrix<double, Nd+1,1> result = Eigen::Matrix<double, Nd+1,1>::Zero();
+
+      if ((g[0] == 0) && (a >= 0) && (a == std::floor(a))) {
+	//The recurrence below divides by g[0], but non-negative
+	//integer powers of a series without a constant term are just
+	//repeated products, which vanish once the power exceeds Nd.
+	if (a > Nd) return result;
+	result[0] = 1;
+	for (size_t n(0); n < size_t(a); ++n)
+	  for (size_t k(Nd+1); k-- > 0;) {
+	    double sum = 0;
+	    for (size_t i(1); i <= k; ++i)
+	      sum += g[i] * result[k - i];
+	    result[k] = sum;
+	  }
+	return result;
+      }
     
       result[0] = std::pow(g[0], a);
     
-- 
2.43.0


From 263a9a6b4612f5615a7c7ab800c4b31038ae893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 10/27] fix: Array rejects initialiser lists of the wrong size,
 and a rejected resize keeps the old dimensions

---
 stator/symbolic/array.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stator/symbolic/array.hpp b/stator/symbolic/array.hpp
index 10e55f8..bc7343c 100644
--- a/stator/symbolic/array.hpp
+++ b/stator/symbolic/array.hpp
@@ -90,6 +90,8 @@ namespace sym
     Addressing(const Coords &d, std::initializer_list<T> vals)
     {
       resize(d);
+      if (vals.size() != size())
+        stator_throw() << "The number of values does not match the array dimensions";
       Base::_store = typename Base::Store(vals);
     }
 
@@ -171,6 +173,8 @@ namespace sym
     Addressing(const Coords &d, std::initializer_list<T> vals)
     {
       resize(d);
+      if (vals.size() != size())
+        stator_throw() << "The number of values does not match the array dimensions";
       Base::_store = typename Base::Store(vals);
     }
 
@@ -210,13 +214,17 @@ namespace sym
 
     void resize(const Coords &d)
     {
+      const Coords old = _dimensions;
       _dimensions = d;
       if constexpr (StoreSize == -1u)
       {
         Base::_store.resize(store_size());
       }
       else if (store_size() > StoreSize)
+      {
+        _dimensions = old;
         stator_throw() << "StoreSize is too small for this dimensionality";
+      }
     }
 
     size_t size() const
-- 
2.43.0


From c61752c44aea88e0414b88a07610d150d637ab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 11/27] fix: derivative of a dictionary no longer recurses
 without end

---
 stator/symbolic/dict.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stator/symbolic/dict.hpp b/stator/symbolic/dict.hpp
index aa79cb8..815fd4a 100644
--- a/stator/symbolic/dict.hpp
+++ b/stator/symbolic/dict.hpp
@@ -89,6 +89,17 @@ namespace sym {
     return out_ptr;
   }
 
+  /*! \brief Element-wise derivative of the values of a dictionary. */
+  template<typename Key, typename Value, typename Var>
+  auto derivative(const Dict<Key, Value>& in, const Var& x) {
+    auto out_ptr = Dict<Key, decltype(store(derivative(in.begin()->second, x)))>::create();
+    auto& out = sym::detail::unwrap(out_ptr);
+
+    for (const auto& p : in)
+      out[p.first] = derivative(p.second, x);
+    return out_ptr;
+  }
+
   template<class Config = DefaultReprConfig, typename ...Args>
   inline std::string repr(const Dict<Args...>& f)
   {
-- 
2.43.0


From 33aa76e1db55cf699f8a5b925971c0264b80a80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 12/27] fix: repr of an operator holding a dictionary no longer
 recurses without end

---
 stator/symbolic/dict.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stator/symbolic/dict.hpp b/stator/symbolic/dict.hpp
index 815fd4a..46617b3 100644
--- a/stator/symbolic/dict.hpp
+++ b/stator/symbolic/dict.hpp
@@ -100,6 +100,12 @@ namespace sym {
     return out_ptr;
   }
 
+  /*! \brief Returns the binding powers for dictionaries, which are
+    always delimited by braces so cannot be split. */
+  template<typename ...Args>
+  std::pair<int, int> BP(const Dict<Args...>& v)
+  { return std::make_pair(std::numeric_limits<int>::max(), std::numeric_limits<int>::max()); }
+
   template<class Config = DefaultReprConfig, typename ...Args>
   inline std::string repr(const Dict<Args...>& f)
   {
-- 
2.43.0


From 03c07a79056dc4e4c2211aaf18468fd9372b5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 13/27] fix: derivative of a value with units no longer
 recurses without end

---
 stator/symbolic/units.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stator/symbolic/units.hpp b/stator/symbolic/units.hpp
index f13ea43..9db3bde 100644
--- a/stator/symbolic/units.hpp
+++ b/stator/symbolic/units.hpp
@@ -84,6 +84,13 @@ namespace sym
     return detail::units_impl(l, r, detail::select_overload{});
   }
 
+  /*! \brief Derivatives of a value with units keep the units. */
+  template <class Var, class LHS, class RHS>
+  auto derivative(const UnitsOp<LHS, RHS> &f, const Var &v)
+  {
+    return units(derivative(f._l, v), f._r);
+  }
+
   /*! \brief the specialisations of units operations */
   template <class LLHS, class LRHS, class RLHS, class RRHS>
   auto multiply_impl(const UnitsOp<LLHS, LRHS> &l, const UnitsOp<RLHS, RRHS> &r, detail::choice<0>)
-- 
2.43.0


From a20cceed824b4d0abddc90239f59db0353cff9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 14/27] fix: scaling a value with units from the left keeps its
 units

---
 stator/symbolic/units.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/units.hpp b/stator/symbolic/units.hpp
index 9db3bde..cbce898 100644
--- a/stator/symbolic/units.hpp
+++ b/stator/symbolic/units.hpp
@@ -107,7 +107,7 @@ namespace sym
   template <class RLHS, class RRHS, class LHS>
   auto multiply_impl(const LHS &l, const UnitsOp<RLHS, RRHS> &r, detail::choice<1>)
   {
-    return units(l * r._l, r._l);
+    return units(l * r._l, r._r);
   }
 
   template <class LLHS, class LRHS, class RLHS, class RRHS>
-- 
2.43.0


From 6c446fa3986de1dca67b273cf1f3cc326ba68a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 15/27] fix: derivative of an uncertainty is rejected instead
 of recursing without end

---
 stator/symbolic/runtime.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index c2d9263..c54fd62 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -968,6 +968,12 @@ namespace sym
         return Expr(derivative(v, _var));
       }
 
+      //There is no derivative rule for uncertainties
+      Expr apply(const UncertaintyOp<Expr, Expr> &v)
+      {
+        stator_throw() << "No derivative is available for " << repr(v);
+      }
+
       const VarRT &_var;
     };
   }
-- 
2.43.0


From 9290ca0c3eb00e420c801c5090dfddcbfe377074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 16/27] fix: fast_sub used members that EqualityOp does not
 have

---
 stator/symbolic/runtime.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index c54fd62..3816764 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -1076,7 +1076,8 @@ namespace sym
   template <class Var>
   double fast_sub(const Expr &f, const EqualityOp<Var, double> &rel)
   {
-    detail::FastSubRT visitor(rel._var, rel._val);
+    auto v_ptr = VarRT::create(rel._l);
+    detail::FastSubRT visitor(*v_ptr, rel._r);
     f->visit(visitor);
     return visitor._intermediate;
   }
-- 
2.43.0


From 76861a955d3e89609eb355b2ceababceddf63836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 17/27] fix: substitute inside the values of dictionaries

---
 stator/symbolic/runtime.hpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index 3816764..4cd3570 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -787,6 +787,22 @@ namespace sym
         return (_replaced) ? ret_ptr : Expr();
       }
 
+      //The values (but not the keys) of dictionaries are substituted
+      Expr apply(const DictRT &v)
+      {
+        auto ret_ptr = DictRT::create();
+        bool _replaced = false;
+
+        for (const auto &p : v)
+        {
+          Expr t = p.second->visit(*this);
+          _replaced = _replaced || bool(t);
+          (*ret_ptr)[p.first] = (t) ? t : p.second;
+        }
+
+        return (_replaced) ? ret_ptr : Expr();
+      }
+
       template <typename Op>
       Expr apply(const UnaryOp<Expr, Op> &op)
       {
@@ -879,6 +895,22 @@ namespace sym
         return (_replaced) ? ret_ptr : Expr();
       }
 
+      //The values (but not the keys) of dictionaries are substituted
+      Expr apply(const DictRT &v)
+      {
+        auto ret_ptr = DictRT::create();
+        bool _replaced = false;
+
+        for (const auto &p : v)
+        {
+          Expr t = p.second->visit(*this);
+          _replaced = _replaced || bool(t);
+          (*ret_ptr)[p.first] = (t) ? t : p.second;
+        }
+
+        return (_replaced) ? ret_ptr : Expr();
+      }
+
       template <typename Op>
       Expr apply(const UnaryOp<Expr, Op> &op)
       {
-- 
2.43.0


From 132134970134b21d7a147c372ae06fe2ccfcf850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 18/27] fix: simplify of an array to the power of an array no
 longer recurses without end

---
 stator/symbolic/runtime.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index 4cd3570..1fa5b0a 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -637,12 +637,13 @@ namespace sym
       template <class Op, typename = typename std::enable_if<!std::is_same<Op, detail::ArrayAccess>::value>::type>
       Expr dd_visit(const ArrayRT &l, const ArrayRT &r, Op)
       {
-        //First carry out the operation, but preserve the type information
-        auto res_ptr = Op::apply(l, r);
+        //First carry out the operation
+        Expr res(Op::apply(l, r));
+        //If it is not an element-wise operation (i.e. powers), then leave it as it is
+        if (!dynamic_cast<const ArrayRT *>(res.get()))
+          return Expr();
         //Then apply the ArrayRT simplify to continue the simplification/computation of arguments
-        Expr res2 = simplify(*res_ptr);
-        //Then return the general expression
-        return res2;
+        return simplify(res);
       }
 
       template <class T1, class T2>
-- 
2.43.0


From 01c0b2ec0c93313ac35f1d56d052c1bdd0119273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 19/27] fix: simplify leaves an array access it cannot evaluate
 as it is

---
 stator/symbolic/runtime.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index 1fa5b0a..9507d2a 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -649,7 +649,8 @@ namespace sym
       template <class T1, class T2>
       Expr dd_visit(const T1 &l, const T2 &r, detail::ArrayAccess)
       {
-        stator_throw() << "No valid array operation here!";
+        //This cannot be evaluated (yet), so it is left as it is
+        return Expr();
       }
 
       Expr dd_visit(const ArrayRT &l, const double &r, detail::ArrayAccess)
-- 
2.43.0


From 551b20981764d830fbcdbb3ef8cc5da87ae5151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 20/27] fix: equal dictionaries have equal hashes whatever the
 order of insertion

---
 stator/symbolic/dict.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/dict.hpp b/stator/symbolic/dict.hpp
index 46617b3..ac935ad 100644
--- a/stator/symbolic/dict.hpp
+++ b/stator/symbolic/dict.hpp
@@ -130,8 +130,11 @@ namespace std
     {
       std::size_t seed = 16;
       for (const auto& item : v) {
-	stator::hash_combine(seed, std::hash<typename std::decay<decltype(item.first)>::type>{}(item.first));
-	stator::hash_combine(seed, std::hash<typename std::decay<decltype(item.second)>::type>{}(item.second));
+	//The order of the items is arbitrary, so the combination must not depend on it
+	std::size_t item_seed = 16;
+	stator::hash_combine(item_seed, std::hash<typename std::decay<decltype(item.first)>::type>{}(item.first));
+	stator::hash_combine(item_seed, std::hash<typename std::decay<decltype(item.second)>::type>{}(item.second));
+	seed += item_seed;
       }
       return seed;
     }
-- 
2.43.0


From 2f9ba8979d0f2cee02f746cb046106d39e444c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 21/27] fix: repr parenthesises the left operand of
 right-associative operators

---
 stator/symbolic/binary_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/binary_ops.hpp b/stator/symbolic/binary_ops.hpp
index 753e2d9..504a151 100644
--- a/stator/symbolic/binary_ops.hpp
+++ b/stator/symbolic/binary_ops.hpp
@@ -452,7 +452,7 @@ namespace sym {
     const auto RHS_BP  = BP(op._r);
 
     std::string LHS_repr = repr<Config>(op._l);
-    if (LHS_BP.second < this_BP.first || Config::Force_parenthesis)
+    if (LHS_BP.second <= this_BP.first || Config::Force_parenthesis)
       LHS_repr = detail::paren_wrap<Config>(LHS_repr);
 
     std::string RHS_repr = repr<Config>(op._r);
-- 
2.43.0


From d574d49970800aa53c6579f3170b360f7bd6b290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 22/27] fix: repr parenthesises negative numbers where their
 sign would bind to more than the number

---
 stator/symbolic/constants.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/constants.hpp b/stator/symbolic/constants.hpp
index 015fafc..47add99 100644
--- a/stator/symbolic/constants.hpp
+++ b/stator/symbolic/constants.hpp
@@ -235,9 +235,15 @@ namespace sym {
   /*! \brief Returns the binding powers for constants.
       
     Arguments that cannot be split, like constants have very high
-    binding powers internally as they cannot be split.
+    binding powers internally as they cannot be split. The exception
+    is negative numbers, as their sign is a unary minus.
   */
   template<class T, typename = typename std::enable_if<detail::IsConstant<T>::value>::type>
   std::pair<int, int> BP(const T& v)
-  { return std::make_pair(std::numeric_limits<int>::max(), std::numeric_limits<int>::max()); }
+  {
+    if constexpr (std::is_arithmetic<T>::value)
+      if (v < 0)
+        return std::make_pair(0, 21);
+    return std::make_pair(std::numeric_limits<int>::max(), std::numeric_limits<int>::max());
+  }
 }
-- 
2.43.0


From 2c6dd456ca6d9a052a360d9159ee552db24b9924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 23/27] fix: any operator may follow a closed array access or
 units

---
 stator/symbolic/parser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/parser.hpp b/stator/symbolic/parser.hpp
index ac07540..b99380d 100644
--- a/stator/symbolic/parser.hpp
+++ b/stator/symbolic/parser.hpp
@@ -325,7 +325,8 @@ namespace sym
 
 				int LBP() const { return Op::leftBindingPower; }
 
-				int NBP() const { return detail::NBP<Op>(); }
+				//Wrapped operators are closed on the right, so any operator may follow
+				int NBP() const { return Op::wrapped ? std::numeric_limits<int>::max() : detail::NBP<Op>(); }
 			};
 
 			struct HaltToken : RightOperatorBase
-- 
2.43.0


From 766b2ab6bdf3b9573ab09bd66e8d919f61ae36d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:11 +0000
Subject: [PATCH 24/27] fix: numbers beyond the range of double are rejected

---
 stator/symbolic/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/parser.hpp b/stator/symbolic/parser.hpp
index b99380d..126a840 100644
--- a/stator/symbolic/parser.hpp
+++ b/stator/symbolic/parser.hpp
@@ -495,7 +495,9 @@ namespace sym
 					std::stringstream ss;
 					ss << token;
 					double val;
-					ss >> val;
+					if (!(ss >> val))
+						stator_throw() << "\"" << token << "\" is not a representable number?\n"
+									   << parserLoc();
 					return Expr(val);
 				}
 
-- 
2.43.0


From e32e17a2d913a6dea8fce5804a1412909eb42492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 25/27] fix: the integral of x by x uses pow(x, C<2>) instead
 of the removed pow<2>(x)

---
 stator/symbolic/integrate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/integrate.hpp b/stator/symbolic/integrate.hpp
index f29e3e7..9c6f8e4 100644
--- a/stator/symbolic/integrate.hpp
+++ b/stator/symbolic/integrate.hpp
@@ -66,7 +66,7 @@ namespace sym {
   template<conststr N1, class ...VarArgs1, conststr N2, class ...VarArgs2,
 	   typename = typename enable_if_var_eq<Var<N1, VarArgs1...>, Var<N2, VarArgs2...> >::type>
   auto integrate(Var<N1, VarArgs1...>, Var<N2, VarArgs2...>)
-  { return C<1,2>() * pow<2>(Var<N1, VarArgs1...>()); }
+  { return C<1,2>() * pow(Var<N1, VarArgs1...>(), C<2>()); }
   
   /*! \brief Integration of \$x^n\$ by \$x\$.*/
   template<conststr N1, class ...VarArgs1, conststr N2, class ...VarArgs2, std::intmax_t Power,
-- 
2.43.0


From d27b36dab5cfd27eaf2ca8cfee13649e8caa99f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:43 +0000
Subject: [PATCH 26/27] fix: polynomials of different variables are not
 multiplied as if they had the same variable

---
 stator/symbolic/simplify.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index 406269a..d1230ad 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -390,7 +390,8 @@ namespace sym {
    */
   template<class Config = DefaultSimplifyConfig, class Real1, class Real2, size_t M, size_t N,
 	   class PolyVar1, class PolyVar2, class Op,
-	   typename = typename std::enable_if<std::is_same<Op,detail::Multiply>::value>::type>
+	   typename = typename std::enable_if<std::is_same<Op,detail::Multiply>::value>::type,
+	   typename = typename enable_if_var_eq<PolyVar1, PolyVar2>::type>
     auto simplify(const BinaryOp<Polynomial<M, Real1, PolyVar1>, Op, Polynomial<N, Real2, PolyVar2>>& f)
     -> Polynomial<M + N, decltype(store(Op::apply(f._l[0], f._r[0]))), PolyVar1>
   {
-- 
2.43.0


From fbd6060652fe53e3e961d602b8fb15e71bdf8282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:43 +0000
Subject: [PATCH 27/27] fix: dividing a polynomial with integer coefficients by
 an integer does not truncate

---
 stator/symbolic/simplify.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index d1230ad..e8503fd 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -402,15 +402,26 @@ namespace sym {
     return retval;
   }
 
+  namespace detail {
+    /*! \brief The type of a ratio of polynomial coefficients.
+
+      Integers are not closed under division, so ratios of integer
+      coefficients must be stored as floating point values.
+     */
+    template<class Real1, class Real2>
+    using ratio_t = typename std::conditional<std::is_integral<Real1>::value && std::is_integral<Real2>::value, double, decltype(store(std::declval<const Real1&>() / std::declval<const Real2&>()))>::type;
+  }
+
   /*! \brief Division between two Polynomial types.
    */
   template<class Config = DefaultSimplifyConfig, class Real1, class Real2, size_t M, class PolyVar1, class PolyVar2>
   auto simplify(const BinaryOp<Polynomial<M, Real1, PolyVar1>, detail::Divide, Polynomial<0, Real2, PolyVar2>>& f)
-    -> Polynomial<M, decltype(store(f._l[0] / f._r[0])), PolyVar1>
+    -> Polynomial<M, detail::ratio_t<Real1, Real2>, PolyVar1>
   {
-    Polynomial<M, decltype(store(f._l[0] / f._r[0])), PolyVar1> retval;
+    typedef detail::ratio_t<Real1, Real2> Ratio;
+    Polynomial<M, Ratio, PolyVar1> retval;
     for (size_t i(0); i <= M; ++i)
-  	  retval[i] += f._l[i] / f._r[0];
+  	  retval[i] += Ratio(f._l[i]) / f._r[0];
     return retval;
   }
   
-- 
2.43.0

