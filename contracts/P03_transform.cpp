// Calculus and transformations of Polynomial as identities in all coefficients and all points.
#include <poly.hpp>
template<size_t N> void transform() {
  Var<> x; Var<vy> y;
  auto f = any_poly<N>("f");
  double t = vc_real("t"), a = vc_real("a");
  vc_assert_eq(val(shift_function(f, a), t), val(f, t + a), "P03.shift");
  same_poly(shift_function(f, 0.0), f, "P03.shift.zero");
  vc_assert_eq(val(shift_function(f, Unity()), t), val(f, t + 1), "P03.shift.unity");
  vc_assert_eq(val(reflect_poly(f), t), val(f, -t), "P03.reflect");
  vc_assert_eq(val(scale_poly(f, a), t), val(f, a * t), "P03.scale");
  // (x+1)^d f(1/(x+1)) = sum_i f[i] (x+1)^(d-i)
  double s = 0;
  for (size_t i = 0; i <= N; ++i) s += f[i] * ipow(t + 1, N - i);
  vc_assert_eq(val(invert_taylor_shift(f), t), s, "P03.invert_taylor_shift");
}
VC_UNIT(P03, transform_0) { transform<0>(); }
VC_UNIT(P03, transform_1) { transform<1>(); }
VC_UNIT(P03, transform_2) { transform<2>(); }
VC_UNIT(P03, transform_3) { transform<3>(); }
VC_UNIT(P03, transform_4) { transform<4>(); }
VC_UNIT(P03, transform_5) { transform<5>(); }
VC_UNIT(P03, transform_7) { transform<7>(); }
template<size_t N> void deriv() {
  Var<> x; Var<vy> y;
  auto f = any_poly<N>("f");
  auto d = derivative(f, x);
  for (size_t i = 0; i < N; ++i) vc_assert_eq(d[i], f[i + 1] * double(i + 1), "P03.derivative");
  static_assert(std::is_same<decltype(derivative(f, y)), Null>::value, "derivative in another variable is Null");
  double h = vc_real("h"), t = vc_real("t");
  // Taylor: f(t+h) = sum_k f^(k)(t) h^k/k!, first order term through the difference quotient identity of x^n
  double s = 0;
  for (size_t n = 1; n <= N; ++n) s += f[n] * double(n) * ipow(t, n - 1);
  vc_assert_eq(val(d, t), s, "P03.derivative.value");
  auto fi = any_poly<0>("g");
  static_assert(std::is_same<decltype(derivative(fi, x)), Null>::value, "derivative of a constant polynomial is Null");
}
VC_UNIT(P03, deriv_1) { deriv<1>(); }
VC_UNIT(P03, deriv_2) { deriv<2>(); }
VC_UNIT(P03, deriv_4) { deriv<4>(); }
VC_UNIT(P03, deriv_7) { deriv<7>(); }
// contract of subtraction_precision / addition_precision used by deflation: any value (only a heuristic choice)
static size_t any_precision(double, double) { return (size_t)vc_int("precision", 0, 5000); }
template<size_t N> void deflate() {
  vc_contract((void*)&subtraction_precision<double>, (void*)&any_precision);
  double r = vc_real("root");
  vc_assume(r != 0);
  // f = (x - r) g  with arbitrary g: exactly the polynomials that have the root r
  auto g = any_poly<N - 1>("g");
  Polynomial<N> f;
  for (size_t i = 0; i <= N; ++i) f[i] = (i > 0 ? g[i - 1] : 0.0) - (i < N ? r * g[i] : 0.0);
  auto q = deflate_polynomial(f, r);
  for (size_t i = 0; i < N; ++i) vc_assert_eq(q[i], g[i], "P03.deflate");
}
VC_UNIT(P03, deflate_1) { deflate<1>(); }
VC_UNIT(P03, deflate_2) { deflate<2>(); }
VC_UNIT(P03, deflate_3) { deflate<3>(); }
VC_UNIT(P03, deflate_4) { deflate<4>(); }
VC_UNIT(P03, deflate_5) { deflate<5>(); }
VC_UNIT(P03, deflate_6) { deflate<6>(); }
template<size_t N> void deflate0() {
  auto g = any_poly<N - 1>("g");
  Polynomial<N> f;
  for (size_t i = 1; i <= N; ++i) f[i] = g[i - 1];
  auto q = deflate_polynomial(f, 0.0);
  auto p = deflate_polynomial(f, Null());
  for (size_t i = 0; i < N; ++i) { vc_assert_eq(q[i], g[i], "P03.deflate.zero"); vc_assert_eq(p[i], g[i], "P03.deflate.Null"); }
}
VC_UNIT(P03, deflate0_1) { deflate0<1>(); }
VC_UNIT(P03, deflate0_2) { deflate0<2>(); }
VC_UNIT(P03, deflate0_4) { deflate0<4>(); }
VC_UNIT(P03, deflate0_6) { deflate0<6>(); }
VC_UNIT(P03, constant_shift) {
  double c = vc_real("c"), t = vc_real("t");
  vc_assert_eq(shift_function(c, t), c, "P03.shift.constant");
}
