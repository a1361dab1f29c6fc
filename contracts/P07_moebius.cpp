// MobiusTransform: the map it represents, and its composition with the polynomial transformations of the same name.
#include <poly.hpp>
#include <cmath>
static MobiusTransform<double> any_moebius(double& a, double& b, double& c, double& d) {
  a = vc_real("a"); b = vc_real("b"); c = vc_real("c"); d = vc_real("d");
  return MobiusTransform<double>(a, b, c, d);
}
VC_UNIT(P07, moebius_eval) {
  double a, b, c, d; auto M = any_moebius(a, b, c, d);
  double x = vc_real("x");
  vc_assume(c * x + d != 0);
  vc_assert_eq(M.eval(x) * (c * x + d), a * x + b, "P07.moebius.eval");
}
VC_UNIT(P07, moebius_eval_zero) {
  double a, b, c, d; auto M = any_moebius(a, b, c, d);
  vc_assume(d != 0);
  vc_assert_eq(M.eval(0) * d, b, "P07.moebius.eval0");
}
VC_UNIT(P07, moebius_eval_infinity) {
  double a, b, c, d; auto M = any_moebius(a, b, c, d);
  vc_assume(a != 0 || b != 0);
  double v = M.eval(HUGE_VAL);
  if (c != 0) vc_assert_eq(v * c, a, "P07.moebius.evalinf");
  else if (a == 0) { vc_assume(d != 0); vc_assert_eq(M.eval(HUGE_VAL) * d, b, "P07.moebius.evalinf"); }
  else { vc_assume(d != 0); vc_assert(v == ((a > 0) == (d > 0) ? HUGE_VAL : -HUGE_VAL), "P07.moebius.evalinf"); }
}
// after op on the polynomial, x_new relates to x_old by x_old = s(x_new); the transformed M must satisfy M'(x_new) = M(x_old)
VC_UNIT(P07, moebius_compose) {
  double a, b, c, d; auto M = any_moebius(a, b, c, d);
  double x = vc_real("x"), s = vc_real("s");
  int k = (int)vc_choose("op", 0, 2);
  auto M2 = M; double old = 0;
  if (k == 0) { M2.shift(s); old = x + s; }
  if (k == 1) { M2.scale(s); old = x * s; }
  if (k == 2) { vc_assume(x != -1); M2.invert_taylor_shift(); old = 1 / (x + 1); }
  double q = M2[2] * x + M2[3];
  vc_assume(q != 0 && c * old + d != 0);
  vc_assert_eq(M2.eval(x), M.eval(old), "P07.moebius.compose");
}
// ... and the polynomial operation of the same name has a root at x_new exactly when f has one at x_old
template<size_t N> void poly_ops() {
  auto f = any_poly<N>("f");
  double x = vc_real("x"), s = vc_real("s");
  vc_assert_eq(val(shift_function(f, s), x), val(f, x + s), "P07.moebius.shift");
  vc_assert_eq(val(scale_poly(f, s), x), val(f, x * s), "P07.moebius.scale");
  vc_assert_eq(val(shift_function(f, Unity()), x), val(f, x + 1), "P07.moebius.shift1");
  vc_assume(x != -1);
  double p = 1; for (size_t i = 0; i < N; ++i) p *= x + 1;
  vc_assert_eq(val(invert_taylor_shift(f), x), p * val(f, 1 / (x + 1)), "P07.moebius.invert");
}
VC_UNIT(P07, moebius_poly_2) { poly_ops<2>(); }
VC_UNIT(P07, moebius_poly_4) { poly_ops<4>(); }
