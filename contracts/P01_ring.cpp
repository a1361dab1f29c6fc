// Ring operations of Polynomial: for all coefficients and all points, value(f op g) = value(f) op value(g).
#include <poly.hpp>
template<size_t N, size_t M> void ring() {
  Var<> x;
  auto f = any_poly<N>("f"); auto g = any_poly<M>("g");
  double t = vc_real("t"), c = vc_real("c");
  vc_assert_eq(val(expand(f + g), t), val(f, t) + val(g, t), "P01.add");
  vc_assert_eq(val(expand(f - g), t), val(f, t) - val(g, t), "P01.sub");
  vc_assert_eq(val(expand(f * g), t), val(f, t) * val(g, t), "P01.mul");
  vc_assert_eq(val(expand(f + (g * f)), t), val(f, t) + val(g, t) * val(f, t), "P01.nested");
  vc_assert_eq(val(expand((f - g) * f), t), (val(f, t) - val(g, t)) * val(f, t), "P01.nested");
}
VC_UNIT(P01, ring_0_0) { ring<0, 0>(); }
VC_UNIT(P01, ring_0_3) { ring<0, 3>(); }
VC_UNIT(P01, ring_1_1) { ring<1, 1>(); }
VC_UNIT(P01, ring_2_1) { ring<2, 1>(); }
VC_UNIT(P01, ring_1_3) { ring<1, 3>(); }
VC_UNIT(P01, ring_3_2) { ring<3, 2>(); }
VC_UNIT(P01, ring_4_0) { ring<4, 0>(); }
VC_UNIT(P01, ring_3_3) { ring<3, 3>(); }
VC_UNIT(P01, ring_2_5) { ring<2, 5>(); }
VC_UNIT(P01, ring_5_4) { ring<5, 4>(); }
template<size_t N> void scalar() {
  Var<> x;
  auto f = any_poly<N>("f");
  double t = vc_real("t"), c = vc_real("c");
  vc_assert_eq(val(expand(f * c), t), val(f, t) * c, "P01.scalar.mul");
  vc_assert_eq(val(expand(c * f), t), c * val(f, t), "P01.scalar.mul");
  vc_assert_eq(val(expand(f + c), t), val(f, t) + c, "P01.scalar.add");
  vc_assert_eq(val(expand(c + f), t), val(f, t) + c, "P01.scalar.add");
  vc_assert_eq(val(expand(f - c), t), val(f, t) - c, "P01.scalar.sub");
  vc_assert_eq(val(expand(c - f), t), c - val(f, t), "P01.scalar.sub");
  vc_assert_eq(val(-f, t), -val(f, t), "P01.neg");
  vc_assert_eq(val(expand(f * C<3, 2>()), t), val(f, t) * 1.5, "P01.scalar.C");
  vc_assert_eq(val(expand(C<2>() * f), t), 2 * val(f, t), "P01.scalar.C");
  vc_assert_eq(val(expand(f + C<1, 4>()), t), val(f, t) + 0.25, "P01.scalar.C");
  vc_assert_eq(val(expand(C<5>() - f), t), 5 - val(f, t), "P01.scalar.C");
  vc_assert_eq(val(expand(pow(f, C<2>())), t), val(f, t) * val(f, t), "P01.pow");
  vc_assert_eq(val(expand(pow(f, C<3>())), t), val(f, t) * val(f, t) * val(f, t), "P01.pow");
  vc_assert_eq(val(expand(f * x), t), val(f, t) * t, "P01.mulvar");
  vc_assert_eq(val(expand(x * f), t), t * val(f, t), "P01.mulvar");
  vc_assert_eq(val(expand(f + x), t), val(f, t) + t, "P01.addvar");
  vc_assert_eq(val(expand(x - f), t), t - val(f, t), "P01.addvar");
  vc_assert_eq(val(expand(f * pow(x, C<2>())), t), val(f, t) * t * t, "P01.mulvar");
  vc_assume(c != 0);
  vc_assert_eq(val(expand(f / c), t) * c, val(f, t), "P01.scalar.div");
}
VC_UNIT(P01, scalar_0) { scalar<0>(); }
VC_UNIT(P01, scalar_1) { scalar<1>(); }
VC_UNIT(P01, scalar_2) { scalar<2>(); }
VC_UNIT(P01, scalar_3) { scalar<3>(); }
VC_UNIT(P01, scalar_4) { scalar<4>(); }
VC_UNIT(P01, intcoeff) {
  // integer coefficients: every value in a symmetric range (no machine overflow in range)
  Polynomial<2, int> f; Polynomial<1, int> g;
  for (int i = 0; i < 3; ++i) f[i] = (int)vc_int("f", -1000, 1000);
  for (int i = 0; i < 2; ++i) g[i] = (int)vc_int("g", -1000, 1000);
  auto h = expand(f * g); auto s = expand(f + g); auto d = expand(g - f);
  vc_assert(h[0] == f[0] * g[0], "P01.int.mul"); vc_assert(h[1] == f[0] * g[1] + f[1] * g[0], "P01.int.mul");
  vc_assert(h[2] == f[1] * g[1] + f[2] * g[0], "P01.int.mul"); vc_assert(h[3] == f[2] * g[1], "P01.int.mul");
  vc_assert(s[0] == f[0] + g[0] && s[1] == f[1] + g[1] && s[2] == f[2], "P01.int.add");
  vc_assert(d[0] == g[0] - f[0] && d[1] == g[1] - f[1] && d[2] == -f[2], "P01.int.sub");
}
template<size_t Order> void construct() {
  double v[Order + 3];
  for (size_t i = 0; i < Order + 3; ++i) v[i] = vc_real("v");
  size_t n = vc_choose("n", 0, Order + 3);
  bool threw = false;
  try {
    Polynomial<Order> f(v, v + n);
    for (size_t i = 0; i <= Order; ++i) vc_assert_eq(f[i], i < n ? v[i] : 0.0, "P01.range");
  } catch (std::exception&) { threw = true; }
  vc_assert(threw == (n > Order + 1), "P01.range.length");
  Polynomial<Order> z;
  for (size_t i = 0; i <= Order; ++i) vc_assert_eq(z[i], 0.0, "P01.default");
  auto f = any_poly<Order>("f");
  Polynomial<Order + 2> h(f);
  same_poly(h, f, "P01.promote");
  same_poly(change_order<Order + 3>(f), f, "P01.change_order.up");
  auto lo = change_order<Order - 1>(f);
  for (size_t i = 0; i < Order; ++i) vc_assert_eq(lo[i], f[i], "P01.change_order.down");
  same_poly(change_order<Order>(f), f, "P01.change_order.same");
  same_poly(empty_sum(f), z, "P01.empty_sum");
}
VC_UNIT(P01, construct_1) { construct<1>(); }
VC_UNIT(P01, construct_3) { construct<3>(); }
VC_UNIT(P01, construct_5) { construct<5>(); }
VC_UNIT(P01, initlist) {
  double a = vc_real("a"), b = vc_real("b"), c = vc_real("c"), d = vc_real("d");
  Polynomial<2> f0{}, f1{a}, f2{a, b}, f3{a, b, c};
  for (int i = 0; i < 3; ++i) {
    double w[3] = {a, b, c};
    vc_assert_eq(f0[i], 0, "P01.initlist"); vc_assert_eq(f1[i], i < 1 ? w[i] : 0, "P01.initlist");
    vc_assert_eq(f2[i], i < 2 ? w[i] : 0, "P01.initlist"); vc_assert_eq(f3[i], w[i], "P01.initlist");
  }
  bool threw = false;
  try { Polynomial<2> f4{a, b, c, d}; } catch (std::exception&) { threw = true; }
  vc_assert(threw, "P01.initlist.length");
}
// constants of every kind the library accepts: int, compile-time rational, Null/Unity; int and double coefficients mixed
template<size_t N> void constants() {
  Var<> x;
  auto f = any_poly<N>("f");
  double t = vc_real("t");
  int n = (int)vc_choose("n", -3, 7);
  vc_assert_eq(val(expand(f * n), t), val(f, t) * n, "P01.const.mul");
  vc_assert_eq(val(expand(n * f), t), val(f, t) * n, "P01.const.mul");
  vc_assert_eq(val(expand(f + n), t), val(f, t) + n, "P01.const.add");
  vc_assert_eq(val(expand(n - f), t), n - val(f, t), "P01.const.sub");
  vc_assert_eq(val(expand(f / C<3>()), t) * 3, val(f, t), "P01.const.div");
  vc_assert_eq(val(expand(f / C<-7>()), t) * -7, val(f, t), "P01.const.div");
  vc_assert_eq(val(expand(f / C<1, 8>()), t), val(f, t) * 8, "P01.const.div");
  vc_assert_eq(val(expand(C<-3, 2>() * f), t) * 2, val(f, t) * -3, "P01.const.mul");
  vc_assert_eq(val(expand(f - C<7, 4>()), t), val(f, t) - 1.75, "P01.const.sub");
  vc_assert_eq(val(try_expand(f * Unity()), t), val(f, t), "P01.const.unity");
  vc_assert_eq(val(expand(Unity() - f), t), 1 - val(f, t), "P01.const.unity");
  vc_assert_eq(val(try_expand(f + Null()), t), val(f, t), "P01.const.null");
  vc_assert_eq(val(try_expand(Null() - f), t), -val(f, t), "P01.const.null");
  vc_assert_eq(val(try_expand(pow(f, C<1>())), t), val(f, t), "P01.pow1");
  vc_assert_eq(val(expand(pow(f, C<4>())), t), val(f, t) * val(f, t) * val(f, t) * val(f, t), "P01.pow4");
  vc_assert_eq(val(expand(f * pow(x, C<3>())), t), val(f, t) * t * t * t, "P01.mulvar");
  vc_assert_eq(val(expand(x * (f * x)), t), t * t * val(f, t), "P01.mulvar");
  if (n != 0) vc_assert_eq(val(expand(f / n), t) * n, val(f, t), "P01.const.div");
  Polynomial<1, int> g{n, 2};
  vc_assert_eq(val(expand(f * g), t), val(f, t) * (n + 2 * t), "P01.mixed.mul");
  vc_assert_eq(val(expand(g * f), t), val(f, t) * (n + 2 * t), "P01.mixed.mul");
  vc_assert_eq(val(expand(g - f), t), (n + 2 * t) - val(f, t), "P01.mixed.sub");
  vc_assert_eq(val(expand(f - g), t), val(f, t) - (n + 2 * t), "P01.mixed.sub");
  vc_assert_eq(val(expand(f + g), t), val(f, t) + (n + 2 * t), "P01.mixed.add");
  Polynomial<3> wide(g);
  vc_assert_eq(val(wide, t), n + 2 * t, "P01.mixed.promote");
  vc_assert_eq(val(try_expand(-f), t), -val(f, t), "P01.mixed.neg");
}
VC_UNIT(P01, constants_1) { constants<1>(); }
VC_UNIT(P01, constants_2) { constants<2>(); }
VC_UNIT(P01, constants_4) { constants<4>(); }
VC_UNIT(P01, intdivide) {
  Polynomial<2, int> f;
  for (int i = 0; i < 3; ++i) f[i] = (int)vc_int("f", -1000, 1000);
  double c = vc_real("c"), t = vc_real("t");
  vc_assert_eq(val(expand(f * c), t), val(f, t) * c, "P01.intpoly.scale");
  vc_assert_eq(val(expand(f - c), t), val(f, t) - c, "P01.intpoly.sub");
  vc_assume(c != 0);
  vc_assert_eq(val(expand(f / c), t) * c, val(f, t), "P01.intpoly.div");
}
VC_UNIT(P01, from_expression) {
  Var<> x;
  double a = vc_real("a"), b = vc_real("b"), c = vc_real("c"), t = vc_real("t");
  auto f = expand(a * x * x + b * x + c);
  vc_assert_eq(val(f, t), a * t * t + b * t + c, "P01.expression");
  auto g = expand((x + a) * (x - b) * x);
  vc_assert_eq(val(g, t), (t + a) * (t - b) * t, "P01.expression");
  Polynomial<1> p{0, 1};
  auto h = expand(p * p + a * p - 3);
  vc_assert_eq(val(h, t), t * t + a * t - 3, "P01.expression");
}
