// Evaluation of Polynomial: finite points, infinities, Null, renaming, other variables, several derivatives at once.
#include <poly.hpp>
#include <limits>
template<size_t N> void finite() {
  Var<> x; Var<vy> y;
  auto f = any_poly<N>("f");
  double t = vc_real("t");
  vc_assert_eq(sub(f, x = t), val(f, t), "P02.sub.finite");
  vc_assert_eq(sub(f, x = 3), val(f, 3), "P02.sub.int");
  vc_assert_eq(sub(f, x = 0.0), f[0], "P02.sub.zero");
  vc_assert_eq(sub(f, x = Null()), f[0], "P02.sub.Null");
  same_poly(sub(f, y = t), f, "P02.sub.othervar");
  auto g = sub(f, x = y);
  same_poly(g, f, "P02.sub.rename");
  vc_assert_eq(sub(g, y = t), val(f, t), "P02.sub.rename.value");
}
VC_UNIT(P02, finite_0) { finite<0>(); }
VC_UNIT(P02, finite_1) { finite<1>(); }
VC_UNIT(P02, finite_2) { finite<2>(); }
VC_UNIT(P02, finite_3) { finite<3>(); }
VC_UNIT(P02, finite_4) { finite<4>(); }
VC_UNIT(P02, finite_6) { finite<6>(); }
template<size_t N> void infinite() {
  Var<> x;
  auto f = any_poly<N>("f");
  const double inf = std::numeric_limits<double>::infinity();
  // limit of f at sign*inf: the highest non-zero coefficient of a positive power decides
  for (int sgn = -1; sgn <= 1; sgn += 2) {
    double want = f[0];
    for (size_t i = 1; i <= N; ++i)
      if (f[i] != 0) want = ((f[i] > 0) == (sgn > 0 || i % 2 == 0)) ? inf : -inf;
    double got = sub(f, x = sgn * inf);
    vc_assert(got == want, sgn < 0 ? "P02.limit.minus_infinity" : "P02.limit.plus_infinity");
  }
}
VC_UNIT(P02, infinite_0) { infinite<0>(); }
VC_UNIT(P02, infinite_1) { infinite<1>(); }
VC_UNIT(P02, infinite_2) { infinite<2>(); }
VC_UNIT(P02, infinite_3) { infinite<3>(); }
VC_UNIT(P02, infinite_4) { infinite<4>(); }
VC_UNIT(P02, infinite_5) { infinite<5>(); }
template<size_t D, size_t N> void derivs() {
  auto f = any_poly<N>("f");
  double t = vc_real("t");
  auto r = eval_derivatives<D>(f, t);
  vc_assert(r.size() == D + 1, "P02.eval_derivatives.size");
  for (size_t d = 0; d <= D; ++d) {
    double s = 0;
    for (size_t i = d; i <= N; ++i) {
      double k = 1;
      for (size_t j = 0; j < d; ++j) k *= double(i - j);
      s += k * f[i] * ipow(t, i - d);
    }
    vc_assert_eq(r[d], s, "P02.eval_derivatives");
  }
}
VC_UNIT(P02, derivs_0_3) { derivs<0, 3>(); }
VC_UNIT(P02, derivs_1_0) { derivs<1, 0>(); }
VC_UNIT(P02, derivs_1_1) { derivs<1, 1>(); }
VC_UNIT(P02, derivs_2_1) { derivs<2, 1>(); }
VC_UNIT(P02, derivs_2_3) { derivs<2, 3>(); }
VC_UNIT(P02, derivs_3_3) { derivs<3, 3>(); }
VC_UNIT(P02, derivs_4_2) { derivs<4, 2>(); }
VC_UNIT(P02, derivs_4_4) { derivs<4, 4>(); }
VC_UNIT(P02, derivs_5_6) { derivs<5, 6>(); }
