// Real roots of polynomials of order at most 3, and the dispatch of the general solver.
#include <poly.hpp>
// f(t) == 0 (natively: up to rounding)
template<size_t N> bool zero_at(const Polynomial<N>& f, double t) {
  if (vc_symbolic()) return val(f, t) == 0;
  double s = 0;
  for (size_t i = 0; i <= N; ++i) s += std::abs(f[i] * ipow(t, i));
  return std::abs(val(f, t)) <= 1e-5 * s;
}
// postcondition: r holds exactly the real zeros of f, strictly increasing
template<size_t N, class L> void exact_roots(const Polynomial<N>& f, const L& r) {
  bool constant = true;
  for (size_t i = 1; i <= N; ++i) if (f[i] != 0) constant = false;
  if (constant) { vc_assert(r.size() == 0, "P05.roots.constant"); return; }
  for (size_t i = 0; i < r.size(); ++i) vc_assert(zero_at(f, r[i]), "P05.roots.value");
  for (size_t i = 0; i + 1 < r.size(); ++i) vc_assert(vc_lt(r[i], r[i + 1]), "P05.roots.sorted");
  double t = vc_real("t");
  if (r.size() == 0) { vc_assert(vc_ne(val(f, t), 0), "P05.roots.complete.none"); return; }
  size_t deg = N; while (deg && f[deg] == 0) --deg;
  if (r.size() == deg) {   // factorisation: no other zeros
    double p = f[deg];
    for (size_t i = 0; i < r.size(); ++i) p *= t - r[i];
    vc_assert_eq(p, val(f, t), "P05.roots.complete.all");
    vc_reach(deg == 1 ? "one" : "two");
  } else {                 // a double root of a quadratic
    vc_assert_eq(f[deg] * (t - r[0]) * (t - r[0]), val(f, t), "P05.roots.complete.double");
    vc_reach("double");
  }
}
VC_UNIT(P05, order0) { auto f = any_poly<0>("f"); vc_assert(solve_real_roots(f).size() == 0, "P05.roots.constant");
  vc_assert(solve_real_roots(Null()).size() == 0, "P05.roots.Null"); }
VC_UNIT(P05, order1) { auto f = any_poly<1>("f"); exact_roots(f, solve_real_roots(f)); }
// vc-opts order2: reach=one,two,double
VC_UNIT(P05, order2) {
  auto f = any_poly<2>("f");
  vc_assume(f[2] == 0 || (f[1] <= 1e150 * f[2] && -f[1] <= 1e150 * f[2]) || (f[1] <= -1e150 * f[2] && -f[1] <= -1e150 * f[2]));
  exact_roots(f, solve_real_roots(f));
}
// monic linear coefficient beyond sqrt(DBL_MAX): the two asymptotic roots, sorted
VC_UNIT(P05, order2_huge) {
  auto f = any_poly<2>("f");
  vc_assume(f[2] == 1 && f[0] != 0 && (f[1] > 1e160 || f[1] < -1e160));
  auto r = solve_real_roots(f);
  vc_assert(r.size() == 2, "P05.roots.huge.count");
  double a = -f[1], b = -f[0] / f[1];
  vc_assert_eq(r[0], a < b ? a : b, "P05.roots.huge.low");
  vc_assert_eq(r[1], a < b ? b : a, "P05.roots.huge.high");
}
// contract of subtraction_precision / addition_precision used by deflation: any value (only a heuristic choice)
static size_t any_precision(double, double) { return (size_t)vc_int("precision", 0, 5000); }
static void any_deflation() { vc_contract((void*)&subtraction_precision<double>, (void*)&any_precision); }
static bool within(double x, double b) { return x < b && x > -b; }
// ---- cubics ------------------------------------------------------------------------------------------------------
// postcondition: every returned value is a zero, the list is sorted, and it holds every real zero: the ghost zeros z[0..n)
// are all the real zeros of f
template<class L> void cubic_roots(const Polynomial<3>& f, const L& r, const double* z, size_t n) {
  for (size_t i = 0; i < r.size(); ++i) vc_assert(zero_at(f, r[i]), "P05.cubic.value");
  for (size_t i = 0; i + 1 < r.size(); ++i) vc_assert(vc_le(r[i], r[i + 1]), "P05.cubic.sorted");
  for (size_t k = 0; k < n; ++k) {
    bool found = false;
    for (size_t i = 0; i < r.size(); ++i) if (vc_same(r[i], z[k])) found = true;
    vc_assert(found, "P05.cubic.complete");
  }
}
// zero constant term: x times a quadratic with no, one or two real zeros
VC_UNIT(P05, cubic_zero_two) {
  double a = vc_real("a"), z[3] = {0, vc_real("z1"), vc_real("z2")};
  vc_assume(a != 0 && z[1] < z[2] && z[1] > -1e70 && z[2] < 1e70);
  Polynomial<3> f{0.0, a * z[1] * z[2], -a * (z[1] + z[2]), a};
  cubic_roots(f, solve_real_roots(f), z, 3);
}
VC_UNIT(P05, cubic_zero_double) {
  double a = vc_real("a"), z[2] = {0, vc_real("z1")};
  vc_assume(a != 0 && z[1] > -1e70 && z[1] < 1e70);
  Polynomial<3> f{0.0, a * z[1] * z[1], -2 * a * z[1], a};
  cubic_roots(f, solve_real_roots(f), z, 2);
}
VC_UNIT(P05, cubic_zero_none) {
  double a = vc_real("a"), p = vc_real("p"), q = vc_real("q"), z[1] = {0};
  vc_assume(a != 0 && q != 0 && p > -1e70 && p < 1e70);
  Polynomial<3> f{0.0, a * (p * p + q * q), -2 * a * p, a};
  auto r = solve_real_roots(f);
  cubic_roots(f, r, z, 1);
  vc_assert(r.size() == 1, "P05.cubic.zero.none");
}
VC_UNIT(P05, cubic_lead0) {
  auto g = any_poly<2>("f");
  vc_assume((g[1] <= 1e150 * g[2] && -g[1] <= 1e150 * g[2]) || (g[1] <= -1e150 * g[2] && -g[1] <= -1e150 * g[2]));
  Polynomial<3> f{g[0], g[1], g[2], 0.0};
  auto r = solve_real_roots(f); auto s = solve_real_roots(g);
  vc_assert(r.size() == s.size(), "P05.cubic.lead0.size");
  for (size_t i = 0; i < r.size(); ++i) vc_assert_eq(r[i], s[i], "P05.cubic.lead0.root");
}
VC_UNIT(P05, cubic_pure) {
  double a = vc_real("a"), c = vc_real("c"), z[1] = {c};
  vc_assume(a != 0 && c != 0);
  Polynomial<3> f{-a * c * c * c, 0.0, 0.0, a};
  cubic_roots(f, solve_real_roots(f), z, 1);
}
// general monic cubic written as the depressed cubic y^3 + 3 p y + v, y = x + s/3
inline Polynomial<3> depressed(double a, double s, double p, double v) {
  double f1 = 3 * p + s * s / 3;
  return Polynomial<3>{a * (v - (2.0 * s * s / 9.0 - f1) * (s / 3.0)), a * f1, a * s, a};
}
// discriminant positive: one real zero, Cardano with u^3 = (w-v)/2
template<int SG> void cardano() {
  double a = vc_real("a"), s = vc_real("s"), p = vc_real("p"), u = vc_real("u");
  double v = p * p * p / (u * u * u) - u * u * u;
  vc_assume(a != 0 && u > 0 && u * u + p > 0 && within(s, 1e30) && within(p, 1e30) && within(v, 1e70));
  vc_assume(SG > 0 ? v >= 0 : v < 0);
  any_deflation();
  auto f = depressed(a, s, p, v);
  vc_assume(f[0] != 0 && (f[2] != 0 || f[1] != 0) && within(f[0] / a, 1e100) && within(f[1] / a, 1e100) && within(p * p, 1e60) && within(2 * s / 3 + u - p / u, 1e100));
  vc_assert(p * p * p + u * u * u * u * u * u > 0, "P05.lemma.cardano");
  if (SG > 0) vc_assert(p > 0, "P05.lemma.p");
  double z[1] = {u - p / u - s / 3};
  auto r = solve_real_roots(f);
  cubic_roots(f, r, z, 1);
  vc_assert(r.size() == 1, "P05.cubic.cardano.count");
}
VC_UNIT(P05, cubic_cardano_pos) { cardano<1>(); }
VC_UNIT(P05, cubic_cardano_neg) { cardano<-1>(); }
// discriminant zero or negative: three real zeros, trigonometric form
template<int SG> void trig() {
  double s = vc_real("s"), S = vc_real("S"), c = vc_real("c");
  vc_assume(S > 0 && S < 1e20 && c >= 0.5 && c <= 1 && s > -1e20 && s < 1e20);
  vc_assume(SG > 0 ? s > 0 : s <= 0);
  if (!vc_symbolic()) vc_assume(c > 0.55 && c < 0.95);   // natively: away from rounding at double roots
  double v = (SG > 0 ? 2 : -2) * S * S * S * (4 * c * c * c - 3 * c);
  any_deflation();
  auto f = depressed(1, s, -S * S, v);
  vc_assume(f[0] != 0 && within(f[0], 1e100) && within(f[1], 1e100) && within(v, 1e100) && within(S * S, 1e50) && within(S * S * S * S, 1e90));
  vc_assert(4 * c * c * c - 3 * c <= 1 && 4 * c * c * c - 3 * c >= -1, "P05.lemma.range");
  vc_assert(4 * (-S * S) * (-S * S) * (-S * S) + v * v <= 0, "P05.lemma.discriminant");
  auto r = solve_real_roots(f);
  vc_assert(r.size() == 3, "P05.cubic.trig.count");
  cubic_roots(f, r, nullptr, 0);
  double t = vc_real("t");
  vc_assert_eq((t - r[0]) * (t - r[1]) * (t - r[2]), val(f, t), "P05.cubic.trig.complete");
}
VC_UNIT(P05, cubic_trig_pos) { trig<1>(); }
VC_UNIT(P05, cubic_trig_neg) { trig<-1>(); }
VC_UNIT(P05, cubic_triple) {
  double a = vc_real("a"), z[1] = {vc_real("z")};
  vc_assume(a != 0 && z[0] != 0 && z[0] > -1e40 && z[0] < 1e40);
  auto f = depressed(a, -3 * z[0], 0, 0);
  cubic_roots(f, solve_real_roots(f), z, 1);
}
