// Sign-change counts.
#include <poly.hpp>
#include <limits>
static int sgn(double v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
template<size_t N> size_t changes(const double (&v)[N]) {
  int last = 0; size_t n = 0;
  for (size_t i = 0; i < N; ++i) {
    int s = sgn(v[i]);
    if (s != 0) { if (last != 0 && s != last) ++n; last = s; }
  }
  return n;
}
template<size_t N> void descartes() {
  auto f = any_poly<N>("f");
  double v[N + 1];
  for (size_t i = 0; i <= N; ++i) v[i] = f[i];
  vc_assert(descartes_rule_of_signs(f) == changes(v), "P06.descartes");
}
VC_UNIT(P06, descartes_0) { descartes<0>(); }
VC_UNIT(P06, descartes_1) { descartes<1>(); }
VC_UNIT(P06, descartes_2) { descartes<2>(); }
VC_UNIT(P06, descartes_3) { descartes<3>(); }
VC_UNIT(P06, descartes_4) { descartes<4>(); }
VC_UNIT(P06, descartes_5) { descartes<5>(); }
static double binom(int n, int k) { double r = 1; for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
template<size_t N> void transformed(const Polynomial<N>& f, double a, double b, double (&p)[N + 1]) {
  // (x+1)^N f(a + (b-a)/(x+1)):  f(a + w y) = sum_j c_j y^j,  then sum_j c_j (x+1)^(N-j)
  double c[N + 1];
  for (size_t j = 0; j <= N; ++j) {
    c[j] = 0;
    for (size_t i = j; i <= N; ++i) c[j] += f[i] * binom(i, j) * ipow(a, i - j) * ipow(b - a, j);
  }
  for (size_t k = 0; k <= N; ++k) {
    p[k] = 0;
    for (size_t j = 0; j <= N; ++j) if (N - j >= k) p[k] += c[j] * binom(N - j, k);
  }
}
template<size_t N> void budan() {
  auto f = any_poly<N>("f");
  double p[N + 1];
  transformed<N>(f, 0, 1, p);
  vc_assert(budan_01_test(f) == changes(p), "P06.budan");
}
VC_UNIT(P06, budan_1) { budan<1>(); }
VC_UNIT(P06, budan_2) { budan<2>(); }
VC_UNIT(P06, budan_3) { budan<3>(); }
VC_UNIT(P06, budan_4) { budan<4>(); }
template<size_t N> void alesina() {
  auto f = any_poly<N>("f");
  double a = vc_real("a"), b = vc_real("b"), p[N + 1];
  transformed<N>(f, a, b, p);
  vc_assert(alesina_galuzzi_test(f, a, b) == changes(p), "P06.alesina_galuzzi");
}
VC_UNIT(P06, alesina_1) { alesina<1>(); }
VC_UNIT(P06, alesina_2) { alesina<2>(); }
VC_UNIT(P06, alesina_3) { alesina<3>(); }
template<size_t N> void chain() {
  Var<> x;
  auto f = any_poly<N>("f");
  auto c = sturm_chain(f);
  same_poly(c.get(0), f, "P06.chain.p0");
  same_poly(c.get(1), derivative(f, x), "P06.chain.p1");
  auto d = derivative(f, x);
  auto r2 = spec_rem(f, d);
  if constexpr (N >= 2) {
    auto p2 = c.get(2);
    for (size_t i = 0; i <= N; ++i) vc_assert_eq(p2[i], i < r2.size() ? -r2[i] : 0.0, "P06.chain.p2");
  }
  if constexpr (N >= 3) {
    Polynomial<N - 2> p2;
    for (size_t i = 0; i <= N - 2; ++i) p2[i] = -r2[i];
    auto r3 = spec_rem(d, p2);
    auto p3 = c.get(3);
    for (size_t i = 0; i <= N; ++i) vc_assert_eq(p3[i], i < r3.size() ? -r3[i] : 0.0, "P06.chain.p3");
  }
  auto beyond = c.get(N + 1);
  for (size_t i = 0; i <= N; ++i) vc_assert_eq(beyond[i], 0, "P06.chain.end");
}
VC_UNIT(P06, chain_1) { chain<1>(); }
VC_UNIT(P06, chain_2) { chain<2>(); }
VC_UNIT(P06, chain_3) { chain<3>(); }
VC_UNIT(P06, chain_4) { chain<4>(); }
template<size_t N> size_t count_at(const detail::SturmChain<N, double, Var<>>& c, double t) {
  double v[N + 1];
  for (size_t i = 0; i <= N; ++i) v[i] = val(c.get(i), t);
  return changes(v);
}
template<size_t N> size_t count_inf(const detail::SturmChain<N, double, Var<>>& c, int side) {
  double v[N + 1];
  for (size_t i = 0; i <= N; ++i) {
    auto p = c.get(i);
    v[i] = p[0];
    for (size_t k = 1; k <= N; ++k) if (p[k] != 0) v[i] = (k % 2 && side < 0) ? -p[k] : p[k];
  }
  return changes(v);
}
template<size_t N> void sturm_count() {
  auto f = any_poly<N>("f");
  auto c = sturm_chain(f);
  double a = vc_real("a");
  vc_assert(c.sign_changes(a) == count_at<N>(c, a), "P06.sturm.sign_changes");
}
VC_UNIT(P06, sturm_count_1) { sturm_count<1>(); }
VC_UNIT(P06, sturm_count_2) { sturm_count<2>(); }
VC_UNIT(P06, sturm_count_3) { sturm_count<3>(); }
template<size_t N> void sturm_inf() {
  auto f = any_poly<N>("f");
  auto c = sturm_chain(f);
  const double inf = std::numeric_limits<double>::infinity();
  size_t m = count_inf<N>(c, -1), p = count_inf<N>(c, +1);
  vc_assert(c.sign_changes(-inf) == m, "P06.sturm.minus_infinity");
  vc_assert(c.sign_changes(inf) == p, "P06.sturm.plus_infinity");
  vc_assert(c.roots(-inf, inf) == (m > p ? m - p : p - m), "P06.sturm.roots_inf");
}
VC_UNIT(P06, sturm_inf_1) { sturm_inf<1>(); }
VC_UNIT(P06, sturm_inf_2) { sturm_inf<2>(); }
VC_UNIT(P06, sturm_inf_3) { sturm_inf<3>(); }
template<size_t N> void sturm_roots() {
  auto f = any_poly<N>("f");
  auto c = sturm_chain(f);
  double a = vc_real("a"), b = vc_real("b");
  size_t m = count_at<N>(c, a), p = count_at<N>(c, b);
  vc_assert(c.roots(a, b) == (m > p ? m - p : p - m), "P06.sturm.roots");
}
VC_UNIT(P06, sturm_roots_1) { sturm_roots<1>(); }
VC_UNIT(P06, sturm_roots_2) { sturm_roots<2>(); }
