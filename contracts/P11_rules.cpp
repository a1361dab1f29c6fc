// Every AD rule against the composition of truncated power series, for operands with arbitrary Taylor coefficients.
// The operands are opaque symbolic objects whose ad<Nd> is an arbitrary vector (the induction hypothesis).
#include <vc.hpp>
#include <stator/symbolic/ad.hpp>
#include <cmath>
static double opaque_coeff[4][8];
namespace sym {
  template<int K> struct Opq : SymbolicOperator<Opq<K>> {};
  template<size_t Nd, int K, typename V, typename A>
  Eigen::Matrix<double, Nd + 1, 1> ad(const Opq<K>&, const EqualityOp<V, A>&) {
    Eigen::Matrix<double, Nd + 1, 1> r;
    for (size_t i = 0; i <= Nd; ++i) r[i] = opaque_coeff[K][i];
    return r;
  }
}
using namespace sym;
template<size_t N> struct Ser { double c[N + 1]; };
template<size_t N> Ser<N> mulS(const Ser<N>& a, const Ser<N>& b) {
  Ser<N> r;
  for (size_t k = 0; k <= N; ++k) { r.c[k] = 0; for (size_t i = 0; i <= k; ++i) r.c[k] += a.c[i] * b.c[k - i]; }
  return r;
}
template<size_t N> Ser<N> addS(const Ser<N>& a, const Ser<N>& b, double s = 1) { Ser<N> r; for (size_t i = 0; i <= N; ++i) r.c[i] = a.c[i] + s * b.c[i]; return r; }
// F(g) for a function with Taylor coefficients d[m] = F^(m)(g0)/m! at g0
template<size_t N> Ser<N> compose(const double* d, Ser<N> g) {
  Ser<N> r, p;
  for (size_t i = 0; i <= N; ++i) { r.c[i] = 0; p.c[i] = i == 0; }
  g.c[0] = 0;
  for (size_t m = 0; m <= N; ++m) { for (size_t i = 0; i <= N; ++i) r.c[i] += d[m] * p.c[i]; p = mulS(p, g); }
  return r;
}
template<size_t N> Ser<N> operand(int k, const char* n) { Ser<N> s; for (size_t i = 0; i <= N; ++i) opaque_coeff[k][i] = s.c[i] = vc_real(n); return s; }
template<size_t N, class M> void same(const M& m, const Ser<N>& s, const char* label) { for (size_t i = 0; i <= N; ++i) vc_assert_eq(m[i], s.c[i], label); }
inline auto at() { return Var<>() = 0.0; }
template<size_t N> Ser<N> expS(const Ser<N>& g, double e0) { double d[N + 1], f = 1; for (size_t m = 0; m <= N; ++m) { if (m) f *= m; d[m] = e0 / f; } return compose<N>(d, g); }
template<size_t N> Ser<N> logS(const Ser<N>& g) {
  double d[N + 1], p = 1; d[0] = std::log(g.c[0]);
  for (size_t m = 1; m <= N; ++m) { p *= g.c[0]; d[m] = (m % 2 ? 1.0 : -1.0) / (m * p); }
  return compose<N>(d, g);
}
template<size_t N> void linear_rules() {
  auto f = operand<N>(0, "f"), g = operand<N>(1, "g");
  Opq<0> F; Opq<1> G;
  same(ad<N>(F + G, at()), addS(f, g), "P11.add");
  same(ad<N>(F - G, at()), addS(f, g, -1), "P11.subtract");
  same(ad<N>(F * G, at()), mulS(f, g), "P11.multiply");
  double c = vc_real("c"), x = vc_real("x");
  Ser<N> k; for (size_t i = 0; i <= N; ++i) k.c[i] = 0;
  k.c[0] = c; same(ad<N>(c, Var<>() = x), k, "P11.constant");
  k.c[0] = 2.5; same(ad<N>(C<5, 2>(), Var<>() = x), k, "P11.rational");
  k.c[0] = x; if (N > 0) k.c[1 <= N ? 1 : 0] = 1; same(ad<N>(Var<>(), Var<>() = x), k, "P11.variable");
  k.c[0] = 3; if (N > 0) k.c[1 <= N ? 1 : 0] = 1; same(ad<N>(Var<>(), Var<>() = 3), k, "P11.variable_int");
}
template<size_t N> void divide_rule() {
  auto f = operand<N>(0, "f"), g = operand<N>(1, "g");
  vc_assume(g.c[0] != 0);
  auto q = ad<N>(Opq<0>() / Opq<1>(), at());
  Ser<N> s; for (size_t i = 0; i <= N; ++i) s.c[i] = q[i];
  auto p = mulS(s, g);
  for (size_t i = 0; i <= N; ++i) vc_assert_eq(p.c[i], f.c[i], "P11.divide");
}
template<size_t N> void exp_rule() { auto g = operand<N>(0, "g"); same(ad<N>(exp(Opq<0>()), at()), expS<N>(g, std::exp(g.c[0])), "P11.exp"); }
template<size_t N> void log_rule() { auto g = operand<N>(0, "g"); vc_assume(g.c[0] > 0); same(ad<N>(log(Opq<0>()), at()), logS<N>(g), "P11.log"); }
template<size_t N> void trig_rules() {
  auto g = operand<N>(0, "g");
  double s0 = std::sin(g.c[0]), c0 = std::cos(g.c[0]), f = 1, ds[N + 1], dc[N + 1];
  for (size_t m = 0; m <= N; ++m) {
    if (m) f *= m;
    ds[m] = (m % 4 == 0 ? s0 : m % 4 == 1 ? c0 : m % 4 == 2 ? -s0 : -c0) / f;
    dc[m] = (m % 4 == 0 ? c0 : m % 4 == 1 ? -s0 : m % 4 == 2 ? -c0 : s0) / f;
  }
  same(ad<N>(sin(Opq<0>()), at()), compose<N>(ds, g), "P11.sin");
  same(ad<N>(cos(Opq<0>()), at()), compose<N>(dc, g), "P11.cos");
}
template<size_t N> void power_rule() {               // constant exponent, arbitrary real
  auto g = operand<N>(0, "g"); double a = vc_real("a");
  vc_assume(g.c[0] > 0);
  double d[N + 1], b = std::pow(g.c[0], a); d[0] = b;
  for (size_t m = 1; m <= N; ++m) { b = b * (a - (m - 1.0)) / (m * g.c[0]); d[m] = b; }
  same(ad<N>(pow(Opq<0>(), a), at()), compose<N>(d, g), "P11.power");
}
template<size_t N, int P, bool ct> void int_power_rule() {   // integer exponent, any base including 0 and negative
  auto g = operand<N>(0, "g");
  Ser<N> r; for (size_t i = 0; i <= N; ++i) r.c[i] = i == 0;
  for (int i = 0; i < P; ++i) r = mulS(r, g);
  if constexpr (ct) same(ad<N>(pow(Opq<0>(), C<P>()), at()), r, "P11.integer_power");
  else same(ad<N>(pow(Opq<0>(), double(P)), at()), r, "P11.integer_power_double");
  if (g.c[0] == 0) vc_reach("zero_base");
}
template<size_t N> void general_power_rule() {       // f^g = exp(g ln f)
  auto f = operand<N>(0, "f"), g = operand<N>(1, "g");
  vc_assume(f.c[0] > 0);
  auto h = mulS(g, logS<N>(f));
  same(ad<N>(pow(Opq<0>(), Opq<1>()), at()), expS<N>(h, std::pow(f.c[0], g.c[0])), "P11.general_power");
}
VC_UNIT(P11, linear_0) { linear_rules<0>(); }
VC_UNIT(P11, linear_1) { linear_rules<1>(); }
VC_UNIT(P11, linear_2) { linear_rules<2>(); }
VC_UNIT(P11, linear_4) { linear_rules<4>(); }
VC_UNIT(P11, linear_6) { linear_rules<6>(); }
VC_UNIT(P11, divide_0) { divide_rule<0>(); }
VC_UNIT(P11, divide_1) { divide_rule<1>(); }
VC_UNIT(P11, divide_3) { divide_rule<3>(); }
VC_UNIT(P11, divide_5) { divide_rule<5>(); }
VC_UNIT(P11, exp_0) { exp_rule<0>(); }
VC_UNIT(P11, exp_1) { exp_rule<1>(); }
VC_UNIT(P11, exp_3) { exp_rule<3>(); }
VC_UNIT(P11, exp_5) { exp_rule<5>(); }
VC_UNIT(P11, log_0) { log_rule<0>(); }
VC_UNIT(P11, log_2) { log_rule<2>(); }
VC_UNIT(P11, log_5) { log_rule<5>(); }
VC_UNIT(P11, trig_0) { trig_rules<0>(); }
VC_UNIT(P11, trig_1) { trig_rules<1>(); }
VC_UNIT(P11, trig_5) { trig_rules<5>(); }
VC_UNIT(P11, power_0) { power_rule<0>(); }
VC_UNIT(P11, power_2) { power_rule<2>(); }
VC_UNIT(P11, power_4) { power_rule<4>(); }
VC_UNIT(P11, int_power_0) { int_power_rule<3, 0, false>(); int_power_rule<3, 0, true>(); }
VC_UNIT(P11, int_power_1) { int_power_rule<3, 1, false>(); int_power_rule<3, 1, true>(); }
VC_UNIT(P11, int_power_2) { int_power_rule<4, 2, false>(); int_power_rule<4, 2, true>(); }
VC_UNIT(P11, int_power_3) { int_power_rule<3, 3, false>(); int_power_rule<3, 3, true>(); }
VC_UNIT(P11, int_power_5) { int_power_rule<2, 5, false>(); int_power_rule<2, 5, true>(); }
VC_UNIT(P11, general_power_0) { general_power_rule<0>(); }
VC_UNIT(P11, general_power_1) { general_power_rule<1>(); }
VC_UNIT(P11, general_power_2) { general_power_rule<2>(); }
VC_UNIT(P11, general_power_3) { general_power_rule<3>(); }
VC_UNIT(P11, general_power_4) { general_power_rule<4>(); }
