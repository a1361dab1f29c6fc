// VAS: root isolation by Moebius transformations.  Ghost roots y[0..G) > 0 of the transformed polynomial f, with
// x[i] = M(y[i]) the roots of the polynomial the caller asked about.  Taken by contract: the sign rule of Descartes (at
// least the number of positive roots), LMQ_lower_bound (below every positive root), precision (>= 0) and the recursive
// calls (this contract).  The restart loop is cut at its invariant: f and M still describe the same roots.
#include <poly.hpp>
#include <cmath>
typedef std::pair<double, double> Ival;
template<size_t N> using Bounds = StackVector<Ival, N>;
static double g_x[2], g_y[2]; static int g_n;
static bool near(double v) { return vc_identical(v, 0); }
template<size_t N> size_t descartes_contract(const Polynomial<N>&) { return (size_t)vc_choose("descartes", g_n, 2); }
// precision: nothing is known of it except that it is not negative at a root
template<size_t N> double precision_contract(const Polynomial<N>& f, const double& x) {
  double p = vc_real("prec"); vc_assume(p >= 0 || val(f, x) != 0);
  return p;
}
template<size_t N> double lower_contract(const Polynomial<N>& f) {
  double lb = vc_real("lb");
  vc_assume(lb > 0);
  for (int i = 0; i < g_n; ++i) vc_assume(lb < g_y[i]);
  return lb;
}
// the preimage of the root x[i] under M
static bool preimage(const MobiusTransform<double>& M, int i, double& z) {
  double den = M[2] * g_x[i] - M[0];
  if (vc_identical(den, 0)) return false;
  z = (M[1] - M[3] * g_x[i]) / den;
  return true;
}
template<size_t N> void invariant(Polynomial<N>& f, MobiusTransform<double>& M) {
  vc_reach("vas.loop");
  vc_assert(M[0] >= 0 && M[1] >= 0 && M[2] >= 0 && M[3] > 0, "P07.vas.loop_coefficients");
  vc_assert(M[0] * M[3] - M[1] * M[2] != 0, "P07.vas.loop_determinant");
  for (int i = 0; i < g_n; ++i) {
    double z = 0;
    vc_assert(preimage(M, i, z), "P07.vas.loop_preimage");
    vc_assert(z > 0, "P07.vas.loop_positive");
    vc_assert_eq(val(f, z), 0, "P07.vas.loop_root");
  }
}
// contract of the recursive call: for every ghost root that (f, M) still describes, an interval around it and no other
template<size_t N> Bounds<N> worker_contract(Polynomial<N> f, MobiusTransform<double> M) {
  Bounds<N> out;
  vc_assert(M[0] >= 0 && M[1] >= 0 && M[2] >= 0 && M[3] > 0, "P07.vas.call_coefficients");
  bool in[2] = {false, false};
  for (int i = 0; i < g_n; ++i) {
    double z;
    if (preimage(M, i, z) && near(val(f, z)) && z > 0) in[i] = true;
  }
  for (int i = 0; i < g_n; ++i) if (in[i]) {
    double a = vc_real("lo"), b = vc_real("hi");
    vc_assume(a < g_x[i] && g_x[i] < b);
    if (g_n == 2 && in[1 - i]) vc_assume(g_x[1 - i] <= a || g_x[1 - i] >= b);
    if (vc_choose("swapped", 0, 1)) out.push_back(Ival(b, a)); else out.push_back(Ival(a, b));
    // an interval of a recursive call lies in M((0,inf)): which separates it from the roots of the other call
    if (g_n == 2 && !in[1 - i]) vc_assume(g_x[1 - i] <= a || g_x[1 - i] >= b);
  }
  return out;
}
static bool inside(const Ival& v, double x) { return (v.first < x && x < v.second) || (v.second < x && x < v.first); }
template<size_t N> void isolated(Bounds<N>& b) {
  for (int i = 0; i < g_n; ++i) {
    int hits = 0, shared = 0;
    for (auto& v : b) if (inside(v, g_x[i])) { ++hits; if (g_n == 2 && inside(v, g_x[1 - i])) ++shared; }
    vc_assert(hits >= 1, "P07.vas.contains");
    vc_assert(shared == 0, "P07.vas.shared");
  }
}
template<size_t N> Polynomial<N> with_roots(int n) {
  Polynomial<N> f;
  g_n = n;
  for (int i = 0; i < n; ++i) { g_y[i] = vc_real("y"); vc_assume(g_y[i] > 0); }
  if (n == 1) {
    auto g = any_poly<N - 1>("g");
    if (vc_choose("zero_constant", 0, 1)) g[0] = 0; else vc_assume(g[0] != 0);
    for (size_t i = 0; i <= N; ++i) f[i] = (i ? g[i - 1] : 0) - (i < N ? g_y[0] * g[i] : 0);
  } else {
    auto g = any_poly<N - 2>("g");
    if (vc_choose("zero_constant", 0, 1)) g[0] = 0; else vc_assume(g[0] != 0);
    double c0 = g_y[0] * g_y[1], c1 = -g_y[0] - g_y[1];
    for (size_t i = 0; i <= N; ++i) f[i] = (i >= 2 ? g[i - 2] : 0) + (i >= 1 && i < N ? c1 * g[i - 1] : 0) + (i + 2 <= N ? c0 * g[i] : 0);
    vc_assume(g_y[0] != g_y[1]);
  }
  return f;
}
template<size_t N> void worker(int n) {
  auto f = with_roots<N>(n);
  double a = vc_real("a"), b = vc_real("b"), c = vc_real("c"), d = vc_real("d");
  vc_assume(a >= 0 && b >= 0 && c >= 0 && d > 0);
  vc_assume(a * d - b * c != 0);
  for (int i = 0; i < n; ++i) g_x[i] = (a * g_y[i] + b) / (c * g_y[i] + d);
  auto fn = (Bounds<N> (*)(Polynomial<N>, MobiusTransform<double>))&VAS_real_root_bounds_worker<N, double, Var<>>;
  vc_contract((void*)&descartes_rule_of_signs<N, double, Var<>>, (void*)&descartes_contract<N>);
  vc_contract((void*)&LMQ_lower_bound<double, N, Var<>>, (void*)&lower_contract<N>);
  vc_contract((void*)(double (*)(const Polynomial<N>&, const double&))&precision<double, N, double, Var<>>, (void*)&precision_contract<N>);
  vc_contract((void*)fn, (void*)&worker_contract<N>);
  vc_call_real((void*)fn);
  vc_loop((void*)fn, (void*)&invariant<N>);
  auto r = fn(f, MobiusTransform<double>(a, b, c, d));
  isolated<N>(r);
}
VC_UNIT(P07, vas_worker_1root_2) { worker<2>(1); }
VC_UNIT(P07, vas_worker_1root_3) { worker<3>(1); }
VC_UNIT(P07, vas_worker_2roots_3) { worker<3>(2); }
VC_UNIT(P07, precision_at_root) {
  auto f = any_poly<4>("f");
  double x = vc_real("x");
  vc_assume(x > 0);
  f[0] = 0; f[0] = -val(f, x);
  vc_assert(precision(f, x) >= 0, "P07.vas.precision");
}
// top level: identity Moebius, swapped and infinite interval ends put right
static double g_ub;
template<size_t N> double upper_contract(const Polynomial<N>&) { return g_ub; }
template<size_t N> Bounds<N> top_worker_contract(Polynomial<N> f, MobiusTransform<double> M) {
  Bounds<N> out;
  vc_assert(M[0] == 1 && M[1] == 0 && M[2] == 0 && M[3] == 1, "P07.vas.identity");
  for (int i = 0; i < g_n; ++i) {
    vc_assert_eq(val(f, g_x[i]), 0, "P07.vas.top_root");
    double a = vc_real("lo"), b = vc_choose("infinite", 0, 1) ? HUGE_VAL : vc_real("hi");
    vc_assume(0 <= a && a < g_x[i] && g_x[i] < b);
    if (g_n == 2) vc_assume(g_x[1 - i] <= a || g_x[1 - i] >= b);
    if (vc_choose("swapped", 0, 1)) out.push_back(Ival(b, a)); else out.push_back(Ival(a, b));
  }
  return out;
}
template<size_t N> void top(int n) {
  auto f = with_roots<N>(n);
  g_ub = vc_real("ub");
  for (int i = 0; i < n; ++i) { g_x[i] = g_y[i]; vc_assume(g_x[i] < g_ub); }
  auto fn = (Bounds<N> (*)(Polynomial<N>, MobiusTransform<double>))&VAS_real_root_bounds_worker<N, double, Var<>>;
  vc_contract((void*)&LMQ_upper_bound<double, N, Var<>>, (void*)&upper_contract<N>);
  vc_contract((void*)fn, (void*)&top_worker_contract<N>);
  auto r = VAS_real_root_bounds(f);
  isolated<N>(r);
  for (auto& v : r) vc_assert(vc_le(0, v.first) && v.first < v.second && !std::isinf(v.second), "P07.vas.finite_sorted");
}
VC_UNIT(P07, vas_top_1) { top<3>(1); }
VC_UNIT(P07, vas_top_2) { top<3>(2); }
