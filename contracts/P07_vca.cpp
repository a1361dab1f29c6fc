// VCA: root isolation by bisection.  Ghost roots r[0..G) of f in (0,1); Budan's count and the recursive calls are taken
// by contract (Budan: at least the number of roots in (0,1), exact when 0 or 1; the recursive call: this contract).
#include <poly.hpp>
#include <cmath>
typedef std::pair<double, double> Ival;
static double g_r[2]; static int g_n;
template<size_t N> using Bounds = StackVector<Ival, N>;
template<size_t N> size_t budan_contract(const Polynomial<N>& p) {
  return (size_t)vc_choose("budan", g_n, 3);
}
static bool is_root(double v) { return vc_identical(v, 0); }
template<size_t N> Bounds<N> worker_contract(const Polynomial<N>& p) {
  Bounds<N> out;
  double q[2]; bool in[2] = {false, false};
  for (int i = 0; i < g_n; ++i) {
    for (int h = 0; h < 2; ++h) {            // left half: 2r, right half: 2r - 1
      double z = 2 * g_r[i] - h;
      if (z > 0 && z < 1 && !in[i] && is_root(val(p, z))) { q[i] = z; in[i] = true; }
    }
  }
  for (int i = 0; i < g_n; ++i) if (in[i]) {
    double a = vc_real("lo"), b = vc_real("hi");
    vc_assume(0 <= a && a < q[i] && q[i] < b && b <= 1);
    if (g_n == 2 && in[1 - i]) vc_assume(q[1 - i] <= a || q[1 - i] >= b);
    out.push_back(Ival(a, b));
  }
  return out;
}
template<size_t N> Polynomial<N> with_roots(int n) {
  Polynomial<N> f;
  g_n = n;
  for (int i = 0; i < n; ++i) g_r[i] = vc_real("r");
  if (n == 1) {
    auto g = any_poly<N - 1>("g");
    for (size_t i = 0; i <= N; ++i) f[i] = (i ? g[i - 1] : 0) - (i < N ? g_r[0] * g[i] : 0);
  } else {
    auto g = any_poly<N - 2>("g");
    double c0 = g_r[0] * g_r[1], c1 = -g_r[0] - g_r[1];
    for (size_t i = 0; i <= N; ++i) f[i] = (i >= 2 ? g[i - 2] : 0) + (i >= 1 && i + 1 <= N ? c1 * g[i - 1] : 0) + (i + 2 <= N ? c0 * g[i] : 0);
  }
  return f;
}
template<size_t N> void isolated(Bounds<N>& b, double lo, double hi, const char* label) {
  for (int i = 0; i < g_n; ++i) {
    int hits = 0, shared = 0;
    for (auto& v : b) {
      if (v.first < g_r[i] && g_r[i] < v.second) { ++hits; if (g_n == 2 && v.first < g_r[1 - i] && g_r[1 - i] < v.second) ++shared; }
    }
    vc_assert(hits >= 1, label);
    vc_assert(shared == 0, "P07.isolation.shared");
  }
  for (auto& v : b) vc_assert(vc_le(lo, v.first) && v.first < v.second && vc_le(v.second, hi), "P07.isolation.range");
}
template<size_t N> void worker(int n, bool split) {
  auto f = with_roots<N>(n);
  for (int i = 0; i < n; ++i) { vc_assume(0 < g_r[i] && g_r[i] < 1); if (!split) vc_assume(g_r[i] != 0.5); else if (i == 0) vc_assume(g_r[i] == 0.5); }
  if (n == 2) vc_assume(g_r[0] < g_r[1]);
  vc_contract((void*)&budan_01_test<N, double, Var<>>, (void*)&budan_contract<N>);
  vc_contract((void*)&VCA_real_root_bounds_worker<N, double, Var<>>, (void*)&worker_contract<N>);
  vc_call_real((void*)&VCA_real_root_bounds_worker<N, double, Var<>>);
  auto b = VCA_real_root_bounds_worker(f);
  isolated<N>(b, 0, 1, split ? "P07.vca.split_root" : "P07.vca.contains");
}
VC_UNIT(P07, vca_worker_1root_3) { worker<3>(1, false); }
VC_UNIT(P07, vca_worker_2roots_3) { worker<3>(2, false); }
VC_UNIT(P07, vca_worker_1root_5) { worker<5>(1, false); }
VC_UNIT(P07, vca_worker_2roots_4) { worker<4>(2, false); }
VC_UNIT(P07, vca_split_root) { worker<3>(1, true); }
static double g_ub;
template<size_t N> double lmq_contract(const Polynomial<N>&) { return g_ub; }
template<size_t N> Bounds<N> top_worker_contract(const Polynomial<N>& p) {
  Bounds<N> out;
  for (int i = 0; i < g_n; ++i) if (is_root(val(p, g_r[i] / g_ub))) {
    double a = vc_real("lo"), b = vc_real("hi"), q = g_r[i] / g_ub;
    vc_assume(0 <= a && a < q && q < b && b <= 1);
    if (g_n == 2) vc_assume(g_r[1 - i] / g_ub <= a || g_r[1 - i] / g_ub >= b);
    out.push_back(Ival(a, b));
  }
  return out;
}
template<size_t N> void top(int n) {
  auto f = with_roots<N>(n);
  g_ub = vc_real("ub"); if (n == 0) vc_assume(g_ub >= 0);
  for (int i = 0; i < n; ++i) vc_assume(0 < g_r[i] && g_r[i] < g_ub);
  if (n == 2) vc_assume(g_r[0] < g_r[1]);
  vc_contract((void*)&LMQ_upper_bound<double, N, Var<>>, (void*)&lmq_contract<N>);
  vc_contract((void*)&VCA_real_root_bounds_worker<N, double, Var<>>, (void*)&top_worker_contract<N>);
  auto b = VCA_real_root_bounds(f);
  isolated<N>(b, 0, g_ub, "P07.vca.contains");
}
VC_UNIT(P07, vca_top_1) { top<3>(1); }
VC_UNIT(P07, vca_top_2) { top<4>(2); }
