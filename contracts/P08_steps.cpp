// Single refinement steps: the objective function is uninterpreted (F0, F1, F2 = value and derivatives).
#include <vc.hpp>
#include <stator/symbolic/numeric.hpp>
#include <cmath>
using namespace stator::numeric;
template<size_t D> struct Fn {
  std::array<double, D> operator()(double x) const {
    static const char* names[3] = {"F0", "F1", "F2"};
    std::array<double, D> a;
    for (size_t i = 0; i < D; ++i) a[i] = vc_uf(names[i], x);
    return a;
  }
};
template<size_t D> struct St { std::array<double, D> s; double x, lo, hi, p; };
template<size_t D> St<D> any_state() {
  St<D> a;
  for (size_t i = 0; i < D; ++i) a.s[i] = vc_real("s");
  a.x = vc_real("x"); a.p = vc_real("p"); vc_assume(a.p > 0 && a.p < 1);
  a.lo = vc_choose("lowinf", 0, 1) ? -HUGE_VAL : vc_real("lo");
  a.hi = vc_choose("highinf", 0, 1) ? HUGE_VAL : vc_real("hi");
  vc_assume(a.lo <= a.x && a.x <= a.hi);
  return a;
}
template<size_t D> void common(const St<D>& a, const St<D>& b, int r, double target, bool shrink = true) {
  vc_assert(r == 0 || r == 1 || r == 2, "P08.step.status");
  if (r == 0) {
    bool same = a.x == b.x && a.lo == b.lo && a.hi == b.hi;
    vc_assert(same, "P08.step.failure_moves_nothing");
    for (size_t i = 0; i < D; ++i) vc_assert(a.s[i] == b.s[i], "P08.step.failure_keeps_state");
    return;
  }
  vc_assert(vc_same(b.x, target), "P08.step.formula");
  vc_assert(a.lo < b.x && b.x < a.hi, "P08.step.strictly_inside");
  auto f = Fn<D>()(b.x);
  for (size_t i = 0; i < D; ++i) vc_assert(b.s[i] == f[i], "P08.step.state_at_new_x");
  vc_assert(a.lo <= b.lo && b.hi <= a.hi, "P08.step.bounds_tightened");
  double d = b.x - a.x, t = a.p * b.x;
  if (d < 0) d = -d;
  if (t < 0) t = -t;
  if (r == 2) { vc_reach("step.converged"); vc_assert(d < t || f[0] == 0 || b.x == a.lo || b.x == a.hi, "P08.step.converged"); }
  else { vc_reach("step.moved"); vc_assert(b.lo <= b.x && b.x <= b.hi, "P08.step.bracketed"); }
}
// the safeguards of an open step: no increase of |f| unless converged, bounds tightened to the point just left
template<size_t D> void open_step(const St<D>& a, const St<D>& b, int r) {
  if (r != 1) return;
  double u = a.s[0] < 0 ? -a.s[0] : a.s[0], v = b.s[0] < 0 ? -b.s[0] : b.s[0];
  vc_assert(v <= u, "P08.step.decrease");
  vc_assert(b.lo == a.lo || (b.lo == a.x && a.x <= b.x), "P08.step.low_bound");
  vc_assert(b.hi == a.hi || (b.hi == a.x && a.x >= b.x), "P08.step.high_bound");
}
VC_UNIT(P08, safeguards) {
  auto a = any_state<1>(); auto b = a;
  double nx = vc_real("nx");
  int r = detail::process_iterative_step(Fn<1>(), b.s, b.x, nx, b.lo, b.hi, b.p);
  common(a, b, r, nx); open_step(a, b, r);
  if (nx <= a.lo || nx >= a.hi) vc_assert(r == 0, "P08.step.out_of_bounds_refused");
}
VC_UNIT(P08, newton_step) {
  auto a = any_state<2>(); auto b = a;
  int r = newton_raphson_step(Fn<2>(), b.s, b.x, b.lo, b.hi, b.p);
  if (a.s[1] == 0) { vc_assert(r == 0, "P08.newton.zero_derivative"); common(a, b, r, 0); return; }
  common(a, b, r, a.x - a.s[0] / a.s[1]); open_step(a, b, r);
}
VC_UNIT(P08, newton_step_3) {
  auto a = any_state<3>(); auto b = a;
  int r = newton_raphson_step(Fn<3>(), b.s, b.x, b.lo, b.hi, b.p);
  if (a.s[1] == 0) { vc_assert(r == 0, "P08.newton.zero_derivative"); common(a, b, r, 0); return; }
  common(a, b, r, a.x - a.s[0] / a.s[1]); open_step(a, b, r);
}
VC_UNIT(P08, halley_step) {
  auto a = any_state<3>(); auto b = a;
  vc_assume(a.s[1] != 0);
  int r = halley_step(Fn<3>(), b.s, b.x, b.lo, b.hi, b.p);
  double den = 2 * a.s[1] * a.s[1] - a.s[0] * a.s[2];
  if (den == 0) { vc_assert(r == 0, "P08.halley.zero_denominator"); common(a, b, r, 0); return; }
  double d = -2 * a.s[0] * a.s[1] / den, n = -a.s[0] / a.s[1];
  common(a, b, r, a.x + d); open_step(a, b, r);
  if ((d < 0 && n > 0) || (d > 0 && n < 0)) vc_assert(r == 0, "P08.halley.direction");
}
VC_UNIT(P08, schroeder_step) {
  auto a = any_state<3>(); auto b = a;
  int r = schroeder_step(Fn<3>(), b.s, b.x, b.lo, b.hi, b.p);
  if (a.s[1] == 0) { vc_assert(r == 0, "P08.schroeder.zero_derivative"); common(a, b, r, 0); return; }
  common(a, b, r, a.x - a.s[0] / a.s[1] - a.s[2] * a.s[0] * a.s[0] / (2 * a.s[1] * a.s[1] * a.s[1])); open_step(a, b, r);
}
VC_UNIT(P08, bisection_step) {
  auto a = any_state<2>(); auto b = a;
  int r = bisection_step(Fn<2>(), b.s, b.x, b.lo, b.hi, b.p);
  if (std::isinf(a.lo) || std::isinf(a.hi) || a.lo >= a.hi) { vc_assert(r == 0, "P08.bisect_step.invalid"); common(a, b, r, 0); return; }
  double fl = vc_uf("F0", a.lo), fh = vc_uf("F0", a.hi);
  if ((fl < 0) == (fh < 0)) { vc_assert(r == 0, "P08.bisect_step.no_sign_change"); common(a, b, r, 0); return; }
  vc_assert(r != 0, "P08.bisect_step.accepts_bracket");
  common(a, b, r, (a.lo + a.hi) / 2);
  if (r == 1) {
    vc_assert((b.lo == b.x && b.hi == a.hi) || (b.lo == a.lo && b.hi == b.x), "P08.bisect_step.halved");
    double nl = b.lo == a.lo ? fl : b.s[0], nh = b.hi == a.hi ? fh : b.s[0];
    vc_assert((nl < 0) != (nh < 0), "P08.bisect_step.sign_change_kept");
  }
}
