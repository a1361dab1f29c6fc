// vc-opts bisection_.*: lazyabs=1
// vc-opts (newton|halley)_.*: lazyabs=1 time=150
// Refinement loops, any number of iterations.  The ghost code sits in the (uninterpreted) objective function, so it only
// sees which points are evaluated; the loop invariants are found and proved by the verifier.
#include <vc.hpp>
#include <stator/symbolic/numeric.hpp>
#include <cmath>
using namespace stator::numeric;
static double g_lo0, g_hi0, g_lo, g_hi, g_flo, g_fhi;       // smallest evaluated bracket with a sign change
struct Bracket {
  double operator()(double x) const {
    double v = vc_uf("F0", x);
    if (g_lo < x && x < g_hi) {
      if ((v < 0) == (g_fhi < 0)) { g_hi = x; g_fhi = v; } else { g_lo = x; g_flo = v; }
    }
    return v;
  }
};
static void bracket_unit(size_t iterations, int digits) {
  vc_invariants("_ZN6stator7numeric");
  double lo = vc_real("lo"), hi = vc_real("hi"), x = vc_real("x"), x0 = x;
  vc_term(&g_lo0); vc_term(&g_hi0);
  g_lo0 = g_lo = lo; g_hi0 = g_hi = hi; g_flo = vc_uf("F0", lo); g_fhi = vc_uf("F0", hi);
  bool r = digits ? bisection(Bracket(), x, lo, hi, iterations, digits) : bisection(Bracket(), x, lo, hi, iterations);
  if (lo >= hi) { vc_assert(!r && x == x0, "P08.bisection.inverted_refused"); return; }
  if ((g_flo < 0) == (g_fhi < 0)) { vc_assert(!r && x == x0, "P08.bisection.no_sign_change_refused"); return; }
  if (!r) { vc_assert(lo <= x && x <= hi, "P08.bisection.inside"); return; }
  vc_reach("bisection.found");
  vc_assert(lo <= x && x <= hi, "P08.bisection.inside");
  double p = std::ldexp(1.0, 1 - (digits ? digits : std::numeric_limits<double>::digits / 2)), w = g_hi - g_lo, t = p * x, mid = (g_lo + g_hi) / 2;
  if (t < 0) t = -t;
  vc_assert(vc_uf("F0", x) == 0 || (g_lo <= x && x <= g_hi && w < t) || mid == g_lo || mid == g_hi, "P08.bisection.precise");
}
VC_UNIT(P08, bisection_default) { bracket_unit(0, 0); }
VC_UNIT(P08, bisection_limited) { bracket_unit((size_t)vc_int("iterations", 1, 1000000), 0); }
VC_UNIT(P08, bisection_digits) { bracket_unit(0, 10); }
VC_UNIT(P08, bisection_infinite) {
  double x = vc_real("x"), x0 = x, lo = vc_choose("a", 0, 1) ? -HUGE_VAL : vc_real("lo"), hi = vc_choose("b", 0, 1) ? HUGE_VAL : vc_real("hi");
  vc_assume(std::isinf(lo) || std::isinf(hi));
  g_lo = g_hi = 0;
  vc_assert(!bisection(Bracket(), x, lo, hi) && x == x0, "P08.bisection.infinite_refused");
}
static double* g_x; static double g_e, g_F, g_m, g_p;    // last evaluated point and value; g_m <= 0: zero, or step below precision
template<size_t D> struct Step {
  std::array<double, D> operator()(double e) const {
    static const char* names[3] = {"F0", "F1", "F2"};
    std::array<double, D> a;
    for (size_t i = 0; i < D; ++i) a[i] = vc_uf(names[i], e);
    double d = e - *g_x;
    g_e = e; g_F = a[0]; g_m = g_F * g_F * (d * d - g_p * g_p * e * e);
    return a;
  }
};
template<size_t D> void iterate(bool bounded, size_t iterations) {
  vc_invariants("_ZN6stator7numeric");
  double x = vc_real("x"), lo = bounded ? vc_real("lo") : -HUGE_VAL, hi = bounded ? vc_real("hi") : HUGE_VAL;
  if (bounded) vc_assume(lo <= x && x <= hi);
  g_lo0 = lo; g_hi0 = hi; vc_term(&g_lo0); vc_term(&g_hi0);
  g_x = &x; g_p = std::ldexp(1.0, 1 - std::numeric_limits<double>::digits / 2); g_e = 0; g_F = 1; g_m = 1;
  bool r;
  r = bounded ? newton_raphson(Step<D>(), x, lo, hi, iterations) : newton_raphson(Step<D>(), x);
  vc_assert(lo <= x && x <= hi, "P08.iteration.inside");
  if (!r) return;
  vc_reach("iteration.found");
  vc_assert(x == g_e, "P08.iteration.result_evaluated");
  vc_assert(g_m <= 0 || (!vc_symbolic() && g_F == 0), "P08.iteration.converged");
}
VC_UNIT(P08, newton_open) { iterate<2>(false, 0); }
VC_UNIT(P08, newton_bounded) { iterate<2>(true, 0); }
VC_UNIT(P08, newton_limited) { iterate<2>(true, (size_t)vc_int("iterations", 1, 1000000)); }
// Halley's loop calls three kinds of steps: taken by the contract proved for them in P08_steps
static double g_s[3];
struct Start {
  std::array<double, 3> operator()(double e) const {
    std::array<double, 3> a{{vc_uf("F0", e), vc_uf("F1", e), vc_uf("F2", e)}};
    g_e = e; g_F = a[0]; for (int i = 0; i < 3; ++i) g_s[i] = a[i];
    return a;
  }
};
static int step_contract(const Start&, std::array<double, 3>& s, double& x, double& lo, double& hi, double p) {
  vc_assert(x == g_e && s[0] == g_s[0] && s[1] == g_s[1] && s[2] == g_s[2], "P08.halley.step_pre_state");
  vc_assert(lo <= x && x <= hi, "P08.halley.step_pre_bounds");
  vc_assert(p == g_p, "P08.halley.step_pre_precision");
  int r = (int)vc_choose("step", 0, 2);
  if (!r) return 0;
  double nx = vc_real("nx"), d = nx - x;
  vc_assume(lo < nx && nx < hi);
  for (int i = 0; i < 3; ++i) s[i] = g_s[i] = vc_real("state");
  g_m = s[0] * s[0] * (d * d - p * p * nx * nx);
  if (r == 2) vc_assume(g_m <= 0);
  else {
    switch (vc_choose("bounds", 0, 3)) {
    case 0: lo = x; vc_assume(x <= nx); break;
    case 1: hi = x; vc_assume(x >= nx); break;
    case 2: lo = nx; break;
    case 3: hi = nx; break;
    }
  }
  x = g_e = nx; g_F = s[0];
  return r;
}
static void halley(bool bounded, size_t iterations) {
  vc_invariants("_ZN6stator7numeric");
  double x = vc_real("x"), lo = bounded ? vc_real("lo") : -HUGE_VAL, hi = bounded ? vc_real("hi") : HUGE_VAL;
  if (bounded) vc_assume(lo <= x && x <= hi);
  g_lo0 = lo; g_hi0 = hi; vc_term(&g_lo0); vc_term(&g_hi0);
  g_p = std::ldexp(1.0, 1 - std::numeric_limits<double>::digits / 2); g_m = 1;
  vc_contract((void*)&halley_step<Start, 3, double>, (void*)&step_contract);
  vc_contract((void*)&newton_raphson_step<Start, 3, double>, (void*)&step_contract);
  vc_contract((void*)&bisection_step<Start, 3, double>, (void*)&step_contract);
  bool r = bounded ? halleys_method(Start(), x, lo, hi, iterations) : halleys_method(Start(), x);
  vc_assert(lo <= x && x <= hi, "P08.iteration.inside");
  if (!r || !vc_symbolic()) return;
  vc_reach("iteration.found");
  vc_assert(x == g_e, "P08.iteration.result_evaluated");
  vc_assert(g_F == 0 || g_m <= 0, "P08.iteration.converged");
}
VC_UNIT(P08, halley_open) { halley(false, 0); }
VC_UNIT(P08, halley_bounded) { halley(true, 0); }
VC_UNIT(P08, halley_limited) { halley(true, (size_t)vc_int("iterations", 1, 1000000)); }
