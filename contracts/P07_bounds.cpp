// LMQ bounds and Moebius transformations.
#include <poly.hpp>
#include <cmath>
// Contract of std::pow for x > 0 and exponent 1/n (the only fact used: y = x^(1/n) >= 0 compares with t > 0 as x with t^n)
static double g_w;      // w = 1/t
static double pow_contract(double x, double e) {
  vc_assert(x > 0, "P07.lmq.pow_domain");
  int n = 1;
  while (n < 12 && e * n < 0.9999) ++n;
  vc_assert(e * n > 0.9999 && e * n < 1.0001, "P07.lmq.pow_exponent");
  double y = vc_real("y"); vc_assume(y > 0);
  double q = x * ipow(g_w, n);
  if (y * g_w < 1) vc_assume(q < 1);
  else if (y * g_w > 1) vc_assume(q > 1);
  else vc_assume(q == 1);
  return y;
}
// f has the root t > 0: f[k] = c[k] / t^k with sum c = 0 (every polynomial with a positive root t is of this form)
template<size_t N> Polynomial<N> with_root() {
  g_w = vc_real("w"); vc_assume(g_w > 0);
  Polynomial<N> f; double s = 0, wn = 1; bool any = false;
  for (size_t k = 0; k <= N; ++k) {
    double c = k < N ? vc_real("c") : -s;
    s += c; if (c != 0) any = true;
    f[k] = c * wn; wn *= g_w;
  }
  vc_assume(any);
  return f;
}
template<size_t N> void lmq_upper() {
  auto f = with_root<N>();
  vc_contract((void*)(double (*)(double, double))&::pow, (void*)&pow_contract);
  double u = LMQ_upper_bound(f);
  vc_assert(vc_lt(1, u * g_w), "P07.lmq.upper");
}
template<size_t N> void lmq_lower() {
  auto f = with_root<N>();
  double t = 1 / g_w, w = g_w;
  g_w = t;                                    // the reversed polynomial has the root 1/t
  vc_contract((void*)(double (*)(double, double))&::pow, (void*)&pow_contract);
  double l = LMQ_lower_bound(f);
  vc_assert(vc_lt(l * w, 1), "P07.lmq.lower");
}
VC_UNIT(P07, lmq_upper_1) { lmq_upper<1>(); }
VC_UNIT(P07, lmq_upper_2) { lmq_upper<2>(); }
VC_UNIT(P07, lmq_upper_3) { lmq_upper<3>(); }
VC_UNIT(P07, lmq_lower_1) { lmq_lower<1>(); }
VC_UNIT(P07, lmq_lower_2) { lmq_lower<2>(); }
VC_UNIT(P07, lmq_lower_3) { lmq_lower<3>(); }
// order 4 with the leading coefficients shared by three lower ones of the other sign
VC_UNIT(P07, lmq_shared_4) {
  auto f = with_root<4>();
  for (int i = 0; i < 5; ++i) if (i < 3) vc_assume(f[i] < 0); else vc_assume(f[i] > 0);
  vc_contract((void*)(double (*)(double, double))&::pow, (void*)&pow_contract);
  double u = LMQ_upper_bound(f);
  vc_assert(vc_lt(1, u * g_w), "P07.lmq.upper");
}
