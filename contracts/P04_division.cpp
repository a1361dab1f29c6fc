// Euclidean division: f = q g + r, deg r < deg g, for every f and every non-zero g (leading zeros allowed).
#include <poly.hpp>
#include <limits>
template<size_t N, size_t M> void division() {
  auto f = any_poly<N>("f"); auto g = any_poly<M>("g");
  auto res = gcd(f, g);
  auto q = std::get<0>(res); auto r = std::get<1>(res);
  const size_t R = r.size();
  // actual degree of g
  int d = -1;
  for (size_t i = 0; i <= M; ++i) if (g[i] != 0) d = (int)i;
  if (d < 0) {
    vc_assert(q[0] == std::numeric_limits<double>::infinity(), "P04.zero_divisor.quotient");
    for (size_t i = 0; i < R; ++i) vc_assert_eq(r[i], 0, "P04.zero_divisor.remainder");
    vc_reach("zero_divisor");
    return;
  }
  for (size_t k = 0; k <= N; ++k) {
    double s = k < R ? r[k] : 0.0;
    for (size_t j = 0; j <= M && j <= k; ++j) s += q[k - j] * g[j];
    vc_assert_eq(s, f[k], "P04.identity");
  }
  // no power above the order of f may appear in q*g
  for (size_t k = N + 1; k <= N + M; ++k) {
    double s = 0;
    for (size_t j = k - N; j <= M; ++j) s += q[k - j] * g[j];
    vc_assert_eq(s, 0, "P04.identity");
  }
  for (size_t i = 0; i < R; ++i) if ((int)i >= d) vc_assert_eq(r[i], 0, "P04.degree");
}
// vc-opts division_.*: reach=zero_divisor
VC_UNIT(P04, division_1_0) { division<1, 0>(); }
VC_UNIT(P04, division_4_0) { division<4, 0>(); }
VC_UNIT(P04, division_2_1) { division<2, 1>(); }
VC_UNIT(P04, division_3_1) { division<3, 1>(); }
VC_UNIT(P04, division_3_2) { division<3, 2>(); }
VC_UNIT(P04, division_4_2) { division<4, 2>(); }
VC_UNIT(P04, division_4_3) { division<4, 3>(); }
VC_UNIT(P04, division_5_3) { division<5, 3>(); }
VC_UNIT(P04, division_5_4) { division<5, 4>(); }
// the Sturm chain step is the negated remainder of this division
template<size_t N> void sturm_step() {
  Var<> x;
  auto f = any_poly<N>("f");
  auto d = derivative(f, x);
  auto want = spec_rem(f, d);
  auto got = sturm_chain(f).get(2);
  for (size_t i = 0; i <= N; ++i) vc_assert_eq(got[i], i < want.size() ? -want[i] : 0.0, "P04.negated_remainder");
}
VC_UNIT(P04, sturm_step_2) { sturm_step<2>(); }
VC_UNIT(P04, sturm_step_3) { sturm_step<3>(); }
VC_UNIT(P04, sturm_step_4) { sturm_step<4>(); }
