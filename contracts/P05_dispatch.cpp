// The general solver (order >= 4) above the contracts of the positive-root finder and of the lower-order solvers.
#include <poly.hpp>
using stator::orphan::StackVector;
// contract of solve_real_positive_roots_poly: some increasing list of positive numbers, determined by the polynomial
template<size_t N> struct G {
  inline static Polynomial<N> f; inline static size_t np, nn, calls, lower_calls; inline static double pos[2], neg[2], low[2];
};
template<size_t N> StackVector<double, N> positive_stub(const Polynomial<N>& g) {
  ++G<N>::calls;
  bool same = true, refl = true;
  for (size_t i = 0; i <= N; ++i) {
    if (g[i] != G<N>::f[i]) same = false;
    if (g[i] != (i % 2 ? -G<N>::f[i] : G<N>::f[i])) refl = false;
  }
  vc_assert(same || refl, "P05.general.argument");
  StackVector<double, N> r;
  if (same) { for (size_t i = 0; i < G<N>::np; ++i) r.push_back(G<N>::pos[i]); }
  else { for (size_t i = 0; i < G<N>::nn; ++i) r.push_back(G<N>::neg[i]); }
  return r;
}
template<size_t N> using posfn = StackVector<double, N> (*)(const Polynomial<N>&);
template<size_t N> void stub_positive() {
  vc_contract_fn((posfn<N>)&solve_real_positive_roots_poly<PolyRootBounder::STURM, PolyRootBisector::BISECTION, N, double, Var<>>, (posfn<N>)&positive_stub<N>);
}
template<size_t N> void general() {
  if (!vc_symbolic()) return;
  auto f = any_poly<N>("f");
  vc_assume(f[0] != 0 && f[N] != 0 && f[1] != 0);
  G<N>::f = f; G<N>::calls = 0;
  G<N>::np = vc_choose("npos", 0, 2); G<N>::nn = vc_choose("nneg", 0, 2);
  for (int i = 0; i < 2; ++i) { G<N>::pos[i] = vc_real("pos"); G<N>::neg[i] = vc_real("neg"); vc_assume(G<N>::pos[i] > 0 && G<N>::neg[i] > 0); }
  vc_assume(G<N>::pos[0] < G<N>::pos[1] && G<N>::neg[0] < G<N>::neg[1]);
  stub_positive<N>();
  auto r = solve_real_roots(f);
  vc_assert(G<N>::calls == 2, "P05.general.both_signs");
  vc_assert(r.size() == G<N>::np + G<N>::nn, "P05.general.count");
  for (size_t i = 0; i < G<N>::nn; ++i) vc_assert(r[i] == -G<N>::neg[G<N>::nn - 1 - i], "P05.general.negative");
  for (size_t i = 0; i < G<N>::np; ++i) vc_assert(r[G<N>::nn + i] == G<N>::pos[i], "P05.general.positive");
}
VC_UNIT(P05, general_4) { general<4>(); }
VC_UNIT(P05, general_5) { general<5>(); }
// zero constant term and zero leading coefficient: x=0 is a root, the others come from the lower-order solver
template<size_t N> StackVector<double, N> lower_stub(const Polynomial<N>& g) {
  ++G<N>::lower_calls;
  for (size_t i = 0; i <= N; ++i) vc_assert(g[i] == G<N>::f[i], "P05.lower.argument");
  StackVector<double, N> r;
  for (size_t i = 0; i < G<N>::np; ++i) r.push_back(G<N>::low[i]);
  return r;
}
inline auto lower_target(std::integral_constant<size_t, 3>) { return static_cast<posfn<3>>(&solve_real_roots<Var<>>); }
inline auto lower_target(std::integral_constant<size_t, 4>) { return (posfn<4>)&solve_real_roots<PolyRootBounder::STURM, PolyRootBisector::BISECTION, 4, double, Var<>>; }
template<size_t N> void lower(bool zero_const) {
  if (!vc_symbolic()) return;
  constexpr size_t M = N - 1;
  Polynomial<N> f;
  for (size_t i = 0; i < N; ++i) f[i + zero_const] = G<M>::f[i] = vc_real("f");
  vc_assume(zero_const || f[0] != 0);
  G<M>::lower_calls = 0;
  G<M>::np = vc_choose("n", 0, 2);
  for (int i = 0; i < 2; ++i) G<M>::low[i] = vc_real("r");
  vc_assume(G<M>::low[0] < G<M>::low[1]);
  // contract of the lower-order solver: it reports x=0 exactly when its polynomial has it
  bool zero_again = G<M>::f[0] == 0;
  if (zero_const) {
    vc_assume(zero_again ? (G<M>::np > 0 && G<M>::low[0] == 0) : (G<M>::low[0] != 0 && G<M>::low[1] != 0));
  }
  vc_contract_fn(lower_target(std::integral_constant<size_t, M>()), (posfn<M>)&lower_stub<M>);
  auto r = solve_real_roots(f);
  vc_assert(G<M>::lower_calls == 1, "P05.lower.called");
  size_t extra = zero_const && !zero_again;
  vc_assert(r.size() == G<M>::np + extra, "P05.lower.count");
  for (size_t i = 0; i + 1 < r.size(); ++i) vc_assert(r[i] < r[i + 1], "P05.lower.sorted");
  bool zero = !zero_const;
  for (size_t i = 0; i < r.size(); ++i) if (r[i] == 0) zero = true;
  vc_assert(zero, "P05.lower.zero");
  for (size_t k = 0; k < G<M>::np; ++k) {
    bool found = false;
    for (size_t i = 0; i < r.size(); ++i) if (r[i] == G<M>::low[k]) found = true;
    vc_assert(found, "P05.lower.kept");
  }
}
VC_UNIT(P05, lead0_4) { lower<4>(false); }
VC_UNIT(P05, lead0_5) { lower<5>(false); }
VC_UNIT(P05, const0_4) { lower<4>(true); }
VC_UNIT(P05, const0_5) { lower<5>(true); }
