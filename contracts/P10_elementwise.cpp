// Element-wise operations; the reference is the scalar operation on each element.
#include <vc.hpp>
#include <stator/symbolic/symbolic.hpp>
using namespace sym;
typedef Array<double, RowMajorAddressing<-1u, 2>> RM2;
typedef Array<double, RowMajorAddressing<6, 2>> RMF;
typedef Array<double, LinearAddressing<-1u>> Lin;
template<class AR> AR any2(size_t d0, size_t d1, double* v, const char* n, bool nz = false) {
  auto A = AR::create(); A.resize({d0, d1});
  for (size_t i = 0; i < d0 * d1; ++i) { v[i] = vc_real(n); if (nz) vc_assume(v[i] != 0); A[typename AR::Coords{i / d1, i % d1}] = v[i]; }
  return A;
}
template<class X> void is2(const X& R, size_t d0, size_t d1, const double* w, const char* label) {
  vc_assert(R.size() == d0 * d1 && R.getDimensions()[0] == d0 && R.getDimensions()[1] == d1, label);
  for (size_t i = 0; i < d0; ++i) for (size_t j = 0; j < d1; ++j) vc_assert_eq(double(R[i][j]), w[i * d1 + j], label);
}
template<class A1, class A2> void binary() {
  double v[6], w[6], z[6];
  size_t d0 = vc_choose("d0", 1, 2), d1 = vc_choose("d1", 1, 3);
  size_t n = d0 * d1;
  A1 A = any2<A1>(d0, d1, v, "a"); A2 B = any2<A2>(d0, d1, w, "b", true);
  const A1& a = A; const A2& b = B;
  for (size_t i = 0; i < n; ++i) z[i] = v[i] + w[i];
  is2(a + b, d0, d1, z, "P10.add");
  for (size_t i = 0; i < n; ++i) z[i] = v[i] - w[i];
  is2(a - b, d0, d1, z, "P10.subtract");
  for (size_t i = 0; i < n; ++i) z[i] = v[i] * w[i];
  is2(multiply_impl(a, b, detail::select_overload{}), d0, d1, z, "P10.multiply");
  for (size_t i = 0; i < n; ++i) z[i] = v[i] / w[i];
  is2(a / b, d0, d1, z, "P10.divide");
  is2(A, d0, d1, v, "P10.left_unchanged"); is2(B, d0, d1, w, "P10.right_unchanged");
}
VC_UNIT(P10, binary_dynamic) { binary<RM2, RM2>(); }
VC_UNIT(P10, binary_fixed) { binary<RMF, RMF>(); }
VC_UNIT(P10, binary_mixed) { binary<RM2, RMF>(); }
VC_UNIT(P10, binary_mixed_2) { binary<RMF, RM2>(); }
VC_UNIT(P10, scalar) {
  double v[6], z[6];
  size_t d0 = vc_choose("d0", 1, 2), d1 = vc_choose("d1", 1, 2), n = d0 * d1;
  double s = vc_real("s"); vc_assume(s != 0);
  const RM2 a = any2<RM2>(d0, d1, v, "a", true);
  for (size_t i = 0; i < n; ++i) z[i] = v[i] + s;
  is2(a + s, d0, d1, z, "P10.scalar.add");
  for (size_t i = 0; i < n; ++i) z[i] = v[i] - s;
  is2(a - s, d0, d1, z, "P10.scalar.subtract");
  for (size_t i = 0; i < n; ++i) z[i] = v[i] * s;
  is2(multiply_impl(a, s, detail::select_overload{}), d0, d1, z, "P10.scalar.multiply");
  is2(multiply_impl(s, a, detail::select_overload{}), d0, d1, z, "P10.scalar.multiply_left");
  for (size_t i = 0; i < n; ++i) z[i] = v[i] / s;
  is2(a / s, d0, d1, z, "P10.scalar.divide");
  for (size_t i = 0; i < n; ++i) z[i] = s - v[i];
  is2(detail::elementwiseopR(s, a, [](double l, double r) { return l - r; }), d0, d1, z, "P10.scalar.left_operand");
}
template<class F> bool rejects(F f) { bool t = false; try { f(); } catch (const stator::Exception&) { t = true; } return t; }
VC_UNIT(P10, mismatch) {
  double v[6], w[6];
  size_t a0 = vc_choose("a0", 1, 2), a1 = vc_choose("a1", 1, 2), b0 = vc_choose("b0", 1, 2), b1 = vc_choose("b1", 1, 2);
  const RM2 a = any2<RM2>(a0, a1, v, "a"), b = any2<RM2>(b0, b1, w, "b", true);
  bool bad = a0 != b0 || a1 != b1;
  vc_assert(rejects([&] { a + b; }) == bad, "P10.mismatch.add");
  vc_assert(rejects([&] { a - b; }) == bad, "P10.mismatch.subtract");
  vc_assert(rejects([&] { a / b; }) == bad, "P10.mismatch.divide");
  vc_assert(rejects([&] { multiply_impl(a, b, detail::select_overload{}); }) == bad, "P10.mismatch.multiply");
  if (bad) vc_reach("mismatch"); else vc_reach("match");
}
VC_UNIT(P10, linear) {
  auto A = Lin::create(), B = Lin::create();
  size_t n = vc_choose("n", 0, 3), m = vc_choose("m", 0, 3); double v[3], w[3];
  for (size_t i = 0; i < n; ++i) A.push_back(v[i] = vc_real("a"));
  for (size_t i = 0; i < m; ++i) { w[i] = vc_real("b"); vc_assume(w[i] != 0); B.push_back(w[i]); }
  const Lin &a = A, &b = B;
  bool bad = n != m;
  vc_assert(rejects([&] { a + b; }) == bad, "P10.linear.mismatch");
  vc_assert(rejects([&] { a - b; }) == bad, "P10.linear.mismatch");
  vc_assert(rejects([&] { a / b; }) == bad, "P10.linear.mismatch");
  if (bad) return;
  auto p = a + b, q = a - b, r = a / b, s = multiply_impl(a, b, detail::select_overload{});
  vc_assert(p.size() == n && q.size() == n && r.size() == n && s.size() == n, "P10.linear.size");
  for (size_t i = 0; i < n; ++i) {
    vc_assert_eq(p[i], v[i] + w[i], "P10.linear.add"); vc_assert_eq(q[i], v[i] - w[i], "P10.linear.subtract");
    vc_assert_eq(r[i], v[i] / w[i], "P10.linear.divide"); vc_assert_eq(s[i], v[i] * w[i], "P10.linear.multiply");
  }
  vc_reach("linear");
}
// arrays of polynomials: derivative and simplify element by element
typedef Polynomial<2> P2;
VC_UNIT(P10, derivative) {
  auto A = Array<P2, RowMajorAddressing<-1u, 2>>::create();
  size_t d0 = vc_choose("d0", 1, 2), d1 = vc_choose("d1", 1, 2);
  A.resize({d0, d1});
  P2 f[4];
  for (size_t i = 0; i < d0 * d1; ++i) { for (int k = 0; k <= 2; ++k) f[i][k] = vc_real("f"); A[std::array<size_t, 2>{i / d1, i % d1}] = f[i]; }
  auto D = derivative(A, Var<>());
  vc_assert(D.size() == d0 * d1 && D.getDimensions()[0] == d0 && D.getDimensions()[1] == d1, "P10.derivative.dimensions");
  for (size_t i = 0; i < d0; ++i) for (size_t j = 0; j < d1; ++j) {
    Polynomial<1> p = D[i][j];
    vc_assert_eq(p[0], f[i * d1 + j][1], "P10.derivative.element"); vc_assert_eq(p[1], 2 * f[i * d1 + j][2], "P10.derivative.element");
  }
}
VC_UNIT(P10, simplify) {
  auto x = Var<>();
  typedef decltype(store(sym::AddOp<double, double>::create(0.0, 0.0))) E;
  auto A = Array<E, RowMajorAddressing<-1u, 2>>::create();
  size_t d0 = vc_choose("d0", 1, 2), d1 = vc_choose("d1", 1, 2);
  A.resize({d0, d1});
  double a[4], b[4];
  for (size_t i = 0; i < d0 * d1; ++i) { a[i] = vc_real("a"); b[i] = vc_real("b"); A[std::array<size_t, 2>{i / d1, i % d1}] = E::create(a[i], b[i]); }
  auto S = simplify(A);
  vc_assert(S.size() == d0 * d1 && S.getDimensions()[0] == d0 && S.getDimensions()[1] == d1, "P10.simplify.dimensions");
  for (size_t i = 0; i < d0; ++i) for (size_t j = 0; j < d1; ++j) vc_assert_eq(double(S[i][j]), a[i * d1 + j] + b[i * d1 + j], "P10.simplify.element");
}
