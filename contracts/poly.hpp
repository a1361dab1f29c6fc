#pragma once
#include <vc.hpp>
#include <stator/symbolic/symbolic.hpp>
using namespace sym;
static constexpr char vy[] = "y", vz[] = "z";
// arbitrary polynomial: every coefficient an arbitrary real
template<size_t N, class V = Var<>> Polynomial<N, double, V> any_poly(const char* n) {
  Polynomial<N, double, V> f;
  for (size_t i = 0; i <= N; ++i) f[i] = vc_real(n);
  return f;
}
// specification: sum_i f[i] x^i, written independently of the code under verification (power basis)
template<size_t N, class R, class V> double val(const Polynomial<N, R, V>& f, double x) {
  double s = 0, xn = 1;
  for (size_t i = 0; i <= N; ++i) { s += f[i] * xn; xn *= x; }
  return s;
}
inline double val(double c, double) { return c; }
inline double ipow(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
template<size_t M, size_t N, class R1, class V1, class R2, class V2>
void same_poly(const Polynomial<M, R1, V1>& a, const Polynomial<N, R2, V2>& b, const char* label) {
  for (size_t i = 0; i <= (M > N ? M : N); ++i) vc_assert_eq(i <= M ? a[i] : 0.0, i <= N ? b[i] : 0.0, label);
}
// specification of the remainder of f by g (textbook long division by the actual leading term of g)
template<size_t N, size_t M> Polynomial<M - 1> spec_rem(const Polynomial<N>& f, const Polynomial<M>& g) {
  int d = -1;
  for (size_t i = 0; i <= M; ++i) if (g[i] != 0) d = (int)i;
  Polynomial<M - 1> out;
  if (d <= 0) return out;
  double r[N + 1];
  for (size_t i = 0; i <= N; ++i) r[i] = f[i];
  for (int k = (int)N; k >= d; --k) {
    double c = r[k] / g[d];
    for (int j = 0; j <= d; ++j) r[k - d + j] -= c * g[j];
  }
  for (int i = 0; i < d; ++i) out[i] = r[i];
  return out;
}
