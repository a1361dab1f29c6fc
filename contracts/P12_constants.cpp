// Compile-time rationals: every operator of C<n,d> is exact rational arithmetic on every pair of the listed constants
// (the constants include unreduced and negative-denominator forms); mixed operations for every double.
#include <vc.hpp>
#include <stator/symbolic/symbolic.hpp>
#include <cmath>
using namespace sym;
typedef __int128 I;
template<class T> constexpr I nu() { return T::num; }
template<class T> constexpr I de() { return T::den; }
template<std::intmax_t N, std::intmax_t D> constexpr I cn(C<N, D>) { return N; }
template<std::intmax_t N, std::intmax_t D> constexpr I cd(C<N, D>) { return D; }
template<std::intmax_t N, std::intmax_t D> double dv(C<N, D>) { return double(N) / double(D); }
template<class... T> struct L {};
typedef L<C<0>, C<1>, C<-1>, C<2>, C<-3>, C<1, 2>, C<-1, 2>, C<2, 4>, C<5, 3>, C<-7, 4>, C<3, -2>, C<6, 4>, C<12, 5>, C<1000003, 7>> Consts;
template<class A, class B> void pair() {
  constexpr I a = cn(A()), b = cd(A()), c = cn(B()), d = cd(B());
  { typedef decltype(A() + B()) R; constexpr bool ok = cn(R()) * b * d == (a * d + c * b) * cd(R()); vc_assert(ok, "P12.add"); }
  { typedef decltype(A() - B()) R; constexpr bool ok = cn(R()) * b * d == (a * d - c * b) * cd(R()); vc_assert(ok, "P12.subtract"); }
  { typedef decltype(A() * B()) R; constexpr bool ok = cn(R()) * b * d == a * c * cd(R()); vc_assert(ok, "P12.multiply"); }
  if constexpr (c != 0) { typedef decltype(A() / B()) R; constexpr bool ok = cn(R()) * b * c == a * d * cd(R()); vc_assert(ok, "P12.divide"); }
  constexpr bool e = a * d == c * b; vc_assert((A() == B()) == e, "P12.equal");
}
template<class A> void one() {
  constexpr I a = cn(A()), b = cd(A());
  { typedef decltype(-A()) R; constexpr bool ok = cn(R()) * b == -a * cd(R()); vc_assert(ok, "P12.negate"); }
  { typedef decltype(+A()) R; constexpr bool ok = cn(R()) * b == a * cd(R()); vc_assert(ok, "P12.plus"); }
  { typedef decltype(abs(A())) R; constexpr bool ok = (cn(R()) * b == a * cd(R()) || cn(R()) * b == -a * cd(R())) && cn(R()) >= 0 && cd(R()) > 0; vc_assert(ok, "P12.abs"); }
  vc_assert(double(A()) == dv(A()), "P12.to_double");
  constexpr std::intmax_t q = cn(A()) % cd(A());
  if constexpr (q == 0 || q == 1) vc_assert(double(toArithmetic(A())) == dv(A()), "P12.to_arithmetic");
  // mixed with any double
  double x = vc_real("x"), v = dv(A());
  vc_assert_eq(double(x + A()), x + v, "P12.mixed.add"); vc_assert_eq(double(A() + x), x + v, "P12.mixed.add_left");
  vc_assert_eq(double(x - A()), x - v, "P12.mixed.subtract"); vc_assert_eq(double(A() - x), v - x, "P12.mixed.subtract_left");
  vc_assert_eq(double(x * A()), x * v, "P12.mixed.multiply"); vc_assert_eq(double(A() * x), x * v, "P12.mixed.multiply_left");
  if constexpr (a != 0) vc_assert_eq(double(x / A()), x / v, "P12.mixed.divide");
  if (x != 0) vc_assert_eq(double(A() / x), v / x, "P12.mixed.divide_left");
}
template<class A, class... B> void row(L<B...>) { (pair<A, B>(), ...); }
template<class... A> void table(L<A...> l) { (row<A>(l), ...); }
template<class... A> void ones(L<A...>) { (one<A>(), ...); }
VC_UNIT(P12, pairs) { table(Consts()); vc_reach("pairs"); }
VC_UNIT(P12, singles) { ones(Consts()); vc_reach("singles"); }
constexpr I f(size_t n) { return n < 2 ? I(1) : I(n) * f(n - 1); }
template<size_t N> void fact() {
  constexpr bool ok = cn(typename Factorial<N>::value()) == f(N) && cd(typename Factorial<N>::value()) == 1; vc_assert(ok, "P12.factorial");
  constexpr bool ok2 = cn(typename InvFactorial<N>::value()) == 1 && cd(typename InvFactorial<N>::value()) == f(N); vc_assert(ok2, "P12.inv_factorial");
  if constexpr (N > 0) fact<N - 1>();
}
VC_UNIT(P12, factorials) { fact<20>(); vc_reach("factorials"); }
template<class T> struct same { template<class U> static constexpr bool as(const U&) { return std::is_same<T, U>::value; } };
// identities with Null and Unity keep the operand and its type
template<class T> void identities(const T& x) {
  vc_assert(same<T>::as(x + Null()) && same<T>::as(Null() + x) && same<T>::as(x - Null()) && same<T>::as(x * Unity()) && same<T>::as(Unity() * x), "P12.identity.type");
  vc_assert(same<Null>::as(x * Null()) && same<Null>::as(Null() * x), "P12.identity.zero");
}
VC_UNIT(P12, identities_double) {
  double x = vc_real("x");
  identities(x);
  vc_assert_eq(x + Null(), x, "P12.identity.add"); vc_assert_eq(Null() + x, x, "P12.identity.add");
  vc_assert_eq(x - Null(), x, "P12.identity.subtract"); vc_assert_eq(Null() - x, -x, "P12.identity.negate");
  vc_assert_eq(x * Unity(), x, "P12.identity.multiply"); vc_assert_eq(Unity() * x, x, "P12.identity.multiply");
  vc_assert_eq(double(x / Unity()), x, "P12.identity.divide");
}
VC_UNIT(P12, identities_symbolic) {
  Var<> x; Polynomial<2> f; for (int i = 0; i <= 2; ++i) f[i] = vc_real("f");
  identities(x); identities(f); identities(sin(x)); identities(x * 2.0);
  auto g = Null() - f; for (int i = 0; i <= 2; ++i) vc_assert_eq(g[i], -f[i], "P12.identity.poly");
  auto h = f * Unity(); for (int i = 0; i <= 2; ++i) vc_assert_eq(h[i], f[i], "P12.identity.poly");
  double a = vc_real("a");
  vc_assert_eq(double(sub(Null() - x, x = a)), -a, "P12.identity.symbol_negate");
  vc_assert_eq(double(sub(x * Unity(), x = a)), a, "P12.identity.symbol");
}
template<int K> void trig() {        // angle K * pi / 2
  auto t = C<K, 2>() * pi();
  constexpr int m = ((K % 4) + 4) % 4;
  constexpr int s = m == 1 ? 1 : m == 3 ? -1 : 0;
  vc_assert(double(sin(t)) == s, "P12.sin");
  constexpr int c = m == 0 ? 1 : m == 2 ? -1 : 0;
  if constexpr (c != -1) vc_assert(double(cos(t)) == c, "P12.cos");
  vc_assert(is_C<decltype(sin(t))>::value && is_C<decltype(cos(t))>::value, "P12.trig_symbolic");
}
template<int K, int... R> void trigs(std::integer_sequence<int, R...>) { (trig<K + R>(), ...); }
VC_UNIT(P12, trigonometry) { trigs<-9>(std::make_integer_sequence<int, 19>()); vc_reach("trig"); }
VC_UNIT(P12, cos_odd_pi) {
  vc_assert(double(cos(pi())) == -1 && double(cos(C<3>() * pi())) == -1 && double(cos(C<-1>() * pi())) == -1, "P12.cos_odd_pi");
}
VC_UNIT(P12, approximations) {
  double p = double(pi()), q = double(e());
  vc_assert(p > 3.1415926535897 && p < 3.1415926535900, "P12.pi"); vc_assert(q > 2.71828182845904 && q < 2.71828182845905, "P12.e");
}
