// StackVector against a ghost sequence, from an arbitrary reachable state (live prefix, stale tail, size 0..N).
#include <vc.hpp>
#include <stdexcept>
#include <utility>
#include <stator/orphan/stack_vector.hpp>
using stator::orphan::StackVector;
// ghost sequence
struct Seq { double e[16]; size_t n = 0; };
template<size_t N> StackVector<double, N> any_vec(Seq& s, const char* tag) {
  StackVector<double, N> v;
  size_t n = vc_choose(tag, 0, N);
  for (size_t i = 0; i < n; ++i) { s.e[i] = vc_real("e"); v.push_back(s.e[i]); }
  size_t st = vc_choose("stale", 0, N - n > 2 ? 2 : N - n);     // stale elements beyond the end
  for (size_t i = 0; i < st; ++i) v.push_back(vc_real("old"));
  for (size_t i = 0; i < st; ++i) v.pop_back();
  s.n = n;
  return v;
}
template<size_t N> void is(StackVector<double, N>& v, const Seq& s, const char* label) {
  const StackVector<double, N>& c = v;
  vc_assert(v.size() == s.n && c.size() == s.n, label);
  vc_assert(c.empty() == (s.n == 0), label);
  vc_assert(size_t(v.end() - v.begin()) == s.n && size_t(c.end() - c.begin()) == s.n && size_t(c.cend() - c.cbegin()) == s.n, label);
  vc_assert(size_t(v.rend() - v.rbegin()) == s.n && size_t(c.rend() - c.rbegin()) == s.n && size_t(c.crend() - c.crbegin()) == s.n, label);
  for (size_t i = 0; i < s.n; ++i) {
    vc_assert(v[i] == s.e[i] && c[i] == s.e[i] && v.begin()[i] == s.e[i] && c.begin()[i] == s.e[i] && c.cbegin()[i] == s.e[i], label);
    vc_assert(v.rbegin()[i] == s.e[s.n - 1 - i] && c.rbegin()[i] == s.e[s.n - 1 - i] && c.crbegin()[i] == s.e[s.n - 1 - i], label);
    vc_assert(&v[i] == &*(v.begin() + i) && &v.rbegin()[i] == &v[s.n - 1 - i], label);
  }
  if (s.n) { vc_assert(v.back() == s.e[s.n - 1] && c.back() == s.e[s.n - 1] && &v.back() == &v[s.n - 1], label); vc_assert(v.front() == s.e[0], label); }
  size_t k = 0;
  for (const double& x : c) { vc_assert(k < s.n && x == s.e[k], label); ++k; }
  vc_assert(k == s.n, label);
}
template<size_t N> void all_ops() {
  Seq s; auto v = any_vec<N>(s, "n");
  is(v, s, "P09.observers");
  auto w = v;                                    // copy
  is(w, s, "P09.copy");
  if constexpr (N > 0) {
    if (s.n < N) {
      double x = vc_real("x"); w.push_back(x);
      Seq t = s; t.e[t.n++] = x;
      is(w, t, "P09.push_back"); is(v, s, "P09.copy_independent");
      vc_reach("pushed");
    }
    if (s.n > 0) {
      w = v;
      is(w, s, "P09.assign");
      double r = w.pop_back();
      Seq t = s; t.n--;
      vc_assert(r == s.e[s.n - 1], "P09.pop_back.value");
      is(w, t, "P09.pop_back"); is(v, s, "P09.copy_independent");
      double y = vc_real("y"); size_t i = vc_choose("i", 0, s.n - 1);
      v[i] = y; s.e[i] = y; is(v, s, "P09.write_index");
      v.back() = y; s.e[s.n - 1] = y; is(v, s, "P09.write_back");
      *v.rbegin() = (y + 1); s.e[s.n - 1] = (y + 1); is(v, s, "P09.write_rbegin");
      vc_reach("popped");
    }
  }
}
VC_UNIT(P09, ops_0) { all_ops<0>(); }
VC_UNIT(P09, ops_1) { all_ops<1>(); vc_reach("o1"); }
VC_UNIT(P09, ops_2) { all_ops<2>(); }
VC_UNIT(P09, ops_3) { all_ops<3>(); }
VC_UNIT(P09, ops_5) { all_ops<5>(); }
template<size_t N, size_t M> void pair_ops() {
  Seq s, t; auto v = any_vec<N>(s, "n"); auto w = any_vec<M>(t, "m");
  if constexpr (M <= N) {
    StackVector<double, N> c(w);
    is(c, t, "P09.from_smaller");
    StackVector<double, N> d = v; d = w; is(d, t, "P09.assign_smaller");
    is(w, t, "P09.from_smaller_source");
  }
  if (s.n + t.n <= N) {
    auto c = v; c.extend(w);
    Seq u = s; for (size_t i = 0; i < t.n; ++i) u.e[u.n++] = t.e[i];
    is(c, u, "P09.extend"); is(w, t, "P09.extend_source");
    vc_reach("extended");
  }
}
VC_UNIT(P09, pair_3_3) { pair_ops<3, 3>(); }
VC_UNIT(P09, pair_4_2) { pair_ops<4, 2>(); }
VC_UNIT(P09, pair_2_4) { pair_ops<2, 4>(); }
VC_UNIT(P09, pair_3_0) { pair_ops<3, 0>(); }
template<size_t N> void equality() {
  Seq s, t; auto v = any_vec<N>(s, "n"); auto w = any_vec<N>(t, "m");
  bool e = s.n == t.n;
  for (size_t i = 0; e && i < s.n; ++i) e = s.e[i] == t.e[i];
  bool a = (v == w), b = (v != w), c = (w == v);
  vc_assert(a == e, "P09.equal");
  vc_assert(b == !e, "P09.not_equal");
  vc_assert(c == e, "P09.equal_symmetric");
  vc_assert(v == v, "P09.equal_reflexive");
  if (e) vc_reach("equal"); else vc_reach("different");
}
VC_UNIT(P09, equal_1) { equality<1>(); }
VC_UNIT(P09, equal_3) { equality<3>(); }
template<size_t N> void lists() {
  double a = vc_real("a"), b = vc_real("b"), c = vc_real("c"), d = vc_real("d");
  Seq s; s.e[0] = a; s.e[1] = b; s.e[2] = c; s.e[3] = d;
  { StackVector<double, N> v; s.n = 0; is(v, s, "P09.list0"); }
  { StackVector<double, N> v{a}; s.n = N < 1 ? N : 1; is(v, s, "P09.list1"); }
  { StackVector<double, N> v{a, b}; s.n = N < 2 ? N : 2; is(v, s, "P09.list2"); }
  { StackVector<double, N> v{a, b, c}; s.n = N < 3 ? N : 3; is(v, s, "P09.list3"); }
  { StackVector<double, N> v{a, b, c, d}; s.n = N < 4 ? N : 4; is(v, s, "P09.list4"); }   // a too long list keeps its first N
}
VC_UNIT(P09, list_1) { lists<1>(); }
VC_UNIT(P09, list_2) { lists<2>(); }
VC_UNIT(P09, list_3) { lists<3>(); }
VC_UNIT(P09, list_6) { lists<6>(); }
VC_UNIT(P09, pairs) {
  typedef std::pair<double, double> P;
  StackVector<P, 3> v;
  size_t n = vc_choose("n", 0, 3); double e[3][2];
  for (size_t i = 0; i < n; ++i) { e[i][0] = vc_real("p"); e[i][1] = vc_real("q"); v.push_back(P(e[i][0], e[i][1])); }
  vc_assert(v.size() == n, "P09.pair.size");
  size_t k = 0;
  for (const P& p : v) { vc_assert(p.first == e[k][0] && p.second == e[k][1], "P09.pair.elements"); ++k; }
  vc_assert(k == n, "P09.pair.size");
  while (k--) { P p = v.pop_back(); vc_assert(p.first == e[k][0] && p.second == e[k][1] && v.size() == k, "P09.pair.pop"); }
}
