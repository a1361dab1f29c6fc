// With STATOR_DEBUG the capacity contract is enforced: overflow and underflow throw and leave the vector alone.
#define STATOR_DEBUG 1
#include <vc.hpp>
#include <tuple>
#include <utility>
#include <stator/exception.hpp>
#include <stator/orphan/stack_vector.hpp>
using stator::orphan::StackVector;
template<size_t N> void checked() {
  StackVector<double, N> v; double e[8];
  size_t n = vc_choose("n", 0, N);
  for (size_t i = 0; i < n; ++i) { e[i] = vc_real("e"); v.push_back(e[i]); }
  bool thrown = false; double x = vc_real("x");
  size_t m = n;
  if (vc_choose("op", 0, 1)) {
    try { v.push_back(x); e[m++] = x; } catch (const stator::Exception&) { thrown = true; }
    vc_assert(thrown == (n == N), "P09.checked.push");
    if (thrown) vc_reach("overflow");
  } else {
    double r = 0;
    try { r = v.pop_back(); m--; } catch (const stator::Exception&) { thrown = true; }
    vc_assert(thrown == (n == 0), "P09.checked.pop");
    if (!thrown) vc_assert(r == e[n - 1], "P09.checked.pop_value");
    if (thrown) vc_reach("underflow");
  }
  vc_assert(v.size() == m, "P09.checked.size");
  for (size_t i = 0; i < m; ++i) vc_assert(v[i] == e[i], "P09.checked.contents");
}
VC_UNIT(P09, checked_1) { checked<1>(); }
VC_UNIT(P09, checked_3) { checked<3>(); }
template<size_t N, size_t M> void checked_extend() {
  StackVector<double, N> v; StackVector<double, M> w;
  size_t n = vc_choose("n", 0, N), m = vc_choose("m", 0, M); double e[16];
  for (size_t i = 0; i < n; ++i) v.push_back(e[i] = vc_real("e"));
  for (size_t i = 0; i < m; ++i) w.push_back(e[n + i] = vc_real("f"));
  bool thrown = false;
  try { v.extend(w); } catch (const stator::Exception&) { thrown = true; }
  vc_assert(thrown == (n + m > N), "P09.checked.extend");
  size_t k = n + m > N ? N : n + m;
  vc_assert(v.size() == k, "P09.checked.extend_size");
  for (size_t i = 0; i < k; ++i) vc_assert(v[i] == e[i], "P09.checked.extend_contents");
}
VC_UNIT(P09, checked_extend_3_2) { checked_extend<3, 2>(); }
