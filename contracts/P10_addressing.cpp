// Array addressing, resize, push_back and iteration.
#include <vc.hpp>
#include <stator/symbolic/symbolic.hpp>
using namespace sym;
// row-major address of arbitrary coordinates in arbitrary dimensions
VC_UNIT(P10, address_2) {
  Array<double, RowMajorAddressing<-1u, 2>> A;
  size_t d0 = vc_int("d0", 0, INT64_MAX), d1 = vc_int("d1", 0, INT64_MAX), c0 = vc_int("c0", 0, INT64_MAX), c1 = vc_int("c1", 0, INT64_MAX);
  A._dimensions = {d0, d1};
  vc_assert(A.coords_to_index({c0, c1}) == c0 * d1 + c1, "P10.address.2d");
}
VC_UNIT(P10, address_3) {
  Array<double, RowMajorAddressing<-1u, 3>> A;
  size_t d[3], c[3];
  for (int i = 0; i < 3; ++i) { d[i] = vc_int("d", 0, INT64_MAX); c[i] = vc_int("c", 0, INT64_MAX); }
  A._dimensions = {d[0], d[1], d[2]};
  vc_assert(A.coords_to_index({c[0], c[1], c[2]}) == (c[0] * d[1] + c[1]) * d[2] + c[2], "P10.address.3d");
}
VC_UNIT(P10, address_dynamic) {
  Array<double, RowMajorAddressing<-1u, -1u>> A;
  size_t n = vc_choose("n", 1, 4);
  std::vector<size_t> d(n), c(n);
  size_t want = 0;
  for (size_t i = 0; i < n; ++i) { d[i] = vc_int("d", 0, INT64_MAX); c[i] = vc_int("c", 0, INT64_MAX); want = want * d[i] + c[i]; }
  A._dimensions = d;
  vc_assert(A.coords_to_index(c) == want, "P10.address.dynamic");
}
// distinct coordinates inside the dimensions go to distinct slots below the product of the dimensions
VC_UNIT(P10, distinct_2) {
  Array<double, RowMajorAddressing<-1u, 2>> A;
  size_t d0 = vc_int("d0", 1, 63), d1 = vc_int("d1", 1, 63);
  A._dimensions = {d0, d1};
  size_t a = vc_int("a", 0, 63), b = vc_int("b", 0, 63), c = vc_int("c", 0, 63), d = vc_int("d", 0, 63);
  vc_assume(a < d0 && c < d0 && b < d1 && d < d1);
  size_t i = A.coords_to_index({a, b}), j = A.coords_to_index({c, d});
  vc_assert(i < d0 * d1 && j < A.size() , "P10.distinct.inside");
  vc_assert((i == j) == (a == c && b == d), "P10.distinct.slots");
}
template<class A> struct dims_of;
template<size_t D> using RM = Array<double, RowMajorAddressing<-1u, D>>;
// read and write through the nested accessors and through coordinates reach the same slot and no other
template<class AR> void two_dim(size_t maxd, bool fixed) {
  auto A = AR::create();
  vc_assert(A.size() == 0 && A.empty(), "P10.empty");
  size_t d0 = vc_choose("d0", 0, maxd), d1 = vc_choose("d1", 0, maxd);
  A.resize({d0, d1});
  vc_assert(A.size() == d0 * d1 && A.empty() == (d0 * d1 == 0), "P10.resize.size");
  vc_assert(A.getDimensions()[0] == d0 && A.getDimensions()[1] == d1, "P10.resize.dimensions");
  double v[9];
  for (size_t i = 0; i < d0; ++i) for (size_t j = 0; j < d1; ++j) A[i][j] = v[i * d1 + j] = vc_real("v");
  const AR& C = A;
  if (d0 * d1) {
    size_t i = vc_choose("i", 0, d0 - 1), j = vc_choose("j", 0, d1 - 1);
    double x = vc_real("x");
    if (vc_choose("how", 0, 1)) A[i][j] = x; else A[typename AR::Coords{i, j}] = x;
    v[i * d1 + j] = x;
  }
  for (size_t i = 0; i < d0; ++i) for (size_t j = 0; j < d1; ++j) {
    double a = A[i][j], b = C[i][j], c = A[typename AR::Coords{i, j}], d = C[typename AR::Coords{i, j}], e = A.getStore()[i * d1 + j];
    vc_assert(a == v[i * d1 + j] && b == a && c == a && d == a && e == a, "P10.read_back");
  }
  size_t k = 0;
  for (double e : C) { vc_assert(k < d0 * d1 && e == v[k], "P10.iterate"); ++k; }
  vc_assert(k == d0 * d1, "P10.iterate.count");
  k = 0;
  for (double& e : A) { e = e + 1; ++k; }
  vc_assert(k == d0 * d1, "P10.iterate.count");
  for (size_t i = 0; i < d0; ++i) for (size_t j = 0; j < d1; ++j) { double a = A[i][j]; vc_assert(a == v[i * d1 + j] + 1, "P10.iterate.write"); }
}
VC_UNIT(P10, nested_2) { two_dim<RM<2>>(3, false); }
VC_UNIT(P10, nested_2_fixed) { two_dim<Array<double, RowMajorAddressing<9, 2>>>(3, true); }
VC_UNIT(P10, nested_3) {
  auto A = RM<3>::create();
  size_t d[3]; for (auto& x : d) x = vc_choose("d", 1, 2);
  A.resize({d[0], d[1], d[2]});
  const auto& C = A;
  double v[2][2][2];
  for (size_t i = 0; i < d[0]; ++i) for (size_t j = 0; j < d[1]; ++j) for (size_t k = 0; k < d[2]; ++k) A[i][j][k] = v[i][j][k] = vc_real("v");
  size_t n = 0; auto it = C.begin();
  for (size_t i = 0; i < d[0]; ++i) for (size_t j = 0; j < d[1]; ++j) for (size_t k = 0; k < d[2]; ++k, ++it, ++n) {
    double a = A[i][j][k], b = C[i][j][k], c = C[{i, j, k}];
    vc_assert(a == v[i][j][k] && b == a && c == a && *it == a, "P10.read_back.3d");
  }
  vc_assert(n == A.size() && it == C.end(), "P10.iterate.3d");
}
VC_UNIT(P10, nested_dynamic) {
  auto A = Array<double>::create();
  size_t d0 = vc_choose("d0", 1, 2), d1 = vc_choose("d1", 1, 3);
  A.resize({d0, d1});
  vc_assert(A.size() == d0 * d1 && !A.empty() && A.getDimensions().size() == 2, "P10.dynamic.resize");
  double v[6];
  for (size_t i = 0; i < d0; ++i) for (size_t j = 0; j < d1; ++j) A[i][j] = v[i * d1 + j] = vc_real("v");
  for (size_t i = 0; i < d0; ++i) for (size_t j = 0; j < d1; ++j) {
    double a = A[i][j], c = A[std::vector<size_t>{i, j}];
    vc_assert(a == v[i * d1 + j] && c == a, "P10.dynamic.read_back");
    vc_assert(A[i][j] == v[i * d1 + j], "P10.dynamic.compare");
  }
  bool t1 = false, t2 = false;
  try { double a = A[0]; (void)a; } catch (const stator::Exception&) { t1 = true; }
  try { A[0][0][0] = 1.0; } catch (const stator::Exception&) { t2 = true; }
  vc_assert(t1 && t2, "P10.dynamic.wrong_rank_rejected");
}
// push_back / resize of one-dimensional arrays keep the contents
template<class AR> void linear(size_t cap) {
  auto A = AR::create();
  size_t n = vc_choose("n", 0, cap); double v[8];
  for (size_t i = 0; i < n; ++i) A.push_back(v[i] = vc_real("v"));
  const AR& C = A;
  vc_assert(A.size() == n && A.empty() == (n == 0), "P10.push_back.size");
  for (size_t i = 0; i < n; ++i) { double a = A[i], b = C[i]; vc_assert(a == v[i] && b == v[i], "P10.push_back.contents"); }
  size_t k = 0;
  for (double e : C) { vc_assert(k < n && e == v[k], "P10.push_back.iterate"); ++k; }
  vc_assert(k == n, "P10.push_back.iterate");
}
VC_UNIT(P10, push_linear) { linear<Array<double, LinearAddressing<-1u>>>(3); }
VC_UNIT(P10, push_linear_fixed) { linear<Array<double, LinearAddressing<4>>>(4); }
VC_UNIT(P10, push_row) { linear<Array<double, RowMajorAddressing<-1u, -1u>>>(3); }
VC_UNIT(P10, push_overflow) {
  auto A = Array<double, LinearAddressing<2>>::create();
  double a = vc_real("a"), b = vc_real("b");
  A.push_back(a); A.push_back(b);
  bool t = false, u = false;
  try { A.push_back(1.0); } catch (const stator::Exception&) { t = true; }
  try { A.resize(3); } catch (const stator::Exception&) { u = true; }
  vc_assert(t && u, "P10.overflow_rejected");
  vc_assert(A.size() == 2 && A[0] == a && A[1] == b, "P10.overflow_unchanged");
}
VC_UNIT(P10, resize_linear) {
  auto A = Array<double, LinearAddressing<-1u>>::create();
  size_t n = vc_choose("n", 0, 3), m = vc_choose("m", 0, 4); double v[4];
  for (size_t i = 0; i < n; ++i) A.push_back(v[i] = vc_real("v"));
  A.resize(m);
  vc_assert(A.size() == m && A.getDimensions() == m && A.store_size() == m, "P10.resize.linear");
  for (size_t i = 0; i < n && i < m; ++i) vc_assert(A[i] == v[i], "P10.resize.keeps");
  double x = vc_real("x"); A.push_back(x);
  vc_assert(A.size() == m + 1 && A[m] == x, "P10.resize.then_push");
}
VC_UNIT(P10, resize_rejected) {
  auto A = Array<double, RowMajorAddressing<4, 2>>::create();
  A.resize({2, 2});
  double v[4]; size_t k = 0;
  for (double& e : A) e = v[k++] = vc_real("v");
  size_t d0 = vc_choose("d0", 0, 4), d1 = vc_choose("d1", 0, 4);
  bool t = false;
  try { A.resize({d0, d1}); } catch (const stator::Exception&) { t = true; }
  vc_assert(t == (d0 * d1 > 4), "P10.resize.rejected");
  if (t) {
    vc_assert(A.size() == 4 && A.getDimensions()[0] == 2 && A.getDimensions()[1] == 2, "P10.resize.rejected_unchanged");
    for (size_t i = 0; i < 4; ++i) { double e = A[i / 2][i % 2]; vc_assert(e == v[i], "P10.resize.rejected_contents"); }
    vc_reach("rejected");
  } else vc_assert(A.size() == d0 * d1, "P10.resize.size");
}
VC_UNIT(P10, initialiser) {
  double a = vc_real("a"), b = vc_real("b"), c = vc_real("c"), d = vc_real("d"), e = vc_real("e"), f = vc_real("f");
  Array<double, LinearAddressing<-1u>> L({a, b, c});
  vc_assert(L.size() == 3 && L[0] == a && L[1] == b && L[2] == c, "P10.init.linear");
  RM<2> A({2, 3}, {a, b, c, d, e, f});
  double v[6] = {a, b, c, d, e, f};
  vc_assert(A.size() == 6, "P10.init.size");
  for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 3; ++j) { double x = A[i][j]; vc_assert(x == v[i * 3 + j], "P10.init.order"); }
  Array<double> B(std::vector<size_t>{4}, {a, b, c, d});
  vc_assert(B.size() == 4 && B[3] == d && B[0] == a, "P10.init.1d");
}
// a list that does not fill the dimensions exactly leaves no element without storage
VC_UNIT(P10, initialiser_mismatch) {
  double a = vc_real("a"), b = vc_real("b");
  size_t d0 = vc_choose("d0", 0, 2), d1 = vc_choose("d1", 0, 2);
  bool t = false;
  try {
    RM<2> A({d0, d1}, {a, b});
    vc_assert(A.size() == A.getStore().size(), "P10.init.consistent");
  } catch (const stator::Exception&) { t = true; vc_reach("mismatch"); }
  if (d0 * d1 == 2) vc_assert(!t, "P10.init.accepted");
}
VC_UNIT(P10, initialiser_mismatch_linear) {
  double a = vc_real("a"), b = vc_real("b");
  size_t d = vc_choose("d", 0, 3);
  bool t = false;
  try {
    Array<double, LinearAddressing<-1u>> A(d, {a, b});
    vc_assert(A.size() == A.getStore().size(), "P10.init.consistent_linear");
  } catch (const stator::Exception&) { t = true; }
  if (d == 2) vc_assert(!t, "P10.init.accepted_linear");
}
