// Simplification of nodes that contain arrays or dictionaries: element-wise meaning is kept.
#include "rt.hpp"
static Expr leaf(const char* n) { return vc_symbolic() ? Expr(fresh(n)) : random_expr(2); }
// already simplified, or simplified to something of equal value
static Expr elem(const char* n) {
  switch (vc_choose("element", 0, 4)) {
  case 0: return Expr(vc_real("c"));
  case 1: return settle(Expr(UnaryOp<Expr, detail::Sine>::create(leaf(n))));
  case 2: return var(1);
  case 3: return settle(Expr(MultiplyOp<Expr, Expr>::create(Expr(vc_real("k")), leaf(n))));
  }
  if (!vc_symbolic()) return random_expr(1);
  auto o = fresh(n);
  o->M = settle(Expr(AddOp<Expr, Expr>::create(leaf(n), leaf(n))));
  o->v0 = ev(o->M, 0);
  return Expr(o);
}
static Expr simple(const char* n) {
  switch (vc_choose("element", 0, 2)) {
  case 0: return Expr(vc_real("c"));
  case 1: return settle(Expr(UnaryOp<Expr, detail::Sine>::create(leaf(n))));
  }
  return var(1);
}
static Expr array(const char* n, int k) { auto A = ArrayRT::create(k); for (int i = 0; i < k; ++i) (*A)[i] = simple(n); return Expr(A); }
static Expr run(const Expr& f, const char* label) {
  rt_install();
  vc_freeze();
  Expr r;
  try { r = simplify(f); } catch (const stator::Exception& e) { vc_assert(false, label); }
  vc_unfreeze();
  vc_assert(bool(r), label);
  return r;
}
static void nonzero(const Expr& e) { if (e->_type_idx == 15) { for (auto& x : static_cast<const ArrayRT&>(*e)) vc_assume(ev(x, 0) != 0); } else vc_assume(ev(e, 0) != 0); }
static void positive(const Expr& e) { if (e->_type_idx == 15) { for (auto& x : static_cast<const ArrayRT&>(*e)) vc_assume(ev(x, 0) > 0); } else vc_assume(ev(e, 0) > 0); }
template<class Op> static void binary(const char* l) {
  any_env(); nsettled = 0;
  int mode = vc_choose("mode", 0, 2), n = vc_choose("n", 1, 2);
  Expr a = mode == 1 ? simple("a") : array("a", n), b = mode == 0 ? simple("b") : array("b", n);
  settle(a); settle(b);
  if (std::is_same<Op, detail::Divide>::value) nonzero(b);
  if (std::is_same<Op, detail::Power>::value) positive(a);
  Expr f(BinaryOp<Expr, Op, Expr>::create(a, b));
  same_denotation(f, run(f, l), l);
}
VC_UNIT(P16, array_add) { binary<detail::Add>("P16.array.add"); }
VC_UNIT(P16, array_subtract) { binary<detail::Subtract>("P16.array.subtract"); }
VC_UNIT(P16, array_multiply) { binary<detail::Multiply>("P16.array.multiply"); }
VC_UNIT(P16, array_divide) { binary<detail::Divide>("P16.array.divide"); }
VC_UNIT(P16, array_power) { binary<detail::Power>("P16.array.power"); }
VC_UNIT(P16, array_equality) { binary<detail::Equality>("P16.array.equality"); }
VC_UNIT(P16, array_units) { binary<detail::Units>("P16.array.units"); }
VC_UNIT(P16, array_uncertainty) { binary<detail::Uncertainty>("P16.array.uncertainty"); }
template<class Op> static void unary(const char* l) {
  any_env(); nsettled = 0;
  Expr a = settle(array("a", vc_choose("n", 0, 2)));
  if (std::is_same<Op, detail::Log>::value) positive(a);
  Expr f(UnaryOp<Expr, Op>::create(a));
  same_denotation(f, run(f, l), l);
}
VC_UNIT(P16, array_unary) {
  switch (vc_choose("op", 0, 6)) {
  case 0: return unary<detail::Sine>("P16.array.sine"); case 1: return unary<detail::Cosine>("P16.array.cosine");
  case 2: return unary<detail::Exp>("P16.array.exp"); case 3: return unary<detail::Log>("P16.array.log");
  case 4: return unary<detail::Absolute>("P16.array.absolute"); case 5: return unary<detail::Arbsign>("P16.array.arbsign");
  case 6: return unary<detail::Negate>("P16.array.negate");
  }
}
VC_UNIT(P16, array_mismatch) {
  any_env(); nsettled = 0;
  int n = vc_choose("n", 1, 2), m = vc_choose("m", 1, 3);
  Expr a = settle(array("a", n)), b = settle(array("b", m));
  if (n == m) return;
  rt_install();
  auto bad = [&](const Expr& f) { bool t = false; try { simplify(f); } catch (const stator::Exception&) { t = true; } return t; };
  vc_assert(bad(Expr(AddOp<Expr, Expr>::create(a, b))), "P16.array_mismatch.add");
  vc_assert(bad(Expr(SubtractOp<Expr, Expr>::create(a, b))), "P16.array_mismatch.subtract");
  vc_assert(bad(Expr(MultiplyOp<Expr, Expr>::create(a, b))), "P16.array_mismatch.multiply");
  vc_assert(bad(Expr(DivideOp<Expr, Expr>::create(a, b))), "P16.array_mismatch.divide");
}
VC_UNIT(P16, array) {
  any_env(); nsettled = 0;
  int n = vc_choose("n", 0, 2);
  auto A = ArrayRT::create(n); Expr e[2];
  for (int i = 0; i < n; ++i) (*A)[i] = e[i] = elem("e");
  Expr r = run(Expr(A), "P16.array");
  vc_assert(r->_type_idx == 15, "P16.array.node");
  auto& o = static_cast<const ArrayRT&>(*r);
  vc_assert(o.size() == n && o.store_size() == n && A->size() == n, "P16.array.size");
  for (int i = 0; i < n; ++i) { same_value(ev(e[i], 0), o[i], 0, "P16.array.element"); vc_assert((*A)[i].get() == e[i].get(), "P16.array.unchanged"); }
}
VC_UNIT(P16, dictionary) {
  any_env(); nsettled = 0;
  int n = vc_choose("n", 0, 2);
  auto A = DictRT::create(); Expr e[2];
  for (int i = 0; i < n; ++i) (*A)[var(i)] = e[i] = elem("e");
  Expr r = run(Expr(A), "P16.dictionary");
  vc_assert(r->_type_idx == 16, "P16.dictionary.node");
  auto& o = static_cast<const DictRT&>(*r);
  vc_assert(o.size() == n && A->size() == n, "P16.dictionary.size");
  for (int i = 0; i < n; ++i) {
    auto it = o.find(var(i));
    vc_assert(it != o.end(), "P16.dictionary.key");
    if (it != o.end()) same_value(ev(e[i], 0), it->second, 0, "P16.dictionary.value");
    vc_assert(A->find(var(i))->second.get() == e[i].get(), "P16.dictionary.unchanged");
  }
}
// access: the chosen element, or the node itself
VC_UNIT(P16, array_element) {
  any_env(); nsettled = 0;
  int n = vc_choose("n", 1, 3), k = vc_choose("k", 0, n - 1);
  Expr a = settle(array("a", n));
  Expr f(ArrayOp<Expr, Expr>::create(a, Expr(double(k)))), r = run(f, "P16.array_element");
  if (r->_type_idx == 14) {
    auto& o = asB<detail::ArrayAccess>(r.get());
    vc_assert(isconst(o._r) && cval(o._r) == k, "P16.array_element.index");
    same_denotation(a, o._l, "P16.array_element.array");
  } else same_value(ev(static_cast<const ArrayRT&>(*a)[k], 0), r, 0, "P16.array_element.value");
}
// a sweep over whole expressions through the unmodified visitors (no contracts): folding to a number is the number
VC_UNIT(P16, numeric_folding) {
  any_env(); nsettled = 0;
  double c[4]; for (int i = 0; i < 4; ++i) c[i] = vc_real("c");
  auto K = [&](int i) { return Expr(c[i]); };
  vc_assume(c[3] != 0 && c[2] > 0);
  Expr f = Expr(DivideOp<Expr, Expr>::create(Expr(SubtractOp<Expr, Expr>::create(Expr(MultiplyOp<Expr, Expr>::create(K(0), K(1))), Expr(PowerOp<Expr, Expr>::create(K(2), K(1))))), K(3)));
  Expr r = simplify(f);
  vc_assert(isconst(r), "P16.numeric_folding.constant");
  same_value(ev(f, 0), r, 0, "P16.numeric_folding");
}
