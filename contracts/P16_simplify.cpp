// Runtime simplification of every node kind.  Structural induction: the children of the node under contract are already
// covered by SimplifyRT's contract - either the visitor returns null and the child is of ANY shape (every node kind over
// opaque grandchildren and constants), or it returns a new expression of ANY shape with the child's value.
#include "rt.hpp"
static Expr leaf(const char* n) { return vc_symbolic() ? Expr(fresh(n)) : random_expr(2); }
static Expr part(const char* n) { return vc_choose("const", 0, 1) ? Expr(vc_real("k")) : leaf(n); }
#define BOP(O, a, b) Expr(BinaryOp<Expr, detail::O, Expr>::create(a, b))
#define UOP(O, a) Expr(UnaryOp<Expr, detail::O>::create(a))
static bool small_only;
// a node of every kind; its own value must be defined
static Expr shape(const char* n, bool arrays = false) {
  static const int few[] = {0, 1, 2, 10, 15}, all[] = {0, 1, 2, 3, 4, 5, 6, 7, 17, 8, 9, 10, 11, 12, 13, 14, 18, 19, 16, 15};
  int k = small_only ? few[vc_choose("kind", 0, arrays ? 4 : 3)] : all[vc_choose("kind", 0, arrays ? 19 : 18)];
  switch (k) {
  case 0: return Expr(vc_real("c"));
  case 1: return var(1);
  case 2: return UOP(Sine, leaf(n));
  case 3: return UOP(Cosine, leaf(n));
  case 4: { Expr a = leaf(n); vc_assume(ev(a, 0) > 0); return UOP(Log, a); }
  case 5: return UOP(Exp, leaf(n));
  case 6: return UOP(Absolute, leaf(n));
  case 7: return UOP(Arbsign, leaf(n));
  case 17: return UOP(Negate, leaf(n));
  case 8: { Expr a = part(n), b = part(n); return BOP(Add, a, b); }
  case 9: { Expr a = part(n), b = part(n); return BOP(Subtract, a, b); }
  case 10: { Expr a = part(n), b = part(n); return BOP(Multiply, a, b); }
  case 11: { Expr a = part(n), b = part(n); vc_assume(ev(b, 0) != 0); return BOP(Divide, a, b); }
  case 12: { Expr a = part(n), b = part(n); vc_assume(ev(a, 0) > 0); return BOP(Power, a, b); }
  case 13: { Expr a = part(n), b = part(n); return BOP(Equality, a, b); }
  case 14: { Expr a = part(n), b = part(n); return BOP(ArrayAccess, a, b); }
  case 18: { Expr a = part(n), b = part(n); return BOP(Units, a, b); }
  case 19: { Expr a = part(n), b = part(n); return BOP(Uncertainty, a, b); }
  case 16: { auto d = DictRT::create(); (*d)[var(0)] = leaf(n); return Expr(d); }
  }
  auto A = ArrayRT::create(2);
  (*A)[0] = settle(vc_choose("const", 0, 1) ? Expr(vc_real("k")) : UOP(Sine, leaf(n))); (*A)[1] = settle(UOP(Cosine, leaf(n)));
  return Expr(A);
}
// a child: already simplified, or simplified to something of equal value
static Expr child(const char* n, int changed, bool arrays = false) {
  if (!vc_symbolic()) return shape(n, arrays);
  if (!changed) return settle(shape(n, arrays));
  auto o = std::make_shared<Opaque>();
  o->M = shape(n, arrays);
  if (dim(o->M) < 0) o->v0 = ev(o->M, 0);
  return Expr(o);
}
static Expr run(const Expr& f, const char* label) {
  rt_install();
  vc_freeze();
  Expr r;
  try { r = simplify(f); } catch (const stator::Exception& e) { vc_assert(false, label); }
  vc_unfreeze();
  vc_assert(bool(r), label);
  return r;
}
template<class Op> static void domain(const Expr& a, const Expr& b) {
  if (std::is_same<Op, detail::Divide>::value) vc_assume(ev(b, 0) != 0);
  if (std::is_same<Op, detail::Power>::value) vc_assume(ev(a, 0) > 0);
}
template<class Op> static void binary(const char* l, bool few, int lc, int rc) {
  any_env(); small_only = few; nsettled = 0;
  Expr a = child("a", lc), b = child("b", rc);
  domain<Op>(a, b);
  Expr f(BinaryOp<Expr, Op, Expr>::create(a, b));
  same_denotation(f, run(f, l), l);
}
#define BINARY(name, Op) VC_UNIT(P16, name) { binary<detail::Op>("P16." #name, false, 0, 0); } VC_UNIT(P16, name##_changed) { int m = vc_choose("changed", 1, 3); binary<detail::Op>("P16." #name, true, m & 1, m >> 1); }
// vc-units: add subtract multiply divide power equality array_access units uncertainty
// vc-units: add_changed subtract_changed multiply_changed divide_changed power_changed equality_changed array_access_changed units_changed uncertainty_changed
BINARY(add, Add)
BINARY(subtract, Subtract)
BINARY(multiply, Multiply)
BINARY(divide, Divide)
BINARY(power, Power)
BINARY(equality, Equality)
BINARY(array_access, ArrayAccess)
BINARY(units, Units)
BINARY(uncertainty, Uncertainty)
template<class Op> static void unary(const char* l, bool positive = false) {
  any_env(); nsettled = 0;
  int m = vc_choose("changed", 0, 1); small_only = false;
  Expr a = child("a", m);
  if (positive) vc_assume(ev(a, 0) > 0);
  Expr f(UnaryOp<Expr, Op>::create(a));
  same_denotation(f, run(f, l), l);
}
VC_UNIT(P16, sine) { unary<detail::Sine>("P16.sine"); }
VC_UNIT(P16, cosine) { unary<detail::Cosine>("P16.cosine"); }
VC_UNIT(P16, logarithm) { unary<detail::Log>("P16.logarithm", true); }
VC_UNIT(P16, exponential) { unary<detail::Exp>("P16.exponential"); }
VC_UNIT(P16, absolute) { unary<detail::Absolute>("P16.absolute"); }
VC_UNIT(P16, arbsign) { unary<detail::Arbsign>("P16.arbsign"); }
VC_UNIT(P16, negate) { unary<detail::Negate>("P16.negate"); }
VC_UNIT(P16, constant) { any_env(); double c = vc_real("c"); Expr f(c), r = run(f, "P16.constant"); vc_assert(isconst(r), "P16.constant"); vc_assert_eq(cval(r), c, "P16.constant"); }
VC_UNIT(P16, variable) { any_env(); for (int i = 0; i < 3; ++i) { Expr r = run(var(i), "P16.variable"); vc_assert(r->_type_idx == 1 && vidx(static_cast<const VarRT&>(*r)) == i, "P16.variable"); } }
