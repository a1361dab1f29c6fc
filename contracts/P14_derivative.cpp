// Runtime derivative of every node kind over opaque children.  Structural induction: an Opaque child's DerivativeRT
// result is an arbitrary expression whose value is the child's derivative; the parent's result must then have the
// mathematical derivative as its value, and nothing that existed before may have been written.
#include "rt.hpp"
static Expr operand(const char* n) {
  if (!vc_symbolic()) { Expr e = random_expr(1); return e; }
  auto o = fresh(n); auto d = fresh(n);
  o->dv = d->v0; o->D = Expr(d);
  return Expr(o);
}
static void check(const Expr& f, const char* label) {
  rt_install();
  auto x = VarRT::create("x");
  vc_freeze();
  Expr r;
  try { r = derivative(f, *x); } catch (const stator::Exception& e) { vc_prints(e.what()); vc_assert(false, label); }
  vc_unfreeze();
  vc_assert(bool(r), label);
  same_value(der(f), r, 0, label);
}
VC_UNIT(P14, constant) {
  any_env(); double c = vc_real("c");
  check(Expr(c), "P14.constant");
  auto x = VarRT::create("x");
  vc_assert(isconst(derivative(Expr(c), *x)), "P14.constant.node");
}
VC_UNIT(P14, variable) {
  any_env();
  for (int i = 0; i < 3; ++i) check(var(i), "P14.variable");
  auto x = VarRT::create("x"), xx = VarRT::create("xx"), e = VarRT::create("");
  Expr r = derivative(Expr(*xx), *x); vc_assert(isconst(r) && cval(r) == 0, "P14.variable.longer_name");
  r = derivative(Expr(*x), *xx); vc_assert(isconst(r) && cval(r) == 0, "P14.variable.prefix_name");
  r = derivative(Expr(*e), *x); vc_assert(isconst(r) && cval(r) == 0, "P14.variable.empty_name");
  r = derivative(Expr(*xx), *xx); vc_assert(isconst(r) && cval(r) == 1, "P14.variable.itself");
  r = derivative(Expr(*x), Var<>()); vc_assert(isconst(r) && cval(r) == 1, "P14.variable.compile_time");
  r = derivative(Expr(*x), Expr(*x)); vc_assert(isconst(r) && cval(r) == 1, "P14.variable.expr");
  r = derivative(Expr(*xx), Expr(*x)); vc_assert(isconst(r) && cval(r) == 0, "P14.variable.expr_other");
  bool t = false;
  try { derivative(Expr(*x), Expr(2.0)); } catch (const stator::Exception&) { t = true; }
  vc_assert(t, "P14.variable.not_a_variable");
}
template<class Op> static void unary(const char* l, int dom = 0) {
  any_env(); Expr a = operand("a");
  if (dom == 1) vc_assume(ev(a, 0) > 0);
  if (dom == 2) vc_assume(ev(a, 0) != 0);
  check(Expr(UnaryOp<Expr, Op>::create(a)), l);
}
VC_UNIT(P14, sine) { unary<detail::Sine>("P14.sine"); }
VC_UNIT(P14, cosine) { unary<detail::Cosine>("P14.cosine"); }
VC_UNIT(P14, logarithm) { unary<detail::Log>("P14.logarithm", 1); }
VC_UNIT(P14, exponential) { unary<detail::Exp>("P14.exponential"); }
VC_UNIT(P14, absolute) { unary<detail::Absolute>("P14.absolute", 2); }
VC_UNIT(P14, negate) { unary<detail::Negate>("P14.negate"); }
template<class Op> static void binary(const char* l, int dom = 0) {
  any_env(); Expr a = operand("a"), b = operand("b");
  if (dom == 1) vc_assume(ev(b, 0) != 0);
  if (dom == 2) vc_assume(ev(a, 0) > 0);
  check(Expr(BinaryOp<Expr, Op, Expr>::create(a, b)), l);
}
VC_UNIT(P14, add) { binary<detail::Add>("P14.add"); }
VC_UNIT(P14, subtract) { binary<detail::Subtract>("P14.subtract"); }
VC_UNIT(P14, multiply) { binary<detail::Multiply>("P14.multiply"); }
VC_UNIT(P14, divide) { binary<detail::Divide>("P14.divide", 1); }
VC_UNIT(P14, power) { binary<detail::Power>("P14.power", 2); }
// constant exponent: any real exponent on a positive base, integer exponents on any base
VC_UNIT(P14, power_constant) {
  any_env(); Expr a = operand("a"); double c = vc_real("c");
  vc_assume(ev(a, 0) > 0);
  check(Expr(PowerOp<Expr, Expr>::create(a, Expr(c))), "P14.power_constant");
}
VC_UNIT(P14, power_integer) {
  any_env(); Expr a = operand("a"); int64_t n = vc_choose("n", -4, 6);
  if (n <= 0) vc_assume(ev(a, 0) != 0);
  check(Expr(PowerOp<Expr, Expr>::create(a, Expr(double(n)))), "P14.power_integer");
}
VC_UNIT(P14, power_base_constant) {
  any_env(); Expr b = operand("b"); double c = vc_real("c");
  vc_assume(c > 0);
  check(Expr(PowerOp<Expr, Expr>::create(Expr(c), b)), "P14.power_base_constant");
}
// nodes without a numeric meaning: the derivative keeps the node kind and differentiates the parts it must
static Expr differentiate(const Expr& f, const char* label) {
  rt_install();
  auto x = VarRT::create("x");
  vc_freeze();
  Expr r;
  try { r = derivative(f, *x); } catch (const stator::Exception& e) { vc_assert(false, label); }
  vc_unfreeze();
  vc_assert(bool(r), label);
  return r;
}
VC_UNIT(P14, equality) {
  any_env(); Expr a = operand("a"), b = operand("b");
  Expr r = differentiate(Expr(EqualityOp<Expr, Expr>::create(a, b)), "P14.equality");
  vc_assert(r->_type_idx == 13, "P14.equality.node");
  auto& o = asB<detail::Equality>(r.get());
  same_value(der(a), o._l, 0, "P14.equality.left"); same_value(der(b), o._r, 0, "P14.equality.right");
}
VC_UNIT(P14, units) {
  any_env(); Expr a = operand("a"), u = operand("u");
  Expr r = differentiate(Expr(UnitsOp<Expr, Expr>::create(a, u)), "P14.units");
  vc_assert(r->_type_idx == 18, "P14.units.node");
  auto& o = asB<detail::Units>(r.get());
  same_value(der(a), o._l, 0, "P14.units.value"); vc_assert(o._r.get() == u.get(), "P14.units.unit");
}
VC_UNIT(P14, uncertainty) {               // no rule: reported to the caller instead of recursing for ever
  any_env(); Expr a = operand("a"), u = operand("u");
  rt_install();
  auto x = VarRT::create("x");
  bool t = false;
  try { derivative(Expr(UncertaintyOp<Expr, Expr>::create(a, u)), *x); } catch (const stator::Exception&) { t = true; }
  vc_assert(t, "P14.uncertainty.rejected");
}
VC_UNIT(P14, array_access) {
  any_env(); Expr a = operand("a"), b = operand("b"), k = Expr(0.0);
  auto A = ArrayRT::create({a, b});
  Expr r = differentiate(Expr(ArrayOp<Expr, Expr>::create(Expr(A), k)), "P14.array_access");
  vc_assert(r->_type_idx == 14, "P14.array_access.node");
  auto& o = asB<detail::ArrayAccess>(r.get());
  vc_assert(o._l->_type_idx == 15, "P14.array_access.array");
  auto& D = static_cast<const ArrayRT&>(*o._l);
  vc_assert(o._r.get() == k.get(), "P14.array_access.index");
  vc_assert_eq(ev(D[0], 0), der(a), "P14.array_access.element"); vc_assert_eq(ev(D[1], 0), der(b), "P14.array_access.element");
}
VC_UNIT(P14, array) {
  any_env();
  size_t n = vc_choose("n", 0, 4);
  auto A = ArrayRT::create(n);
  Expr e[4];
  for (size_t i = 0; i < n; ++i) (*A)[i] = e[i] = operand("e");
  Expr r = differentiate(Expr(A), "P14.array");
  vc_assert(r->_type_idx == 15, "P14.array.node");
  auto& o = static_cast<const ArrayRT&>(*r);
  vc_assert(o.size() == n && o.store_size() == n, "P14.array.size");
  for (size_t i = 0; i < n; ++i) same_value(der(e[i]), o[i], 0, "P14.array.element");
  vc_assert(A->size() == n, "P14.array.unchanged");
}
VC_UNIT(P14, dictionary) {
  any_env();
  size_t n = vc_choose("n", 0, 3);
  auto A = DictRT::create();
  Expr e[3];
  for (size_t i = 0; i < n; ++i) (*A)[var(i)] = e[i] = operand("e");
  Expr r = differentiate(Expr(A), "P14.dictionary");
  vc_assert(r->_type_idx == 16, "P14.dictionary.node");
  auto& o = static_cast<const DictRT&>(*r);
  vc_assert(o.size() == n && A->size() == n, "P14.dictionary.size");
  for (size_t i = 0; i < n; ++i) {
    auto it = o.find(var(i));
    vc_assert(it != o.end(), "P14.dictionary.key");
    if (it != o.end()) same_value(der(e[i]), it->second, 0, "P14.dictionary.value");
    vc_assert(A->find(var(i))->second.get() == e[i].get(), "P14.dictionary.unchanged");
  }
}
