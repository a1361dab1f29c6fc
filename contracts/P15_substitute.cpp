// Runtime substitution of every node kind over opaque children: the value of sub(f, x = e) is the value of f in the
// environment where x has e's value; nothing that existed before is written.
#include "rt.hpp"
// an arbitrary subexpression: the visitor leaves it alone (null) or returns an expression with the substituted value
static Expr operand(const char* n) {
  if (!vc_symbolic()) return random_expr(1);
  auto o = fresh(n);
  if (vc_choose("substituted", 0, 1)) { auto s = fresh(n); o->v1 = s->v0; o->S = Expr(s); }
  return Expr(o);
}
static Expr replacement() { Expr e = vc_symbolic() ? Expr(fresh("e")) : random_expr(1); env.v1[0] = ev(e, 0); return e; }
enum Form { EQUALITY, COMPILE_TIME, DICT, EXPR_DICT };
static Expr substitute(const Expr& f, const Expr& e, int form, const char* label) {
  Expr r;
  auto x = VarRT::create("x");
  Expr eq(EqualityOp<Expr, Expr>::create(Expr(*x), e));
  auto d = DictRT::create();
  (*d)[var(0)] = e;
  Expr D(d);
  rt_install();
  vc_freeze();
  try {
    if (form == EQUALITY) r = sub(f, eq);
    else if (form == COMPILE_TIME) r = sub(f, Var<>() = e);
    else if (form == DICT) r = sub(f, *d);
    else r = sub(f, D);
  } catch (const stator::Exception& ex) { vc_assert(false, label); }
  vc_unfreeze();
  vc_assert(bool(r), label);
  return r;
}
static void check(const Expr& f, const char* label) {
  Expr e = replacement();
  int form = vc_choose("form", 0, 3);
  Expr r = substitute(f, e, form, label);
  same_value(ev(f, 1), r, 0, label);
}
VC_UNIT(P15, constant) { any_env(); check(Expr(vc_real("c")), "P15.constant"); }
VC_UNIT(P15, variable) {
  any_env();
  int i = vc_choose("which", 0, 2);
  Expr f = var(i), e = replacement();
  int form = vc_choose("form", 0, 3);
  Expr r = substitute(f, e, form, "P15.variable");
  vc_assert(r.get() == (i == 0 ? e.get() : f.get()), "P15.variable.node");
}
VC_UNIT(P15, variable_names) {
  any_env();
  auto x = VarRT::create("x"), xx = VarRT::create("xx"), n = VarRT::create(""), X = VarRT::create("X");
  Expr e = Expr(7.0);
  Expr r = sub(Expr(*xx), Expr(EqualityOp<Expr, Expr>::create(Expr(*x), e))); vc_assert(r.get() == xx.get(), "P15.variable_names.longer");
  r = sub(Expr(*x), Expr(EqualityOp<Expr, Expr>::create(Expr(*xx), e))); vc_assert(r.get() == x.get(), "P15.variable_names.shorter");
  r = sub(Expr(*n), Expr(EqualityOp<Expr, Expr>::create(Expr(*x), e))); vc_assert(r.get() == n.get(), "P15.variable_names.empty");
  r = sub(Expr(*X), Expr(EqualityOp<Expr, Expr>::create(Expr(*x), e))); vc_assert(r.get() == X.get(), "P15.variable_names.case");
  r = sub(Expr(*xx), Expr(EqualityOp<Expr, Expr>::create(Expr(*VarRT::create("xx")), e))); vc_assert(r.get() == e.get(), "P15.variable_names.same");
}
template<class Op> static void unary(const char* l) { any_env(); check(Expr(UnaryOp<Expr, Op>::create(operand("a"))), l); }
VC_UNIT(P15, sine) { unary<detail::Sine>("P15.sine"); }
VC_UNIT(P15, cosine) { unary<detail::Cosine>("P15.cosine"); }
VC_UNIT(P15, logarithm) { unary<detail::Log>("P15.logarithm"); }
VC_UNIT(P15, exponential) { unary<detail::Exp>("P15.exponential"); }
VC_UNIT(P15, absolute) { unary<detail::Absolute>("P15.absolute"); }
VC_UNIT(P15, arbsign) { unary<detail::Arbsign>("P15.arbsign"); }
VC_UNIT(P15, negate) { unary<detail::Negate>("P15.negate"); }
template<class Op> static void binary(const char* l, int dom = 0) {
  any_env(); Expr a = operand("a"), b = operand("b"); if (dom) { vc_assume(ev(b, 0) != 0); vc_assume(!vc_symbolic() || ev(b, 1) != 0); }
  check(Expr(BinaryOp<Expr, Op, Expr>::create(a, b)), l);
}
VC_UNIT(P15, add) { binary<detail::Add>("P15.add"); }
VC_UNIT(P15, subtract) { binary<detail::Subtract>("P15.subtract"); }
VC_UNIT(P15, multiply) { binary<detail::Multiply>("P15.multiply"); }
VC_UNIT(P15, divide) { binary<detail::Divide>("P15.divide", 1); }
VC_UNIT(P15, power) { binary<detail::Power>("P15.power"); }
VC_UNIT(P15, equality) { binary<detail::Equality>("P15.equality"); }
VC_UNIT(P15, array_access) { binary<detail::ArrayAccess>("P15.array_access"); }
VC_UNIT(P15, units) { binary<detail::Units>("P15.units"); }
VC_UNIT(P15, uncertainty) { binary<detail::Uncertainty>("P15.uncertainty"); }
VC_UNIT(P15, array) {
  any_env();
  size_t n = vc_choose("n", 0, 4);
  auto A = ArrayRT::create(n);
  Expr el[4];
  for (size_t i = 0; i < n; ++i) (*A)[i] = el[i] = operand("e");
  Expr e = replacement(), r = substitute(Expr(A), e, vc_choose("form", 0, 3), "P15.array");
  vc_assert(r->_type_idx == 15, "P15.array.node");
  auto& o = static_cast<const ArrayRT&>(*r);
  vc_assert(o.size() == n && o.store_size() == n && A->size() == n, "P15.array.size");
  for (size_t i = 0; i < n; ++i) same_value(ev(el[i], 1), o[i], 0, "P15.array.element");
}
VC_UNIT(P15, dictionary) {
  any_env();
  size_t n = vc_choose("n", 0, 3);
  auto A = DictRT::create();
  Expr el[3];
  for (size_t i = 0; i < n; ++i) (*A)[var(i)] = el[i] = operand("e");
  Expr e = replacement(), r = substitute(Expr(A), e, vc_choose("form", 0, 3), "P15.dictionary");
  vc_assert(r->_type_idx == 16, "P15.dictionary.node");
  auto& o = static_cast<const DictRT&>(*r);
  vc_assert(o.size() == n && A->size() == n, "P15.dictionary.size");
  for (size_t i = 0; i < n; ++i) {
    auto it = o.find(var(i));
    vc_assert(it != o.end(), "P15.dictionary.key");
    if (it != o.end()) same_value(ev(el[i], 1), it->second, 0, "P15.dictionary.value");
    vc_assert(A->find(var(i))->second.get() == el[i].get(), "P15.dictionary.unchanged");
  }
}
// several variables at once: simultaneous replacement, not one after the other
VC_UNIT(P15, dictionary_simultaneous) {
  any_env();
  auto d = DictRT::create();
  Expr e0 = vc_symbolic() ? Expr(fresh("e")) : var(1), e1 = vc_symbolic() ? Expr(fresh("e")) : var(0);
  (*d)[var(0)] = e0; (*d)[var(1)] = e1;
  env.v1[0] = ev(e0, 0); env.v1[1] = ev(e1, 0);
  double c = vc_real("c"); vc_assume(env.v0[2] + c != 0);
  Expr f = Expr(PowerOp<Expr, Expr>::create(Expr(SubtractOp<Expr, Expr>::create(var(0), var(1))), Expr(DivideOp<Expr, Expr>::create(var(1), Expr(AddOp<Expr, Expr>::create(var(2), Expr(c)))))));
  rt_install();
  vc_freeze(); Expr r = sub(f, *d); vc_unfreeze();
  same_value(ev(f, 1), r, 0, "P15.dictionary_simultaneous");
  for (int i = 0; i < 3; ++i) { Expr q = sub(var(i), *d); vc_assert(i == 2 ? q->_type_idx == 1 && vidx(static_cast<const VarRT&>(*q)) == 2 : q.get() == (i ? e1 : e0).get(), "P15.dictionary_simultaneous.variable"); }
  Expr q = sub(f, *DictRT::create()); vc_assert(q.get() == f.get(), "P15.dictionary_simultaneous.empty");
}
VC_UNIT(P15, rejected) {
  Expr f = var(0); bool t;
  auto bad = [&](const Expr& rep) { bool t = false; try { sub(f, rep); } catch (const stator::Exception&) { t = true; } return t; };
  vc_assert(bad(Expr(vc_real("c"))), "P15.rejected.constant");
  vc_assert(bad(var(1)), "P15.rejected.variable");
  vc_assert(bad(Expr(var(0) + var(1))), "P15.rejected.sum");
  vc_assert(bad(Expr(EqualityOp<Expr, Expr>::create(Expr(2.0), var(1)))), "P15.rejected.left_side");
}
// everything known: simplify collapses the substituted expression to its number
constexpr char yname[] = "y";
template<class Op> static void collapse(const char* l, int dom = 0) {
  any_env(); double a = vc_real("a"), b = vc_real("b");
  if (dom == 1) vc_assume(b != 0);
  if (dom == 2) vc_assume(a > 0);
  Expr f = BinaryOp<Expr, Op, Expr>::create(var(0), Expr(b));
  Expr r = simplify(sub(f, Var<>() = a));
  env.v1[0] = a;
  vc_assert(isconst(r), l); same_value(ev(f, 1), r, 0, l);
  f = BinaryOp<Expr, Op, Expr>::create(Expr(a), var(1));
  env.v1[1] = b;
  r = simplify(sub(f, Var<yname>() = b));
  vc_assert(isconst(r), l); same_value(ev(f, 1), r, 0, l);
}
VC_UNIT(P15, collapse_add) { collapse<detail::Add>("P15.collapse.add"); }
VC_UNIT(P15, collapse_subtract) { collapse<detail::Subtract>("P15.collapse.subtract"); }
VC_UNIT(P15, collapse_multiply) { collapse<detail::Multiply>("P15.collapse.multiply"); }
VC_UNIT(P15, collapse_divide) { collapse<detail::Divide>("P15.collapse.divide", 1); }
VC_UNIT(P15, collapse_power) { collapse<detail::Power>("P15.collapse.power", 2); }
template<class Op> static void collapse1(const char* l, int dom = 0) {
  any_env(); double a = vc_real("a");
  if (dom) vc_assume(a > 0);
  Expr f = UnaryOp<Expr, Op>::create(var(0));
  Expr r = simplify(sub(f, Var<>() = a));
  env.v1[0] = a;
  vc_assert(isconst(r), l); same_value(ev(f, 1), r, 0, l);
}
VC_UNIT(P15, collapse_unary) {
  collapse1<detail::Sine>("P15.collapse.sine"); collapse1<detail::Cosine>("P15.collapse.cosine"); collapse1<detail::Exp>("P15.collapse.exp");
  collapse1<detail::Log>("P15.collapse.log", 1); collapse1<detail::Absolute>("P15.collapse.absolute"); collapse1<detail::Negate>("P15.collapse.negate");
}
// fast_sub: the number itself, or an exception for what it cannot evaluate
static void fast(const Expr& f, const char* label) {
  double a = vc_real("a"); env.v1[0] = a;
  rt_install();
  vc_freeze();
  double v = 0; bool t = false;
  try { v = fast_sub(f, Var<>() = a); } catch (const stator::Exception&) { t = true; }
  vc_unfreeze();
  if (!vc_symbolic()) {
    vc_assert(!t, label);
    if (usable(v) && usable(ev(f, 1))) vc_assert_eq(v, ev(f, 1), label);
    return;
  }
  vc_assert(!t, label);
  vc_assert_eq(v, ev(f, 1), label);
}
template<class Op> static void fast1(const char* l) { any_env(); random_only_x = true; fast(Expr(UnaryOp<Expr, Op>::create(operand("a"))), l); }
template<class Op> static void fast2(const char* l, int dom = 0) {
  any_env(); random_only_x = true; Expr a = operand("a"), b = operand("b"); if (dom) { vc_assume(ev(b, 1) != 0); }
  fast(Expr(BinaryOp<Expr, Op, Expr>::create(a, b)), l);
}
VC_UNIT(P15, fast_leaves) { any_env(); fast(Expr(vc_real("c")), "P15.fast.constant"); fast(var(0), "P15.fast.variable"); }
VC_UNIT(P15, fast_sine) { fast1<detail::Sine>("P15.fast.sine"); }
VC_UNIT(P15, fast_cosine) { fast1<detail::Cosine>("P15.fast.cosine"); }
VC_UNIT(P15, fast_exp) { fast1<detail::Exp>("P15.fast.exp"); }
VC_UNIT(P15, fast_log) { fast1<detail::Log>("P15.fast.log"); }
VC_UNIT(P15, fast_absolute) { fast1<detail::Absolute>("P15.fast.absolute"); }
VC_UNIT(P15, fast_negate) { fast1<detail::Negate>("P15.fast.negate"); }
VC_UNIT(P15, fast_add) { fast2<detail::Add>("P15.fast.add"); }
VC_UNIT(P15, fast_subtract) { fast2<detail::Subtract>("P15.fast.subtract"); }
VC_UNIT(P15, fast_multiply) { fast2<detail::Multiply>("P15.fast.multiply"); }
VC_UNIT(P15, fast_divide) { fast2<detail::Divide>("P15.fast.divide", 1); }
VC_UNIT(P15, fast_power) { fast2<detail::Power>("P15.fast.power"); }
VC_UNIT(P15, fast_rejected) {
  any_env();
  Expr a = operand("a"), b = operand("b");
  auto bad = [&](const Expr& f) { bool t = false; try { fast_sub(f, Var<>() = 2.0); } catch (const stator::Exception&) { t = true; } return t; };
  rt_install();
  vc_assert(bad(var(1)), "P15.fast_rejected.variable");
  vc_assert(bad(Expr(EqualityOp<Expr, Expr>::create(a, b))), "P15.fast_rejected.equality");
  vc_assert(bad(Expr(ArrayOp<Expr, Expr>::create(a, b))), "P15.fast_rejected.array_access");
  vc_assert(bad(Expr(UnitsOp<Expr, Expr>::create(a, b))), "P15.fast_rejected.units");
  vc_assert(bad(Expr(UncertaintyOp<Expr, Expr>::create(a, b))), "P15.fast_rejected.uncertainty");
  vc_assert(bad(Expr(UnaryOp<Expr, detail::Arbsign>::create(a))), "P15.fast_rejected.arbsign");
  vc_assert(bad(Expr(ArrayRT::create({a, b}))), "P15.fast_rejected.array");
  vc_assert(bad(Expr(DictRT::create())), "P15.fast_rejected.dictionary");
}
