// Printed expressions read back: the real repr followed by the real parser, compared with the tree that was printed.
// vc-units: pair_add pair_sub pair_mul pair_div pair_pow pair_eq pair_index pair_units pair_unc
// vc-units: deep_add deep_sub deep_mul deep_div deep_pow deep_eq deep_index deep_units deep_unc
// vc-opts pair_.*|unary|elements: bound=children_of_every_kind_over_leaves time=600
// vc-opts deep_.*: bound=depth_three_spines time=600
#include "parse.hpp"
static Expr leaf(int k) { return k == 0 ? Expr(2.0) : k == 1 ? Expr(-2.0) : var(k == 2 ? 0 : 1); }
static Expr mk1(int k, const Expr& a) {
  switch (k) {
  case 0: return Expr(UnaryOp<Expr, detail::Sine>::create(a));
  case 1: return Expr(UnaryOp<Expr, detail::Cosine>::create(a));
  case 2: return Expr(UnaryOp<Expr, detail::Log>::create(a));
  case 3: return Expr(UnaryOp<Expr, detail::Exp>::create(a));
  default: return Expr(UnaryOp<Expr, detail::Negate>::create(a));
  }
}
static Expr mk2(int k, const Expr& a, const Expr& b) {
  switch (k) {
#define VC_B(K, O) case K: return Expr(BinaryOp<Expr, detail::O, Expr>::create(a, b));
  VC_B(0, Add) VC_B(1, Subtract) VC_B(2, Multiply) VC_B(3, Divide) VC_B(4, Power) VC_B(5, Equality) VC_B(6, ArrayAccess) VC_B(7, Units)
#undef VC_B
  }
  return Expr(BinaryOp<Expr, detail::Uncertainty, Expr>::create(a, b));
}
// every kind of node with the operands a, b: 0..2 leaves, 3..7 functions, 8..16 binary operators, 17 array, 18 dictionary
static Expr node(int k, const Expr& a, const Expr& b) {
  if (k < 3) return leaf(k);
  if (k < 8) return mk1(k - 3, a);
  if (k < 17) return mk2(k - 8, a, b);
  if (k == 17) { auto A = ArrayRT::create(2); (*A)[0] = a; (*A)[1] = b; return Expr(A); }
  auto D = DictRT::create(); (*D)[var(0)] = a; (*D)[var(1)] = b; return Expr(D);
}
static void back(const Expr& f, const char* label) {
  std::string text = repr(f), have;
  try { Tk t(text); Expr e = t.parseExpression(); if (t.empty()) have = show(e); } catch (stator::Exception&) {}
  vc_assert(have == show(f), label);
}
static Expr child(const char* n) { return node(vc_choose(n, 0, 18), var(0), var(1)); }
static void pair(int op) { Expr l = child("l"), r = child("r"); back(mk2(op, l, r), "P19.binary_children"); }
// the operand at either end of a child: its own child may reach the parent's operator
static void deep(int op) {
  int side = vc_choose("side", 0, 1), k = vc_choose("kind", 3, 16), s2 = vc_choose("side2", 0, k < 8 ? 0 : 1);
  Expr g = node(vc_choose("g", 0, 18), var(0), var(1));
  Expr c = s2 ? node(k, var(2), g) : node(k, g, var(2));
  back(side ? mk2(op, var(0), c) : mk2(op, c, var(0)), "P19.deeper_operands");
}
#define OPU(name, i) extern "C" void vcu_P19__pair_##name() { pair(i); } extern "C" void vcu_P19__deep_##name() { deep(i); }
OPU(add, 0) OPU(sub, 1) OPU(mul, 2) OPU(div, 3) OPU(pow, 4) OPU(eq, 5) OPU(index, 6) OPU(units, 7) OPU(unc, 8)
VC_UNIT(P19, unary) { int k = vc_choose("f", 0, 4); back(mk1(k, child("a")), "P19.function_argument"); }
VC_UNIT(P19, elements) { int k = vc_choose("container", 17, 18); Expr a = child("a"); back(node(k, a, var(0)), "P19.elements"); back(node(k, var(0), a), "P19.elements"); }

// the values of numbers and the names of variables
VC_UNIT(P19, numbers) {
  static const double N[] = {0, 1, 7, 0.5, 0.1, 1.0 / 3, 3.14159265358979, 1e22, 1e-7, 123456789.0, 1e300, 2.5e-300, 100000, 1e16, 1e17, 4.0 / 7};
  double v = N[vc_choose("n", 0, 15)];
  if (vc_choose("sign", 0, 1)) v = -v;
  Tk t(repr(Expr(v))); Expr e = t.parseExpression();
  double got = isconst(e) ? cval(e) : e->_type_idx == 17 ? -cval(asU<detail::Negate>(e.get())._arg) : 1e99;
  vc_assert(t.empty() && got == v, "P19.number_value");
  Expr s = Expr(v) + var(0);
  Tk u(repr(s)); Expr f = u.parseExpression();
  vc_assert(u.empty() && f->_type_idx == 8 && isconst(asB<detail::Add>(f.get())._l) && cval(asB<detail::Add>(f.get())._l) == v, "P19.number_value");
}
VC_UNIT(P19, names) {
  static const char* const N[] = {"x", "y", "xy", "X", "abc", "sinx", "e", "E", "pow"};
  const char* n = N[vc_choose("n", 0, 8)];
  Tk t(repr(Expr(*VarRT::create(n)))); Expr e = t.parseExpression();
  vc_assert(t.empty() && e->_type_idx == 1 && static_cast<const VarRT*>(e.get())->_name == n, "P19.name_kept");
}
// Parentheses over ARBITRARY subexpressions: the text of a child is arbitrary, its binding powers (L, R) are arbitrary.  The text
// may stand bare on the left of an operator only if the child's right power beats the operator's left power, and
// bare on the right only if its left power is at least the power the operator collects with (what the parser really uses).
static std::pair<int, int> bps[2];
static std::pair<int, int> powers(const RTBase* self, detail::VisitorInterface<std::pair<int, int>>& c) {
  if (self->_type_idx == 1000) return bps[static_cast<const Opaque*>(self)->shape];
  vc_call_real(visit_addr<std::pair<int, int>>());
  return self->visit(c);
}
static std::string text_of(const RTBase* self, detail::VisitorInterface<std::string>& c) {
  if (self->_type_idx == 1000) return static_cast<const Opaque*>(self)->shape ? "R" : "L";
  vc_call_real(visit_addr<std::string>());
  return self->visit(c);
}
static int collects, left_power; static bool seen;
static void* addr() { Expr (Tk::*m)(int) = &Tk::parseExpression; return fnaddr<Tk>(m); }
static Expr record(Tk* t, int m) {           // the power the parser collects the right operand with
  if (seen) { collects = m; t->consume(); return var(0); }
  seen = true; vc_call_real(addr());
  return t->parseExpression(m);
}
VC_UNIT(P19, parentheses) {
  static const char* const T[] = {"x+y", "x-y", "x*y", "x/y", "x^y", "x=y", "x[y]", "x{y}", "x±y"};
  static const char* const S[] = {"+", "-", "*", "/", "^", "=", "[", "{", "±"};
  int k = vc_choose("op", 0, 8);
  auto l = std::make_shared<Opaque>(), r = std::make_shared<Opaque>();
  l->shape = 0; r->shape = 1;
  if (!vc_symbolic()) return;
  for (auto& b : bps) { b.first = int(vc_int("L", 0, 1000)); b.second = int(vc_int("R", 0, 1000)); }
  vc_contract(addr(), (void*)&record);
  seen = false;
  Tk t(T[k]); t.parseExpression();
  vc_uncontract(addr());
  left_power = t._right_operators.find(S[k])->second->LBP();
  vc_contract(visit_addr<std::pair<int, int>>(), (void*)&powers);
  vc_contract(visit_addr<std::string>(), (void*)&text_of);
  std::string s = repr(mk2(k, Expr(l), Expr(r)));
  size_t n = s.size(), i = s.find('L'), j = s.find('R');
  bool pl = i > 0 && s[i - 1] == '(' && s[i + 1] == ')', pr = j > 0 && s[j - 1] == '(' && s[j + 1] == ')';
  vc_assert(pl || bps[0].second > left_power, "P19.left_operand_parenthesised");
  vc_assert(pr || collects <= bps[1].first, "P19.right_operand_parenthesised");
  std::string want = std::string(pl ? "(L)" : "L") + S[k] + (pr ? "(R)" : "R") + (k == 6 ? "]" : k == 7 ? "}" : "");
  vc_assert(s == want, "P19.operator_text");
}
VC_UNIT(P19, function_parentheses) {
  static const char* const T[] = {"sin ", "cos ", "ln ", "exp ", "-"};
  int k = vc_choose("f", 0, 4);
  auto l = std::make_shared<Opaque>(); l->shape = 0;
  if (!vc_symbolic()) return;
  bps[0].first = int(vc_int("L", 0, 1000)); bps[0].second = int(vc_int("R", 0, 1000));
  vc_contract(addr(), (void*)&record);
  seen = false;
  { Tk t(std::string(T[k]) + "x"); t.parseExpression(); }
  vc_uncontract(addr());
  vc_contract(visit_addr<std::pair<int, int>>(), (void*)&powers);
  vc_contract(visit_addr<std::string>(), (void*)&text_of);
  std::string s = repr(mk1(k, Expr(l)));
  bool p = s == std::string(T[k]) + "(L)";
  vc_assert(p || (s == std::string(T[k]) + "L" && collects <= bps[0].first), "P19.argument_parenthesised");
}
