// Structural equality, hashing and visitor dispatch of every pair of node kinds over opaque parts.
#include "rt.hpp"
// A part is any expression; its identity is its ghost shape (equal shapes <=> equal expressions, the induction
// hypothesis for ==), and equal parts have equal hashes (the induction hypothesis for hash).
static size_t part_hash[6];
static Expr part(int shape) {
  if (vc_symbolic()) { auto o = std::make_shared<Opaque>(); o->shape = shape; o->hash = part_hash[shape]; return Expr(o); }
  auto v = Expr(*VarRT::create("p" + std::to_string(shape)));
  return shape & 1 ? Expr(sin(v)) : shape & 2 ? Expr(v * Expr(2.0)) : v;
}
static size_t hash_of(const RTBase* self, detail::VisitorInterface<size_t>& c) {
  if (self->_type_idx == 1000) return static_cast<const Opaque*>(self)->hash;
  vc_call_real(visit_addr<size_t>());
  return self->visit(c);
}
static bool differs(const RTBase* self, detail::VisitorInterface<bool>& c) {      // compound nodes differ from the parts
  if (self->_type_idx == 1000) return false;
  vc_call_real(visit_addr<bool>());
  return self->visit(c);
}
static void install() {
  for (auto& h : part_hash) h = vc_int("hash", 0, 1ll << 62);
  if (vc_symbolic()) vc_contract(visit_addr<size_t>(), (void*)(size_t (*)(const RTBase*, detail::VisitorInterface<size_t>&))&hash_of);
  if (vc_symbolic()) vc_contract(visit_addr<bool>(), (void*)(bool (*)(const RTBase*, detail::VisitorInterface<bool>&))&differs);
}
static const char* const NAMES[] = {"x", "y", "xx", "", "X"};
// a node of kind k (its type index) from parts a, b
static Expr node(int k, int a, int b) {
  switch (k) {
  case 0: return Expr(a == 0 ? 0.0 : a == 1 ? 1.5 : -1.5);
  case 1: return Expr(*VarRT::create(NAMES[a]));
#define VC_U(K, O) case K: return Expr(UnaryOp<Expr, detail::O>::create(part(a)));
#define VC_B(K, O) case K: return Expr(BinaryOp<Expr, detail::O, Expr>::create(part(a), part(b)));
  VC_U(2, Sine) VC_U(3, Cosine) VC_U(4, Log) VC_U(5, Exp) VC_U(6, Absolute) VC_U(7, Arbsign) VC_U(17, Negate)
  VC_B(8, Add) VC_B(9, Subtract) VC_B(10, Multiply) VC_B(11, Divide) VC_B(12, Power) VC_B(13, Equality) VC_B(14, ArrayAccess) VC_B(18, Units) VC_B(19, Uncertainty)
#undef VC_U
#undef VC_B
  case 15: { auto A = ArrayRT::create(2); (*A)[0] = part(a); (*A)[1] = part(b); return Expr(A); }
  case 16: { auto D = DictRT::create(); (*D)[var(0)] = part(a); (*D)[var(1)] = part(b); return Expr(D); }
  }
  return Expr();
}
static bool binary(int k) { return k >= 8 && k != 17; }
static bool eq(const Expr& a, const Expr& b) { return a == b; }
static size_t hash(const Expr& e) { return std::hash<Expr>()(e); }
static void pairs(int k, const char* label) {
  install();
  int a = vc_choose("a", 0, 2), b = vc_choose("b", 0, 2);
  int k2 = vc_choose("kind", 0, 19), a2 = vc_choose("a2", 0, 2), b2 = vc_choose("b2", 0, 2);
  if (!binary(k) && b) return;
  if (!binary(k2) && b2) return;
  if (k2 != k && (a || b)) return;                      // parts matter only within a kind; a2, b2 still vary
  Expr l = node(k, a, b), r = node(k2, a2, b2);
  bool same = k == k2 && a == a2 && b == b2;
  vc_freeze();
  vc_assert(eq(l, r) == same, label);
  vc_assert(eq(r, l) == same, label);
  vc_assert((l != r) == !same, label);
  vc_assert(eq(l, l), label);
  if (same) vc_assert(hash(l) == hash(r), label);
  vc_unfreeze();
}
#define VC_P17(N, K) VC_UNIT(P17, N) { pairs(K, "P17." #N); }
// vc-units: constant variable sine cosine log exp absolute arbsign add subtract multiply divide power equality array_access array dictionary negate units uncertainty
VC_P17(constant, 0) VC_P17(variable, 1) VC_P17(sine, 2) VC_P17(cosine, 3) VC_P17(log, 4) VC_P17(exp, 5) VC_P17(absolute, 6) VC_P17(arbsign, 7)
VC_P17(add, 8) VC_P17(subtract, 9) VC_P17(multiply, 10) VC_P17(divide, 11) VC_P17(power, 12) VC_P17(equality, 13) VC_P17(array_access, 14)
VC_P17(array, 15) VC_P17(dictionary, 16) VC_P17(negate, 17) VC_P17(units, 18) VC_P17(uncertainty, 19)

// constants of any value
VC_UNIT(P17, constant_values) {
  install();
  double c = vc_real("c"), d = vc_real("d");
  Expr a(c), b(d);
  vc_assert(eq(a, b) == (c == d) && eq(b, a) == (c == d), "P17.constant_values.equal");
  vc_assert((a == C<0>()) == (c == 0), "P17.constant_values.null");
  vc_assert((a == C<1>()) == (c == 1), "P17.constant_values.unity");
  vc_assert((a == C<-3, 2>()) == (c == -1.5), "P17.constant_values.rational");
  vc_assert(a.as<double>() == c, "P17.constant_values.as");
}
// operands in different order, or one part in common, or parts that are themselves compound, are not confused
VC_UNIT(P17, nested) {
  install();
  int k = vc_choose("k", 8, 14), k2 = vc_choose("k2", 8, 14);
  auto mk = [&](int k, const Expr& a, const Expr& b) -> Expr {
    switch (k) {
    case 8: return Expr(AddOp<Expr, Expr>::create(a, b)); case 9: return Expr(SubtractOp<Expr, Expr>::create(a, b));
    case 10: return Expr(MultiplyOp<Expr, Expr>::create(a, b)); case 11: return Expr(DivideOp<Expr, Expr>::create(a, b));
    case 12: return Expr(PowerOp<Expr, Expr>::create(a, b)); case 13: return Expr(EqualityOp<Expr, Expr>::create(a, b));
    }
    return Expr(ArrayOp<Expr, Expr>::create(a, b));
  };
  Expr l = mk(k, node(k2, 0, 1), part(2)), r = mk(k, node(k2, 0, 1), part(2)), s = mk(k, part(2), node(k2, 0, 1)), t = mk(k, part(0), node(k2, 1, 2));
  vc_assert(eq(l, r) && eq(r, l) && hash(l) == hash(r), "P17.nested.equal");
  vc_assert(!eq(l, s) && !eq(s, l), "P17.nested.order");
  vc_assert(!eq(l, t) && !eq(t, l), "P17.nested.association");
}
// arrays and dictionaries of different size; dictionaries built in different orders
VC_UNIT(P17, array_sizes) {
  install();
  int n = vc_choose("n", 0, 3), m = vc_choose("m", 0, 3);
  auto A = ArrayRT::create(n), B = ArrayRT::create(m);
  for (int i = 0; i < n; ++i) (*A)[i] = part(i);
  for (int i = 0; i < m; ++i) (*B)[i] = part(i);
  vc_assert(eq(Expr(A), Expr(B)) == (n == m), "P17.array_sizes.equal");
  if (n == m) vc_assert(hash(Expr(A)) == hash(Expr(B)), "P17.array_sizes.hash");
}
VC_UNIT(P17, dictionary_order) {
  install();
  static const int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
  int n = vc_choose("n", 0, 3), m = vc_choose("m", 0, 3), p = vc_choose("perm", 0, 5), ch = vc_choose("changed", -1, 2);
  auto A = DictRT::create(), B = DictRT::create();
  for (int i = 0; i < n; ++i) (*A)[var(i)] = part(i);
  bool differs = false;
  for (int i = 0; i < 3; ++i) { int j = perm[p][i]; if (j < m) { (*B)[var(j)] = part(j == ch ? 4 : j); differs |= j == ch; } }
  bool same = n == m && !differs;
  vc_assert(eq(Expr(A), Expr(B)) == same && eq(Expr(B), Expr(A)) == same, "P17.dictionary_order.equal");
  if (same) vc_assert(hash(Expr(A)) == hash(Expr(B)), "P17.dictionary_order.hash");
}
VC_UNIT(P17, dictionary_keys) {
  install();
  int i = vc_choose("i", 0, 2), j = vc_choose("j", 0, 2);
  auto A = DictRT::create(), B = DictRT::create();
  (*A)[var(i)] = part(0); (*B)[var(j)] = part(0);
  vc_assert(eq(Expr(A), Expr(B)) == (i == j), "P17.dictionary_keys.equal");
  auto it = A->find(Expr(*VarRT::create(j == 0 ? "x" : j == 1 ? "y" : "z")));
  vc_assert((it != A->end()) == (i == j), "P17.dictionary_keys.find");
}
// Visiting calls the handler of the node's own kind with the node itself.
struct Recorder : detail::VisitorHelper<Recorder, int> {
  const void* at = nullptr; double value = 0;
  int apply(const double& v) { value = v; return 0; }
  int apply(const VarRT& v) { at = static_cast<const RTBase*>(&v); return 1; }
#define VC_R(K, T) int apply(const T& v) { at = static_cast<const RTBase*>(&v); return K; }
#define VC_U(K, O) int apply(const UnaryOp<Expr, detail::O>& v) { at = static_cast<const RTBase*>(&v); return K; }
#define VC_B(K, O) int apply(const BinaryOp<Expr, detail::O, Expr>& v) { at = static_cast<const RTBase*>(&v); return K; }
  VC_U(2, Sine) VC_U(3, Cosine) VC_U(4, Log) VC_U(5, Exp) VC_U(6, Absolute) VC_U(7, Arbsign) VC_U(17, Negate)
  VC_B(8, Add) VC_B(9, Subtract) VC_B(10, Multiply) VC_B(11, Divide) VC_B(12, Power) VC_B(13, Equality) VC_B(14, ArrayAccess) VC_B(18, Units) VC_B(19, Uncertainty)
  VC_R(15, ArrayRT) VC_R(16, DictRT)
#undef VC_U
#undef VC_B
#undef VC_R
};
VC_UNIT(P17, dispatch) {
  install();
  int k = vc_choose("kind", 0, 19);
  Expr e = node(k, 1, 2);
  Recorder r;
  int got = -1;
  try { got = e->visit(r); } catch (const stator::Exception&) {}
  vc_assert(got == k, "P17.dispatch.kind");
  vc_assert(k == 0 ? r.value == 1.5 : r.at == e.get(), "P17.dispatch.node");
}
VC_UNIT(P17, dispatch_unknown) {       // a node of no known kind is refused, never misread
  if (!vc_symbolic()) return;
  Recorder r; bool thrown = false;
  Expr e(std::make_shared<Opaque>());
  try { e->visit(r); } catch (const stator::Exception&) { thrown = true; }
  vc_assert(thrown, "P17.dispatch_unknown");
}
// as<T>() gives the node itself, or throws
VC_UNIT(P17, as) {
  install();
  int k = vc_choose("kind", 0, 19);
  Expr e = node(k, 1, 2);
  auto is = [&](int want, auto f) { bool ok = false; try { f(); ok = true; } catch (const stator::Exception&) {} vc_assert(ok == (k == want), "P17.as.kind"); };
  if (k < 2) {
    is(0, [&] { vc_assert(e.as<double>() == 1.5, "P17.as.value"); });
    is(1, [&] { vc_assert(&e.as<VarRT>() == e.get(), "P17.as.variable"); });
  }
}
