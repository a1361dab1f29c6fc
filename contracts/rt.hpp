// Ghost machinery for contracts over runtime expressions (sym::Expr).
//
// An Opaque node stands for ANY runtime expression: it carries an arbitrary value, derivative and substituted value, and
// the visitors of /repo applied to it are replaced by their own contract (the induction hypothesis of a structural
// induction over the tree): DerivativeRT returns some expression whose value is the ghost derivative, SubstituteRT and
// friends return some expression whose value is the substituted value (or null if nothing is substituted), SimplifyRT
// returns null or an expression of the same value.  ev()/der() are the independent specification: the mathematical value
// and derivative of a tree.  Natively (counterexample replay) an Opaque is a random concrete expression.
#pragma once
#include <vc.hpp>
#include <stator/symbolic/runtime.hpp>
#include <cstring>
#include <cmath>
using namespace sym;

#ifdef VC_SYMBOLIC
template class std::basic_string<char>;       // the members that otherwise live in libstdc++.so
// std::unordered_map's growth policy lives in libstdc++.so: any growing sequence of bucket counts will do
namespace std { namespace __detail {
  inline size_t vc_buckets(size_t n) { static const size_t t[] = {2, 5, 11, 23, 47, 97, 199, 409}; for (size_t k : t) if (k >= n) return k; return n; }
  std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni <= _M_next_resize) return {false, 0};
    size_t n = vc_buckets(ne + ni > nb ? ne + ni : nb);
    _M_next_resize = n;
    return {true, n};
  }
  size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { n = vc_buckets(n); _M_next_resize = n; return n; }
} }
#endif

struct Opaque : RTBase {
  double v0, dv, v1;            // value, derivative with respect to x, value under the substituted environment
  Expr D, S, M;                 // results of the visitors (null = unchanged)
  int shape;                    // identity for structural equality
  size_t hash; int bp1, bp2;
  Opaque() : RTBase(1000), shape(0), hash(0), bp1(0), bp2(0) {}
  bool compare(const Expr& rhs) const override {
    auto o = dynamic_cast<const Opaque*>(rhs.get());
    return o && o->shape == shape;
  }
};

// environment of the free variables x, y, z
struct Env { double v0[3], d[3], v1[3]; };
static Env env;
inline int vidx(const VarRT& v) { return v._name == "x" ? 0 : v._name == "y" ? 1 : 2; }
inline Expr var(int i) { return Expr(*VarRT::create(i == 0 ? "x" : i == 1 ? "y" : "z")); }
inline void any_env() {
  for (int i = 0; i < 3; ++i) { env.v0[i] = vc_real("var"); env.v1[i] = env.v0[i]; env.d[i] = i == 0; }
}
template<class Op> const UnaryOp<Expr, Op>& asU(const RTBase* p) { return static_cast<const UnaryOp<Expr, Op>&>(*p); }
template<class Op> const BinaryOp<Expr, Op, Expr>& asB(const RTBase* p) { return static_cast<const BinaryOp<Expr, Op, Expr>&>(*p); }
template<class N> constexpr int IDX() { return detail::Type_index<N>::value; }
inline bool isconst(const Expr& f) { return f->_type_idx == 0; }
inline double cval(const Expr& f) { return static_cast<const ConstantRT<double>*>(f.get())->get(); }

// Spec-side shape accessors; the numeric meaning of node kinds follows from their declared operator, not from /repo's
// functions.  Array access, equality and arbsign are free constructors (uninterpreted, so equal arguments
// give equal values and nothing else does), a value with units is the product of both, an uncertainty of zero is none.
double ev(const Expr& f, int w);
inline bool zero(const Expr& f) { return isconst(f) && cval(f) == 0; }
inline double ev(const Expr& f, int w) {
  const RTBase* p = f.get();
  switch (p->_type_idx) {
  case 0: return static_cast<const ConstantRT<double>*>(p)->get();
  case 1: { int i = vidx(*static_cast<const VarRT*>(p)); return w ? env.v1[i] : env.v0[i]; }
  case 2: return std::sin(ev(asU<detail::Sine>(p)._arg, w));
  case 3: return std::cos(ev(asU<detail::Cosine>(p)._arg, w));
  case 4: return std::log(ev(asU<detail::Log>(p)._arg, w));
  case 5: return std::exp(ev(asU<detail::Exp>(p)._arg, w));
  case 6: { double a = ev(asU<detail::Absolute>(p)._arg, w); return a < 0 ? -a : a; }
  case 7: return vc_uf("arbsign", ev(asU<detail::Arbsign>(p)._arg, w));
  case 17: return -ev(asU<detail::Negate>(p)._arg, w);
  case 8: { auto& o = asB<detail::Add>(p); return ev(o._l, w) + ev(o._r, w); }
  case 9: { auto& o = asB<detail::Subtract>(p); return ev(o._l, w) - ev(o._r, w); }
  // an exact zero factor annihilates, whatever the other factor is (the library's simplify has the same rule)
  case 10: { auto& o = asB<detail::Multiply>(p); return zero(o._l) || zero(o._r) ? 0 : ev(o._l, w) * ev(o._r, w); }
  case 11: { auto& o = asB<detail::Divide>(p); return zero(o._l) ? 0 : ev(o._l, w) / ev(o._r, w); }
  case 12: { auto& o = asB<detail::Power>(p); return std::pow(ev(o._l, w), ev(o._r, w)); }
  case 13: { auto& o = asB<detail::Equality>(p); return vc_uf2("equality", ev(o._l, w), ev(o._r, w)); }
  case 14: { auto& o = asB<detail::ArrayAccess>(p); return vc_uf2("access", ev(o._l, w), ev(o._r, w)); }
  case 18: { auto& o = asB<detail::Units>(p); return ev(o._l, w) * ev(o._r, w); }
  case 19: { auto& o = asB<detail::Uncertainty>(p); return ev(o._l, w) + ev(o._r, w) * vc_uf("uncertainty", ev(o._r, w)); }
  case 16: { double h = 0; int k = 0; for (auto& q : static_cast<const DictRT&>(*p)) h += vc_uf2("dict", static_cast<const VarRT&>(*q.first)._name[0], ev(q.second, w)); return h; }
  case 1000: { auto o = static_cast<const Opaque*>(p); return w ? o->v1 : o->v0; }
  }
  vc_assert(false, "rt.spec.unexpected_node");
  return 0;
}
// the mathematical derivative with respect to x
inline double der(const Expr& f) {
  const RTBase* p = f.get();
  switch (p->_type_idx) {
  case 0: return 0;
  case 1: return env.d[vidx(*static_cast<const VarRT*>(p))];
  case 2: { auto& a = asU<detail::Sine>(p)._arg; return std::cos(ev(a, 0)) * der(a); }
  case 3: { auto& a = asU<detail::Cosine>(p)._arg; return -std::sin(ev(a, 0)) * der(a); }
  case 4: { auto& a = asU<detail::Log>(p)._arg; return der(a) / ev(a, 0); }
  case 5: { auto& a = asU<detail::Exp>(p)._arg; return std::exp(ev(a, 0)) * der(a); }
  case 6: { auto& a = asU<detail::Absolute>(p)._arg; return ev(a, 0) < 0 ? -der(a) : der(a); }
  case 17: return -der(asU<detail::Negate>(p)._arg);
  case 8: { auto& o = asB<detail::Add>(p); return der(o._l) + der(o._r); }
  case 9: { auto& o = asB<detail::Subtract>(p); return der(o._l) - der(o._r); }
  case 10: { auto& o = asB<detail::Multiply>(p); return der(o._l) * ev(o._r, 0) + ev(o._l, 0) * der(o._r); }
  case 11: { auto& o = asB<detail::Divide>(p); double r = ev(o._r, 0); return (der(o._l) * r - ev(o._l, 0) * der(o._r)) / (r * r); }
  case 12: {
    auto& o = asB<detail::Power>(p);
    double l = ev(o._l, 0), r = ev(o._r, 0), dl = der(o._l);
    double a = r * dl * std::pow(l, r - 1);
    if (isconst(o._r)) return a;
    return a + der(o._r) * std::log(l) * std::pow(l, r);
  }
  case 1000: return static_cast<const Opaque*>(p)->dv;
  }
  vc_assert(false, "rt.spec.unexpected_derivative");
  return 0;
}

// ---- installing the visitor contracts
template<class T, class M> void* fnaddr(M m) { void* a[2]; std::memcpy(a, &m, sizeof(void*)); (void)sizeof(T); return a[0]; }
template<class R> void* visit_addr() { R (RTBase::*m)(detail::VisitorInterface<R>&) const = &RTBase::visit<R>; void* a; std::memcpy(&a, &m, sizeof a); return a; }

static const RTBase* settled[16]; static int nsettled;    // SimplifyRT returns null for these (already simplified)
inline Expr settle(const Expr& e) { if (vc_symbolic()) settled[nsettled++] = e.get(); return e; }
inline Expr visit_expr(const RTBase* self, detail::VisitorInterface<Expr>& c) {
  if (self->_type_idx == 1000) {
    auto o = static_cast<const Opaque*>(self);
    if (dynamic_cast<detail::DerivativeRT*>(&c)) return o->D;
    if (dynamic_cast<detail::SubstituteRT*>(&c) || dynamic_cast<detail::SubstituteDictRT*>(&c)) return o->S;
    if (dynamic_cast<detail::SimplifyRT*>(&c)) return o->M;
    if (auto fs = dynamic_cast<detail::FastSubRT*>(&c)) { fs->_intermediate = o->v1; return Expr(); }
    vc_assert(false, "rt.visit.opaque_node_inspected");
  }
  if (nsettled && dynamic_cast<detail::SimplifyRT*>(&c)) for (int i = 0; i < nsettled; ++i) if (settled[i] == self) return Expr();
  vc_call_real(visit_addr<Expr>());
  return self->visit(c);
}
inline void rt_install() { if (vc_symbolic()) vc_contract(visit_addr<Expr>(), (void*)(Expr (*)(const RTBase*, detail::VisitorInterface<Expr>&))&visit_expr); }

// ---- arbitrary expressions
static bool random_only_x;
inline Expr random_expr(int depth) {                  // native replay only
  int k = depth > 2 ? vc_native_random(0, 3) : vc_native_random(0, 13);
  auto R = [&] { return random_expr(depth + 1); };
  switch (k) {
  case 0: return Expr(double(vc_native_random(-3, 4)));
  case 1: return Expr(vc_native_random(-30, 30) / 8.0);
  case 2: return var(0);
  case 3: return var(random_only_x ? 0 : 1);
  case 4: return Expr(sin(R()));
  case 5: return Expr(cos(R()));
  case 6: return Expr(exp(R()));
  case 7: return Expr(-R());
  case 8: return Expr(R() + R());
  case 9: return Expr(R() - R());
  case 10: return Expr(R() * R());
  case 11: return Expr(R() / R());
  case 12: return Expr(pow(R(), Expr(double(vc_native_random(0, 3)))));
  default: return Expr(abs(R()));
  }
}
inline bool usable(double v) { return vc_symbolic() || (std::isfinite(v) && (v < 0 ? -v : v) < 1e6); }
// equality of the values of two trees (spec side first); natively only where the specification is defined and well scaled
inline void same_value(double spec, const Expr& r, int w, const char* label) {
  if (spec != spec || !usable(spec) || (!vc_symbolic() && !usable(ev(r, w)))) return;
  vc_assert_eq(ev(r, w), spec, label);
}
inline std::shared_ptr<Opaque> fresh(const char* n) { auto o = std::make_shared<Opaque>(); o->v0 = o->v1 = vc_real(n); o->dv = 0; return o; }

// ---- element-wise meaning of expressions that contain arrays: number of elements (-1: scalar) and value of element i
inline int dim(const Expr& f) {
  const RTBase* p = f.get();
  auto two = [](const Expr& l, const Expr& r) { int a = dim(l), b = dim(r); return a < 0 ? b : b < 0 || a == b ? a : -2; };
  switch (p->_type_idx) {
  case 15: return static_cast<const ArrayRT&>(*p).size();
  case 2: return dim(asU<detail::Sine>(p)._arg); case 3: return dim(asU<detail::Cosine>(p)._arg); case 4: return dim(asU<detail::Log>(p)._arg);
  case 5: return dim(asU<detail::Exp>(p)._arg); case 6: return dim(asU<detail::Absolute>(p)._arg); case 7: return dim(asU<detail::Arbsign>(p)._arg);
  case 17: return dim(asU<detail::Negate>(p)._arg);
#define VC_B(K, O) case K: { auto& o = asB<detail::O>(p); return two(o._l, o._r); }
  VC_B(8, Add) VC_B(9, Subtract) VC_B(10, Multiply) VC_B(11, Divide) VC_B(12, Power) VC_B(13, Equality) VC_B(14, ArrayAccess) VC_B(18, Units) VC_B(19, Uncertainty)
#undef VC_B
  }
  return -1;
}
inline Expr element(const Expr& f, int i) {       // spec-side: the i-th element as a tree
  const RTBase* p = f.get();
  if (dim(f) < 0) return f;
#define VC_U(K, O) case K: return Expr(UnaryOp<Expr, detail::O>::create(element(asU<detail::O>(p)._arg, i)));
#define VC_B(K, O) case K: { auto& o = asB<detail::O>(p); return Expr(BinaryOp<Expr, detail::O, Expr>::create(element(o._l, i), element(o._r, i))); }
  switch (p->_type_idx) {
  case 15: return static_cast<const ArrayRT&>(*p)[i];
  VC_U(2, Sine) VC_U(3, Cosine) VC_U(4, Log) VC_U(5, Exp) VC_U(6, Absolute) VC_U(7, Arbsign) VC_U(17, Negate)
  VC_B(8, Add) VC_B(9, Subtract) VC_B(10, Multiply) VC_B(11, Divide) VC_B(12, Power) VC_B(13, Equality) VC_B(14, ArrayAccess) VC_B(18, Units) VC_B(19, Uncertainty)
  }
#undef VC_U
#undef VC_B
  return f;
}
inline void same_denotation(const Expr& f, const Expr& r, const char* label) {
  int n = dim(f);
  vc_assert(dim(r) == n || isconst(r), label);        // 0*[a,b] -> 0 and [a,b]^0 -> 1: a number stands for the array of that number
  if (n == -1) same_value(ev(f, 0), r, 0, label);
  for (int i = 0; i < n; ++i) same_value(ev(element(f, i), 0), element(r, i), 0, label);
}
