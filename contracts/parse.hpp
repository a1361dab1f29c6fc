// Contracts of the expression parser: token streams are real text read by the real tokenizer.
#pragma once
#include "rt.hpp"
#ifdef VC_SYMBOLIC
#include <map>
// std::map's node linking lives in libstdc++.so: an unbalanced search tree has the same observable behaviour
namespace std {
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) {
      p->_M_left = x;
      if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
    } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    if (h._M_parent) h._M_parent->_M_color = _S_black;
  }
  static _Rb_tree_node_base* vc_next(_Rb_tree_node_base* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
  }
  static _Rb_tree_node_base* vc_prev(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
  }
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return vc_next(x); }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return vc_next(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return vc_prev(x); }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return vc_prev(const_cast<_Rb_tree_node_base*>(x)); }
}
#endif
#include <stator/symbolic/parser.hpp>
#include <stator/symbolic/units.hpp>
#include <stator/symbolic/uncertainty.hpp>
typedef detail::ExprTokenizer Tk;

// ---- the operator table (specification): relative precedence, associativity, closing bracket
struct Op { const char* text; int kind, prec; bool right; const char* close; };
static const Op OPS[] = {{"=", 13, 1, true, ""}, {"+", 8, 2, false, ""}, {"-", 9, 2, false, ""}, {"*", 10, 3, false, ""}, {"/", 11, 3, false, ""},
                         {"^", 12, 4, true, ""}, {"[", 14, 5, false, "]"}, {"{", 18, 6, false, "}"}, {"±", 19, 7, false, ""}};
static const int NOPS = 9, PREFIX = 2;             // a sign reaches over everything stronger than addition
static const char* const HALT[] = {")", "]", "}", ",", ":", ""};
static const char* const BAD[] = {"x", "2", "sin", "("};
// does the operand between operators p (left) and q (right) belong to q?
static bool taken_by_right(const Op& p, const Op& q) { return q.prec > p.prec || (q.prec == p.prec && q.right); }

// ---- the tree as text
static std::string show(const Expr& e) {
  const RTBase* p = e.get();
  switch (p->_type_idx) {
  case 0: return cval(e) == 2 ? "2" : cval(e) == -2 ? "~2" : "#";
  case 1: return static_cast<const VarRT*>(p)->_name;
#define VC_U(K, O, S) case K: return S + show(asU<detail::O>(p)._arg) + ")";
#define VC_B(K, O, S) case K: { auto& o = asB<detail::O>(p); return std::string("(") + show(o._l) + S + show(o._r) + ")"; }
  VC_U(2, Sine, "sin(") VC_U(3, Cosine, "cos(") VC_U(4, Log, "ln(") VC_U(5, Exp, "exp(")
  VC_B(8, Add, "+") VC_B(9, Subtract, "-") VC_B(10, Multiply, "*") VC_B(11, Divide, "/") VC_B(12, Power, "^") VC_B(13, Equality, "=") VC_B(14, ArrayAccess, "[") VC_B(18, Units, "{") VC_B(19, Uncertainty, "±")
  case 17: { std::string a = show(asU<detail::Negate>(p)._arg); return a == "2" ? "~2" : a == "~2" ? "2" : a == "#" ? a : "-(" + a + ")"; }   // the negative number is the same value
#undef VC_U
#undef VC_B
  case 15: { std::string s = "["; auto& A = static_cast<const ArrayRT&>(*p); for (size_t i = 0; i < A.size(); ++i) s += show(A[i]) + ","; return s + "]"; }
  case 16: { auto& D = static_cast<const DictRT&>(*p); std::string s = "{"; for (const char* n : {"x", "y", "a"}) for (auto& q : D) if (static_cast<const VarRT&>(*q.first)._name == n) s += n + (":" + show(q.second)) + ","; return s + "}"; }
  }
  return "?";
}
static std::string pair_text(const std::string& l, const Op& o, const std::string& r) { return "(" + l + o.text + r + ")"; }


