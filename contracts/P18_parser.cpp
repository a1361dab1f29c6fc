// Parsing: every activation of parseExpression decides each following token as the operator table demands (induction over
// the token stream: nested activations are replaced by their contract), every prefix form reads exactly its own operands,
// and bounded end-to-end comparison with an independent operator-precedence parser.
// vc-units: step_top step_eq step_add step_sub step_mul step_div step_pow step_unc step_neg step_pos step_fun step_paren step_list step_index step_units step_dict
// vc-units: pair_eq pair_add pair_sub pair_mul pair_div pair_pow pair_index pair_units pair_unc
// vc-units: bytes_a bytes_7 bytes_space bytes_plus bytes_minus bytes_open bytes_list bytes_dict bytes_c2 bytes_other
// vc-opts pair_.*|prefixed.*|numbers|bytes.*|spaces|entry|lists|all_bytes.*: bound=texts_of_the_stated_shape
// vc-opts bytes.*|pair_.*|prefixed.*|all_bytes.*: time=600
#include "parse.hpp"

// ---- independent reference: an operator-precedence (stack) parser for the grammar
struct Ref {
  const std::string& s; size_t i; bool bad;
  Ref(const std::string& t) : s(t), i(0), bad(false) {}
  static bool digit(char c) { return c >= '0' && c <= '9'; }
  static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
  char at(size_t k) const { return k < s.size() ? s[k] : 0; }
  void blank() { while (i < s.size() && s[i] == ' ') ++i; }
  bool eat(const char* t) {                                  // punctuation
    blank();
    size_t n = 0; while (t[n]) { if (i + n >= s.size() || s[i + n] != t[n]) return false; ++n; }
    if (!n) return false;
    i += n; return true;
  }
  bool end() { blank(); return i == s.size(); }
  struct Entry { int what; const Op* op; const char* fn; };      // 0 binary, 1 sign -, 2 sign +, 3 function
  static bool taken(const Entry& p, const Op& q) { return p.what == 0 ? taken_by_right(*p.op, q) : p.what == 3 ? false : q.prec > PREFIX; }
  void reduce(Entry* st, int& n, std::string* v, int& m) {
    Entry e = st[--n];
    if (e.what == 0) { --m; v[m - 1] = pair_text(v[m - 1], *e.op, v[m]); }
    else if (e.what == 1) v[m - 1] = v[m - 1] == "2" ? "~2" : v[m - 1] == "~2" ? "2" : v[m - 1] == "#" ? "#" : "-(" + v[m - 1] + ")";
    else if (e.what == 3) v[m - 1] = std::string(e.fn) + "(" + v[m - 1] + ")";
  }
  std::string number() {
    size_t b = i;
    while (digit(at(i))) ++i;
    if (at(i) == '.') { ++i; while (digit(at(i))) ++i; }
    if (at(i) == 'e' || at(i) == 'E') {
      size_t k = i + 1;
      if (at(k) == '+' || at(k) == '-') ++k;
      if (!digit(at(k))) { bad = true; return "#"; }
      while (digit(at(k))) ++k;
      i = k;
      return "#";
    }
    size_t e = s[i - 1] == '.' ? i - 1 : i;
    while (b + 1 < e && s[b] == '0') ++b;
    return e == b + 1 && s[b] == '2' ? "2" : "#";
  }
  std::string expr() {
    Entry st[12]; int n = 0; std::string v[12]; int m = 0;
    while (!bad) {
      blank();
      char c = at(i);
      if (c == '-' || c == '+') { ++i; st[n++] = Entry{c == '-' ? 1 : 2, nullptr, nullptr}; continue; }
      if (digit(c)) v[m++] = number();
      else if (alpha(c)) {
        std::string w; while (alpha(at(i))) w += s[i++];
        const char* fn = w == "sin" ? "sin" : w == "cos" ? "cos" : w == "exp" ? "exp" : w == "ln" ? "ln" : nullptr;
        if (fn) { st[n++] = Entry{3, nullptr, fn}; continue; }
        v[m++] = w;
      }
      else if (eat("(")) { v[m++] = expr(); if (!eat(")")) bad = true; }
      else if (eat("[")) {
        std::string l = "[";
        if (!eat("]")) for (;;) { l += expr() + ","; if (bad || eat("]")) break; if (!eat(",")) { bad = true; break; } }
        v[m++] = l + "]";
      }
      else if (eat("{")) {
        std::string l = "{";
        if (!eat("}")) for (;;) {
          std::string k = expr(); if (bad) break;
          for (char d : k) if (!alpha(d)) bad = true;
          if (!eat(":")) bad = true;
          if (bad) break;
          l += k + (":" + expr()) + ","; if (bad || eat("}")) break; if (!eat(",")) { bad = true; break; }
        }
        v[m++] = l + "}";
      }
      else { bad = true; break; }
      bool more = false;
      while (!bad && !more) {                              // after an operand
        const Op* q = nullptr;
        for (const Op& o : OPS) if (eat(o.text)) { q = &o; break; }
        if (!q) break;
        while (n && !taken(st[n - 1], *q)) reduce(st, n, v, m);
        if (!q->close[0]) { st[n++] = Entry{0, q, nullptr}; more = true; break; }
        std::string r = expr(); if (!bad && !eat(q->close)) bad = true;
        v[m - 1] = pair_text(v[m - 1], *q, r);
      }
      if (!more) break;
    }
    if (bad) return "";
    while (n) reduce(st, n, v, m);
    return v[0];
  }
};
static void agrees(const std::string& text, const char* label) {
  Ref ref(text);
  std::string want = ref.expr(), have;
  bool ok = !ref.bad && ref.end(), accepted = false;
  try { Tk t(text); Expr e = t.parseExpression(); if (t.empty()) { accepted = true; have = show(e); } } catch (stator::Exception&) {}
  vc_assert(accepted == ok, label);
  if (ok) vc_assert(have == want, label);
}

// ---- the contract of a nested activation: it reads one operand (here a single token standing for the maximal expression
// of that context; what follows it cannot belong to it).  The activation under study runs the real body.
static int depth, study; static std::string got, follow; static bool returned;
static void* addr() { Expr (Tk::*m)(int) = &Tk::parseExpression; return fnaddr<Tk>(m); }
static Expr nested(Tk* t, int m) {
  if (depth > study) { std::string n = t->next(); t->consume(); return Expr(*VarRT::create(n)); }
  int mine = depth++;
  vc_call_real(addr());
  Expr e = t->parseExpression(m);
  if (mine == study) { returned = true; got = show(e); follow = t->next(); }
  return e;
}
static bool run(const std::string& text, int which) {      // false: rejected before the activation under study returned
  depth = 0; study = which; returned = false;
  vc_contract(addr(), (void*)&nested);
  try { Tk t(text); t.parseExpression(); } catch (stator::Exception&) {}
  vc_uncontract(addr());
  return returned;
}
static std::string operand(const Op& o, const char* x) { return std::string(o.text) + x + o.close; }
struct Ctx { const char* text; const Op* op; bool sign, all; const char* tail; };
// one step of the activation opened by the context: after an operand a, or after a p b, the token q is taken or left
static void step(const Ctx& c, int which, const char* label) {
  int p = vc_choose("p", -1, NOPS - 1), q = vc_choose("q", 0, NOPS + 6 + 4 - 1);
  auto takes = [&](const Op& o) { return c.all || (c.op ? taken_by_right(*c.op, o) : c.sign && o.prec > PREFIX); };
  if (p >= 0 && !takes(OPS[p])) return;
  if (p >= 0 && q < NOPS && !OPS[p].close[0] && taken_by_right(OPS[p], OPS[q])) return;      // q belongs to the operand b (its contract)
  std::string text = std::string(c.text) + "a", want = "a";
  if (p >= 0) { text += operand(OPS[p], "b"); want = pair_text("a", OPS[p], "b"); }
  if (q < NOPS) text += operand(OPS[q], "c");
  else if (q < NOPS + 6) text += HALT[q - NOPS];
  else text += std::string(" ") + BAD[q - NOPS - 6];
  if (!vc_symbolic()) { agrees(text, label); return; }
  bool ret = run(text, which);
  if (q >= NOPS + 6) { vc_assert(!ret, label); return; }                                     // not an operator: rejected
  vc_assert(ret, label);
  if (q < NOPS && takes(OPS[q])) vc_assert(got == pair_text(want, OPS[q], "c") && follow == "", label);
  else vc_assert(got == want && follow == (q < NOPS ? OPS[q].text : HALT[q - NOPS]), label);
}
VC_UNIT(P18, step_top) { step(Ctx{"", nullptr, false, true, ""}, 0, "P18.binding_top"); }
#define STEP(name, i, txt) extern "C" void vcu_P18__step_##name() { step(Ctx{txt, &OPS[i], false, false, ""}, 1, "P18.binding_after_" #name); }
STEP(eq, 0, "x=") STEP(add, 1, "x+") STEP(sub, 2, "x-") STEP(mul, 3, "x*") STEP(div, 4, "x/") STEP(pow, 5, "x^") STEP(unc, 8, "x±")
VC_UNIT(P18, step_neg) { step(Ctx{"-", nullptr, true, false, ""}, 1, "P18.binding_after_sign"); }
VC_UNIT(P18, step_pos) { step(Ctx{"+", nullptr, true, false, ""}, 1, "P18.binding_after_sign"); }
VC_UNIT(P18, step_fun) { static const char* const F[] = {"sin ", "cos ", "exp ", "ln "}; step(Ctx{F[vc_choose("f", 0, 3)], nullptr, false, false, ""}, 1, "P18.binding_after_function"); }
VC_UNIT(P18, step_paren) { step(Ctx{"(", nullptr, false, true, ")"}, 1, "P18.binding_in_parentheses"); }
VC_UNIT(P18, step_list) { step(Ctx{"[", nullptr, false, true, "]"}, 1, "P18.binding_in_list"); }
VC_UNIT(P18, step_index) { step(Ctx{"x[", nullptr, false, true, "]"}, 1, "P18.binding_in_index"); }
VC_UNIT(P18, step_units) { step(Ctx{"x{", nullptr, false, true, "}"}, 1, "P18.binding_in_units"); }
VC_UNIT(P18, step_dict) { step(Ctx{"{x:", nullptr, false, true, "}"}, 2, "P18.binding_in_dictionary"); }

// ---- prefix forms over arbitrary contents: what they build, where they stop, which closers they demand
VC_UNIT(P18, forms) {
  static const char* const F[] = {"-a", "+a", "sin a", "cos a", "exp a", "ln a", "(a", "[a", "[a,b", "{x:a", "{x:a,y:b", "y[a", "y{a"};
  static const char* const W[] = {"-(a)", "a", "sin(a)", "cos(a)", "exp(a)", "ln(a)", "a", "[a,]", "[a,b,]", "{x:a,}", "{x:a,y:b,}", "(y[a)", "(y{a)"};
  static const char* const C[] = {"", "", "", "", "", "", ")", "]", "]", "}", "}", "]", "}"};
  int k = vc_choose("form", 0, 12), h = vc_choose("next", 0, 5);
  std::string text = F[k];
  text += HALT[h];
  if (!vc_symbolic()) { agrees(text, "P18.forms"); return; }
  bool ret = run(text, 0);
  bool closes = C[k][0] ? std::string(C[k]) == HALT[h] : true;
  vc_assert(ret == closes, "P18.closing_bracket");
  if (closes) vc_assert(got == W[k] && follow == (C[k][0] ? "" : HALT[h]), "P18.form_built");
}

// ---- bounded end-to-end checks against the reference
static void pairs(int p) {
  int q = vc_choose("q", 0, NOPS - 1), r = vc_choose("r", 0, NOPS - 1);
  agrees("a" + operand(OPS[p], "b") + operand(OPS[q], "2") + operand(OPS[r], "d"), "P18.three_operators");
}
#define PAIR(name, i) extern "C" void vcu_P18__pair_##name() { pairs(i); }
PAIR(eq, 0) PAIR(add, 1) PAIR(sub, 2) PAIR(mul, 3) PAIR(div, 4) PAIR(pow, 5) PAIR(index, 6) PAIR(units, 7) PAIR(unc, 8)
static void prefixed(int at) {
  static const char* const P[] = {"-", "+", "sin ", "-ln ", "exp -", "--"};
  int p = vc_choose("p", 0, NOPS - 1), q = vc_choose("q", 0, NOPS - 1), k = vc_choose("prefix", 0, 5);
  std::string o[3] = {"a", "b", "2"};
  o[at] = P[k] + o[at];
  agrees(o[0] + operand(OPS[p], o[1].c_str()) + operand(OPS[q], o[2].c_str()), "P18.prefixed_operands");
}
VC_UNIT(P18, prefixed_1) { prefixed(0); }
VC_UNIT(P18, prefixed_2) { prefixed(1); }
VC_UNIT(P18, prefixed_3) { prefixed(2); }
VC_UNIT(P18, lists) {
  static const char* const T[] = {"[]", "[x]", "[x,y,x+2]", "[[x],[]]", "[x,]", "[,x]", "[x", "[x,y", "{}", "{x:y}", "{x:y,y:2}", "{2:y}", "{x+y:2}", "{x:}", "{x}", "{x:y,}", "{x:y",
    "[x,y][2]", "[x][2][y]", "()", "((x))", "(x", "x)", "x]", "x}", "x[y", "x{y", "x{}", "x[]", "[{x:[y]}]{y}", "x{y+2*x}", "(x)(y)", "x(y)", "[x:y]", "{x,y}", "(x,y)", "x[y)", "x{y]", "{(x):2}", "-[x,y]", "sin[x]", "-{x:y}", "x,y", "x:y", "sin", "-", "x+", "sin+x", "sinx", "sin x y", "expx", "lnx", "Sin x", ""};
  agrees(T[vc_choose("text", 0, sizeof T / sizeof *T - 1)], "P18.brackets");
}
VC_UNIT(P18, spaces) {
  static const char* const T[] = {"x", "+", "y", "^", "2", ")"};
  int k = vc_choose("form", 0, 3), g = vc_choose("gap", 0, 6), n = vc_choose("n", 1, 3);
  static const char* const F[][6] = {{"x", "+", "y", "^", "2", ""}, {"(", "x", ")", "*", "2", ""}, {"[", "x", ",", "y", "]", ""}, {"x", "{", "y", "}", "±", "z"}};
  std::string plain, spaced;
  for (int i = 0; i < 6; ++i) { if (i == g) spaced.append(n, ' '); plain += F[k][i]; spaced += F[k][i]; }
  if (g == 6) spaced.append(n, ' ');
  std::string a, b;
  { Tk t(plain); a = show(t.parseExpression()); }
  { Tk t(spaced); b = show(t.parseExpression()); vc_assert(t.empty(), "P18.spaces"); }
  vc_assert(a == b, "P18.spaces");
  agrees(spaced, "P18.spaces");
}
VC_UNIT(P18, numbers) {
  static const struct { const char* text; double v; } N[] = {{"7", 7}, {"42", 42}, {"0", 0}, {"007", 7}, {"1.", 1}, {"1.5", 1.5}, {"0.25", 0.25}, {"12.75", 12.75}, {"1e3", 1000}, {"2E2", 200}, {"1.25e2", 125},
    {"5e-1", 0.5}, {"1e+2", 100}, {"1.e1", 10}, {"625e-4", 0.0625}, {"123456789012", 123456789012.0}, {"0.1", 0.1}, {"3.14159265358979", 3.14159265358979}, {"1e22", 1e22}, {"1e-7", 1e-7}, {"1e308", 1e308}};
  auto& n = N[vc_choose("n", 0, sizeof N / sizeof *N - 1)];
  Tk t(n.text); Expr e = t.parseExpression();
  vc_assert(t.empty() && isconst(e) && cval(e) == n.v, "P18.number_value");
  bool thrown = false;
  static const char* const B[] = {"1e999", "1e", "1e+", "1ea", "1e5.5", "1.2.3", "1..", "1e1e1", ".5", "1x", "2 3"};
  for (const char* b : B) { thrown = false; try { Tk u(b); u.parseExpression(); } catch (stator::Exception&) { thrown = true; } vc_assert(thrown, "P18.number_rejected"); }
}
VC_UNIT(P18, names) {
  static const char* const N[] = {"x", "xy", "X", "abc", "sinx", "si", "E", "e", "pow", "lnn", "z"};
  const char* n = N[vc_choose("n", 0, 10)];
  Tk t(n); Expr e = t.parseExpression();
  vc_assert(t.empty() && e->_type_idx == 1 && static_cast<const VarRT*>(e.get())->_name == n, "P18.name_kept");
}
// Expr(text): the simplified tree of the whole text
VC_UNIT(P18, entry) {
  static const char* const T[] = {"x+y", "2*3+4", "x", "2^3^2", "-x*y", "sin(x)+0", "[x,1+1]", "x)", "x]", "x,y", "x y", "", "   ", "x+", "(x", "x:y", "2 3", "?", "x}"};
  static const bool OK[] = {true, true, true, true, true, true, true, false, false, false, false, false, false, false, false, false, false, false, false};
  int k = vc_choose("text", 0, 18);
  bool ok = false, eq = false;
  try { Expr e = Expr(std::string(T[k])); ok = true; Tk t(T[k]); Expr f = simplify(t.parseExpression()); eq = show(e) == show(f); Expr g(T[k]); eq = eq && show(g) == show(f); } catch (stator::Exception&) {}
  vc_assert(ok == OK[k], "P18.whole_text");
  if (ok) vc_assert(eq, "P18.whole_text");
}
// every short byte string is accepted or rejected as the grammar says, without leaving the string
static void bytes(const char* first) {
  static const char A[] = {'a', '7', '.', 'e', ' ', '+', '-', '*', '(', ')', '[', ']', '{', '}', ',', ':', '\xc2', '\xb1', '?', '\0', '\xff', '\t'};
  int n = vc_choose("len", 0, 2);
  std::string s = first;
  for (int i = 0; i < n; ++i) s += A[vc_choose("char", 0, 21)];
  agrees(s, "P18.any_bytes");
}
#define BYTES(name, c) extern "C" void vcu_P18__bytes_##name() { bytes(c); }
BYTES(a, "a") BYTES(7, "7") BYTES(space, " ") BYTES(plus, "+") BYTES(minus, "-") BYTES(open, "(") BYTES(list, "[") BYTES(dict, "{") BYTES(c2, "\xc2")
VC_UNIT(P18, bytes_other) {
  static const char* const F[] = {")", "]", "}", ",", ":", "*", ".", "?", "\xb1", "\xff", "\t", "", "\xc3", "=", "^", "/"};
  static const char A[] = {'a', '7', '+', '(', '\xc2', '?', ' ', '\0'};
  std::string s = F[vc_choose("first", 0, 15)];
  if (s.empty()) s += '\0';
  int n = vc_choose("len", 0, 1);
  for (int i = 0; i < n; ++i) s += A[vc_choose("char", 0, 7)];
  agrees(s, "P18.any_bytes");
}
// every byte value, not only one per class
static void all_bytes(int n) {
  std::string s(n, ' ');
  for (int i = 0; i < n; ++i) s[i] = char(vc_int("byte", 0, 255));
  agrees(s, "P18.all_byte_values");
}
VC_UNIT(P18, all_bytes_1) { all_bytes(1); }
VC_UNIT(P18, all_bytes_2) { all_bytes(2); }
