// Values with units and uncertainties over ARBITRARY value and unit expressions (opaque nodes).
#include "rt.hpp"
#include <stator/symbolic/units.hpp>
#include <stator/symbolic/uncertainty.hpp>
typedef UnitsOp<Expr, Expr> U;
static Expr any(const char* n) { if (vc_symbolic()) return Expr(fresh(n)); return var(vc_native_random(0, 2)); }
// an already simplified expression of any shape the simplifier may look at
static Expr simple(const char* n) {
  if (!vc_symbolic()) return vc_choose("kind", 0, 2) ? Expr(sin(any(n))) : Expr(vc_real(n));
  switch (vc_choose("kind", 0, 2)) {
  case 0: { double c = vc_real(n); vc_assume(c != 0 && c != 1); return Expr(c); }
  case 1: return var(1);
  }
  return settle(Expr(UnaryOp<Expr, detail::Sine>::create(any(n))));
}
struct Parts { Expr a, b, u, v; };
static Parts parts() {
  if (vc_symbolic()) rt_install(); 
  any_env();
  for (int i = 0; i < 3; ++i) vc_assume(env.v0[i] != 0);
  return Parts{any("a"), any("b"), any("u"), any("v")};
}
static bool ok(const Parts& p) { return vc_symbolic() || true; }
template<class T> Expr E(const T& t) { return Expr(t); }
// the value and the unit carried by a result
static void carries(const Expr& r, double value, double unit, const char* label) {
  vc_assert(r->_type_idx == 18, label);
  if (r->_type_idx != 18) return;
  auto& o = asB<detail::Units>(r.get());
  if (vc_symbolic() || (usable(value) && usable(unit))) {
    vc_assert_eq(ev(o._l, 0), value, label);
    vc_assert_eq(ev(o._r, 0), unit, label);
  }
}
#define VALUES double a = ev(p.a, 0), b = ev(p.b, 0), u = ev(p.u, 0), v = ev(p.v, 0)
VC_UNIT(P20, direct) {
  Parts p = parts(); VALUES;
  auto l = U::create(p.a, p.u), r = U::create(p.b, p.v);
  const U &L = *l, &R = *r;
  double k = vc_real("k");
  switch (vc_choose("case", 0, 9)) {
  case 0: carries(E(L * R), a * b, u * v, "P20.multiply"); break;
  case 1: vc_assume(b != 0 && v != 0); carries(E(L / R), a / b, u / v, "P20.divide"); break;
  case 2: carries(E(L * p.b), a * b, u, "P20.scale_right"); break;
  case 3: carries(E(p.b * L), b * a, u, "P20.scale_left"); break;
  case 4: carries(E(L * k), a * k, u, "P20.scale_right"); break;
  case 5: carries(E(k * L), k * a, u, "P20.scale_left"); break;
  case 6: carries(E(L * 3), a * 3, u, "P20.scale_right"); break;
  case 7: carries(E(3 * L), 3 * a, u, "P20.scale_left"); break;
  case 8: carries(E(L * C<1, 2>()), a / 2, u, "P20.scale_right"); break;
  case 9: carries(E(C<1, 2>() * L), a / 2, u, "P20.scale_left"); break;
  }
}
// whatever the static types, the product of value and unit is the product of all values and units
VC_UNIT(P20, denotation) {
  Parts p = parts(); VALUES;
  auto l = U::create(p.a, p.u), r = U::create(p.b, p.v);
  const U &L = *l, &R = *r;
  vc_assume(b != 0 && v != 0 && a != 0 && u != 0);
  switch (vc_choose("case", 0, 5)) {
  case 0: same_value(a * u, E((L * R) / R), 0, "P20.multiply_then_divide"); break;
  case 1: same_value(a * u, E((L / R) * R), 0, "P20.divide_then_multiply"); break;
  case 2: same_value(a * u * b * v * a * u, E(L * R * L), 0, "P20.triple"); break;
  case 3: same_value(a * u / (b * v) / 2, E((2.0 * L) / (R * 4.0)), 0, "P20.scaled_ratio"); break;
  case 4: same_value(a * u / b, E(L / p.b), 0, "P20.divided_by_plain"); break;
  case 5: same_value(b / (a * u), E(p.b / L), 0, "P20.plain_divided"); break;
  }
}
// runtime expressions: the same after simplification
VC_UNIT(P20, runtime) {
  parts();
  Parts p{simple("a"), simple("b"), simple("u"), simple("v")}; VALUES;
  Expr L = Expr(U::create(p.a, p.u)), R = Expr(U::create(p.b, p.v));
  vc_assume(b != 0 && v != 0 && a != 0 && u != 0);
  switch (vc_choose("case", 0, 5)) {
  case 0: carries(simplify(Expr(L * R)), a * b, u * v, "P20.runtime_multiply"); break;
  case 1: carries(simplify(Expr(L / R)), a / b, u / v, "P20.runtime_divide"); break;
  case 2: carries(simplify(Expr(L * p.b)), a * b, u, "P20.runtime_scale"); break;
  case 3: carries(simplify(Expr(p.b * L)), a * b, u, "P20.runtime_scale"); break;
  case 4: carries(simplify(Expr(L * 3.0)), a * 3, u, "P20.runtime_scale"); break;
  case 5: carries(simplify(Expr(3.0 * L)), a * 3, u, "P20.runtime_scale"); break;
  }
}
VC_UNIT(P20, runtime_numbers) {
  any_env();
  double a = vc_real("a"), b = vc_real("b");
  vc_assume(a != 0 && b != 0 && env.v0[1] != 0 && env.v0[0] != 0);
  Expr L = Expr(U::create(Expr(a), var(0))), R = Expr(U::create(Expr(b), var(1)));
  double u = env.v0[0], v = env.v0[1];
  switch (vc_choose("case", 0, 6)) {
  case 0: carries(simplify(Expr(L * R)), a * b, u * v, "P20.number_multiply"); break;
  case 1: carries(simplify(Expr(L / R)), a / b, u / v, "P20.number_divide"); break;
  case 2: carries(simplify(Expr(L * b)), a * b, u, "P20.number_scale"); break;
  case 3: carries(simplify(Expr(b * L)), a * b, u, "P20.number_scale"); break;
  case 4: carries(simplify(L), a, u, "P20.number_units"); break;
  case 5: carries(simplify(Expr(L * R * L)), a * b * a, u * v * u, "P20.number_triple"); break;
  case 6: carries(simplify(Expr(L * R / R)), a, u, "P20.number_there_and_back"); break;
  }
}
// nodes keep the order of their operands through construction, substitution and simplification
VC_UNIT(P20, operand_order) {
  parts();
  Parts p{simple("a"), simple("b"), Expr(), Expr()};
  int k = vc_choose("op", 0, 1);
  Expr e = k ? Expr(uncertainty(p.a, p.b)) : Expr(units(p.a, p.b));
  auto check = [&](const Expr& f) {
    vc_assert(f->_type_idx == (k ? 19 : 18), "P20.operand_order");
    if (k) { auto& o = asB<detail::Uncertainty>(f.get()); vc_assert(o._l == p.a && o._r == p.b, "P20.operand_order"); }
    else { auto& o = asB<detail::Units>(f.get()); vc_assert(o._l == p.a && o._r == p.b, "P20.operand_order"); }
  };
  check(e);
  check(k ? Expr(detail::Uncertainty::apply(p.a, p.b)) : Expr(detail::Units::apply(p.a, p.b)));
  check(simplify(e));
}
VC_UNIT(P20, numbers) {
  any_env();
  double a = vc_real("a"), b = vc_real("b");
  Var<> x; static constexpr char ys[] = "y"; Var<ys> y;
  auto l = units(a, x); auto r = units(b, y);
  switch (vc_choose("case", 0, 5)) {
  case 0: carries(E(l * r), a * b, env.v0[0] * env.v0[1], "P20.multiply"); break;
  case 1: vc_assume(b != 0 && env.v0[1] != 0); carries(E(l / r), a / b, env.v0[0] / env.v0[1], "P20.divide"); break;
  case 2: carries(E(l * b), a * b, env.v0[0], "P20.scale_right"); break;
  case 3: carries(E(b * l), a * b, env.v0[0], "P20.scale_left"); break;
  case 4: carries(E(l), a, env.v0[0], "P20.units"); break;
  case 5: carries(E(units(l * r, C<1, 1>())), a * b * env.v0[0] * env.v0[1], 1, "P20.units"); break;
  }
}
