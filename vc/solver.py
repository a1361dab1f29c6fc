"""Constraint store and SMT back ends (z3, then cvc5) for the obligations."""
from fractions import Fraction
import time
import z3
from . import real as Q

NEG, ZER, POS = 1, 2, 4


class SC:
    """Sign condition: sign(poly) in mask, poly primitive (canonical)."""
    __slots__ = ("key", "poly", "mask")

    def __init__(self, key, poly, mask):
        self.key = key
        self.poly = poly
        self.mask = mask

    def __repr__(self):
        return "%s %s 0" % (Q.p_str(self.poly), {1: "<", 2: "==", 3: "<=", 4: ">", 5: "!=", 6: ">=", 7: "any"}.get(self.mask))


def sign_cond(poly, mask):
    """-> bool or SC for sign(poly) in mask."""
    if Q.p_is_const(poly):
        c = poly.get((), 0)
        s = POS if c > 0 else NEG if c < 0 else ZER
        return bool(s & mask)
    content, pp = Q.primitive(poly)
    if content < 0:
        mask = (mask & ZER) | (NEG if mask & POS else 0) | (POS if mask & NEG else 0)
    # single-monomial even power / product simplifications
    if len(pp) == 1:
        (m, _), = pp.items()
        if all(e % 2 == 0 for _, e in m):
            mm = tuple((v, 1) for v, e in m)
            if mask & (ZER | POS) == (ZER | POS):
                return True
            z = bool(mask & ZER)
            p = bool(mask & POS)
            if not z and not p:
                return False
            pp = {mm: 1}
            mask = ZER if z else (NEG | POS)
        else:
            # reduce exponents to parity (keep zero-ness): x^3 ~ x , x^2*y ~ only when not affecting sign
            if len(m) == 1:
                pp = {((m[0][0], 1),): 1}
    return SC(Q.p_key(pp), pp, mask)


def sc_not(c):
    return SC(c.key, c.poly, 7 & ~c.mask)


def negate(c):
    if c.__class__ is bool or c.__class__ is int:
        return not c
    if c.__class__ is SC:
        return sc_not(c)
    return z3.Not(c)


stats = {"z3_queries": 0, "z3_time": 0.0, "cvc5_queries": 0, "cvc5_time": 0.0}

_zvar = {}
_zpoly = {}
atom_axioms = {}      # atom id -> list of SC / z3 BoolRef
import os
def _fast_nra():
    """z3's nlsat gives up quickly with a timeout of its own on polynomial constraints."""
    return z3.SolverFor("QF_NRA")


def reset():
    _zvar.clear()
    _zpoly.clear()
    _mvar.clear(); const_bounds.clear(); _fac_cache.clear()
    atom_axioms.clear()


def zvar(i):
    v = _zvar.get(i)
    if v is None:
        v = z3.Real("a%d" % i)
        _zvar[i] = v
    return v


def zconst(c):
    if c.__class__ is Fraction:
        return z3.RealVal("%d/%d" % (c.numerator, c.denominator))
    return z3.RealVal(int(c))


def zpoly(p, key=None):
    key = key or Q.p_key(p)
    r = _zpoly.get(key)
    if r is None:
        ts = []
        for m, c in p.items():
            fs = []
            for v, e in m:
                fs.extend([zvar(v)] * e)
            if not fs:
                ts.append(zconst(c))
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                ts.append(t if c == 1 else zconst(c) * t)
        r = z3.Sum(ts) if len(ts) > 1 else ts[0]
        _zpoly[key] = r
    return r


def zsc(c):
    p = zpoly(c.poly, c.key)
    m = c.mask
    if m == NEG: return p < 0
    if m == ZER: return p == 0
    if m == NEG | ZER: return p <= 0
    if m == POS: return p > 0
    if m == NEG | POS: return p != 0
    if m == ZER | POS: return p >= 0
    return z3.BoolVal(m == 7)


def to_z3(c):
    if c.__class__ is SC:
        return zsc(c)
    if c.__class__ is bool or c.__class__ is int:
        return z3.BoolVal(bool(c))
    return c


_vcache = {}


def cvars(c):
    """variables of a constraint, as a frozenset of ints (atoms) / strings (z3 names)."""
    if c.__class__ is SC:
        r = _vcache.get(c.key)
        if r is None:
            r = frozenset(Q.vars_of(c.poly))
            _vcache[c.key] = r
        return r
    i = ("z", c.get_id())
    r = _vcache.get(i)
    if r is None or r[0] is not c:
        s = set()
        seen = set()
        todo = [c]
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_const(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = e.decl().name()
                    s.add(int(n[1:]) if n[0] == "a" and n[1:].isdigit() else n)
            else:
                todo.extend(e.children())
        r = (c, frozenset(s))
        _vcache[i] = r
    return r[1]


class PC:
    """Path condition: sign knowledge by canonical polynomial + other z3 facts."""
    __slots__ = ("signs", "polys", "zfacts", "zids", "model", "version")

    def __init__(self):
        self.signs = {}
        self.polys = {}
        self.zfacts = []
        self.zids = {}
        self.model = {}
        self.version = 0

    def copy(self):
        n = PC.__new__(PC)
        n.signs = dict(self.signs)
        n.polys = dict(self.polys)
        n.zfacts = list(self.zfacts)
        n.zids = dict(self.zids)
        n.model = self.model
        n.version = self.version
        return n

    def known(self, c):
        """True / False / None."""
        if c.__class__ is bool or c.__class__ is int:
            return bool(c)
        if c.__class__ is SC:
            k = self.signs.get(c.key)
            if k is None:
                k = self._quick_sign(c)
            if k & c.mask == k:
                return True
            if k & c.mask == 0:
                return False
            return None
        v = self.zids.get(c.get_id())
        if v is not None:
            return v[1]
        return None

    def _atom_sign(self, v):
        k = self.signs.get(frozenset({(((v, 1),), 1)}), 7)
        for ax in atom_axioms.get(v, ()):
            if ax.__class__ is SC and len(ax.poly) == 1 and ax.poly.get(((v, 1),)) == 1:
                k &= ax.mask
        return k

    def _quick_sign(self, c):
        """interval-free sign propagation: monomials whose atom signs are known."""
        tot = None
        for m, co in c.poly.items():
            s = POS if co > 0 else NEG
            for v, e in m:
                if e % 2 == 0:
                    a = self._atom_sign(v)
                    t = POS if not (a & ZER) else (ZER | POS)
                else:
                    t = self._atom_sign(v)
                s = _sgn_mul(s, t)
                if s == 7:
                    return 7
            tot = s if tot is None else _sgn_add(tot, s)
            if tot == 7:
                return 7
        return tot

    def add(self, c):
        """add a constraint; returns False if syntactically contradictory."""
        if c.__class__ is bool or c.__class__ is int:
            return bool(c)
        self.version += 1
        if c.__class__ is SC:
            k = self.signs.get(c.key, 7) & c.mask
            self.signs[c.key] = k
            self.polys[c.key] = c.poly
            return k != 0
        self.zids[c.get_id()] = (c, True)
        n = z3.Not(c)
        ns = z3.simplify(n)
        self.zids[n.get_id()] = (n, False)
        self.zids[ns.get_id()] = (ns, False)
        if z3.is_not(c):
            ch = c.arg(0)
            self.zids[ch.get_id()] = (ch, False)
        self.zfacts.append(c)
        return True

    def constraints(self):
        for k, m in self.signs.items():
            if m != 7:
                yield SC(k, self.polys[k], m)
        for z in self.zfacts:
            yield z

    def slice(self, extra):
        """constraints transitively sharing variables with `extra` (list of constraints) + atom axioms."""
        cons = [(c, cvars(c)) for c in self.constraints()]
        want = set()
        for e in extra:
            want |= cvars(e)
        out = []
        axdone = set()
        changed = True
        used = [False] * len(cons)
        while changed:
            changed = False
            for v in list(want):
                if v not in axdone:
                    axdone.add(v)
                    for ax in atom_axioms.get(v, ()):
                        out.append(ax)
                        want |= cvars(ax)
                        changed = True
            for i, (c, vs) in enumerate(cons):
                if not used[i] and vs & want:
                    used[i] = True
                    out.append(c)
                    if not vs <= want:
                        want |= vs
                        changed = True
        return out


def _sgn_mul(a, b):
    r = 0
    for x in (NEG, ZER, POS):
        if a & x:
            for y in (NEG, ZER, POS):
                if b & y:
                    if x == ZER or y == ZER:
                        r |= ZER
                    elif x == y:
                        r |= POS
                    else:
                        r |= NEG
    return r


def _sgn_add(a, b):
    r = 0
    for x in (NEG, ZER, POS):
        if a & x:
            for y in (NEG, ZER, POS):
                if b & y:
                    if x == ZER:
                        r |= y
                    elif y == ZER or x == y:
                        r |= x
                    else:
                        r = 7
    return r


_cache = {}


def _ckey(c):
    return (c.key, c.mask) if c.__class__ is SC else ("z", c.get_id())


_keep = []


_fac_cache = {}


def factors(poly, key):
    """(content, [(factor poly, exponent)]) over the rationals, or None"""
    r = _fac_cache.get(key, 0)
    if r != 0:
        return r
    r = None
    try:
        vs = sorted(Q.vars_of(poly))
        deg = max(sum(e for _, e in m) for m in poly)
        if 2 <= len(poly) <= 120 and 2 <= deg <= 40 and len(vs) <= 8:
            import sympy
            from sympy import QQ
            R_, *gens = sympy.ring(["a%d" % v for v in vs], QQ)
            pos = {v: i for i, v in enumerate(vs)}
            d = {}
            for m, c in poly.items():
                t = [0] * len(vs)
                for v, e in m:
                    t[pos[v]] = e
                c = Fraction(c)
                d[tuple(t)] = QQ(c.numerator, c.denominator)
            c, fl = R_.from_dict(d).factor_list()
            out = []
            for f, e in fl:
                out.append(({tuple((vs[i], k) for i, k in enumerate(t) if k): Q.norm(Fraction(int(x.numerator), int(x.denominator))) for t, x in f.terms()}, e))
            if len(out) > 1 or (out and out[0][1] > 1):
                r = (Fraction(int(c.numerator), int(c.denominator)), out)
    except Exception:
        r = None
    _fac_cache[key] = r
    return r


def factor_mask(pc, c):
    """possible signs of c.poly from its factorisation and the signs known of the factors"""
    f = factors(c.poly, c.key)
    if f is None:
        return 7
    stats["factorisations"] = stats.get("factorisations", 0) + 1
    k = POS if f[0] > 0 else NEG
    for p, e in f[1]:
        m = 0
        for s in (NEG, ZER, POS):
            q = sign_cond(p, s)
            if (q if q.__class__ is bool else pc.known(q)) is not False:
                m |= s
        if e % 2 == 0:
            m = (m & ZER) | (POS if m & (POS | NEG) else 0)
        k = _sgn_mul(k, m)
    return k


def check(cons, timeout_ms, want_model=False, pc=None, target=None):
    """-> ('sat', model) / ('unsat', None) / ('unknown', reason)"""
    key = frozenset(_ckey(c) for c in cons)
    r = _cache.get(key)
    if r is not None and (not want_model or r[0] != "sat" or r[1] is not None) and not (r[0] == "unknown" and r[2] < timeout_ms):
        return r[0], r[1]
    t0 = time.time()
    pure_real = all(c.__class__ is SC for c in cons)
    if pure_real and want_model is not None:
        m = sample_model(cons)
        if m is not None:
            stats["sampled_models"] = stats.get("sampled_models", 0) + 1
            res = ("sat", m)
            _cache[key] = res + (timeout_ms,)
            return res
    if pure_real and linear_unsat(cons):
        stats["linear_relaxations"] = stats.get("linear_relaxations", 0) + 1
        stats["z3_time"] += time.time() - t0
        res = ("unsat", None)
        _cache[key] = res + (timeout_ms,)
        return res
    if target is not None and target.__class__ is SC and pc is not None and max(sum(e for _, e in m) for m in target.poly) > 1:
        if factor_mask(pc, target) & target.mask == 0:
            stats["z3_time"] += time.time() - t0
            res = ("unsat", None)
            _cache[key] = res + (timeout_ms,)
            return res
        if len(cons) > 10:
            small = [c for c in cons if c is target or (c.__class__ is SC and len(c.poly) <= 4 and max(sum(e for _, e in m) for m in c.poly) <= 3)]
            if len(small) < len(cons):
                s = z3.SolverFor("QF_NRA")
                s.set("timeout", 200)
                for c in small:
                    s.add(to_z3(c))
                stats["z3_queries"] += 1
                if s.check() == z3.unsat:
                    stats["z3_time"] += time.time() - t0
                    res = ("unsat", None)
                    _cache[key] = res + (timeout_ms,)
                    return res
    s = z3.SolverFor("QF_NRA") if pure_real else z3.Solver()
    s.set("timeout", int(timeout_ms))
    for c in cons:
        s.add(to_z3(c))
    _keep.append([c for c in cons if c.__class__ is not SC])
    r = s.check()
    stats["z3_queries"] += 1
    stats["z3_time"] += time.time() - t0
    if r == z3.unsat:
        res = ("unsat", None)
    elif r == z3.sat:
        res = ("sat", s.model())
    else:
        res = ("unknown", s.reason_unknown())
    _cache[key] = res + (timeout_ms,)
    return res


def solver_for(cons, ms):
    s = z3.SolverFor("QF_NRA") if all(c.__class__ is SC for c in cons) else z3.Solver()
    s.set("timeout", int(ms))
    return s


_mvar = {}
const_bounds = {}     # atom id -> rational bounds (square roots of constants)


def linear_unsat(cons):
    """sound and cheap: the constraints with every monomial read as an independent variable (even monomials >= 0)."""
    monos = set()
    nonlin = False
    for c in cons:
        for m in c.poly:
            if len(m) > 1 or (m and m[0][1] > 1):
                nonlin = True
            monos.add(m)
    if not nonlin or len(monos) > 400:
        return False
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 1500)

    def mv(m):
        v = _mvar.get(m)
        if v is None:
            v = zvar(m[0][0]) if len(m) == 1 and m[0][1] == 1 else z3.Real("m" + "_".join("%d^%d" % x for x in m))
            _mvar[m] = v
        return v
    for m in monos:
        if m and all(e % 2 == 0 for _, e in m):
            s.add(mv(m) >= 0)
    if const_bounds:
        for m in list(monos):
            for i, (v, e) in enumerate(m):
                if v in const_bounds and e == 1 and len(m) > 1:
                    rest = m[:i] + m[i + 1:]
                    if all(x % 2 == 0 for _, x in rest):
                        lo, hi = const_bounds[v]
                        s.add(mv(rest) >= 0, mv(m) >= zconst(lo) * mv(rest), mv(m) <= zconst(hi) * mv(rest))
                    break
    for c in cons:
        p = z3.Sum([zconst(k) * mv(m) if m else zconst(k) for m, k in c.poly.items()])
        k = c.mask
        s.add(p < 0 if k == NEG else p == 0 if k == ZER else p <= 0 if k == NEG | ZER else p > 0 if k == POS else p != 0 if k == NEG | POS else p >= 0)
    return s.check() == z3.unsat


def check_cvc5(cons, timeout_ms):
    """second opinion via cvc5 on the SMT-LIB text of the query."""
    try:
        import cvc5
    except Exception:
        return "unknown"
    t0 = time.time()
    s = z3.Solver()
    for c in cons:
        s.add(to_z3(c))
    txt = s.to_smt2()
    try:
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        sol = cvc5.Solver(tm) if tm else cvc5.Solver()
        sol.setOption("tlimit-per", str(int(timeout_ms)))
        sol.setLogic("ALL")
        parser = cvc5.InputParser(sol)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = parser.getSymbolManager()
        res = "unknown"
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            o = str(cmd.invoke(sol, sm)).strip()
            if o in ("sat", "unsat", "unknown"):
                res = o
    except Exception:
        res = "unknown"
    stats["cvc5_queries"] += 1
    stats["cvc5_time"] += time.time() - t0
    return res


class DictModel:
    """a model found by sampling: atom -> rational (atoms not listed: 0)"""
    def __init__(self, env):
        self.env = env

    def get(self, i):
        return Fraction(self.env.get(i, 0))


_rng = None


def sample_model(cons, tries=14):
    """cheap model search for polynomial constraints over plain inputs; used before the solver on likely-sat queries."""
    global _rng
    if not cons or len(cons) > 200:
        return None
    atoms = set()
    for c in cons:
        atoms |= cvars(c)
    if len(atoms) > 60:
        return None
    for a in atoms:
        if Q.atom_info[a][0] != "input":
            return None
    if _rng is None:
        import random
        _rng = random.Random(7)
    zero = set()
    for c in cons:
        if c.mask == ZER:
            if len(c.poly) == 1:
                (m, _), = c.poly.items()
                if len(m) == 1:
                    zero.add(m[0][0]); continue
            return None
    cs = sorted(cons, key=lambda c: len(c.poly))
    for t in range(tries):
        r = 3 if t < 6 else 12
        env = {a: (0 if a in zero else _rng.randint(-r, r)) for a in atoms}
        ok = True
        for c in cs:
            v = eval_poly(c.poly, env)
            if not ((POS if v > 0 else NEG if v < 0 else ZER) & c.mask):
                ok = False
                break
        if ok:
            return DictModel(env)
    return None


def model_value(model, zv):
    if model.__class__ is DictModel:
        return model.get(int(zv.decl().name()[1:]))
    v = model.eval(zv, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_bv_value(v):
        return v.as_long()
    return None


def model_to_rationals(model, atoms):
    """dict atom->Fraction when every atom's value is rational, else None."""
    out = {}
    if model.__class__ is DictModel:
        return {a: model.get(a) for a in atoms}
    for a in atoms:
        v = model.eval(zvar(a), model_completion=True)
        if not z3.is_rational_value(v):
            return None
        out[a] = Fraction(v.numerator_as_long(), v.denominator_as_long())
    return out


def eval_poly(p, env):
    s = 0
    for m, c in p.items():
        t = c
        for v, e in m:
            if v not in env:
                return None
            t = t * env[v] ** e
        s += t
    return s
