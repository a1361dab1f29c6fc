"""Models of the functions outside the verified text: contract intrinsics, the C/C++ runtime, libm, streams.
Everything here is trusted and is listed as such in the evidence."""
from fractions import Fraction
import math
import re
import struct
import z3
from . import real as Q
from . import solver as S
from .solver import SC, NEG, ZER, POS, sign_cond

trusted_used = set()


def install(E):
    from . import engine as G
    R = Q.R
    UNDEF = G.UNDEF
    NR = G.NORESULT
    IC = E.intercepts

    def reg(*names):
        def deco(f):
            def w(eng, st, fr, I, a, _n=names[0]):
                trusted_used.add(_n)
                return f(eng, st, fr, I, a)
            for n in names:
                IC[n] = w
            return f
        return deco

    def regp(prefix):
        def deco(f):
            def w(eng, st, fr, I, a, _n=prefix):
                trusted_used.add(_n)
                return f(eng, st, fr, I, a)
            E.prefix_intercepts.append((prefix, w))
            return f
        return deco

    def plain(*names):
        def deco(f):
            for n in names:
                IC[n] = f
            return f
        return deco

    def plainp(prefix):
        def deco(f):
            E.prefix_intercepts.append((prefix, f))
            return f
        return deco

    # ---- contract intrinsics -------------------------------------------------------------------
    def text(eng, st, a):
        return eng.cstr(st, a).decode("latin1")

    @plain("vc_real")
    def _(eng, st, fr, I, a):
        n = text(eng, st, a[0])
        i = Q.new_atom("%s@%d" % (n, len(Q.atom_name)))
        v = Q.atom(i)
        st.inputs.append((n, "real", v))
        return v

    @plain("vc_int")
    def _(eng, st, fr, I, a):
        n = text(eng, st, a[0])
        lo, hi = G.to_signed(a[1], 64), G.to_signed(a[2], 64)
        v = z3.BitVec("i%d_%s" % (eng.symcount, n), 64)
        eng.symcount += 1
        st.inputs.append((n, "int", v))
        G.INT_RANGE[v.decl().name()] = (lo, hi)
        st.pc.add(v >= lo)
        st.pc.add(v <= hi)
        return v

    @plain("vc_choose")
    def _(eng, st, fr, I, a):
        lo, hi = G.to_signed(a[1], 64), G.to_signed(a[2], 64)
        key = ("choose", len(st.inputs))
        ch = st.ghost.get("choice")
        if ch is not None and ch[0] == len(st.inputs):
            v = ch[1]
            st.ghost = {k: x for k, x in st.ghost.items() if k != "choice"}
            n = text(eng, st, a[0])
            st.inputs.append((n, "int", v))
            return v & G.M64
        if hi < lo:
            raise G.PathEnd("infeasible")
        if hi - lo > 5000:
            raise G.EngineError("vc_choose range")
        raise G.Fork([(True, ('choice', len(st.inputs), v)) for v in range(lo, hi + 1)])

    @plain("vc_assume")
    def _(eng, st, fr, I, a):
        c = a[0]
        if c.__class__ is not int:
            if c is UNDEF:
                raise G.Violation("memory-safety", "assume on undef")
            if not eng.feasible(st, c):
                raise G.PathEnd("assume")
            if not st.pc.add(c):
                raise G.PathEnd("assume")
            eng.refresh_model(st, c)
            return None
        if not c:
            raise G.PathEnd("assume")
        return None

    @plain("vc_assert")
    def _(eng, st, fr, I, a):
        c = a[0]
        label = text(eng, st, a[1])
        if c.__class__ is not int and not (c.__class__ is SC or z3.is_bool(c) or c is UNDEF):
            c = eng.simp_b(c != 0)
        eng.oblige(st, c, label)
        return None

    @plain("vc_assert_eq")
    def _(eng, st, fr, I, a):
        label = text(eng, st, a[2])
        x, y = a[0], a[1]
        if x is UNDEF or y is UNDEF:
            raise G.Violation(label, "value depends on uninitialised data")
        cx, cy = x.__class__, y.__class__
        if cx is float or cy is float:
            eq = (cx is float and cy is float and (x == y or (x != x and y != y)))
            eng.oblige(st, int(eq), label)
            return None
        d = Q.add(x, y, -1)
        if d.__class__ is not R:
            if d == 0 and (cx is R or cy is R):
                eng.record(label, "polynomial-normal-form", 0.0)
            else:
                eng.oblige(st, int(d == 0), label)
            return None
        c = sign_cond(d.num, ZER)
        eng.oblige(st, c if c.__class__ is SC else int(c), label)
        return None

    @plain("vc_reach")
    def _(eng, st, fr, I, a):
        st.covers.add(text(eng, st, a[0]))
        return None

    @plain("vc_symbolic")
    def _(eng, st, fr, I, a):
        return 1

    @plain("vc_known")
    def _(eng, st, fr, I, a):
        return int(a[0].__class__ is int)

    @plain("vc_uf")
    def _(eng, st, fr, I, a):
        # uninterpreted spec function of reals: vc_uf(name, x)
        n = text(eng, st, a[0])
        return uf(eng, st, "uf:" + n, a[1])

    @plain("vc_uf2")
    def _(eng, st, fr, I, a):
        n = text(eng, st, a[0])
        return uf(eng, st, "uf:" + n, a[1], a[2])

    @plain("vc_contract")
    def _(eng, st, fr, I, a):
        st.subst[eng.addr2fn[a[0]]] = eng.addr2fn[a[1]]
        return None

    @plain("vc_uncontract")
    def _(eng, st, fr, I, a):
        st.subst.pop(eng.addr2fn[a[0]], None)
        return None

    @plain("vc_call_real")
    def _(eng, st, fr, I, a):
        n = eng.addr2fn[a[0]]
        st.skip[n] = st.skip.get(n, 0) + 1
        return None

    @plain("vc_identical")
    def _(eng, st, fr, I, a):
        x, y = a[0], a[1]
        if x is UNDEF or y is UNDEF:
            return 0
        if x.__class__ is float or y.__class__ is float:
            return int(x.__class__ is float and y.__class__ is float and x == y)
        d = Q.add(x, y, -1)
        if d.__class__ is not R:
            return int(d == 0)
        return int(not d.num)

    @plain("vc_loop")
    def _(eng, st, fr, I, a):
        st.loopcut = dict(st.loopcut or {})
        st.loopcut[eng.addr2fn[a[0]]] = eng.addr2fn[a[1]]
        return None

    @plain("vc_invariants")
    def _(eng, st, fr, I, a):
        """loop invariants are found automatically in functions whose (mangled) name starts with this"""
        st.autoinv = text(eng, st, a[0])
        return None

    @plain("vc_term")
    def _(eng, st, fr, I, a):
        st.ghost["terms"] = list(st.ghost.get("terms", ())) + [a[0]]
        return None

    @plain("vc_freeze")
    def _(eng, st, fr, I, a):
        """protect every currently live heap object against writes (shared_ptr counters excepted)"""
        for oid, o in list(st.objs.items()):
            if o.kind == "heap" and not o.frozen:
                o = eng.writable(st, o, oid)
                o.frozen = "ctl"
        return None

    @plain("vc_unfreeze")
    def _(eng, st, fr, I, a):
        for oid, o in list(st.objs.items()):
            if o.frozen:
                o = eng.writable(st, o, oid)
                o.frozen = False
        return None

    @plain("vc_freeze_range")
    def _(eng, st, fr, I, a):
        o, off, oid = eng.lookup(st, a[0], 1, "freeze")
        o = eng.writable(st, o, oid)
        o.frozen = True
        return None

    @plain("vc_print")
    def _(eng, st, fr, I, a):
        print("vc_print", text(eng, st, a[0]), a[1])
        return None

    @plain("vc_prints")
    def _(eng, st, fr, I, a):
        print("vc_prints", text(eng, st, a[0]))
        return None

    # ---- uninterpreted / algebraic real functions ----------------------------------------------------
    def fin(x):
        return x.__class__ is not float

    def key(x):
        return x.key() if x.__class__ is R else x

    def uf(eng, st, name, *args):
        for x in args:
            if x is UNDEF:
                return UNDEF
        i, new = Q.intern_atom(name, tuple(key(x) for x in args), "%s(%s)" % (name, ",".join(repr(x) for x in args)))
        if new:
            uf_args[i] = args
        return Q.atom(i)

    uf_args = {}
    E.uf_args = uf_args

    def isqrt_exact(fr_):
        f = Fraction(fr_)
        n, d = f.numerator, f.denominator
        a, b = math.isqrt(n), math.isqrt(d)
        if a * a == n and b * b == d:
            return Q.norm(Fraction(a, b))
        return None

    def r_sqrt(eng, st, x):
        if x is UNDEF:
            return UNDEF
        if x.__class__ is float:
            return math.nan if (x != x or x < 0) else x
        if x.__class__ is not R:
            if x < 0:
                return math.nan
            e = isqrt_exact(x)
            if e is not None:
                return e
            f = Fraction(x)
            # sqrt(n/d) = sqrt(n*d)/d
            nd = f.numerator * f.denominator
            sq = 1
            for p in (2, 3, 5, 7, 11, 13):
                while nd % (p * p) == 0:
                    nd //= p * p
                    sq *= p
            a = sqrt_atom(Q.p_const(nd))
            return Q.mul(a, Q.norm(Fraction(sq, f.denominator)))
        s = eng.decide_sign(st, x)
        if s < 0:
            return math.nan
        if s == 0:
            return 0
        n = x.num
        dabs = 1
        if x.den:
            d = Q.mk(Q.den_expand(x.den))
            n = Q.p_mul(x.num, Q.den_expand(x.den))
            dabs = eng.r_abs(st, d)
        content, pp = Q.primitive(n)
        if content < 0:
            content = -content
            pp = Q.p_scale(pp, -1)
        # perfect square monomials and squares of linear forms
        root = poly_sqrt(pp)
        c = r_sqrt(eng, st, content)
        if root is not None:
            r = eng.r_abs(st, Q.mk(root))
        else:
            r = sqrt_atom(pp)
        r = Q.mul(r, c)
        return Q.div(r, dabs) if dabs != 1 else r

    def poly_sqrt(p):
        """q with q*q == p, or None"""
        if len(p) == 1:
            (m, c), = p.items()
            e = isqrt_exact(c) if c > 0 else None
            if e is not None and all(k % 2 == 0 for _, k in m):
                return {tuple((v, k // 2) for v, k in m): e}
            return None
        if len(p) > 60:
            return None
        lead = Q.p_lead(p)
        c = p[lead]
        if c <= 0 or any(k % 2 for _, k in lead):
            return None
        e = isqrt_exact(c)
        if e is None:
            return None
        lm = tuple((v, k // 2) for v, k in lead)
        q = {lm: e}
        rem = Q.p_add(p, Q.p_mul(q, q), -1)
        steps = 0
        while rem:
            steps += 1
            if steps > 30:
                return None
            l = Q.p_lead(rem)
            d = dict(l)
            for v, k in lm:
                if d.get(v, 0) < k:
                    return None
                d[v] -= k
            m = tuple(sorted((v, k) for v, k in d.items() if k))
            if Q._mono_order(m) >= Q._mono_order(lm):
                return None
            co = Q.norm(Fraction(rem[l]) / (2 * e))
            t = {m: co}
            q2 = Q.p_add(q, t)
            rem = Q.p_add(p, Q.p_mul(q2, q2), -1)
            q = q2
        return q

    def sqrt_atom(pp):
        i, new = Q.intern_atom("sqrt", (Q.p_key(pp),), "sqrt(%s)" % Q.p_str(pp))
        if new:
            uf_args[i] = (Q.mk(pp),)
            if not any(v == i for m in pp for v, _ in m):
                Q.atom_rule[i] = (2, pp)
            v = S.zvar(i)
            S.atom_axioms[i] = [sign_cond({((i, 1),): 1}, ZER | POS)]
            sq = sign_cond(Q.p_add({((i, 2),): 1}, pp, -1), ZER)
            if sq.__class__ is SC:
                S.atom_axioms[i].append(sq)
            if Q.p_is_const(pp):
                c = Fraction(pp[()])
                k = 10 ** 30 * c.denominator
                lo = Fraction(math.isqrt(c.numerator * c.denominator * 10 ** 60), k)
                S.const_bounds[i] = (lo, lo + Fraction(1, k))
                S.atom_axioms[i] = [sign_cond({((i, 1),): 1, (): -lo}, ZER | POS), sign_cond({((i, 1),): 1, (): -lo - Fraction(1, k)}, NEG | ZER)] + S.atom_axioms[i][1:]
        return Q.atom(i)

    @reg("sqrt", "llvm.sqrt.f64", "sqrtf")
    def _(eng, st, fr, I, a):
        return r_sqrt(eng, st, a[0])

    @reg("cbrt")
    def _(eng, st, fr, I, a):
        x = a[0]
        if x is UNDEF or x.__class__ is float:
            return x
        return r_root(eng, st, x, 3)

    def poly_root(p, n):
        """q with q^n == p, or None"""
        lead = Q.p_lead(p)
        c = p[lead]
        if any(k % n for _, k in lead) or len(p) > 60:
            return None
        e = r_root(None, None, c, n) if (n % 2 or c > 0) else None
        if e is None or e.__class__ is R:
            return None
        lm = tuple((v, k // n) for v, k in lead)
        q = {lm: e}
        den = Q.p_pow({lm: e}, n - 1)
        (dm, dc), = den.items()
        dd = dict(dm)
        for _ in range(30):
            rem = Q.p_add(p, Q.p_pow(q, n), -1)
            if not rem:
                return q
            l = dict(Q.p_lead(rem))
            co = rem[Q.p_lead(rem)]
            for v, k in dd.items():
                if l.get(v, 0) < k:
                    return None
                l[v] -= k
            m = tuple(sorted((v, k) for v, k in l.items() if k))
            if m in q:
                return None
            q = Q.p_add(q, {m: Q.norm(Fraction(co) / (n * dc))})
        return None

    def r_root(eng, st, x, n):
        """real n-th root (n odd, or x >= 0)"""
        if x.__class__ is R and all(e % n == 0 for _, e in x.den):
            r = poly_root(x.num, n)
            if r is not None:
                v = Q.mk(r, tuple((f, e // n) for f, e in x.den))
                return v if n % 2 else eng.r_abs(st, v)
        if x.__class__ is R and eng is not None:
            # split off exact n-th powers: monomial content of the numerator and denominator factors
            out = 1
            con = None
            for m in x.num:
                dm = dict(m)
                con = dm if con is None else {v: min(k, dm[v]) for v, k in con.items() if v in dm}
            con = {v: k // n for v, k in (con or {}).items() if k // n}
            num = x.num
            if con:
                num = {}
                for m, c in x.num.items():
                    num[tuple((v, k - n * con.get(v, 0)) for v, k in m if k - n * con.get(v, 0))] = c
                for v, k in con.items():
                    a = Q.atom(v) if n % 2 else eng.r_abs(st, Q.atom(v))
                    for _ in range(k):
                        out = Q.mul(out, a)
            den = []
            for f, e in x.den:
                if e // n:
                    a = Q.mk(dict(Q.factor_poly(f)) if hasattr(Q, "factor_poly") else Q.den_expand(((f, 1),)))
                    if n % 2 == 0:
                        a = eng.r_abs(st, a)
                    for _ in range(e // n):
                        out = Q.div(out, a)
                if e % n:
                    den.append((f, e % n))
            if con or len(den) != len(x.den) or any(e >= n for _, e in x.den):
                return Q.mul(out, r_root(eng, st, Q.mk(num, tuple(den)), n))
        if x.__class__ is not R:
            f = Fraction(x)
            s = -1 if f < 0 else 1
            p, q = abs(f.numerator), f.denominator
            rp, rq = round(p ** (1.0 / n)), round(q ** (1.0 / n))
            if rp ** n == p and rq ** n == q:
                return Q.norm(Fraction(s * rp, rq))
            pp = Q.p_const(f.numerator * f.denominator ** (n - 1))
            den = f.denominator
        else:
            if x.den:
                d = Q.mk(Q.den_expand(x.den))
                # root(n/d) = root(n*d^(k-1))/d   (sign handled for odd n; even n needs d>0)
                pp = x.num
                for _ in range(n - 1):
                    pp = Q.p_mul(pp, Q.den_expand(x.den))
                den = d
                if n % 2 == 0:
                    den = eng.r_abs(st, d)
            else:
                pp = x.num
                den = 1
        i, new = Q.intern_atom("root%d" % n, (Q.p_key(pp),), "root%d(%s)" % (n, Q.p_str(pp)))
        if new:
            uf_args[i] = (Q.mk(pp),)
            Q.atom_rule[i] = (n, pp)
            ax = []
            c = sign_cond(Q.p_add({((i, n),): 1}, pp, -1), ZER)
            if c.__class__ is SC:
                ax.append(c)
            if n % 2 == 0:
                ax.append(sign_cond({((i, 1),): 1}, ZER | POS))
            else:
                v = S.zvar(i)
                z = S.zpoly(pp) if not Q.p_is_const(pp) else S.zconst(pp.get((), 0))
                ax.append(z3.And((v > 0) == (z > 0), (v < 0) == (z < 0)))
            S.atom_axioms[i] = ax
        r = Q.atom(i)
        return Q.div(r, den) if den != 1 else r

    def trig(name, x0, v0):
        @reg(name, "llvm.%s.f64" % name)
        def _(eng, st, fr, I, a):
            x = a[0]
            if x is UNDEF:
                return x
            if x.__class__ is float:
                return math.nan
            if x.__class__ is not R and x == x0:
                return v0
            return r_trig(eng, st, name, x)

    pi_frac = Fraction(math.pi)

    def r_trig(eng, st, name, x):
        # canonical sign: sin(-x) = -sin(x), cos(-x) = cos(x)
        flip = False
        if x.__class__ is R:
            c, _p = Q.primitive(x.num)
            if c < 0:
                x = Q.neg(x)
                flip = True
        elif x < 0:
            x = -x
            flip = True
        if x.__class__ is not R and x == 0:
            return 0 if name == "sin" else 1
        if name == "cos" and x.__class__ is R and not x.den and len(x.num) == 1:
            # cos(acos(t)/3) is the root of 4 c^3 - 3 c = t in [1/2, 1]
            (m, k), = x.num.items()
            if len(m) == 1 and m[0][1] == 1 and k == Fraction(1, 3) and Q.atom_info[m[0][0]][0] == "acos":
                t = uf_args[m[0][0]][0]
                if t.__class__ is R and not t.den and len(t.num) == 2:
                    for mm in t.num:
                        if len(mm) == 1 and mm[0][1] == 1 and t.num == {mm: -3, ((mm[0][0], 3),): 4}:
                            c = Q.atom(mm[0][0])
                            if eng.decide(st, eng.r_cmp(c, Fraction(1, 2), POS | ZER)) and eng.decide(st, eng.r_cmp(c, 1, NEG | ZER)):
                                return c
        s = uf(eng, st, "sin", x)
        c = uf(eng, st, "cos", x)
        si = next(iter(s.num))[0][0]
        ci = next(iter(c.num))[0][0]
        if si not in Q.atom_rule:
            # sin^2 = 1 - cos^2
            Q.atom_rule[si] = (2, {(): 1, ((ci, 2),): -1})
            one = sign_cond(Q.p_add(Q.p_add({((si, 2),): 1}, {((ci, 2),): 1}), {(): -1}), ZER)
            le1 = [sign_cond(Q.p_add({((v, 1),): 1}, {(): k}, 1), m) for v in (si, ci) for k, m in ((-1, NEG | ZER), (1, POS | ZER))]
            S.atom_axioms[si] = [one] + le1[:2]
            S.atom_axioms[ci] = [one] + le1[2:]
        if name == "sin":
            return Q.neg(s) if flip else s
        return c

    trig("sin", 0, 0)
    trig("cos", 0, 1)

    @reg("exp", "llvm.exp.f64")
    def _(eng, st, fr, I, a):
        x = a[0]
        if x is UNDEF:
            return x
        if x.__class__ is float:
            return x if x != x or x > 0 else 0
        if x.__class__ is not R and x == 0:
            return 1
        r = uf(eng, st, "exp", x)
        i = next(iter(r.num))[0][0]
        if i not in S.atom_axioms:
            S.atom_axioms[i] = [sign_cond({((i, 1),): 1}, POS)]
        return r

    @reg("log", "llvm.log.f64")
    def _(eng, st, fr, I, a):
        x = a[0]
        if x is UNDEF:
            return x
        if x.__class__ is float:
            return x if x != x or x > 0 else math.nan
        if x.__class__ is not R:
            if x == 1:
                return 0
            if x == 0:
                return -math.inf
            if x < 0:
                return math.nan
        else:
            s = eng.decide_sign(st, x)
            if s < 0:
                return math.nan
            if s == 0:
                return -math.inf
        return uf(eng, st, "log", x)

    for nm in ("tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "log10", "log2", "exp2"):
        def mk(nm):
            @reg(nm, "llvm.%s.f64" % nm)
            def _(eng, st, fr, I, a):
                x = a[0]
                if x is UNDEF:
                    return x
                if x.__class__ is float:
                    return uf(eng, st, nm, 10 ** 9) if x == x else x
                if x.__class__ is not R and x == 0 and nm in ("tan", "asin", "atan", "sinh", "tanh"):
                    return 0
                r = uf(eng, st, nm, x)
                return r
        mk(nm)

    @reg("atan2")
    def _(eng, st, fr, I, a):
        return uf(eng, st, "atan2", a[0], a[1])

    @reg("pow", "llvm.pow.f64")
    def _(eng, st, fr, I, a):
        return r_pow(eng, st, a[0], a[1])

    def r_pow(eng, st, x, y):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if y.__class__ is not R and fin(y):
            f = Fraction(y)
            if f.denominator == 1 and abs(f) <= 512:
                if x.__class__ is float:
                    n = int(f)
                    return eng.from_double(float(x) ** n) if n else 1
                return eng.r_pow_int(st, x, int(f))
            if x.__class__ is not float:
                # rational exponents p/2, and doubles nearest to 1/k
                if f == Fraction(1, 2):
                    return r_sqrt(eng, st, x)
                for k in range(3, 40):
                    if float(f) == 1.0 / k:
                        s = eng.decide_sign(st, x)
                        if s < 0:
                            return math.nan
                        if s == 0:
                            return 0
                        return r_root(eng, st, x, k)
        if x.__class__ is float or y.__class__ is float:
            if x.__class__ is not R and y.__class__ is not R:
                try:
                    return eng.from_double(math.pow(float(x), float(y)))
                except (OverflowError, ValueError):
                    return math.nan
            raise G.EngineError("pow with infinite and symbolic operands")
        if x.__class__ is not R and x == 1:
            return 1
        if y.__class__ is R and not y.den:
            # x^(y+n) = x^y * x^n for a positive base and an integer n
            n = Fraction(y.num.get((), 0))
            n = n.numerator // n.denominator
            if n and eng.decide_sign(st, x) > 0:
                return eng.r_mul(st, uf(eng, st, "pow", x, Q.add(y, -n)), eng.r_pow_int(st, x, n))
        r = uf(eng, st, "pow", x, y)
        i = next(iter(r.num))[0][0]
        if i not in S.atom_axioms:
            zp = lambda p: (S.zpoly(p.num) if not Q.p_is_const(p.num) else S.zconst(p.num.get((), 0))) if p.__class__ is R else S.zconst(p)
            v, ax = S.zvar(i), []
            if not getattr(x, "den", None):
                zx = zp(x)
                ax += [z3.Implies(zx == 1, v == 1), z3.Implies(zx > 0, v > 0)]
            if not getattr(y, "den", None):
                zy = zp(y)
                ax.append(z3.Implies(zy == 0, v == 1))
                nx, dx = Q.num_den(x)
                zc = lambda p: S.zpoly(p) if not Q.p_is_const(p) else S.zconst(p.get((), 0))
                ax += [z3.Implies(zy == 1, v * zc(Q.den_expand(dx)) == zc(nx)), z3.Implies(z3.And(zc(nx) == 0, zy > 0), v == 0)]
            if ax:
                S.atom_axioms[i] = ax
        return r

    E.r_pow = r_pow
    E.r_sqrt = r_sqrt

    @reg("llvm.powi.f64.i32", "llvm.powi.f64")
    def _(eng, st, fr, I, a):
        return eng.r_pow_int(st, a[0], G.to_signed(a[1], 32))

    @reg("fabs", "llvm.fabs.f64", "llvm.fabs.f32")
    def _(eng, st, fr, I, a):
        return eng.r_abs(st, a[0])

    @reg("copysign", "llvm.copysign.f64")
    def _(eng, st, fr, I, a):
        m = eng.r_abs(st, a[0])
        s = eng.decide_sign(st, a[1])
        return eng.r_neg(m) if s < 0 else m

    @reg("ldexp", "scalbn")
    def _(eng, st, fr, I, a):
        n = eng.concretize(st, a[1])
        n = G.to_signed(n, 32)
        if a[0].__class__ is float:
            return a[0]
        return Q.mul(a[0], Q.norm(Fraction(2) ** n))

    @reg("nextafter")
    def _(eng, st, fr, I, a):
        return eng.from_double(math.nextafter(float(a[0]), float(a[1])))

    def fmm(mx):
        def f(eng, st, fr, I, a):
            x, y = a
            if x.__class__ is float and x != x:
                return y
            if y.__class__ is float and y != y:
                return x
            c = eng.r_cmp(x, y, POS)
            if c.__class__ is not int:
                c = eng.decide(st, c)
            return (x if c else y) if mx else (y if c else x)
        return f
    reg("fmax", "llvm.maxnum.f64")(fmm(True))
    reg("fmin", "llvm.minnum.f64")(fmm(False))

    @reg("floor", "llvm.floor.f64")
    def _(eng, st, fr, I, a):
        if a[0].__class__ is R:
            raise G.EngineError("floor of symbolic")
        return math.floor(a[0]) if fin(a[0]) else a[0]

    @reg("ceil", "llvm.ceil.f64")
    def _(eng, st, fr, I, a):
        if a[0].__class__ is R:
            raise G.EngineError("ceil of symbolic")
        return math.ceil(a[0]) if fin(a[0]) else a[0]

    @reg("frexp")
    def _(eng, st, fr, I, a):
        x = a[0]
        if x.__class__ is R:
            raise G.EngineError("frexp of symbolic")
        m, e = math.frexp(float(x))
        eng.store(st, a[1], e & 0xFFFFFFFF, 4, 0)
        return eng.from_double(m)

    @plain("llvm.fmuladd.f64")
    def _(eng, st, fr, I, a):
        return eng.r_add(st, eng.r_mul(st, a[0], a[1]), a[2])

    @plain("llvm.is.fpclass.f64", "llvm.is.fpclass.f32")
    def _(eng, st, fr, I, a):
        x, m = a
        if x is UNDEF:
            return UNDEF
        if x.__class__ is float:
            if x != x: b = 3
            elif x < 0: b = 4
            else: b = 512
            return int(bool(b & m))
        s = eng.decide_sign(st, x)
        b = 8 | 16 if s < 0 else (32 | 64 if s == 0 else 128 | 256)
        # subnormals are not distinguished from normals: the mask must not separate them
        return int(bool(b & m))

    @plain("__isnan", "isnan")
    def _(eng, st, fr, I, a):
        return int(a[0].__class__ is float and a[0] != a[0])

    @plain("__isinf", "isinf")
    def _(eng, st, fr, I, a):
        return int(a[0].__class__ is float and a[0] == a[0])

    @plain("__signbit", "signbit")
    def _(eng, st, fr, I, a):
        return int(eng.decide_sign(st, a[0]) < 0)

    # ---- LLVM intrinsics -------------------------------------------------------------------------
    @plainp("llvm.memcpy.")
    def _(eng, st, fr, I, a):
        eng.memcpy(st, a[0], a[1], a[2])

    @plainp("llvm.memmove.")
    def _(eng, st, fr, I, a):
        eng.memcpy(st, a[0], a[1], a[2])

    @plainp("llvm.memset.")
    def _(eng, st, fr, I, a):
        eng.memset(st, a[0], a[1], a[2])

    @plain("memcpy", "memmove")
    def _(eng, st, fr, I, a):
        eng.memcpy(st, a[0], a[1], a[2])
        return a[0]

    @plain("memset")
    def _(eng, st, fr, I, a):
        eng.memset(st, a[0], a[1] & 0xFF if a[1].__class__ is int else a[1], a[2])
        return a[0]

    @plain("memcmp", "strncmp", "bcmp")
    def _(eng, st, fr, I, a):
        n = eng.concretize(st, a[2])
        isstr = I[2] == "strncmp"
        for k in range(n):
            x = eng.load(st, (a[0] + k) & G.M64, 1, 0)
            y = eng.load(st, (a[1] + k) & G.M64, 1, 0)
            if x is UNDEF or y is UNDEF:
                raise G.Violation("memory-safety", "comparison of uninitialised memory")
            c = eng.icmp(st, x, y, 32, 8)
            if not eng.decide(st, c):
                lt = eng.icmp(st, x, y, 36, 8)
                return 0xFFFFFFFF if eng.decide(st, lt) else 1
            if isstr and x.__class__ is int and x == 0:
                return 0
        return 0

    @plain("strlen", "_ZNSt11char_traitsIcE6lengthEPKc")
    def _(eng, st, fr, I, a):
        n = 0
        p = eng.concretize(st, a[0])
        while True:
            b = eng.load(st, p + n, 1, 0, "strlen")
            if b is UNDEF:
                raise G.Violation("memory-safety", "strlen of uninitialised memory")
            z = eng.icmp(st, b, 0, 32, 8)
            if eng.decide(st, z):
                return n
            n += 1

    @plain("strcmp")
    def _(eng, st, fr, I, a):
        x = eng.cstr(st, a[0]); y = eng.cstr(st, a[1])
        return 0 if x == y else (1 if x > y else 0xFFFFFFFF)

    @plain("memchr")
    def _(eng, st, fr, I, a):
        n = eng.concretize(st, a[2])
        ch = a[1] & 0xFF if a[1].__class__ is int else eng.simp(z3.Extract(7, 0, a[1]))
        for k in range(n):
            b = eng.load(st, a[0] + k, 1, 0)
            if b is UNDEF:
                raise G.Violation("memory-safety", "memchr over uninitialised memory")
            if eng.decide(st, eng.icmp(st, b, ch, 32, 8)):
                return a[0] + k
        return 0

    @plainp("llvm.umax.")
    def _(eng, st, fr, I, a): return pick(eng, st, a, 34, I)
    @plainp("llvm.umin.")
    def _(eng, st, fr, I, a): return pick(eng, st, a, 36, I)
    @plainp("llvm.smax.")
    def _(eng, st, fr, I, a): return pick(eng, st, a, 38, I)
    @plainp("llvm.smin.")
    def _(eng, st, fr, I, a): return pick(eng, st, a, 40, I)

    def pick(eng, st, a, p, I):
        w = I[9][1]
        c = eng.icmp(st, a[0], a[1], p, w)
        return a[0] if eng.decide(st, c) else a[1]

    @plainp("llvm.abs.")
    def _(eng, st, fr, I, a):
        w = I[9][1]
        c = eng.icmp(st, a[0], 0, 40, w)
        if eng.decide(st, c):
            return (-a[0]) & ((1 << w) - 1) if a[0].__class__ is int else eng.simp(-a[0])
        return a[0]

    @plain("abs", "labs", "llabs")
    def _(eng, st, fr, I, a):
        w = I[9][1]
        c = eng.icmp(st, a[0], 0, 40, w)
        if eng.decide(st, c):
            return (-a[0]) & ((1 << w) - 1) if a[0].__class__ is int else eng.simp(-a[0])
        return a[0]

    @plainp("llvm.ctlz.")
    def _(eng, st, fr, I, a):
        w = I[9][1]
        return w - eng.concretize(st, a[0]).bit_length()

    @plainp("llvm.cttz.")
    def _(eng, st, fr, I, a):
        v = eng.concretize(st, a[0])
        return (v & -v).bit_length() - 1 if v else I[9][1]

    @plainp("llvm.ctpop.")
    def _(eng, st, fr, I, a):
        return bin(eng.concretize(st, a[0])).count("1")

    @plainp("llvm.uadd.with.overflow")
    def _(eng, st, fr, I, a):
        w = I[9][1][0][0][1]
        s = a[0] + a[1]
        return [s & ((1 << w) - 1), int(s >> w != 0)]

    @plainp("llvm.umul.with.overflow")
    def _(eng, st, fr, I, a):
        w = I[9][1][0][0][1]
        x, y = eng.concretize(st, a[0]), eng.concretize(st, a[1])
        s = x * y
        return [s & ((1 << w) - 1), int(s >> w != 0)]

    @plainp("llvm.usub.sat")
    def _(eng, st, fr, I, a):
        x, y = eng.concretize(st, a[0]), eng.concretize(st, a[1])
        return max(0, x - y)

    @plainp("llvm.expect")
    def _(eng, st, fr, I, a):
        return a[0]

    @plainp("llvm.launder")
    def _(eng, st, fr, I, a):
        return a[0]

    @plainp("llvm.is.constant")
    def _(eng, st, fr, I, a):
        return 0

    @plainp("llvm.objectsize")
    def _(eng, st, fr, I, a):
        return G.M64

    @plain("llvm.stacksave", "llvm.stacksave.p0")
    def _(eng, st, fr, I, a):
        return 0

    @plainp("llvm.stackrestore")
    def _(eng, st, fr, I, a):
        return None

    @plainp("llvm.prefetch")
    def _(eng, st, fr, I, a):
        return None

    @plain("llvm.trap", "abort")
    def _(eng, st, fr, I, a):
        raise G.Violation("memory-safety", "abort/trap reached")

    @plain("__assert_fail")
    def _(eng, st, fr, I, a):
        raise G.Violation("assertion", "assert(%s) failed at %s:%s" % (text(eng, st, a[0]), text(eng, st, a[1]), a[2]))

    @plain("_ZSt21__glibcxx_assert_failPKciS0_S0_")
    def _(eng, st, fr, I, a):
        raise G.Violation("memory-safety", "libstdc++ assertion failed")

    @plain("_ZSt9terminatev")
    def _(eng, st, fr, I, a):
        raise G.Violation("no-uncaught-exception", "std::terminate reached")

    @plain("__clang_call_terminate")
    def _(eng, st, fr, I, a):
        raise G.Violation("no-uncaught-exception", "exception escapes a noexcept function")

    @plain("__cxa_pure_virtual")
    def _(eng, st, fr, I, a):
        raise G.Violation("memory-safety", "pure virtual call")

    # ---- allocation, guards, atexit ---------------------------------------------------------------
    @plain("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t")
    def _(eng, st, fr, I, a):
        n = eng.concretize(st, a[0], "allocation size")
        if n > 1 << 26:
            eng.throw_std(st, "_ZTISt9bad_alloc")
            return NR
        return eng.alloc(st, n, "heap", "new %d" % n)

    @plain("_ZdlPv", "_ZdaPv", "_ZdlPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvm")
    def _(eng, st, fr, I, a):
        eng.free(st, a[0])
        return None

    @plain("__cxa_atexit", "atexit", "__cxa_thread_atexit")
    def _(eng, st, fr, I, a):
        return 0

    @plain("__cxa_guard_acquire")
    def _(eng, st, fr, I, a):
        v = eng.load(st, a[0], 1, 0)
        return 0 if v == 1 else 1

    @plain("__cxa_guard_release", )
    def _(eng, st, fr, I, a):
        eng.store(st, a[0], 1, 1, 0)
        return None

    @plain("__cxa_guard_abort")
    def _(eng, st, fr, I, a):
        return None

    # ---- exceptions ---------------------------------------------------------------------------------
    @plain("__cxa_allocate_exception")
    def _(eng, st, fr, I, a):
        return eng.alloc(st, a[0], "heap", "exception")

    @plain("__cxa_free_exception")
    def _(eng, st, fr, I, a):
        eng.free(st, a[0])
        return None

    @plain("__cxa_throw")
    def _(eng, st, fr, I, a):
        eng.throw(st, a[0], a[1])
        return NR

    @plain("__cxa_begin_catch")
    def _(eng, st, fr, I, a):
        st.caught.append(st.exc)
        return a[0]

    @plain("__cxa_end_catch")
    def _(eng, st, fr, I, a):
        if st.caught:
            st.caught.pop()
        return None

    @plain("__cxa_get_exception_ptr")
    def _(eng, st, fr, I, a):
        return a[0]

    @plain("__cxa_rethrow")
    def _(eng, st, fr, I, a):
        e = st.caught[-1]
        eng.throw(st, e[0], e[1])
        return NR

    @plainp("llvm.eh.typeid.for")
    def _(eng, st, fr, I, a):
        return eng.typeid(a[0])

    @plain("__dynamic_cast")
    def _(eng, st, fr, I, a):
        p = eng.concretize(st, a[0])
        if p == 0:
            return 0
        vptr = eng.load(st, p, 8, 0)
        ti = eng.load(st, vptr - 8, 8, 0)
        top = G.to_signed(eng.load(st, vptr - 16, 8, 0), 64)
        off = eng.derives(ti, a[2])
        if off is None:
            return 0
        return (p + top + off) & G.M64

    for nm, ti in (("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"), ("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"),
                   ("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"), ("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"),
                   ("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"), ("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"),
                   ("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"), ("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"),
                   ("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"), ("_ZSt20__throw_runtime_errorPKc", "_ZTISt13runtime_error"),
                   ("_ZSt26__throw_bad_variant_accessPKc", "_ZTISt18bad_variant_access")):
        def mk2(nm, ti):
            @reg(nm)
            def _(eng, st, fr, I, a):
                eng.throw_std(st, ti)
                return NR
        mk2(nm, ti)

    for cls in ("12length_error", "12out_of_range", "16invalid_argument", "12domain_error", "11logic_error", "13runtime_error", "11range_error"):
        for c in ("C1", "C2"):
            for arg in ("EPKc", "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "ERKS_"):
                @reg("_ZNSt%s%s%s" % (cls, c, arg))
                def _(eng, st, fr, I, a):
                    return None
        for c in ("D0", "D1", "D2"):
            @reg("_ZNSt%s%sEv" % (cls, c))
            def _(eng, st, fr, I, a):
                return None
    for n in ("_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD0Ev"):
        @reg(n)
        def _(eng, st, fr, I, a):
            return None

    # ---- red-black tree helpers of libstdc++ (unbalanced but order preserving), see support.cpp -----------
    @reg("_ZSt11_Hash_bytesPKvmm")
    def _(eng, st, fr, I, a):
        n = eng.concretize(st, a[1])
        h = 1469598103934665603 ^ (a[2] & G.M64)
        for k in range(n):
            b = eng.load(st, a[0] + k, 1, 0)
            if b is UNDEF:
                raise G.Violation("memory-safety", "hash of uninitialised memory")
            if b.__class__ is not int:
                b = eng.concretize(st, b)
            h = ((h ^ b) * 1099511628211) & G.M64
        return h

    # std::hash<double>: an uninterpreted function of the value
    @reg("_ZNKSt4hashIdEclEd")
    def _(eng, st, fr, I, a):
        x = a[1]
        if x.__class__ is not R:
            if x == 0:
                return 0
            if x.__class__ is float:
                return {math.inf: 0x1111111111111, -math.inf: 0x2222222222222}.get(x, 0x333333333)
            return (hash(Fraction(x)) * 0x9E3779B97F4A7C15 + 12345) & G.M64
        k = ("hash", x.key())
        i, new = Q.intern_atom("hashd", (x.key(),))
        return z3.BitVec("hashd%d" % i, 64)

    # ---- streams (message formatting and repr) ---------------------------------------------------------
    SS = "NSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE"
    SS2 = "NSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE"

    def streams(st):
        g = st.ghost.get("streams")
        if g is None:
            g = {}
            st.ghost["streams"] = g
        return g

    def read_string(eng, st, p):
        """bytes (ints / BVs) of a std::string object at p"""
        d = eng.load(st, p, 8, 0)
        n = eng.concretize(st, eng.load(st, p + 8, 8, 0))
        return [eng.load(st, d + k, 1, 0) for k in range(n)]

    def write_string(eng, st, p, bs):
        """construct a std::string in the raw memory at p"""
        n = len(bs)
        if n < 16:
            d = p + 16
        else:
            d = eng.alloc(st, n + 1, "heap", "string data")
            eng.store(st, p + 16, n, 8, 0)
        eng.store(st, p, d, 8, 0)
        eng.store(st, p + 8, n, 8, 0)
        for k, b in enumerate(bs):
            eng.store(st, d + k, b, 1, 0)
        eng.store(st, d + n, 0, 1, 0)

    E.read_string = read_string
    E.write_string = write_string

    # virtual-base offsets of the stream objects (Itanium ABI layout of libstdc++): basic_ios of an (i)stringstream
    def vptrs(eng, st, p, big):
        def tbl(off):
            t = eng.alloc(st, 32, "heap", "stream vtable")
            eng.store(st, t, off, 8, 0)
            return t + 24
        if big:
            eng.store(st, p, tbl(128), 8, 0)
            eng.store(st, p + 16, tbl(112), 8, 0)
        else:
            eng.store(st, p, tbl(112), 8, 0)

    for nm in (SS, SS2):
        for c in ("C1", "C2"):
            for suf in ("Ev", "ESt13_Ios_Openmode"):
                @reg("_Z%s%s%s" % ("N" + nm[1:], c, suf) if False else "_Z" + nm + c + suf)
                def _(eng, st, fr, I, a, big=nm is SS2):
                    streams(st)[a[0]] = []
                    vptrs(eng, st, a[0], big)
                    return None
            for suf in ("ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode", "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESt13_Ios_Openmode"):
                @reg("_Z" + nm + c + suf)
                def _(eng, st, fr, I, a, big=nm is SS2):
                    streams(st)[a[0]] = list(read_string(eng, st, a[1]))
                    vptrs(eng, st, a[0], big)
                    return None
        for c in ("D0", "D1", "D2"):
            @reg("_Z" + nm + c + "Ev")
            def _(eng, st, fr, I, a):
                for k in (a[0], ("fail", a[0]), ("pos", a[0])):
                    streams(st).pop(k, None)
                return None
        k = nm[1:]

        @reg("_ZNK" + k + "3strEv", "_ZNKR" + k + "3strEv")
        def _(eng, st, fr, I, a):
            # sret return of std::string
            write_string(eng, st, a[0], streams(st).get(a[1], []))
            return None

    # formatted input: libstdc++ collects the characters of a number and converts them (correctly rounded); text that is
    # no number or out of range sets failbit
    @reg("_ZNSi10_M_extractIdEERSiRT_", "_ZNSirsERd")
    def _(eng, st, fr, I, a):
        s = streams(st)
        bs = s.get(a[0])
        if bs is None:
            raise G.EngineError("extraction from an unknown stream")
        pos = s.get(("pos", a[0]), 0)
        if ("fail", a[0]) in s:
            return a[0]
        txt = "".join(chr(b if b.__class__ is int else eng.concretize(st, b)) for b in bs[pos:])
        lead = len(txt) - len(txt.lstrip(" \t\n\r\v\f"))
        m = re.match(r"[+-]?[0-9]*(\.[0-9]*)?([eE][+-]?[0-9]*)?", txt[lead:], re.ASCII)
        s[("pos", a[0])] = pos + lead + len(m.group(0))
        try:
            v = float(m.group(0))
        except ValueError:
            v = 0.0
            s[("fail", a[0])] = True
        if math.isinf(v):
            v = math.copysign(1.7976931348623157e308, v)
            s[("fail", a[0])] = True
        eng.store(st, a[1], Fraction(v), 8, 1)
        return a[0]

    def ios_owner(st, p):
        s = streams(st)
        for d in (128, 120, 112):
            if p - d in s:
                return p - d
        raise G.EngineError("state of an unknown stream")

    @reg("_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv", "_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv")
    def _(eng, st, fr, I, a):
        return int(("fail", ios_owner(st, a[0])) in streams(st))

    @reg("_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv", "_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv")
    def _(eng, st, fr, I, a):
        return int(("fail", ios_owner(st, a[0])) not in streams(st))

    def append(eng, st, addr, bs):
        s = streams(st)
        cur = s.get(addr)
        if cur is None:
            # a base-class pointer (stringstream's ostream sits at +16)
            for d in (16, -16):
                if addr - d in s:
                    addr = addr - d
                    cur = s[addr]
                    break
            else:
                return
        s[addr] = cur + list(bs)

    @reg("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l")
    def _(eng, st, fr, I, a):
        n = eng.concretize(st, a[2])
        append(eng, st, a[0], [eng.load(st, a[1] + k, 1, 0) for k in range(n)])
        return a[0]

    @reg("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc")
    def _(eng, st, fr, I, a):
        append(eng, st, a[0], eng.cstr(st, a[1]))
        return a[0]

    @reg("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", "_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_S3_")
    def _(eng, st, fr, I, a):
        append(eng, st, a[0], [a[1] & 0xFF if a[1].__class__ is int else a[1]])
        return a[0]

    @reg("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE")
    def _(eng, st, fr, I, a):
        append(eng, st, a[0], read_string(eng, st, a[1]))
        return a[0]

    def num_out(name, width, signed):
        @reg(name)
        def _(eng, st, fr, I, a):
            v = a[1]
            if v.__class__ is not int:
                if z3.is_bv(v):
                    v = eng.concretize(st, v)
                else:
                    v = 0
            if signed:
                v = G.to_signed(v & ((1 << width) - 1), width)
            append(eng, st, a[0], str(v).encode())
            return a[0]
    num_out("_ZNSolsEi", 32, True)
    num_out("_ZNSolsEj", 32, False)
    num_out("_ZNSolsEl", 64, True)
    num_out("_ZNSolsEm", 64, False)
    num_out("_ZNSo9_M_insertImEERSoT_", 64, False)
    num_out("_ZNSo9_M_insertIlEERSoT_", 64, True)
    num_out("_ZNSolsEb", 8, False)
    num_out("_ZNSo9_M_insertIbEERSoT_", 8, False)

    @reg("_ZNSolsEd", "_ZNSo9_M_insertIdEERSoT_", "_ZNSolsEf")
    def _(eng, st, fr, I, a):
        v = a[1]
        append(eng, st, a[0], (b"<double>" if v.__class__ is R or v is UNDEF else (b"%g" % float(v))))
        return a[0]

    @reg("_ZNSolsEPFRSoS_E")
    def _(eng, st, fr, I, a):
        return a[0]

    @reg("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", "_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", "_ZNSo5flushEv")
    def _(eng, st, fr, I, a):
        return a[0]

    @reg("_ZNSo3putEc")
    def _(eng, st, fr, I, a):
        append(eng, st, a[0], [a[1] & 0xFF])
        return a[0]

    @reg("_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev")
    def _(eng, st, fr, I, a):
        return None

    # ---- formatted output, number parsing ----------------------------------------------------------------
    @plainp("llvm.va_start")
    def _(eng, st, fr, I, a):
        # variadic arguments of the current frame: kept by the call
        va = st.ghost.setdefault("va", {})
        va[a[0]] = list(eng.cur_varargs(st))
        return None

    @plainp("llvm.va_end")
    def _(eng, st, fr, I, a):
        return None

    @plainp("llvm.va_copy")
    def _(eng, st, fr, I, a):
        va = st.ghost.setdefault("va", {})
        va[a[0]] = list(va.get(a[1], []))
        return None

    def cur_varargs(st):
        # the frame that executes va_start was called by frames[-2]
        caller = st.frames[-2]
        CI = caller.callinst
        f = st.frames[-1].fn
        return [caller.regs[k] for k in CI[4][f.nparams:]]
    E.cur_varargs = cur_varargs

    def fmt(eng, st, f, args):
        import re
        out = []
        i = 0
        args = list(args)
        for m in re.finditer(rb"%(%|[-+ #0]*(?:\*|\d+)?(?:\.(\*|\d+))?(?:l|ll|z|h)?([a-zA-Z]))", f):
            out.append(f[i:m.start()])
            i = m.end()
            if m.group(1) == b"%":
                out.append(b"%")
                continue
            prec = m.group(2)
            if prec == b"*":
                prec = G.to_signed(args.pop(0), 32)
            elif prec is not None:
                prec = int(prec)
            conv = m.group(3).decode()
            v = args.pop(0)
            if conv in "gfe":
                if v.__class__ is R or v is UNDEF:
                    raise G.EngineError("formatting a symbolic double")
                out.append(("%%.%d%s" % (6 if prec is None else prec, conv) % float(v)).encode())
            elif conv in "di":
                out.append(str(G.to_signed(v & 0xFFFFFFFF, 32)).encode())
            elif conv == "u":
                out.append(str(v).encode())
            elif conv == "s":
                out.append(eng.cstr(st, v))
            else:
                raise G.EngineError("printf conversion " + conv)
        out.append(f[i:])
        return b"".join(out)

    @reg("vsnprintf")
    def _(eng, st, fr, I, a):
        va = st.ghost.get("va", {}).get(a[3], [])
        s = fmt(eng, st, eng.cstr(st, a[2]), va)
        n = eng.concretize(st, a[1])
        if n > 0:
            w = s[:n - 1] + b"\0"
            for k, b in enumerate(w):
                eng.store(st, a[0] + k, b, 1, 0)
        return len(s)

    @reg("snprintf")
    def _(eng, st, fr, I, a):
        s = fmt(eng, st, eng.cstr(st, a[2]), a[3:])
        n = eng.concretize(st, a[1])
        if n > 0:
            w = s[:n - 1] + b"\0"
            for k, b in enumerate(w):
                eng.store(st, a[0] + k, b, 1, 0)
        return len(s)

    @reg("__errno_location")
    def _(eng, st, fr, I, a):
        g = st.ghost.get("errno")
        if g is None:
            ad = eng.alloc(st, 4, "global", "errno")
            eng.store(st, ad, 0, 4, 0)
            st.ghost["errno"] = Box(ad)
            return ad
        return g.v

    @reg("strtod")
    def _(eng, st, fr, I, a):
        import re
        p = a[0]
        s = eng.cstr(st, p)
        m = re.match(rb"\s*[-+]?(\d+(\.\d*)?([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?|inf(inity)?|nan)", s, re.I)
        if m is None:
            eng.store(st, a[1], p, 8, 0) if a[1] else None
            return 0
        t = m.group(0).strip()
        if a[1]:
            eng.store(st, a[1], p + m.end(), 8, 0)
        low = t.lower().lstrip(b"+-")
        if low.startswith((b"inf", b"nan")):
            return float(t)
        f = float(t)
        if math.isinf(f) or (f == 0 and Fraction(t.decode()) != 0):
            e = IC["__errno_location"](eng, st, fr, I, [])
            eng.store(st, e, 34, 4, 0)
            return eng.from_double(f)
        return Q.norm(Fraction(t.decode()))

    @plain("#asm")
    def _(eng, st, fr, I, a):
        return a[0] if a else None

    @plain("isspace", "isdigit", "isalpha", "isalnum", "isupper", "islower", "ispunct", "tolower", "toupper")
    def _(eng, st, fr, I, a):
        v = a[0]
        n = I[2]
        if v.__class__ is int:
            c = chr(v & 0xFF)
            asc = ord(c) < 128
            if n == "tolower": return ord(c.lower()) if asc else v
            if n == "toupper": return ord(c.upper()) if asc else v
            r = {"isspace": c in " \t\n\v\f\r", "isdigit": asc and c.isdigit(), "isalpha": asc and c.isalpha(), "isalnum": asc and c.isalnum(),
                 "isupper": asc and c.isupper(), "islower": asc and c.islower(), "ispunct": asc and c.isprintable() and not c.isalnum() and c != " "}[n]
            return int(r)

        def rng(lo, hi):
            return z3.And(v >= ord(lo), v <= ord(hi))
        digit = rng("0", "9")
        alpha = z3.Or(rng("a", "z"), rng("A", "Z"))
        if n == "isspace":
            e = z3.Or(v == 32, z3.And(v >= 9, v <= 13))
        elif n == "isdigit":
            e = digit
        elif n == "isalpha":
            e = alpha
        elif n == "isalnum":
            e = z3.Or(alpha, digit)
        else:
            raise G.EngineError(n + " of symbolic")
        return int(eng.decide(st, eng.simp_b(e)))


class Box:
    def __init__(self, v):
        self.v = v


