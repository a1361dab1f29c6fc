"""Exact symbolic reals: rational functions over named atoms, in canonical form.

A finite real value is a Python int / Fraction (concrete) or an R (symbolic).  The IEEE specials
+inf, -inf and nan are Python floats.  Arithmetic is mathematical (no rounding, no overflow): this
is recorded as an assumption in every evidence file.
"""
from fractions import Fraction
import math

INF = math.inf
NINF = -math.inf
NAN = math.nan

# --- atoms ------------------------------------------------------------------------------------
atom_name = []      # id -> printable name
atom_info = []      # id -> (kind, args)
atom_rule = {}      # id -> (degree, poly)   atom^degree rewrites to poly
_atom_index = {}    # (kind, args) -> id


def reset():
    atom_name.clear(); atom_info.clear(); atom_rule.clear(); _atom_index.clear()
    fac_poly.clear(); _fac_index.clear()


def new_atom(name, kind="input", args=()):
    i = len(atom_name)
    atom_name.append(name)
    atom_info.append((kind, args))
    return i


def intern_atom(kind, args, name=None):
    key = (kind, args)
    i = _atom_index.get(key)
    if i is None:
        i = new_atom(name or "%s!%d" % (kind, len(atom_name)), kind, args)
        _atom_index[key] = i
        return i, True
    return i, False


# --- polynomials: dict monomial -> coefficient ---------------------------------------------------
def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    r = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            r.append((va, ea + eb)); i += 1; j += 1
        elif va < vb:
            r.append(a[i]); i += 1
        else:
            r.append(b[j]); j += 1
    r.extend(a[i:]); r.extend(b[j:])
    return tuple(r)


def p_add(a, b, sb=1):
    if len(a) < len(b) and sb == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if sb == 1 else sb * c)
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: norm(c * k) for m, c in a.items()}


def norm(c):
    if c.__class__ is Fraction and c.denominator == 1:
        return c.numerator
    return c


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    need_reduce = False
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = mono_mul(ma, mb)
            v = r.get(m, 0) + ca * cb
            r[m] = v
    r = {m: norm(c) for m, c in r.items() if c != 0}
    if atom_rule:
        r = p_reduce(r)
    return r


def p_reduce(r):
    while True:
        for m in r:
            for v, e in m:
                rule = atom_rule.get(v)
                if rule and e >= rule[0]:
                    break
            else:
                continue
            break
        else:
            return r
        c = r.pop(m)
        k, rem = divmod(e, rule[0])
        rest = tuple(x for x in m if x[0] != v)
        if rem:
            rest = mono_mul(rest, ((v, rem),))
        t = {rest: c}
        for _ in range(k):
            t2 = {}
            for ma, ca in t.items():
                for mb, cb in rule[1].items():
                    mm = mono_mul(ma, mb)
                    t2[mm] = t2.get(mm, 0) + ca * cb
            t = t2
        r = p_add(r, {m_: norm(c_) for m_, c_ in t.items() if c_ != 0})


def p_const(c):
    return {(): c} if c != 0 else {}


def p_is_const(p):
    return not p or (len(p) == 1 and () in p)


ONE = {(): 1}


def p_pow(p, n):
    r = ONE
    while n:
        if n & 1:
            r = p_mul(r, p)
        n >>= 1
        if n:
            p = p_mul(p, p)
    return r


def p_key(p):
    return frozenset(p.items())


def p_lead(p):
    return max(p, key=_mono_order)


def _mono_order(m):
    # graded lexicographic
    return (sum(e for _, e in m), tuple((-v, e) for v, e in m))


def primitive(p):
    """Return (content, primitive part) with integer coprime coefficients and positive leading coeff."""
    if not p:
        return 0, p
    from math import gcd
    den = 1
    for c in p.values():
        if c.__class__ is Fraction:
            den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in p.values():
        g = gcd(g, int(c * den))
    content = Fraction(g, den)
    if p[p_lead(p)] < 0:
        content = -content
    content = norm(content)
    if content == 1:
        return 1, p
    return content, {m: norm(Fraction(c) / content) for m, c in p.items()}


def p_exact_div(a, b):
    """Exact multivariate division a/b or None.  Only used when no rewriting atoms of b interfere."""
    lb = p_lead(b)
    cb = b[lb]
    db = dict(lb)
    q = {}
    a = dict(a)
    steps = 0
    while a:
        steps += 1
        if steps > 400:
            return None
        la = p_lead(a)
        da = dict(la)
        for v, e in db.items():
            if da.get(v, 0) < e:
                return None
        m = tuple(sorted((v, e - db.get(v, 0)) for v, e in da.items() if e != db.get(v, 0)))
        c = norm(Fraction(a[la]) / cb)
        q[m] = q.get(m, 0) + c
        for mb, cbb in b.items():
            mm = mono_mul(m, mb)
            val = a.get(mm, 0) - c * cbb
            if val == 0:
                a.pop(mm, None)
            else:
                a[mm] = norm(val)
    return q


# --- interned denominator factors ----------------------------------------------------------------
fac_poly = []
_fac_index = {}


def intern_factor(p):
    k = p_key(p)
    i = _fac_index.get(k)
    if i is None:
        i = len(fac_poly)
        fac_poly.append(p)
        _fac_index[k] = i
    return i


class R:
    """num / prod(factor_i ^ e_i), non constant."""
    __slots__ = ("num", "den", "_h")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (p_key(self.num), self.den)
        return self._h

    def __repr__(self):
        s = p_str(self.num)
        if self.den:
            s = "(%s)/%s" % (s, "*".join("(%s)%s" % (p_str(fac_poly[f]), "^%d" % e if e > 1 else "") for f, e in self.den))
        return s


def p_str(p):
    if not p:
        return "0"
    out = []
    for m in sorted(p, key=_mono_order, reverse=True):
        c = p[m]
        t = "*".join(atom_name[v] + ("^%d" % e if e > 1 else "") for v, e in m)
        if not t:
            out.append(str(c))
        elif c == 1:
            out.append(t)
        else:
            out.append("%s*%s" % (c, t))
    return " + ".join(out)


def mk(num, den=()):
    """Normalise to int/Fraction/R, cancelling common factors."""
    if not num:
        return 0
    if den:
        nd = []
        for f, e in den:
            fp = fac_poly[f]
            while e > 0:
                if len(num) < len(fp) or len(num) > 600:
                    break
                if len(fp) == 1:
                    # single atom
                    (fm, fc), = fp.items()
                    v, ve = fm[0]
                    if all(any(vv == v and ee >= ve for vv, ee in m) for m in num):
                        num2 = {}
                        for m, c in num.items():
                            num2[tuple((vv, ee - ve if vv == v else ee) for vv, ee in m if not (vv == v and ee == ve))] = c
                        num = num2
                        e -= 1
                        continue
                    break
                q = p_exact_div(num, fp)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                nd.append((f, e))
        den = tuple(nd)
    if not den and len(num) == 1 and () in num:
        return norm(num[()])
    return R(num, den)


def num_den(a):
    if a.__class__ is R:
        return a.num, a.den
    return p_const(a), ()


def den_expand(den):
    r = ONE
    for f, e in den:
        r = p_mul(r, p_pow(fac_poly[f], e))
    return r


def add(a, b, sb=1):
    an, ad = num_den(a)
    bn, bd = num_den(b)
    if ad == bd:
        return mk(p_add(an, bn, sb), ad)
    da, db = dict(ad), dict(bd)
    l = dict(da)
    for f, e in db.items():
        if l.get(f, 0) < e:
            l[f] = e
    ma = ONE
    mb = ONE
    for f, e in l.items():
        x = e - da.get(f, 0)
        if x:
            ma = p_mul(ma, p_pow(fac_poly[f], x))
        x = e - db.get(f, 0)
        if x:
            mb = p_mul(mb, p_pow(fac_poly[f], x))
    return mk(p_add(p_mul(an, ma), p_mul(bn, mb), sb), tuple(sorted(l.items())))


def neg(a):
    if a.__class__ is R:
        return R({m: -c for m, c in a.num.items()}, a.den)
    return -a


def mul(a, b):
    if a.__class__ is not R:
        if b.__class__ is not R:
            return norm(a * b)
        a, b = b, a
    if b.__class__ is not R:
        if b == 0:
            return 0
        return R(p_scale(a.num, b), a.den)
    d = dict(a.den)
    for f, e in b.den:
        d[f] = d.get(f, 0) + e
    return mk(p_mul(a.num, b.num), tuple(sorted(d.items())))


def inv(b):
    """1/b, b symbolic and known nonzero."""
    if b.__class__ is not R:
        return norm(Fraction(1) / b)
    content, pp = primitive(b.num)
    facs = {}
    num = den_expand(b.den)
    # split off monomial content
    common = None
    for m in pp:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {v: min(e, d[v]) for v, e in common.items() if v in d}
        if not common:
            break
    if common:
        pp = {tuple((v, e - common.get(v, 0)) for v, e in m if e != common.get(v, 0)): c for m, c in pp.items()}
        for v, e in common.items():
            facs[intern_factor({((v, 1),): 1})] = e
    if not p_is_const(pp):
        f = intern_factor(pp)
        facs[f] = facs.get(f, 0) + 1
    return mk(p_scale(num, norm(Fraction(1) / content)), tuple(sorted(facs.items())))


def div(a, b):
    if b.__class__ is not R:
        if a.__class__ is not R:
            return norm(Fraction(a) / b)
        return R(p_scale(a.num, norm(Fraction(1) / b)), a.den)
    if a.__class__ is not R and a == 0:
        return 0
    return mul(a, inv(b))


def sign_poly(a):
    """Polynomial whose sign equals the sign of the real a (den factors known nonzero)."""
    if a.__class__ is not R:
        return p_const(a)
    n = a.num
    for f, e in a.den:
        if e & 1:
            n = p_mul(n, fac_poly[f])
    return n


def atom(i):
    return R({((i, 1),): 1})


def substitute_floats(p, env):
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for v, e in m:
            t *= env[v] ** e
        s += t
    return s


def vars_of(p, out=None):
    if out is None:
        out = set()
    for m in p:
        for v, _ in m:
            out.add(v)
    return out
