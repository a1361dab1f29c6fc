"""Loop invariants found automatically (Houdini) for the loops of the functions a contract names with vc_invariants().

At the first arrival at the header of the outermost loop of such a function the loop-carried values (phis of the header
and every memory cell the body changes) are generalised: integers and infinities to the finite set of values they take
(or to an arbitrary integer), finite reals to arbitrary reals constrained by the largest set of candidate relations
(t R u, t R 0, same/different sign, over the loop-carried reals and the terms registered with vc_term) that holds on entry
and is preserved by every iteration.  Every candidate kept is proved by the same back ends as any other obligation, the
search only ever weakens, and the run that continues from the loop head proves preservation once more as the obligation
`loop-invariant`."""
import z3
from . import engine as G, solver as S, real as Q
from .real import R
from .engine import UNDEF, SC, OBJ_SHIFT, to_signed

MAXSET = 3
RELS = (("==", S.ZER), ("<", S.NEG), (">", S.POS), ("<=", S.NEG | S.ZER), (">=", S.POS | S.ZER))


class Loop:
    pass


def header_of(f):
    if f.headers is None:
        f.headers = set()
        for I in f.code:
            for x in (list(I[3].values()) + [I[4]] if len(I) > 4 and I[3].__class__ is dict else I):
                if x.__class__ is list and len(x) == 4 and x[1].__class__ is tuple and x[2] <= x[3]:
                    f.headers.add(x[2])
    return min(f.headers) if f.headers else None


def edge(eng, st, fr, e):
    """Called for every branch edge taken in a frame with automatic invariants.  True if the edge was dealt with."""
    h = header_of(fr.fn)
    if h is None or e[2] != h:
        return False
    L = fr.snap
    back = e[2] <= e[3]
    if L == "auto":
        if back:
            raise G.EngineError("loop entered other than through its header")
        eng.take(fr, e)
        start(eng, st, fr, e)
        return True
    if not back:
        raise G.EngineError("loop re-entered")
    eng.take(fr, e)
    if L.probing is not None:
        L.probing.append(st)
        raise G.PathEnd("loop-arrival")
    check_back(eng, st, fr, L)
    raise G.PathEnd("end")


def frame_of(st, L):
    return st.frames[L.depth]


def kind_of(eng, v):
    """discrete abstraction of a value: ('c', v) fixed, ('r',) finite real, ('i', width) arbitrary integer, ('u',) undefined"""
    if v is UNDEF:
        return ("u",)
    if v.__class__ is float:
        return ("c", v)
    if v.__class__ is R:
        return ("r",)
    return None


def locs(L):
    return [("reg", r) for r, _ in L.phis] + [("mem",) + k for k in sorted(L.mod)]


def get(st, L, loc):
    if loc[0] == "reg":
        return frame_of(st, L).regs[loc[1]]
    o = st.objs.get(loc[1])
    if o is None:
        return UNDEF
    c = o.data.get(loc[2])
    return c[2] if c is not None else UNDEF


def ty_of(L, loc):
    if loc[0] == "reg":
        t = L.phity[loc[1]]
        return ("fp", 8) if t[0] == "fp" else (t[0], t[2])
    size, k = L.mod[loc[1:]]
    return ("fp", size) if k == 1 else ("int", size)


def combo(st, L):
    """discrete part of an arrival state"""
    out = []
    for loc in locs(L):
        v = get(st, L, loc)
        t = ty_of(L, loc)
        if v is UNDEF:
            out.append(("u",))
        elif t[0] == "fp":
            out.append(("c", v) if v.__class__ is float else ("r",))
        elif v.__class__ is int:
            if loc in L.top:
                out.append(("i",))
            else:
                s = L.seen.setdefault(loc, set())
                s.add(v)
                if len(s) > MAXSET:
                    L.top.add(loc)
                    raise Restart()
                out.append(("c", v))
        elif v.__class__ is list or v.__class__ is tuple:
            raise G.EngineError("aggregate carried by a loop")
        else:
            if z3.is_bool(v) or v.__class__ is SC:
                raise G.EngineError("symbolic truth value carried by a loop")
            if loc not in L.top:
                L.top.add(loc)
                raise Restart()
            out.append(("i",))
    return tuple(out)


class Restart(Exception):
    pass


def terms(st, L):
    out = []
    for loc in locs(L):
        if ty_of(L, loc)[0] == "fp":
            v = get(st, L, loc)
            out.append(v)
    for a in L.terms:
        out.append(st.objs[a >> OBJ_SHIFT].data[(a & G.OBJ_MASK) - G.OBJ_BASE][2])
    out.append(0)
    return out


def candidates(L, n):
    """indices into terms(); the last term is 0"""
    out = []
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(len(RELS)):
                out.append((i, j, k))
            if j < n - 1:
                out.append((i, j, "s"))
                out.append((i, j, "o"))
    return out


def cond_of(eng, ts, c):
    i, j, k = c
    a, b = ts[i], ts[j]
    if a is UNDEF or b is UNDEF or a != a or b != b:
        return None
    if k == "s" or k == "o":
        p, q = eng.r_cmp(a, 0, S.NEG), eng.r_cmp(b, 0, S.NEG)
        if p.__class__ is int and q.__class__ is int:
            return int((p == q) == (k == "s"))
        p, q = S.to_z3(p) if p.__class__ is not int else z3.BoolVal(bool(p)), S.to_z3(q) if q.__class__ is not int else z3.BoolVal(bool(q))
        return p == q if k == "s" else p != q
    if a.__class__ is float and b.__class__ is float:
        s = S.ZER if a == b else S.NEG if a < b else S.POS
        return int(bool(s & RELS[k][1]))
    return eng.r_cmp(a, b, RELS[k][1])


def ev(model, c):
    if c.__class__ is int or c.__class__ is bool:
        return bool(c)
    if model is None:
        return None
    try:
        r = model.eval(S.to_z3(c), True)
        return True if z3.is_true(r) else False if z3.is_false(r) else None
    except Exception:
        return None


def holds(eng, st, conds, ms=3000):
    """subset of the candidate indices whose condition is proved on this path"""
    base = eng.all_cons(st)
    out, live = set(), []
    for k, c in conds:
        if c is None:
            continue
        if c.__class__ is int or c.__class__ is bool:
            if c: out.add(k)
            continue
        kn = st.pc.known(c)
        if kn is True: out.add(k)
        elif kn is None: live.append((k, c))
    if not live:
        return out
    zs = [S.to_z3(x) for x in base]
    s = S.solver_for(base + [c for _, c in live], ms)
    s.add(*zs)
    S.stats["z3_queries"] += 1
    t0 = G.time.time()
    r = s.check()
    if r == z3.unsat:
        return None         # infeasible arrival
    if r == z3.sat:
        m = s.model()
        live = [(k, c) for k, c in live if ev(m, c) is not False]
    # classical Houdini step: all together, dropping what a model refutes
    while live:
        s.push()
        s.add(z3.Or([z3.Not(S.to_z3(c)) for _, c in live]) if len(live) > 1 else z3.Not(S.to_z3(live[0][1])))
        S.stats["z3_queries"] += 1
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        if r == z3.unsat:
            out |= {k for k, _ in live}
            live = []
            break
        if r != z3.sat:
            break
        n = len(live)
        live = [(k, c) for k, c in live if ev(m, c) is not False]
        if len(live) == n:
            break
    for k, c in live:       # undecided together: one by one
        if G.time.time() - t0 > 20 and len(live) > 40:
            break           # dropping candidates is always sound
        n = S.negate(c)
        r, _ = S.check(st.pc.slice([n]) + [n], 500, pc=st.pc, target=n)
        if r == "unsat":
            out.add(k)
    S.stats["z3_time"] += G.time.time() - t0
    return out


def fresh(L, loc, t, kind):
    key = (loc, kind)
    v = L.fresh.get(key)
    if v is None:
        if kind[0] == "r":
            v = Q.atom(Q.new_atom("loop_%s_%d" % ("_".join(str(x) for x in loc), len(Q.atom_name)), "input"))
        else:
            v = z3.BitVec("loop_%d_%s" % (id(L), "_".join(str(x) for x in loc)), t[1] * 8)
        L.fresh[key] = v
    return v


def generalise(eng, L, cb, cand):
    """arbitrary state at the loop head with discrete part cb, satisfying the candidates"""
    st = L.s0.clone()
    fr = frame_of(st, L)
    for loc, k in zip(locs(L), cb):
        t = ty_of(L, loc)
        v = UNDEF if k[0] == "u" else k[1] if k[0] == "c" else fresh(L, loc, t, k)
        if loc[0] == "reg":
            fr.regs[loc[1]] = v
        else:
            o = st.objs[loc[1]]
            o = eng.writable(st, o, loc[1])
            if v is UNDEF:
                o.data.pop(loc[2], None)
            else:
                o.data[loc[2]] = (L.mod[loc[1:]][0], L.mod[loc[1:]][1], v)
    st.pc.model = {}
    ts = terms(st, L)
    for c in sorted(cand, key=str):
        x = cond_of(eng, ts, c)
        if x is None or x.__class__ is int or x.__class__ is bool:
            if x == 0:
                return None
            continue
        if st.pc.known(x) is not True and not st.pc.add(x):
            return None
    return st


def diff(eng, L, st, head):
    """memory cells changed between the loop head state and an arrival"""
    new = False
    for oid, o in st.objs.items():
        old = head.objs.get(oid)
        if old is o:
            continue
        if old is None:
            if o.data and o.kind in ("stack", "heap"):
                raise G.EngineError("loop body leaves a live local object (%s)" % o.name)
            continue
        if old.data is o.data:
            continue
        for off in old.data.keys() | o.data.keys():
            a, b = old.data.get(off), o.data.get(off)
            if a is b or a == b:
                continue
            if (oid, off) in L.mod:
                if b is not None and b[:2] != L.mod[(oid, off)]:
                    raise G.EngineError("loop changes the layout of an object (%s)" % o.name)
                continue
            x = b or a
            if a is not None and b is not None and a[:2] != b[:2]:
                raise G.EngineError("loop changes the layout of an object (%s)" % o.name)
            L.mod[(oid, off)] = x[:2]
            new = True
    return new


def start(eng, st, fr, e):
    L = Loop()
    L.depth = st.frames.index(fr)
    f = fr.fn
    L.phis = f.hphis.get(e[2], [])
    L.phity = {r: t for r, t in L.phis}
    L.mod, L.top, L.seen, L.fresh = {}, set(), {}, {}
    L.terms = [a for a in st.ghost.get("terms", ())]
    L.probing = None
    L.s0 = st.clone()
    frame_of(L.s0, L).snap = L
    rounds = 0
    while True:
        rounds += 1
        if rounds > 60:
            raise G.Limit("loop invariant search")
        try:
            cands, heads = search(eng, L)
            break
        except Restart:
            continue
    states = [generalise(eng, L, cb, c) for cb, c in sorted(cands.items(), key=str)]
    states = [s for s in states if s is not None]
    L.cands = cands
    L.heads = {cb: s for cb, s in zip(sorted(cands, key=str), states)}
    L.probing = None
    if not states:
        raise G.PathEnd("infeasible")
    for s in states[1:]:
        eng.cur_work.append(s)
    eng.warnings.add("loop invariant of %s: %d locations, %d relations" % (f.name[:60], len(cands), sum(len(c) for c in cands.values())))
    st.__dict__.update(states[0].__dict__)


def arrive(eng, L, cands, s, conds_for=None):
    """merge an arrival into the candidate map; returns the combo if something changed"""
    cb = combo(s, L)
    ts = terms(s, L)
    n = len(ts)
    old = cands.get(cb)
    pool = candidates(L, n) if old is None else old
    good = holds(eng, s, [(c, cond_of(eng, ts, c)) for c in sorted(pool, key=str)])
    if good is None:
        return None
    # a candidate without meaning here (undefined or not a number) is dropped by holds()
    if old is None or good != old:
        cands[cb] = good
        return cb
    return None


def search(eng, L):
    cands = {}
    L.probing = None
    cb = arrive(eng, L, cands, L.s0)
    queue = [cb]
    heads = {}
    while queue:
        cb = queue.pop(0)
        head = generalise(eng, L, cb, cands[cb])
        if head is None:
            continue
        heads[cb] = head
        arrivals = []
        L.probing = arrivals
        s = head.clone()

        def left(eng_, st_, v_):
            raise G.PathEnd("loop-exit")
        s.frames[L.depth].on_return = left
        work = [s]
        save = eng.cur_work
        obl = {k: dict(v, by=dict(v["by"])) for k, v in eng.obl.items()}
        try:
            while work:
                x = work.pop()
                try:
                    eng.run_state(x, work)
                except G.Violation:
                    pass
                if eng.deadline and G.time.time() > eng.deadline:
                    raise G.Limit("time limit")
        finally:
            eng.cur_work = save
            L.probing = None
            eng.obl = obl
        for a in arrivals:
            a.frames[L.depth].on_return = L.s0.frames[L.depth].on_return
            if diff(eng, L, a, head):
                raise Restart()
        for a in arrivals:
            c = arrive(eng, L, cands, a)
            if c is not None and c not in queue:
                queue.append(c)
    return cands, heads


def check_back(eng, st, fr, L):
    cb = combo(st, L)
    if cb not in L.cands:
        raise G.EngineError("loop invariant is not inductive (new location)")
    ts = terms(st, L)
    for c in sorted(L.cands[cb], key=str):
        x = cond_of(eng, ts, c)
        if x is None:
            raise G.EngineError("loop invariant is not inductive (value without meaning)")
        eng.oblige(st, x, "loop-invariant")
