import time, sys, os, json
from . import engine as G, solver as S, real as Q, externs


def fresh_engine(bc, opts):
    Q.reset(); S.reset(); S._cache.clear(); S._vcache.clear()
    externs.trusted_used.clear()
    return G.Engine(bc, opts)


def run_unit(bc, unit, opts=None, base=None):
    """Verify one contract unit.  -> result dict"""
    opts = dict(opts or {})
    t0 = time.time()
    for k in S.stats:
        S.stats[k] = 0
    eng = base or fresh_engine(bc, opts)
    eng.unit = unit
    eng.deadline = t0 + opts.get("time", 200)
    res = {"unit": unit, "status": "ok", "paths": 0, "ended": 0, "violations": [], "obligations": {}, "covers": [], "error": None}
    covers = set()
    try:
        st = eng.initial_state()
        eng.executed.clear()
        eng.enter(st, unit, [])
        work = [st]
        sat_end = False
        while work:
            s = work.pop()
            res["paths"] += 1
            if res["paths"] > eng.max_paths:
                raise G.Limit("path limit")
            try:
                status, _ = eng.run_state(s, work)
                if status == "end":
                    res["ended"] += 1
                    covers |= s.covers
                    if not sat_end:
                        r, _m = S.check(eng.all_cons(s), 5000)
                        if r == "sat":
                            sat_end = True
            except G.Violation as v:
                lab = v.label if "." in v.label else unit.split("__", 1)[-1] + "." + v.label
                where = eng.where(s)
                if v.cond is None:
                    # implicit obligation: is the path feasible?
                    r, m = S.check(eng.all_cons(s), eng.prove_ms)
                    if r == "unsat":
                        continue
                    feas = r
                else:
                    r, m = S.check(eng.all_cons(s), eng.prove_ms, True)
                    if r == "unsat":
                        continue
                    feas = v.cond
                if r == "sat" and m is None:
                    r, m = S.check(eng.all_cons(s), eng.prove_ms, True)
                res["violations"].append({"label": lab, "detail": v.detail, "where": where, "feasible": r,
                                          "inputs": model_inputs(s, m if r == "sat" else None)})
                if len(res["violations"]) >= opts.get("max_violations", 3):
                    break
        res["sat_end"] = sat_end
    except (G.EngineError, G.Limit, NotImplementedError, KeyError, TypeError, AttributeError, RecursionError, IndexError, ValueError, AssertionError, Exception) as ex:
        import traceback
        res["status"] = "limit" if isinstance(ex, G.Limit) else "error"
        res["error"] = "%s: %s" % (type(ex).__name__, ex)
        try:
            res["where"] = eng.where(s if 's' in dir() else st)
        except Exception:
            res["where"] = []
        if not isinstance(ex, (G.EngineError, G.Limit)) or opts.get("trace"):
            res["traceback"] = traceback.format_exc()[-1500:]
    res["obligations"] = eng.obl
    res["covers"] = sorted(covers)
    res["functions"] = sorted(eng.executed)
    res["trusted"] = sorted(externs.trusted_used)
    res["solver"] = dict(S.stats)
    res["time"] = time.time() - t0
    res["forks"] = eng.forks
    return res


def model_inputs(st, model):
    out = []
    for n, kind, v in st.inputs:
        val = None
        if kind == "real":
            i = next(iter(v.num))[0][0]
            if model is not None:
                q = S.model_value(model, S.zvar(i))
                val = [q.numerator, q.denominator] if q is not None else None
            else:
                val = None
        else:
            if v.__class__ is int:
                val = v
            elif model is not None:
                val = S.model_value(model, v)
                if val is not None:
                    val = G.to_signed(val, 64)
        out.append([n, kind, val])
    return out


if __name__ == "__main__":
    r = run_unit(sys.argv[1], sys.argv[2], {"trace": 1, "time": float(sys.argv[3]) if len(sys.argv) > 3 else 100})
    f = r.pop("functions"); r.pop("trusted")
    for k, v in r.items():
        if k == "traceback": print(v)
        elif k == "obligations":
            for kk, vv in v.items(): print("   ", kk, vv)
        else: print(k, ":", v)
