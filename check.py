#!/opt/veriftools/pyvenv/bin/python3
"""Decides one property: compiles the contract units of contracts/<PROP>*.cpp against the headers of the current /repo
tree, discharges every obligation of every unit, replays counterexamples on the real code, writes the evidence file.
exit 0: every obligation discharged; 1: VIOLATION line printed; 2: no answer (engine limit, compile error, vacuity)."""
import sys, os, re, glob, json, time, subprocess, multiprocessing as mp, shutil, resource, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, HERE)
CXX = ["clang++-18", "-std=c++17", "-I" + REPO, "-I" + HERE + "/contracts", "-isystem", "/usr/include/eigen3"]
IRF = ["-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
       "-DEIGEN_DONT_VECTORIZE", "-DVC_SYMBOLIC", "-gline-tables-only", "-w", "-emit-llvm", "-c"]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NPROC = int(os.environ.get("VC_JOBS", "8"))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_ir(args):
    src, out = args
    t = time.time()
    fl = re.findall(r"^//\s*vc-cxxflags:\s*(.*)$", open(src).read(), re.M)
    fl = [x.replace("@VERIF@", HERE).replace("@REPO@", REPO) for x in " ".join(fl).split()]
    r = sh(CXX + IRF + fl + [src, "-o", out + ".0.bc"])
    if r.returncode:
        return src, None, r.stdout
    r = sh(["opt-18", "-passes=sroa", out + ".0.bc", "-o", out])
    if r.returncode:
        return src, None, r.stdout
    return src, time.time() - t, ""


def unit_opts(src):
    txt = open(src).read()
    units = {}
    prop = os.path.basename(src).split("_")[0]
    for m in re.finditer(r"^\s*VC_UNIT\(\s*(\w+)\s*,\s*(\w+)\s*\)", txt, re.M):
        units["vcu_%s__%s" % (m.group(1), m.group(2))] = {}
    # macro-generated units
    for m in re.finditer(r"^//\s*vc-units:\s*(.*)$", txt, re.M):
        for u in m.group(1).split():
            units["vcu_%s__%s" % (prop, u)] = {}
    for m in re.finditer(r"^//\s*vc-opts\s+(\S+):\s*(.*)$", txt, re.M):
        for u in units:
            if re.fullmatch(m.group(1), u.split("__", 1)[1]):
                for kv in m.group(2).split():
                    k, v = kv.split("=")
                    units[u][k] = int(v) if re.fullmatch(r"-?\d+", v) else v
    return units


def worker(conn, bc, unit, opts):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    try:
        from vc import rununit
        r = rununit.run_unit(bc, unit, opts)
    except BaseException as e:      # noqa
        r = {"unit": unit, "status": "error", "error": "worker: %r" % e, "violations": [], "obligations": {}, "covers": [],
             "functions": [], "trusted": [], "solver": {}, "time": 0, "paths": 0, "ended": 0}
    conn.send(r)
    conn.close()


def run_pool(jobs):
    jobs = sorted(jobs, key=lambda j: -j[2].get("time", 100))
    running, results = [], []
    ctx = mp.get_context("fork")
    pend = list(jobs)
    while pend or running:
        while pend and len(running) < NPROC:
            bc, unit, opts = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, bc, unit, opts))
            p.start(); b.close()
            running.append((p, a, unit, time.time(), opts.get("time", 100) * 1.3 + 40))
        nr = []
        for p, a, unit, t0, lim in running:
            r = None
            if a.poll(0):
                try:
                    r = a.recv()
                except EOFError:
                    r = {"unit": unit, "status": "error", "error": "worker died (exit %s)" % p.exitcode}
            elif not p.is_alive():
                if a.poll(0.1):
                    try: r = a.recv()
                    except EOFError: pass
                if r is None:
                    r = {"unit": unit, "status": "error", "error": "worker died (exit %s)" % p.exitcode}
            elif time.time() - t0 > lim:
                p.kill()
                r = {"unit": unit, "status": "limit", "error": "killed after %ds" % lim}
            if r is not None:
                for k, v in (("violations", []), ("obligations", {}), ("covers", []), ("functions", []), ("trusted", []),
                             ("solver", {}), ("time", time.time() - t0), ("paths", 0), ("ended", 0)):
                    r.setdefault(k, v)
                results.append(r)
                p.join(1)
                if p.is_alive(): p.kill(); p.join()
                a.close()
                if os.environ.get("VC_VERBOSE"):
                    print("  %-40s %-6s %6.1fs paths=%d viol=%d %s" % (unit, r["status"], r["time"], r["paths"], len(r["violations"]), r.get("error") or ""), flush=True)
            else:
                nr.append((p, a, unit, t0, lim))
        running = nr
        if len(running) >= NPROC or (running and not pend):
            time.sleep(0.02)
    return results


_native = {}


def native_bin(src, work):
    if src in _native:
        return _native[src]
    out = os.path.join(work, os.path.basename(src)[:-4] + ".native")
    fl = re.findall(r"^//\s*vc-cxxflags:\s*(.*)$", open(src).read(), re.M)
    fl = [x.replace("@VERIF@", HERE).replace("@REPO@", REPO) for x in " ".join(fl).split()]
    r = sh(CXX + ["-g", "-O1", "-w", "-DVC_NATIVE", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-rdynamic"] + fl +
           [src, HERE + "/vc/rt/vc_native.cpp", "-ldl", "-lpthread", "-o", out])
    _native[src] = (out, "") if r.returncode == 0 else (None, r.stdout[-2000:])
    return _native[src]


def clean_units():
    cf = HERE + "/contracts/native_clean.txt"
    return set(open(cf).read().split()) if os.path.exists(cf) else set()


def native_search(src, unit, inputs, work, tries, tmo=90, force_tame=False):
    b, err = native_bin(src, work)
    if b is None:
        return None, "native build failed: " + err
    vf = os.path.join(work, unit + ".values")
    with open(vf, "w") as f:
        for n, kind, v in inputs or []:
            n = re.sub(r"\s", "_", n) or "_"
            if v is None: s = "?"
            elif kind == "real": s = repr(v[0] / v[1]) if abs(v[0]) < 10**300 and v[1] < 10**300 else "?"
            else: s = str(v)
            f.write("%s %s %s\n" % (n, kind, s))
    tame = short_name(unit) + ":tame" in clean_units()
    env = dict(os.environ, **({"VC_TAME": "1"} if tame or force_tame else {}), ASAN_OPTIONS="hard_rss_limit_mb=3000:detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        r = subprocess.run([b, unit, vf, str(tries), str(SEED)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=tmo, errors="replace", text=True)
    except subprocess.TimeoutExpired:
        return False, "native search timed out"
    return r.returncode == 1, r.stdout[-4000:]


def short_name(u):
    return u[4:].replace("__", ".", 1)


def main():
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    t0 = time.time()
    work = os.path.join(HERE, "_work", prop + ("" if REPO == "/repo" else "_" + hashlib.md5(REPO.encode()).hexdigest()[:6]))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    srcs = sorted(glob.glob(HERE + "/contracts/%s_*.cpp" % prop))
    if not srcs:
        print("no contracts for", prop); return 2
    jobs_c = [(s, os.path.join(work, os.path.basename(s)[:-4] + ".bc")) for s in srcs]
    with mp.get_context("fork").Pool(NPROC) as p:
        cres = p.map(compile_ir, jobs_c, 1)
    for s, ok, err in cres:
        if ok is None:
            print("ERROR: contract file does not compile against the current tree:", s)
            print(err[-3000:])
            return 2
    tcompile = time.time() - t0
    jobs, unit_src, declared = [], {}, {}
    for s, bc in jobs_c:
        from vc.llvmir import defined_functions
        have = set(f for f in defined_functions(bc) if f.startswith("vcu_"))
        uo = unit_opts(s)
        for u in have:
            uo.setdefault(u, {})
        for u, o in sorted(uo.items()):
            if u not in have:
                print("ERROR: unit %s declared but not compiled" % u); return 2
            if o.get("tier") == "thorough" and TIER != "thorough":
                continue
            if only and not re.search(only, u):
                continue
            if TIER == "thorough":
                o = dict(o, time=o.get("time", 100) * 3)
            unit_src[u] = s
            jobs.append((bc, u, dict({"time": 100}, **o)))
    declared = {u: o for b, u, o in jobs}
    results = run_pool(jobs)
    results.sort(key=lambda r: r["unit"])
    clean = {c.split(":")[0] for c in clean_units()}
    known = []
    kf = HERE + "/known_findings.jsonl"
    if os.path.exists(kf):
        known = [json.loads(l) for l in open(kf) if l.strip()]
    viol, errors, kfound = [], [], []
    for r in results:
        u = r["unit"]
        src = unit_src[u]
        short = u.split("__", 1)[1]
        for v in r["violations"]:
            k = next((k for k in known if k.get("property") == prop and k.get("unit") == short and k.get("status") == "known" and
                      k.get("obligation") == v["label"]), None)
            if k:
                kfound.append((k, v)); continue
            viol.append((r, v))
        if r["status"] != "ok":
            errors.append((r, r["error"]))
        elif not r["violations"]:
            o = declared[u]
            if r["ended"] == 0 or not r.get("sat_end", True):
                errors.append((r, "vacuous: no feasible path reaches the end of the unit"))
            elif not r["obligations"]:
                errors.append((r, "vacuous: no obligation generated"))
            need = set(str(o.get("reach", "")).split(",")) - {""}
            if need - set(r["covers"]):
                errors.append((r, "vacuous: never reached: %s" % sorted(need - set(r["covers"]))))
    # replay / search
    out_lines = []
    seen_v = set()
    for r, v in viol:
        key = (r["unit"], v["label"])
        if key in seen_v: continue
        seen_v.add(key)
        if v["feasible"] != "sat":
            tries = 400
        else:
            tries = 400
        hit, txt = native_search(unit_src[r["unit"]], r["unit"], v["inputs"], work, tries)
        rp = os.path.join(work, "replay_%s_%s.txt" % (r["unit"], re.sub(r"\W+", "_", v["label"])))
        with open(rp, "w") as f:
            f.write("property: %s\nunit: %s (%s)\nfailed obligation: %s\nverifier: %s\nfeasibility of the failing path: %s\n" %
                    (prop, r["unit"], unit_src[r["unit"]], v["label"], v["detail"], v["feasible"]))
            f.write("where (innermost first):\n" + "\n".join("  " + str(w) for w in v["where"]) + "\n")
            f.write("counterexample inputs (name, kind, value): %s\n" % json.dumps(v["inputs"]))
            f.write("native replay on the real code: %s\n%s\n" % ("REPRODUCED" if hit else "not reproduced", txt))
        # a native failure may be rounding only: it decides just for units that never fail natively on the unchanged tree
        hit = hit and short_name(r["unit"]) in clean
        if hit or v["feasible"] == "sat":
            out_lines.append("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if hit else " no-failing-input-found"))
            print("failed obligation %s in %s: %s" % (v["label"], r["unit"], str(v["detail"])[:300]))
        else:
            errors.append((r, "obligation %s not discharged (solver: %s) and no failing input found: %s" % (v["label"], v["feasible"], str(v["detail"])[:300])))
    for r, why in list(errors):
        if any(r["unit"] == k[0] for k in seen_v) or r["violations"]:
            continue
        if short_name(r["unit"]) in clean and len(out_lines) == 0:
            hit, txt = native_search(unit_src[r["unit"]], r["unit"], [], work, 300, 60)
            if hit:
                rp = os.path.join(work, "replay_%s_noproof.txt" % r["unit"])
                open(rp, "w").write("property: %s\nunit: %s\nthe verifier could not finish this unit (%s); native search found a failing input:\n%s\n" % (prop, r["unit"], why, txt))
                out_lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
    for k, v in kfound:
        out_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k.get("what", v["label"])))
    # a listed finding that does not fail any more is reported in the evidence only
    nviol = sum(1 for l in out_lines if l.startswith("VIOLATION"))
    write_evidence(prop, results, declared, unit_src, errors, nviol, kfound, t0, tcompile, only)
    for l in dict.fromkeys(out_lines):
        print(l)
    for r, why in errors:
        print("ERROR unit %s: %s" % (r["unit"], why))
        for w in (r.get("where") or [])[:6]: print("     at", w)
        if r.get("traceback") and os.environ.get("VC_VERBOSE"): print(r["traceback"])
    n = sum(len(r["obligations"]) for r in results)
    print("%s: %d units, %d named obligations, %d violations, %d errors, %.1fs" % (prop, len(results), n, nviol, len(errors), time.time() - t0))
    if nviol:
        return 1
    return 2 if errors else 0


def write_evidence(prop, results, declared, unit_src, errors, nviol, kfound, t0, tcompile, only):
    obl, backends, solver, trusted, funcs = 0, {}, {}, set(), set()
    disch = 0
    per = []
    bounded = []
    for r in results:
        nu = 0
        for lab, o in r["obligations"].items():
            for b, c in o["by"].items():
                nu += c
                backends[b] = backends.get(b, 0) + c
        obl += nu + len(r["violations"])
        disch += nu
        for k, v in r["solver"].items():
            solver[k] = solver.get(k, 0) + v
        trusted |= set(r["trusted"])
        funcs |= set(r["functions"])
        b = declared.get(r["unit"], {}).get("bound")
        if b: bounded.append("%s: %s" % (r["unit"], b))
        per.append({"unit": r["unit"], "contract": os.path.relpath(unit_src[r["unit"]], HERE), "status": r["status"], "paths": r["paths"],
                    "obligation_instances": nu, "labels": sorted(r["obligations"])[:60], "time_s": round(r["time"], 2),
                    "vacuity": {"paths_completed": r["ended"], "a_completed_path_is_satisfiable": bool(r.get("sat_end"))}})
    dem = demangle(sorted(funcs))
    repo_f = [d for d in dem if re.search(r"\b(sym|stator)::", d)]
    ev = {"property": prop, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED, "level": "proof",
          "coverage": {"obligations": obl, "discharged": disch, "checker_cmd": "python3-vt check.py %s" % prop,
                       "obligations_by_backend": backends, "solver": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in solver.items()},
                       "units": per, "functions_of_repo_executed": len(repo_f), "functions_sample": repo_f[:80],
                       "bounded_units": bounded, "compile_s": round(tcompile, 2),
                       "extraction": "clang 18 LLVM IR of contracts/%s_*.cpp including the headers of the current tree, unoptimised apart from SROA; nothing of the code is dropped" % prop,
                       "trusted_base": ["vc/ (symbolic executor and real-closed normal forms)", "z3 / cvc5", "clang 18 front end + SROA",
                                        "trusted models of external functions used by these units: " + (", ".join(sorted(trusted)) or "none")]},
          "assumptions": ["floating point arithmetic is treated as exact real arithmetic (infinities kept; NaN and rounding excluded unless a unit states otherwise)",
                          "operator new does not fail", "partial correctness for loops without a constant bound"],
          "wall_s": round(time.time() - t0, 2), "violations": nviol,
          "errors": ["%s: %s" % (r["unit"], w) for r, w in errors], "known_findings": [k.get("what") for k, v in kfound]}
    if not only:
        with open(HERE + "/evidence/%s.json" % prop, "w") as f:
            json.dump(ev, f, indent=1)


def demangle(names):
    r = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n") if r.returncode == 0 else names


if __name__ == "__main__":
    sys.exit(main())
