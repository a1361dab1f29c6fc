import json, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
BOUNDED = {}
NA = {}
NOTES = {}
exec(open(H + "/tools/manifest_notes.py").read())
checks, na = [], []
for p in props:
    if glob.glob(H + "/contracts/%s_*.cpp" % p) and p not in NA:
        checks.append({"property": p, "quick_cmd": "python3-vt check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + p,
                       "technique": "contract-based deductive verification of the clang IR of the real headers (own VC generator; real-closed normal forms + z3/cvc5)",
                       "level": "proof", "level_note": NOTES.get(p, "") or "all values of every real/integer input, per listed template instantiation; doubles treated as exact reals",
                       "evidence_file": "evidence/%s.json" % p})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks are needed: contracts include /repo's headers unchanged", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "python3-vt check.py <property> [unit regex]; VC_VERBOSE=1 lists units. See DESIGN.md."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print([c["property"] for c in checks])
