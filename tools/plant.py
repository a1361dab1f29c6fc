"""Planting helpers (development only, no check uses this).
plant.mk(id, prop, [(file, old, new)...], demo_cpp, needs, breaks) writes /verif/seeded/<id>/ and
plant.verify(ids) confirms in a scratch copy: applies, builds, stable tests pass, demo ok without / failing with it,
and reports what the property's check says about it."""
import os, sys, json, subprocess, difflib, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -I"$PWD" -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" || exit 3
timeout 60 "$T/demo"
'''

def mk(id, prop, edits, demo, needs, breaks, demo_sh=None):
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    patch = ""
    byfile = {}
    for f, old, new in edits:
        t = byfile.get(f) or open("/repo/" + f).read()
        assert t.count(old) == 1, (id, f, old, t.count(old))
        byfile[f] = t.replace(old, new)
    for f, t in byfile.items():
        o = open("/repo/" + f).read()
        patch += "diff --git a/%s b/%s\n" % (f, f)
        patch += "".join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.sh", "w").write(demo_sh or DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    if demo is not None:
        open(d + "/demo.cpp", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def verify(ids, tests=True, check=True):
    base = json.load(open("/opt/vp/BASELINE.json"))
    for id in ids:
        d = V + "/seeded/" + id
        prop = json.load(open(d + "/meta.json"))["property"]
        S = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
        try:
            subprocess.run("git -C /repo archive HEAD | tar -x -C " + S, shell=True, check=True)
            r0 = subprocess.run([d + "/demo.sh"], cwd=S, capture_output=True, text=True)
            a = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + S, d + "/patch.diff"], cwd="/", capture_output=True, text=True)
            if a.returncode:
                a = subprocess.run(["patch", "-p1", "-d", S, "-i", d + "/patch.diff"], capture_output=True, text=True)
            r1 = subprocess.run([d + "/demo.sh"], cwd=S, capture_output=True, text=True)
            out = "%s: demo clean=%d patched=%d apply=%d" % (id, r0.returncode, r1.returncode, a.returncode)
            if r0.returncode:
                out += "\n" + r0.stdout[-500:] + r0.stderr[-1500:]
            if check:
                c = subprocess.run(["python3-vt", V + "/check.py", prop], env=dict(os.environ, VC_REPO=S, VC_EVID=S + "/ev"), capture_output=True, text=True, cwd=V)
                out += " check=%d %s" % (c.returncode, " | ".join(l[:150] for l in c.stdout.splitlines() if "VIOLATION" in l)[:400])
                if c.returncode == 2: out += c.stdout[-600:]
            print(out, flush=True)
        finally:
            shutil.rmtree(S)


def run_tests(ids):
    """applies to /repo, runs the stable tests, undoes"""
    base = json.load(open("/opt/vp/BASELINE.json"))
    for id in ids:
        d = V + "/seeded/" + id
        subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
        try:
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/plant_out.json"], capture_output=True)
            o = json.load(open("/tmp/plant_out.json"))
            print(id, "passed", len(o["passed"]), "failed", o["failed"][:5], flush=True)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)


if __name__ == "__main__":
    cmd = sys.argv[1]
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    if cmd == "verify": verify(ids)
    if cmd == "tests": run_tests(ids)
