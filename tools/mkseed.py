#!/usr/bin/env python3
"""Create and validate planted bugs: python3 tools/mkseed.py SPEC.py [id ...]
SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)], rfl=..., cores=1, needs, breaks, check=..., demo=None)]"""
import json, os, subprocess, sys, shutil
V = "/verif"
WT = os.environ.get("SEED_WT", "/tmp/seedwt")
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = sys.argv[2:]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    return sh(f"make -f /opt/vp/rayforce.mk -j8 CC=/usr/bin/clang PWD={WT} vp-build", cwd=WT, env=dict(PATH="/usr/bin:/bin", LC_ALL="C", HOME="/root"))


def tests():
    sh("rm -rf /tmp/rayforce_test_parted")
    r = sh(f": > _build/r.txt; timeout -k 10 300 ./_build/rayforce.vptest _build/r.txt </dev/null >/dev/null 2>&1; grep -c PASS _build/r.txt; grep -c FAIL _build/r.txt", cwd=WT)
    return r.stdout.split()


DEMO = """#!/bin/bash
# exit 0 iff the built interpreter prints what the unchanged one prints
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R=$PWD
cd "$T" && got=$(timeout 120 "$R/_build/rayforce" -c %d -f "$D/demo.rfl" </dev/null 2>&1)
[ "$got" == "$(cat "$D/expected.txt")" ] || { echo "got:"; echo "$got" | head -50; echo "expected:"; cat "$D/expected.txt"; exit 1; }
"""
if not os.path.exists(WT):
    sh(f"cp -a /repo {WT}")
for s in spec["SEEDS"]:
    if want and s["id"] not in want:
        continue
    d = f"{V}/seeded/{s['id']}"
    sh(f"git -C {WT} checkout -q -- . ; git -C {WT} fetch -q /repo HEAD && git -C {WT} reset -q --hard FETCH_HEAD")
    os.makedirs(d, exist_ok=True)
    b = build()
    if b.returncode:
        print(s["id"], "BASE BUILD FAILED"); continue
    if s.get("demo"):
        open(d + "/demo.sh", "w").write(s["demo"])
        for n, t in s.get("files", {}).items():
            open(d + "/" + n, "w").write(t)
    else:
        open(d + "/demo.rfl", "w").write(s["rfl"])
        open(d + "/demo.sh", "w").write(DEMO % s.get("cores", 1))
        r = sh(f"timeout 120 ./_build/rayforce -c {s.get('cores', 1)} -f {d}/demo.rfl </dev/null", cwd=WT)
        open(d + "/expected.txt", "w").write(r.stdout)
        print("clean:", r.stdout[:300])
    os.chmod(d + "/demo.sh", 0o755)
    X = "/tmp/seed_demo_copy"
    shutil.rmtree(X, ignore_errors=True); shutil.copytree(d, X)
    ok0 = sh(f"bash {X}/demo.sh", cwd=WT)
    missing = [(f, o) for f, o, n in s["edits"] if o not in open(f"{WT}/{f}").read()]
    if missing:
        print(s["id"], "EDIT DOES NOT APPLY", missing)
        shutil.rmtree(d)
        continue
    for f, o, n in s["edits"]:
        p = f"{WT}/{f}"
        t = open(p).read()
        k = s.get("nth", 0)
        if t.count(o) > 1 and "nth" not in s:
            print("WARNING: several matches", t.count(o), f)
        i = -1
        for _ in range(k + 1):
            i = t.index(o, i + 1)
        t = t[:i] + n + t[i + len(o):]
        open(p, "w").write(t)
    diff = sh(f"git -C {WT} diff").stdout
    for ch in diff.split("diff --git ")[1:]:
        f = ch.split(" b/")[1].split("\n")[0]
        base = sh(f"git -C /repo show e7bfa3f:{f}").stdout.split("\n")
        rem = [l[1:] for l in ch.split("\n") if l.startswith("-") and not l.startswith("---")]
        if rem and not any(r in base and r.strip() for r in rem):
            print(s["id"], "WARNING: touches only own lines in", f)
    b = build()
    if b.returncode:
        print(s["id"], "BUILD FAILED", b.stdout[-800:]); continue
    t = tests()
    ok1 = sh(f"bash {X}/demo.sh", cwd=WT)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    good = ok0.returncode == 0 and ok1.returncode != 0 and t[:2] == ["185", "0"]
    print(s["id"], "VALID" if good else "INVALID", "clean demo", ok0.returncode, "patched demo", ok1.returncode, "tests", t)
    if not good:
        print(ok0.stdout[-500:], ok1.stdout[-500:])
        if not os.environ.get("KEEP"):
            shutil.rmtree(d)
        continue
    if not os.environ.get("NOCHECK"):
        m = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
        r = sh(m[s["prop"]]["quick_cmd"], cwd=V, env=dict(os.environ, VT_REPO=WT, VERIF_SEED="1", VERIF_TIER="quick"))
        print("   CAUGHT" if r.returncode == 1 and f"VIOLATION property={s['prop']}" in r.stdout else "   MISSED", r.returncode, r.stdout.strip().split("\n")[-1][:200])
sh(f"git -C {WT} checkout -q -- .")
