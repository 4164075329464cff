"""Out-of-tree builds of /repo's current working tree, cached by content hash.

Every check calls build(flavor, ...); the objects are compiled from the
files found in /repo at that moment (nothing of /repo/_build is used)."""
import hashlib, os, re, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".build")

REL = ("-O2 -fassociative-math -ftree-vectorize -funsafe-math-optimizations "
       "-flax-vector-conversions -fno-math-errno -march=x86-64-v3 -m64")
FLAVORS = {
    # the flags of the shipped build (at -O2), normal allocator
    "rel": REL + " -g1",
    # address + undefined(bounds-like) sanitizers with malloc behind heap_alloc
    "asan": "-O1 -g -DSYS_MALLOC -fsanitize=address -fno-omit-frame-pointer -march=x86-64-v3 -flax-vector-conversions",
    # plain debuggable build, normal allocator
    "dbg": "-O1 -g -march=x86-64-v3 -flax-vector-conversions",
    # every memory access and atomic calls a __tsan_* hook, provided by harness/sched.c
    "sched": "-O1 -g -fsanitize=thread -march=x86-64-v3 -flax-vector-conversions",
}
COMMON = "-std=c17 -fPIC -fsigned-char -DGIT_HASH=\"vt\" -w"


def core_list():
    mk = open(os.path.join(REPO, "Makefile")).read().replace("\\\n", " ")
    m = re.search(r"^CORE_OBJECTS\s*=\s*(.*)$", mk, re.M)
    a = re.search(r"^APP_COMMON\s*=\s*(.*)$", mk, re.M)
    return [o[:-2] + ".c" for o in m.group(1).split() + (a.group(1).split() if a else [])]


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d in ("core", "app", "ext/raykx"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(root, f) for f in files if f.endswith((".c", ".h"))]
    for f in sorted(fs) + [os.path.join(REPO, "Makefile")]:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write(r.stdout[-3000:] + "\n")
        raise SystemExit("BUILD FAILED: " + " ".join(cmd)[:200])
    return r.stdout


def objects(flavor, extra_cflags=""):
    flags = FLAVORS[flavor] + " " + extra_cflags
    key = hashlib.sha256((tree_hash() + flags + COMMON).encode()).hexdigest()[:20]
    d = os.path.join(CACHE, f"{flavor}-{key}")
    srcs = core_list()
    objs = [os.path.join(d, s[:-2] + ".o") for s in srcs]
    if not os.path.exists(os.path.join(d, "ok")):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "core"), exist_ok=True)
        os.makedirs(os.path.join(d, "app"), exist_ok=True)

        def one(so):
            s, o = so
            run(["clang", "-include", "core/def.h", "-I.", *COMMON.split(), *flags.split(), "-c", s, "-o", o], cwd=REPO)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, zip(srcs, objs)))
        open(os.path.join(d, "ok"), "w").write("ok")
    return d, objs


def build(flavor, harness, out=None, extra_cflags="", ldflags="", wraps=(), harness_flags=None, app=False, drop=()):
    """compile core (flavor) + harness C files, link, return path of the executable"""
    d, objs = objects(flavor, extra_cflags)
    objs = [o for o in objs if os.path.basename(o)[:-2] not in drop]
    hs = [h if os.path.isabs(h) else os.path.join(VERIF, "harness", h) for h in harness]
    hk = hashlib.sha256()
    for h in hs + glob.glob(os.path.join(VERIF, "harness", "*.h")):
        hk.update(open(h, "rb").read())
    hk.update(repr((ldflags, wraps, harness_flags, drop, extra_cflags)).encode())
    exe = os.path.join(d, (out or os.path.basename(hs[0])[:-2]) + "-" + hk.hexdigest()[:12])
    if os.path.exists(exe):
        return exe
    hf = harness_flags if harness_flags is not None else FLAVORS[flavor]
    hos = []
    for h in hs:
        ho = exe + "-" + os.path.basename(h)[:-2] + ".o"
        run(["clang", "-include", "core/def.h", "-I.", "-I" + os.path.join(VERIF, "harness"), *COMMON.split(), *hf.split(), *extra_cflags.split(), "-c", h, "-o", ho], cwd=REPO)
        hos.append(ho)
    san = [f for f in FLAVORS[flavor].split() if f.startswith("-fsanitize") and flavor != "sched"]
    run(["clang", *san, "-o", exe + ".tmp", *hos, *objs, *["-Wl,--wrap=" + w for w in wraps], "-lm", "-ldl", "-lpthread", "-rdynamic", *ldflags.split()], cwd=REPO)
    os.rename(exe + ".tmp", exe)
    return exe
