"""P03: ordering primitives return the stable, null-first permutation their model gives, on every vector
of a bounded space and through every value pipeline (order attributes never lie)."""
import sys, os, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import suite, report, drv
from vt.val import *

pid, tier = sys.argv[1], sys.argv[2]
c = report.Check(pid, tier, "exploration")
S = suite.Suite(c)
deep = tier == "thorough"

ALPHA = {
    "B8": [0, 1],
    "U8": [0, 1, 127, 128, 255],
    "C8": ["a", "b", "Z", "z"],
    "I16": [N16, -1, 0, 1, 32767],
    "I32": [N32, -1, 0, 65536, 2**31 - 1],
    "DATE": [N32, -1, 0, 366, 9000],
    "TIME": [N32, -5, 0, 65536, 86399999],
    "I64": [N64, -1, 0, 1 << 32, 1 << 48],
    "TIMESTAMP": [N64, -1, 0, 1 << 33, 1 << 50],
    "F64": [float("nan"), -2.5, 0.0, 1e10, 3.5],
    "SYMBOL": [None, "zz", "b", "ab", "B"],
}
XALPHA = {  # second alphabets (thorough): values that differ only in one 16-bit digit, and extremes
    "I16": [-32767, 256, 255, -256, 2],
    "I32": [-2**31 + 1, 65535, 65537, -65536, 7],
    "I64": [-2**63 + 1, 2**63 - 1, 1 << 16, 65535, -(1 << 32)],
    "F64": [-1e15, -0.5, 0.0009765625, 0.5, 2.0],
    "SYMBOL": ["a", "aa", "aaa", "Ab", "zz"],
    "U8": [2, 3, 64, 129, 254],
}


def key(t, v):
    if isnull(t, v):
        return (0, 0)
    if t == "SYMBOL":
        return (1, v.encode())
    if t == "C8":
        return (1, ord(v))
    return (1, v)


def perm(t, vs, desc=False):
    ks = [key(t, v) for v in vs]
    if not desc:
        return sorted(range(len(vs)), key=lambda i: ks[i])
    # stable descending
    ranks = {k: r for r, k in enumerate(sorted(set(ks)))}
    return sorted(range(len(vs)), key=lambda i: -ranks[ks[i]])


def cv(t, vs):
    if t == "C8":
        return ["C8", "".join(vs)]
    if t == "F64":
        return ["F64", [float(v) for v in vs]]
    return [t, list(vs)]


def rank(p):
    r = [0] * len(p)
    for k, i in enumerate(p):
        r[i] = k
    return r


def xrank(p, n):
    r = [0] * len(p)
    for k, i in enumerate(p):
        r[i] = k * n // len(p)
    return r


def consumers(t, vs):
    a, d = perm(t, vs), perm(t, vs, True)
    yield "(asc %s)", cv(t, [vs[i] for i in a])
    yield "(desc %s)", cv(t, [vs[i] for i in d])
    yield "(iasc %s)", ["I64", a]
    yield "(idesc %s)", ["I64", d]
    yield "(rank %s)", ["I64", rank(a)]
    for n in (1, 2, 3, 7):
        yield "(xrank %%s %d)" % n, ["I64", xrank(a, n)]


def expect(e):
    return e


# ---- 1. every short vector over the alphabets
maxlen = 5 if deep else 4
for t, al in ALPHA.items():
    sets = [al] + ([XALPHA[t]] if t in XALPHA else [])
    for al in sets:
        ml = maxlen if al is ALPHA[t] else maxlen - 1
        if t == "B8":
            ml += 4
        for n in range(0, ml + 1):
            for vs in itertools.product(al, repeat=n):
                v = vec(t, vs)
                if n == 0 and t == "SYMBOL":
                    v = "(as 'SYMBOL [])"
                for op, e in consumers(t, vs):
                    S.add(op % v, expect(e), (t, op))
S.run(setup=["Q [zz b ab B a aa]"])

# ---- 1b. every pair (alone and between fixed neighbours) of values at byte, digit and width boundaries
EDGE = {
    "U8": [0, 1, 126, 127, 128, 129, 254, 255],
    "I16": [N16, -32767, -32766, -257, -256, -255, -2, -1, 0, 1, 254, 255, 256, 32766, 32767],
    "I32": [N32, -2**31 + 1, -2**31 + 2, -131073, -65538, -65537, -65536, -65535, -2, -1, 0, 1, 65534, 65535, 65536, 65537, 131070, 131071, 2**31 - 2, 2**31 - 1],
    "I64": [N64, -2**63 + 1, -2**63 + 2, -2, -1, 0, 1] + [s * (2**k + d) for s in (1, -1) for k in (16, 17, 32, 33, 48, 49) for d in (-2, -1, 0, 1)] + [2**63 - 2, 2**63 - 1],
    "F64": [float("nan"), -1e15, -1e10, -65536.5, -2.0, -1.5, -1.0, -0.5, -0.0009765625, 0.0, 0.0009765625, 0.5, 1.0, 1.5, 2.0, 65536.5, 1e10, 1e15],
}
EDGE["DATE"] = EDGE["I32"]
EDGE["TIME"] = EDGE["I32"]
EDGE["TIMESTAMP"] = EDGE["I64"]
for t, al in EDGE.items():
    if t in ("DATE", "TIME"):
        al = [v for v in al if isnull(t, v) or abs(v) < (90000 if t == "DATE" else 86400000)]
    if t == "TIMESTAMP":
        al = [v for v in al if isnull(t, v) or abs(v) < 2**60]
    for a, b in itertools.product(al, repeat=2):
        for vs in ([a, b], [al[-1], a, al[0], b, al[1]]):
            v = vec(t, vs)
            for op, e in consumers(t, vs):
                if "xrank" not in op:
                    S.add(op % v, expect(e), (t, op, "edge"))
S.run()

# ---- 2. boundary lengths: algorithm switch points and parallel kernels
bases = {
    "SYMBOL": [["zz", "b", "ab", "B"], ["b", "a"], ["zz", None, "a"], ["m", "k", "q", "z", "c", "y"]],
    "I64": [[3, 1, 2], [5, N64, -1, 1 << 40], [1, 1]],
    "I32": [[3, 1, N32, 2], [-70000, 70000, 0]],
    "I16": [[3, 1, N16, 2], [-300, 300, 0]],
    "F64": [[1.5, -2.5, float("nan")], [1e10, 0.5]],
    "TIME": [[5, 1, N32, -7]],
    "DATE": [[5, 1, N32, -7]],
    "TIMESTAMP": [[5, 1, N64, -7]],
    "U8": [[200, 1, 127]],
    "B8": [[1, 0, 1]],
    "C8": [["b", "a", "z"]],
}
lens = [1, 2, 31, 32, 33, 34, 65, 257] + ([40000, 65537] if deep else [])
for cores in (1, 2, 4, 8, 13) if deep else (1, 4, 8):
    for t, bs in bases.items():
        for b in bs:
            for n in lens + ([40000] if cores > 1 and not deep else []):
                vs = [b[i % len(b)] for i in range(n)]
                v = "(take %s %d)" % (vec(t, b), n)
                if cores > 1 and n < 1000:
                    continue
                for op, e in consumers(t, vs):
                    S.add(op % v, expect(e), (t, op, n))
    S.run(setup=["Q [zz b ab B a aa q z y m]"], cores=cores, chunk=200)

# symbols: every multiset arrangement class at a length beyond the small-array cutoff, against every interning order
names = ["sa", "sb", "sc", "sd"]
for order in itertools.permutations(names):
    for k in range(1, 5):
        for b in itertools.permutations(names, k):
            vs = [b[i % k] for i in range(36)]
            for op, e in list(consumers("SYMBOL", vs))[:4]:
                S.add(op % ("(take [%s] 36)" % " ".join(b)), expect(e), ("sym-intern", op))
    S.run(setup=["Q [%s]" % " ".join(order)])
    if not deep and order[0] != names[0] and order[0] != names[-1]:
        break

# ---- 3. order attributes never lie: sources x transformations x consumers
VAL = {"I64": ["[3 1 2 2]", "[5]", "[1 2 3 7]", "[4 3 1 0]", "[2 2 2]", "[0Nl 4 0Nl 1]"],
       "I32": ["[3i 1i 2i 2i]", "[9i 4i 0Ni]"], "I16": ["[3h 1h 2h 2h]"],
       "F64": ["[3.5 1.0 2.0 2.0]", "[0Nf 2.0 1.0]"],
       "SYMBOL": ["[c a b b]", "[x]"], "TIMESTAMP": [vec("TIMESTAMP", [30, 10, 20])],
       "DATE": [vec("DATE", [30, 10, 20, 10])], "U8": ["[0x03 0x01 0x02]"], "C8": ['"cabb"']}
SRC = ["%s", "(asc %s)", "(desc %s)", "(distinct %s)", "(asc (distinct %s))", "(desc (distinct %s))", "(reverse (asc %s))", "(asc (reverse %s))"]
TR_ANY = ["{}", "(reverse {})", "(take {} 2)", "(take {} -2)", "(take {} 7)", "(distinct {})", "(concat {} (first {}))",
          "(concat (last {}) {})", "(concat {} {})", "(filter {} (== 0 (% (til (count {})) 2)))", "(at {} (reverse (til (count {}))))",
          "(except {} (first {}))", "(union {} {})", "(sect {} {})", "(raze (list {} {}))", "(at (list {}) 0)", "(map (fn [x] x) {})",
          "((fn [x] x) {})", "((fn [x] (let y x) (concat y (first x))) {})", "(at (dict [q] (list {})) 'q)", "(at (table [q] (list {})) 'q)",
          "(do (set v {}) (set w v) (alter 'v concat (first v)) v)", "(do (set v {}) (set w v) (alter 'v concat (first v)) w)",
          "(do (set v {}) (alter 'v set 0 (last v)) v)", "(do (set v {}) (set w v) (alter 'v set 0 (last v)) w)",
          "(do (set v {}) (alter 'v set [0] (last v)) v)",
          "(at (select {{q: q from: (table [q] (list {}))}}) 'q)",
          "(de (ser {}))"]
TR_NUM = ["(+ {} 1)", "(- 0 {})", "(* {} -1)", "(neg {})", "(- {} {})", "(% {} 2)", "(as 'F64 {})", "(as 'I64 {})", "(- 10 (+ {} 1))", "(* {} 0)",
          "(xbar {} 2)", "(map (fn [x] (neg x)) {})", "(at (select {{q: (- 0 q) from: (table [q] (list {}))}}) 'q)", "(concat {} -5)", "(concat 99 {})",
          "(pmap (fn [x] (neg x)) {})", "(round (- 0.0 {}))", "(floor {})", "(- 0.0 {})"]
TR_TIL = ["(til 4)", "(- 0 (til 4))", "(concat (til 3) (til 3))", "(where [true false true true])", "(reverse (where [true false true true]))", "(at (til 4) [3 1 2])",
          "(% (til 5) 3)", "(- 2 (til 5))", "(group [1 2 1])", "(take (til 3) 5)", "(* (- (til 5) 2) (- (til 5) 2))", "(iasc [3 1 2])", "(idesc [3 1 2])", "(iasc (desc [3 1 2]))",
          "(iasc (iasc (desc [3 1 2])))", "(rank (desc [3 1 2]))", "(find [3 1 2] (asc [1 2 3]))", "(do (set v (til 4)) (alter 'v set 0 9) v)", "(do (set v (til 3)) (set w (+ v 0)) (alter 'w set 1 7) w)"]
exprs = []
for t, lits in VAL.items():
    num = t in ("I64", "I32", "I16", "F64")
    for l in lits:
        for s in SRC:
            src = s % l
            trs = TR_ANY + (TR_NUM if num else [])
            for tr in trs:
                exprs.append(tr.format(src.replace("{", "{").replace("}", "}"),) if "{}" not in tr else tr.replace("{{", "\x01").replace("}}", "\x02").replace("{}", src).replace("\x01", "{").replace("\x02", "}"))
            if t in ("I64", "SYMBOL") or deep:
                for t1 in trs[1:]:
                    e1 = t1.replace("{{", "\x01").replace("}}", "\x02").replace("{}", src).replace("\x01", "{").replace("\x02", "}")
                    if len(e1) > 160:
                        continue
                    for t2 in (trs[1:] if deep else trs[1:8] + (TR_NUM[:5] if num else [])):
                        if "set v" in t2 and "set v" in t1:
                            continue
                        exprs.append(t2.replace("{{", "\x01").replace("}}", "\x02").replace("{}", e1).replace("\x01", "{").replace("\x02", "}"))
exprs += TR_TIL
vals = drv.run_all(["E " + e for e in exprs])
SORTABLE = set(ALPHA)
nskip = 0
for e, v in zip(exprs, vals):
    if isinstance(v, drv.Crash):
        c.violation("crash " + e, f"{e} crashed: {v!r}", e)
        continue
    t = v[0]
    if t not in SORTABLE or not isinstance(v[1], (list, str)):
        nskip += 1
        continue
    vs = list(v[1])
    if t == "F64":
        vs = [float("nan") if x in ("nan", None) else float(x) for x in vs]
        if any(x == 0 for x in vs) and any(str(x) == "-0.0" for x in vs):
            vs = [0.0 if x == 0 else x for x in vs]
            if sum(1 for x in vs if x == 0) > 1:
                continue  # -0.0 against 0.0: equal values with distinct bit patterns, left out of the property
    if t == "SYMBOL":
        vs = [None if x in (None, "") else x for x in vs]
    for op, ex in consumers(t, vs):
        S.add(op % e, expect(ex), ("attr", op))
    if t != "F64":
        S.add("(distinct %s)" % e, (lambda got, t=t, n=sorted(key(t, x) for x in set(vs) if not isnull(t, x)): got[0] == t and sorted(key(t, x) for x in got[1] if not isnull(t, x)) == n), ("attr", "distinct"))
c.notes["pipelines"] = len(exprs)
c.notes["pipelines_not_vectors"] = nskip
S.run(chunk=6000)

# ---- 4. tables: every small table, one and two sort keys
al = {"a": ("I64", [1, 2, N64]), "b": ("SYMBOL", ["zz", "aa"]), "c": ("F64", [1.5, -1.5]), "h": ("I16", [2, -2])}
for nrows in (range(1, 5) if deep else range(1, 4)):
    for c1, c2 in (("a", "b"), ("b", "c"), ("h", "a"), ("c", "h")):
        t1, a1 = al[c1]
        t2, a2 = al[c2]
        for x in itertools.product(a1, repeat=nrows):
            for y in itertools.product(a2, repeat=nrows):
                tab = "(table [%s %s n] (list %s %s (til %d)))" % (c1, c2, vec(t1, x), vec(t2, y), nrows)
                for keys in ((c1,), (c2,), (c1, c2), (c2, c1), (c1, c1)):
                    for op, desc in (("xasc", False), ("xdesc", True)):
                        idx = list(range(nrows))
                        for k in reversed(keys):
                            tt, col = (t1, x) if k == c1 else (t2, y)
                            p = perm(tt, [col[i] for i in idx], desc)
                            idx = [idx[i] for i in p]
                        ex = ["TABLE", ["SYMBOL", [c1, c2, "n"]], ["LIST", [cv(t1, [x[i] for i in idx]), cv(t2, [y[i] for i in idx]), ["I64", idx]]]]
                        ks = "'%s" % keys[0] if len(keys) == 1 else "[%s]" % " ".join(keys)
                        S.add("(%s %s %s)" % (op, tab, ks), expect(ex), ("table", op))
# sort of an already sorted table and by an absent column
for op in ("xasc", "xdesc"):
    for op2 in ("xasc", "xdesc"):
        for x in itertools.product([1, 2, 3], repeat=3):
            i1 = perm("I64", x, op == "xdesc")
            x1 = [x[i] for i in i1]
            i2 = perm("I64", x1, op2 == "xdesc")
            S.add("(%s (%s (table [a n] (list %s (til 3))) 'a) 'a)" % (op2, op, vec("I64", x)),
                  expect(["TABLE", ["SYMBOL", ["a", "n"]], ["LIST", [["I64", [x1[i] for i in i2]], ["I64", [i1[i] for i in i2]]]]]), ("table2", op))

# ---- 5. dictionaries are ordered by value
for n in range(1, 5):
    for vs in itertools.product([3, 1, 2], repeat=n):
        ks = ["k", "a", "z", "b"][:n]
        for op, d in (("asc", False), ("desc", True)):
            p = perm("I64", vs, d)
            ex = ["DICT", ["SYMBOL", [ks[i] for i in p]], ["I64", [vs[i] for i in p]]]
            S.add("(%s (dict [%s] %s))" % (op, " ".join(ks), vec("I64", vs)), expect(ex), ("dict", op))
            for op2, d2 in (("asc", False), ("desc", True)):
                v2 = [vs[i] for i in p]
                k2 = [ks[i] for i in p]
                q = perm("I64", v2, d2)
                S.add("(%s (%s (dict [%s] %s)))" % (op2, op, " ".join(ks), vec("I64", vs)), expect(["DICT", ["SYMBOL", [k2[i] for i in q]], ["I64", [v2[i] for i in q]]]), ("dict", op2))
# lists of strings
for n in range(0, 5 if deep else 4):
    for vs in itertools.product(["b", "ab", "a"], repeat=n):
        v = "(list %s)" % " ".join('"%s"' % x for x in vs)
        for d, o in ((False, "asc"), (True, "desc")):
            ranks = {k: i for i, k in enumerate(["a", "ab", "b"])}
            p = sorted(range(n), key=lambda i: -ranks[vs[i]] if d else ranks[vs[i]])
            S.add("(i%s %s)" % (o, v), expect(["I64", p]), ("strs", o))
            S.add("(%s %s)" % (o, v), expect(["LIST", [["C8", vs[i]] for i in p]]), ("strs", o))
S.run(chunk=6000)
c.finish("each distinct (operation, input expression) whose model value was predicted and compared with the interpreter's answer")
