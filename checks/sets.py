"""P04: membership, search, set and grouping operators return what their definition over the elements gives,
whichever internal strategy (dense range table, hash table, parallel build) the data select."""
import sys, os, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import suite, report, drv
from vt.val import *
from vt.suite import ERR

pid, tier = sys.argv[1], sys.argv[2]
c = report.Check(pid, tier, "exploration")
S = suite.Suite(c)
deep = tier == "thorough"
NaN = float("nan")
G = ["00112233-4455-6677-8899-aabbccddeeff", "00112233-4455-6677-8899-aabbccddee00", "ffffffff-4455-6677-8899-aabbccddeeff"]
# dense alphabets and alphabets spread beyond any dense range
DOM = {
    "B8": [[0, 1]], "U8": [[0, 1, 127, 255]], "C8": [["a", "b", "z"]],
    "I16": [[N16, -1, 0, 255], [-32767, 32767, 1]],
    "I32": [[N32, -1, 0, 255], [-2**31 + 1, 2**31 - 1, 1, N32]],
    "I64": [[N64, -1, 0, 255], [-2**63 + 1, 2**63 - 1, 1, N64], [1 << 40, 0, -(1 << 40)]],
    "DATE": [[N32, -1, 0, 366]], "TIME": [[N32, 0, 5, 86399999]],
    "TIMESTAMP": [[N64, -1, 0, 1 << 40]],
    "SYMBOL": [[None, "zz", "b", "ab"]],
    "F64": [[NaN, -2.5, 0.5, 1e10]],
}
INTS = ("U8", "I16", "I32", "I64")


def K(t, v):
    return ("null",) if isnull(t, v) else (v,)


def vecs(al, n, lo=0):
    for k in range(lo, n + 1):
        yield from itertools.product(al, repeat=k)


def sv(t, vs):
    return vec(t, vs) if vs or t != "SYMBOL" else "(as 'SYMBOL [])"


def cv(t, vs):
    return ["C8", "".join(vs)] if t == "C8" else [t, list(vs)]


def asset(t, want):
    want = sorted(map(repr, {K(t, v) for v in want if not isnull(t, v)}))

    def pred(g):
        return g[0] == t and sorted(repr(K(t, v)) for v in g[1] if not isnull(t, v)) == want and sum(1 for v in g[1] if isnull(t, v)) <= 1
    pred.__doc__ = "distinct values " + str(want)
    return pred


def cross(tx, x, ty, y):
    """does value x (type tx) equal some element of y"""
    return 1 if K(tx, x) in {K(ty, v) for v in y} else 0


M = 3 if deep else 2
# ---- in: every supported type pair
pairs = [(a, b) for a in INTS for b in INTS] + [(t, t) for t in ("B8", "C8", "DATE", "TIME", "TIMESTAMP", "SYMBOL")]
for a, b in pairs:
    for al in DOM[a]:
        for bl in DOM[b]:
            big = len(al) * len(bl) > 9
            for x in vecs(al, M, 1):
                for y in vecs(bl, M + 1 if (a == b and not deep) else M):
                    S.add(f"(in {sv(a, x)} {sv(b, y)})", ["B8", [cross(a, v, b, y) for v in x]], ("in", a, b))
# width boundaries of every type seen from every other
EDGE = [0, 1, -1, 127, 128, -128, 254, 255, 256, -255, -256, 32766, 32767, 32768, -32766, -32767, 65535, 65536,
        2**31 - 2, 2**31 - 1, 2**31, -2**31 + 2, -2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, -2**63 + 1]
LIM = {"U8": (0, 255, None), "I16": (-32767, 32767, N16), "I32": (-2**31 + 1, 2**31 - 1, N32), "I64": (-2**63 + 1, 2**63 - 1, N64)}


def edges(t):
    lo, hi, nul = LIM[t]
    return [v for v in EDGE if lo <= v <= hi] + ([nul] if nul is not None else [])


for a in INTS:
    for b in INTS:
        ea, eb = edges(a), edges(b)
        for v in eb:
            S.add(f"(in {sv(a, ea)} {sv(b, [v])})", ["B8", [cross(a, u, b, [v]) for u in ea]], ("in-edge", a, b))
            S.add(f"(in {sv(a, ea[::-1])} {sv(b, [v, eb[0]])})", ["B8", [cross(a, u, b, [v, eb[0]]) for u in ea[::-1]]], ("in-edge", a, b))
        for u in ea:
            S.add(f"(in {sv(a, [u])} {sv(b, eb)})", ["B8", [cross(a, u, b, eb)]], ("in-edge", a, b))
            S.add(f"(in {sv(a, [u, ea[0]])} {sv(b, eb[1:])})", ["B8", [cross(a, w, b, eb[1:]) for w in (u, ea[0])]], ("in-edge", a, b))
for t in LIM:
    e = edges(t)
    for x in itertools.permutations(e, 2):
        S.add(f"(distinct {sv(t, x)})", asset(t, x), ("distinct-edge", t))
        if t in ("U8", "I32", "I64"):
            S.add(f"(find {sv(t, x)} {sv(t, e)})", ["I64", [x.index(v) if v in x else N64 for v in e]], ("find-edge", t))
for t in DOM:
    if t == "F64":
        continue
    for al in DOM[t]:
        for x in al:
            for y in vecs(al, 3):
                if t == "SYMBOL" and not y:
                    continue
                S.add(f"(in {atom(t, x)} {sv(t, y)})", ["b8", cross(t, x, t, y)], ("in-atom", t))
            for y in al:
                S.add(f"(in {atom(t, x)} {atom(t, y)})", ["b8", int(K(t, x) == K(t, y))], ("in-atoms", t))
for x in vecs(G, 2, 1):
    for y in vecs(G, 3, 1):
        S.add("(in (as 'GUID (list %s)) (as 'GUID (list %s)))" % (" ".join('"%s"' % g for g in x), " ".join('"%s"' % g for g in y)), ["B8", [int(g in y) for g in x]], "in-guid")

# ---- find
for t in ("B8", "U8", "C8", "I32", "DATE", "TIME", "I64", "TIMESTAMP", "SYMBOL", "F64"):
    for al in DOM[t]:
        for x in vecs(al, 3 + deep, 1):
            for y in vecs(al, 2, 1):
                ks = [K(t, v) for v in x]
                S.add(f"(find {sv(t, x)} {sv(t, y)})", ["I64", [ks.index(K(t, v)) if K(t, v) in ks else N64 for v in y]], ("find", t))
            if t in ("B8", "I64", "SYMBOL", "TIMESTAMP", "C8"):
                for v in al:
                    S.add(f"(find {sv(t, x)} {atom(t, v)})", ["i64", ks.index(K(t, v)) if K(t, v) in ks else N64], ("find-atom", t))
for x in vecs(["ab", "c", ""], 3, 1):
    for y in vecs(["ab", "c", "", "abc"], 2, 1):
        S.add("(find (list %s 'e) (list %s 'e))" % (" ".join('"%s"' % s for s in x), " ".join('"%s"' % s for s in y)),
              ["I64", [x.index(v) if v in x else N64 for v in y] + [len(x)]], "find-list")
for x in vecs(G, 3, 1):
    for y in vecs(G, 2, 1):
        S.add("(find (as 'GUID (list %s)) (as 'GUID (list %s)))" % (" ".join('"%s"' % g for g in x), " ".join('"%s"' % g for g in y)), ["I64", [x.index(g) if g in x else N64 for g in y]], "find-guid")

# ---- distinct, union, except, sect, group
for t in ("B8", "U8", "C8", "I16", "I32", "DATE", "TIME", "I64", "TIMESTAMP", "SYMBOL"):
    for al in DOM[t]:
        for x in vecs(al, 4 + deep, 0 if t != "SYMBOL" else 1):
            S.add(f"(distinct {sv(t, x)})", asset(t, x), ("distinct", t))
        for x in vecs(al, 2, 1):
            for y in vecs(al, 2, 1):
                S.add(f"(union {sv(t, x)} {sv(t, y)})", asset(t, x + y), ("union", t))
for t in ("I64", "SYMBOL"):
    for al in DOM[t]:
        for x in vecs(al, 3, 1):
            for y in vecs(al, 2 + deep, 1):
                ys = {K(t, v) for v in y}
                S.add(f"(except {sv(t, x)} {sv(t, y)})", cv(t, [v for v in x if K(t, v) not in ys]), ("except", t))
                S.add(f"(sect {sv(t, x)} {sv(t, y)})", cv(t, [v for v in x if K(t, v) in ys]), ("sect", t))
            for v in al:
                S.add(f"(except {sv(t, x)} {atom(t, v)})", cv(t, [u for u in x if K(t, u) != K(t, v)]), ("except-atom", t))


def grouped(t, x):
    want = {}
    for i, v in enumerate(x):
        want.setdefault(K(t, v), []).append(i)

    def pred(g):
        if g[0] != "DICT" or g[1][0] != t or g[2][0] != "LIST":
            return False
        ks = [K(t, v) for v in g[1][1]]
        return len(ks) == len(set(ks)) == len(g[2][1]) == len(want) and all(want.get(k) == l[1] and l[0] == "I64" for k, l in zip(ks, g[2][1]))
    pred.__doc__ = "groups " + str(want)[:300]
    return pred


for t in ("B8", "U8", "C8", "I64", "TIMESTAMP", "SYMBOL", "F64"):
    for al in DOM[t]:
        for x in vecs(al, 4 + deep, 1):
            S.add(f"(group {sv(t, x)})", grouped(t, x), ("group", t))
for x in vecs(G, 3, 1):
    want = {}
    for i, g in enumerate(x):
        want.setdefault(g.replace("-", ""), []).append(i)
    S.add("(group (as 'GUID (list %s)))" % " ".join('"%s"' % g for g in x), (lambda g, w=want: g[0] == "DICT" and dict(zip(g[1][1], [l[1] for l in g[2][1]])) == w), "group-guid")
LA = ['"ab"', '"c"', "1", "'a", "2.5", "'q'", "true", "0x07", "2000.01.02", "[1 2]", "[0x01]", "(list 1 \"x\")", "(dict [a] [1])", "(list true)", "[true]", '""', "3h", "+"]
LG = [["C8", "ab"], ["C8", "c"], ["i64", 1], ["symbol", "a"], ["f64", 2.5], ["c8", "q"], ["b8", 1], ["u8", 7], ["date", 1], ["I64", [1, 2]], ["U8", [1]],
      ["LIST", [["i64", 1], ["C8", "x"]]], ["DICT", ["SYMBOL", ["a"]], ["I64", [1]]], ["LIST", [["b8", 1]]], ["B8", [1]], ["C8", ""], ["i16", 3], ["FN", "+"]]
# every pair of element kinds in mixed lists (a string first keeps the list a list)
for i, j in itertools.product(range(len(LA)), repeat=2):
    if i == j:
        continue
    e = "(list %s %s %s)" % (LA[i], LA[j], LA[i])
    want = sorted([repr(LG[i]), repr(LG[j])])
    S.add(f"(distinct {e})", (lambda g, w=want: g[0] == "LIST" and sorted(map(repr, g[1])) == w), "distinct-list")
    S.add(f"(group {e})", (lambda g, a=repr(LG[i]), b=repr(LG[j]): g[0] == "DICT" and sorted(zip(map(repr, g[1][1]), [l[1] for l in g[2][1]])) == sorted([(a, [0, 2]), (b, [1])])), "group-list")
    S.add("(find %s (list %s %s %s))" % (e, LA[j], LA[i], LA[(j + 1) % len(LA)]), ["I64", [1, 0, 0 if (j + 1) % len(LA) == i else N64]], "find-list")

# ---- where, within, bin, binr
for x in vecs([0, 1], 7 if deep else 6):
    S.add(f"(where {sv('B8', x)})", ["I64", [i for i, v in enumerate(x) if v]], "where")
wd = [N64, -5, 0, 3, 1 << 40]
for lo in wd[1:]:
    for hi in wd[1:]:
        for x in vecs(wd, 2, 1):
            S.add(f"(within {vec('I64', x)} [{lo} {hi}])", ["B8", [int(lo <= v <= hi) for v in x]], "within")
        for v in wd:
            S.add(f"(within {atom('I64', v)} [{lo} {hi}])", ["b8", int(lo <= v <= hi)], "within-atom")
for t, al in (("I64", [N64, -5, 0, 7, 1 << 40]), ("I32", [N32, -5, 0, 7]), ("DATE", [N32, -5, 0, 7]), ("TIME", [N32, 0, 7]), ("TIMESTAMP", [N64, -5, 0, 7])):
    for n in range(1, 6 if deep else 5):
        for x in itertools.combinations_with_replacement(al, n):
            bn = [sum(1 for u in x if u <= v) - 1 for v in al]
            br = [sum(1 for u in x if u < v) for v in al]
            S.add(f"(bin {vec(t, x)} {vec(t, al)})", ["I64", bn], ("bin", t))
            S.add(f"(binr {vec(t, x)} {vec(t, al)})", ["I64", br], ("binr", t))
            for v, p, q in zip(al, bn, br):
                S.add(f"(bin {vec(t, x)} {atom(t, v)})", (lambda g, p=p: g[0] in ("i64", "i32") and g[1] == p), ("bin-atom", t))
                S.add(f"(binr {vec(t, x)} {atom(t, v)})", (lambda g, p=q: g[0] in ("i64", "i32") and g[1] == p), ("binr-atom", t))
S.run(setup=["Q [zz b ab B a aa]"], chunk=6000)

# ---- long vectors: dense, wide and hash strategies, sequential and parallel
lens = [40, 16383, 16384, 40007] + ([65536, 100003, 131073] if deep else [])
LB = {"I64": [[3, 1, 2, 1], [5, N64, 1 << 40, 5, -(1 << 50)], [7 * i for i in range(300)], [i * 1000003 for i in range(500)]],
      "SYMBOL": [["zz", "b", "ab", "b"], ["a", None, "b"]], "F64": [[1.5, NaN, 2.5, 1e10]], "U8": [[255, 0, 127, 255]],
      "I32": [[3, N32, 70000, -3]], "I16": [[3, N16, 700, -3]], "TIMESTAMP": [[3, N64, 1 << 50]], "DATE": [[3, N32, 9000]]}
for cores in (1, 2, 3, 4, 8, 13) if deep else (1, 3, 8):
    for t, bs in LB.items():
        for b in bs:
            for n in lens:
                x = tuple(b[i % len(b)] for i in range(n))
                v = f"(take {vec(t, b)} {n})"
                if t in ("I64", "SYMBOL", "F64", "U8", "TIMESTAMP"):
                    S.add(f"(group {v})", grouped(t, x), ("group", t, n))
                    # a single odd element at the seams
                    if t == "I64":
                        for k in sorted({0, n - 1, n // 2, n // 3, n // 4}):
                            y = x[:k] + (777777777,) + x[k + 1:]
                            S.add(f"(group (do (set v {v}) (alter 'v set {k} 777777777) v))", grouped(t, y), ("group1", t, n))
                if t != "F64":
                    S.add(f"(distinct {v})", asset(t, x), ("distinct", t, n))
                    S.add(f"(in {v} {vec(t, b[:1])})", ["B8", [int(K(t, u) == K(t, b[0])) for u in x]], ("in", t, n))
                    S.add(f"(in {vec(t, b)} {v})", ["B8", [int(K(t, u) in {K(t, w) for w in x}) for u in b]], ("in", t, n))
                if t not in ("I16",):
                    ks = [K(t, u) for u in x]
                    first = {}
                    for i, k in enumerate(ks):
                        first.setdefault(k, i)
                    S.add(f"(find {v} {vec(t, b[::-1])})", ["I64", [first.get(K(t, u), N64) for u in b[::-1]]], ("find", t, n))
    for n in lens:
        y = [(i * 7919) % 100 - 5 for i in range(n)]
        for t in ("I64", "I32"):
            xs = [0, 10, 10, 50, 80]
            e = f"(- (% (* (as '{t} (til {n})) {7919 if t == 'I64' else '7919i'}) {100 if t == 'I64' else '100i'}) {5 if t == 'I64' else '5i'})"
            S.add(f"(bin {vec(t, xs)} {e})", ["I64", [sum(1 for u in xs if u <= v) - 1 for v in y]], ("bin", n))
            S.add(f"(binr {vec(t, xs)} {e})", ["I64", [sum(1 for u in xs if u < v) for v in y]], ("binr", n))
        S.add(f"(where (== 0 (% (til {n}) 3)))", ["I64", list(range(0, n, 3))], ("where", n))
    # guids, enumerations and mixed lists at length
    g5 = ["%08x-2233-4455-6677-8899aabbcc%02x" % (k % 3, k) for k in range(7)]
    gl = "(as 'GUID (list %s))" % " ".join('"%s"' % g for g in g5)
    s5 = ["zz", "b", "ab", "a", "dd"]
    le = [["I64", [1]], ["C8", "ab"], ["i64", 5], ["symbol", "a"]]
    for n in lens:
        for src, elem, kind in (("(at %s (%% (til %d) 7))" % (gl, n), [g.replace("-", "") for g in g5], "GUID"), ("(at (enum 'dm [zz b ab a dd]) (%% (til %d) 5))" % n, s5, "SYMBOL"), ("(at (list [1] \"ab\" 5 'a) (%% (til %d) 4))" % n, le, "LIST")):
            p = len(elem)
            want = [[i for i in range(n) if i % p == k] for k in range(min(p, n))]

            def gp(g, want=want, elem=elem, kind=kind):
                if g[0] != "DICT":
                    return False
                ks = g[1][1] if kind != "SYMBOL" or g[1][0] == "SYMBOL" else g[1][1][1]
                return sorted((repr(k), l[1]) for k, l in zip(ks, g[2][1])) == sorted((repr(e), w) for e, w in zip(elem, want))
            S.add(f"(group {src})", gp, ("group", kind, n))
            if kind == "GUID":
                S.add(f"(distinct {src})", (lambda g, elem=elem: sorted(g[1]) == sorted(elem)), ("distinct", kind, n))
                S.add(f"(find {src} (at {gl} [6 0 3]))", ["I64", [6, 0, 3]], ("find", kind, n))
                S.add(f"(find (at {gl} [6 0 3 5 1]) {src})", ["I64", [{6: 0, 0: 1, 3: 2, 5: 3, 1: 4}.get(i % 7, N64) for i in range(n)]], ("find", kind, n))
                S.add(f"(in {src} (at {gl} [6 0 3]))", ["B8", [int(i % 7 in (6, 0, 3)) for i in range(n)]], ("in", kind, n))
            if kind == "LIST":
                S.add(f"(count (distinct {src}))", ["i64", 4], ("distinct", kind, n))
    S.run(setup=["Q [zz b ab B a aa]", "Q (set dm ['a 'zz 'b 'dd 'ab])"], cores=cores, chunk=30)
# ---- many distinct elements: tables of keys that grow, strides that collide, texts of every length
MANY = [("(+ %d (* %d (til {n})))" % (o, st), 1 << 62) for st in (1, 2, 3, -1, 64, 1023, 1024, 4096, 65536, (1 << 32) - 1, 1 << 32, (1 << 40) + 1, -(1 << 33)) for o in (0, -5, 10**12)]
MANY += [("(* 0.25 (til {n}))", 1 << 62), ("(- (* 65536.0 (til {n})) 1000.5)", 1 << 62), ("(div (til {n}) 7.0)", 1 << 62), ("(as 'SYMBOL (til {n}))", 1 << 62), ("(as 'DATE (til {n}))", 1 << 62), ("(as 'TIMESTAMP (* 86400000000000 (til {n})))", 100000), ("(as 'I32 (* 70000 (til {n})))", 30000), ("(as 'I16 (til {n}))", 32767), ("(as 'U8 (til {n}))", 256),
         ("(map (fn [x] (format \"k%\" x)) (til {n}))", 6000), ("(map (fn [x] (take \"ab\" x)) (til {n}))", 700), ("(map (fn [x] (list x (* x x))) (til {n}))", 6000), ("(map (fn [x] (list x)) (til {n}))", 6000), ("(map (fn [x] (til x)) (til {n}))", 700), ("(map (fn [x] (take 0.5 (+ 1 x))) (til {n}))", 700),
         ("(map (fn [x] (list \"s\" (as 'symbol x) (list x 1.5))) (til {n}))", 6000), ("(map (fn [x] (dict [a b] (list x 1))) (til {n}))", 3000)]
for cores in (1, 4) if not deep else (1, 2, 3, 4, 8):
    for e, top in MANY:
        for n in (1, 2, 3, 7, 8, 9, 16, 17, 33, 64, 65, 129, 256, 257, 1000, 1025, 5000, 16385) if not deep else (1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1025, 3000, 5000, 16385, 40000):
            if n > top or cores > 1 and n < 5000:
                continue
            v = e.replace("{n}", str(n))
            k = min(5, n)
            flt = "." in e and "map" not in e

            def add(x, w, tag):
                S.add("(do (set v %s) %s)" % (v, x), w, (tag, e))
            if "I16" not in e:
                add("(find v v)", ["I64", list(range(n))], "many find")
            if flt:
                add("(count (where (in v v)))", ["i64", n], "many in") if False else None
                continue
            add("(count (distinct v))", ["i64", n], "many distinct")
            add("(count (distinct (concat v v)))", ["i64", n], "many distinct")
            if "I16" not in e and not ("I32" in e) and "DATE" not in e:
                add("(do (set g (raze (value (group (concat v v))))) (list (count g) (count (where (!= (+ %d (at g (* 2 (til %d)))) (at g (+ 1 (* 2 (til %d))))))) (sum g)))" % (n, n, n), ["LIST", [["i64", 2 * n], ["i64", 0], ["i64", n * (2 * n - 1)]]], "many group")
            if "(map" in e:
                continue
            add("(list (count (where (in v v))) (where (in v (take v %d))) (where (in (take v -%d) v)))" % (k, k), ["LIST", [["i64", n], ["I64", list(range(k))], ["I64", list(range(k))]]], "many in")
            if "(as '" in e and "SYMBOL" not in e:
                continue
            add("(list (count (union v v)) (count (except v (take v %d))) (count (sect v (take v -%d))))" % (k, k), ["LIST", [["i64", n], ["i64", n - k], ["i64", k]]], "many sets")
    S.run(cores=cores, chunk=100)
c.finish("each distinct (operator, operand expression) whose model value was predicted and compared with the interpreter's answer")
