"""P05: taking, selecting, joining, cutting and rearranging elements of vectors, lists, dictionaries and tables gives exactly the elements the definition names, in its order, with their type."""
import sys, os, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import suite, report
from vt.val import *
from vt.suite import ERR

pid, tier = sys.argv[1], sys.argv[2]
c = report.Check(pid, tier, "exploration")
S = suite.Suite(c)
deep = tier == "thorough"
NaN = float("nan")
NIL = ["NULL"]
GU = ["00112233-4455-6677-8899-aabbccddeeff", "ffffffff-ffff-ffff-ffff-ffffffffff01", "00000000-0000-0000-0000-000000000000"]
AL = {
    "B8": [0, 1], "U8": [0, 127, 255], "C8": ["a", "b", "z"], "I16": [N16, -1, 32767], "I32": [N32, -1, 2**31 - 1], "I64": [N64, -1, 2**63 - 1],
    "DATE": [N32, -1, 8825], "TIME": [N32, 0, 86399999], "TIMESTAMP": [N64, -1, 1 << 40], "SYMBOL": [None, "ab", "b"], "F64": [NaN, -2.5, 0.5],
    "GUID": [g.replace("-", "") for g in GU],
    # elements of lists: (expression, canonical value)
    "LIST": [("1", ["i64", 1]), ("'a", ["symbol", "a"]), ('"xy"', ["C8", "xy"]), ("[1 2]", ["I64", [1, 2]]), ("(list 1 'b)", ["LIST", [["i64", 1], ["symbol", "b"]]])],
}
VOID = {"B8": 0, "U8": 0, "C8": "\0", **NULLS}
LOWER = {t: t.lower() for t in AL}


def ex(t, vs):
    """expression of the vector"""
    if t == "LIST":
        return "(list %s)" % " ".join(e for e, _ in vs)
    if t == "GUID":
        return "(as 'GUID (list %s))" % " ".join('"%s"' % GU[AL["GUID"].index(v)] for v in vs) if vs else "(as 'GUID [])"
    if not vs:
        return '""' if t == "C8" else "(as '%s [])" % t
    return vec(t, vs)


def cv(t, vs):
    """canonical form of the vector"""
    if t == "LIST":
        return ["LIST", [v for _, v in vs]]
    return [t, "".join(vs) if t == "C8" else list(vs)]


def ea(t, v):
    """expression of the atom"""
    if t == "LIST":
        return v[0]
    return "(first %s)" % ex(t, [v])


def ca(t, v):
    return v[1] if t == "LIST" else [LOWER[t], v]


def nth(t, vs, i):
    if -len(vs) <= i < len(vs):
        return ca(t, vs[i])
    return NIL if t in ("LIST", "GUID") else [LOWER[t], VOID[t]]


CANON = {v: k for k, v in LOWER.items() if k != "LIST"}


def collect(rs):
    """the vector of the atoms, a list where they are of more than one type"""
    t = rs[0][0] if rs else None
    if t in CANON and all(r[0] == t for r in rs):
        return [CANON[t], "".join(r[1] for r in rs) if t == "c8" else [r[1] for r in rs]]
    return ["LIST", rs]


def take(n, vs):
    if not vs:
        return []
    m = abs(n)
    off = 0 if n >= 0 else -m % len(vs)
    return [vs[(off + k) % len(vs)] for k in range(m)]


def rng(s, m, vs):
    """m elements from s (counted from the end when negative), as far as there are any"""
    s = min(max(s + len(vs), 0) if s < 0 else s, len(vs))
    return vs[s:s + m]


N = 4 if deep else 3
D = 3
for t, al in AL.items():
    al = al[:5 if deep else 3]
    for k in range(N + 1):
        for vs in itertools.product(al, repeat=k):
            vs = list(vs)
            x = ex(t, vs)
            S.add("(count %s)" % x, ["i64", k], ("count", t))
            S.add("(first %s)" % x, nth(t, vs, 0), ("first", t))
            S.add("(last %s)" % x, nth(t, vs, -1), ("last", t))
            for i in range(-k - 1, k + 2):
                S.add("(at %s %d)" % (x, i), nth(t, vs, i), ("at", t, i - k, i))
            for n in range(-2 * k - 1, 2 * k + 2):
                S.add("(take %s %d)" % (x, n), cv(t, take(n, vs)), ("take", t, k, n))
            for n in (0, 1, -1, k + 1, -k - 1):
                S.add("(take %s %di)" % (x, n), cv(t, take(n, vs)), ("take", t, "I32", n))
                S.add("(take %s %dh)" % (x, n), cv(t, take(n, vs)), ("take", t, "I16", n))
            for s, m in itertools.product(range(-k - 1, k + 2), range(k + 2)):
                S.add("(take %s [%d %d])" % (x, s, m), cv(t, rng(s, m, vs)), ("range", t, k, s, m))
            S.add("(take %s [0 -1])" % x, ERR, ("range", t))
            if t != "GUID":
                S.add("(reverse %s)" % x, cv(t, vs[::-1]), ("reverse", t, k))
            if k and len(set(map(str, vs))) == min(k, len(al)):
                for bits in itertools.product((0, 1), repeat=k):
                    S.add("(filter %s %s)" % (x, vec("B8", bits)), cv(t, [v for v, b in zip(vs, bits) if b]), ("filter", t, k, bits))
                S.add("(filter %s %s)" % (x, vec("B8", [1] * (k + 1))), ERR, ("filter", t))
            if k and vs == (al * N)[:k]:
                for r in range(1, 4):
                    for is_ in itertools.product(range(-k - 1, k + 1), repeat=r):
                        S.add("(at %s %s)" % (x, vec("I64", is_)), collect([nth(t, vs, i) for i in is_]), ("at vector", t, k, is_))
                # cuts at ascending places
                for r in range(1, k + 1):
                    for cut in itertools.product(range(k + 1), repeat=r):
                        good = all(a <= b for a, b in zip(cut, cut[1:])) and cut[0] < k
                        parts = [vs[a:b] for a, b in zip(cut, list(cut[1:]) + [k])]
                        if t == "LIST":
                            w = ["LIST", [collect([ca(t, v) for v in p]) for p in parts]]
                        else:
                            w = ["LIST", [cv(t, p) for p in parts]]
                        if t == "C8":
                            continue
                        for it in ("I64", "I32", "I16"):
                            S.add("(split %s %s)" % (x, vec(it, cut)), w if good else ERR, ("split", t, k, cut, it))
                if t != "GUID":
                    for i in range(-1, k + 1):
                        for suf in ("", "i"):
                            S.add("(remove %s %d%s)" % (x, i, suf), cv(t, vs[:i] + vs[i + 1:] if 0 <= i < k else vs), ("remove", t, k, i))
    for v in al:
        a = ea(t, v)
        if t != "LIST":
            for n in (0, 1, 3, -3):
                S.add("(take %s %d)" % (a, n), cv(t, [v] * abs(n)), ("take atom", t, n))
            S.add("(count %s)" % a, ["i64", 1], ("count atom", t))
            S.add("(first %s)" % a, ca(t, v), ("first atom", t))
            S.add("(last %s)" % a, ca(t, v), ("last atom", t))
    # concatenation, with the type kept where both sides have it
    small = [list(v) for k in range(D) for v in itertools.product(al, repeat=k)]
    for x, y in itertools.product(small, repeat=2):
        S.add("(concat %s %s)" % (ex(t, x), ex(t, y)), cv(t, x + y), ("concat", t, len(x), len(y)))
    for x in small:
        for v in al:
            if t == "LIST" and v[1][0] == "LIST":
                continue  # a list joins as a list
            S.add("(concat %s %s)" % (ex(t, x), ea(t, v)), cv(t, x + [v]), ("concat", t, len(x), "atom"))
            S.add("(concat %s %s)" % (ea(t, v), ex(t, x)), cv(t, [v] + x), ("concat", t, "atom", len(x)))
    if t != "LIST":
        for v, w in itertools.product(al, repeat=2):
            S.add("(concat %s %s)" % (ea(t, v), ea(t, w)), cv(t, [v, w]), ("concat", t, "atoms"))
            S.add("(enlist %s %s)" % (ea(t, v), ea(t, w)), cv(t, [v, w]), ("enlist", t))
            S.add("(raze (list %s %s))" % (ea(t, v), ea(t, w)), cv(t, [v, w]), ("raze", t, "atoms"))
            S.add("(unify (list %s %s))" % (ea(t, v), ea(t, w)), cv(t, [v, w]), ("unify", t))
            S.add("(list %s %s)" % (ea(t, v), ea(t, w)), ["LIST", [ca(t, v), ca(t, w)]], ("list", t))
            S.add("(diverse %s)" % ex(t, [v, w]), ["LIST", [ca(t, v), ca(t, w)]], ("diverse", t))
        for v in al:
            S.add("(enlist %s)" % ea(t, v), cv(t, [v]), ("enlist", t))
    # razing gives the elements of all parts
    for k in range(1, 4):
        for parts in itertools.product([list(v) for j in range(3) for v in [al[:j], al[1:1 + j]]], repeat=k):
            if t == "LIST":
                flat = [v[1] for p in parts for v in p]
                if not flat:
                    continue
                w = collect(flat)
            else:
                w = cv(t, [v for p in parts for v in p])
            S.add("(raze (list %s))" % " ".join(ex(t, p) for p in parts), w, ("raze", t, tuple(map(len, parts))))
# elements of two types make lists
for (t, a), (u, b) in itertools.permutations([(t, al) for t, al in AL.items() if t != "LIST"], 2):
    x, y = ea(t, a[1]), ea(u, b[1])
    w = ["LIST", [ca(t, a[1]), ca(u, b[1])]]
    S.add("(enlist %s %s)" % (x, y), w, ("enlist", t, u))
    S.add("(list %s %s)" % (x, y), w, ("list", t, u))
    S.add("(concat %s %s)" % (x, y), w, ("concat", t, u))
    S.add("(raze (list %s %s))" % (x, ex(u, b)), ["LIST", [ca(t, a[1])] + [ca(u, v) for v in b]], ("raze", t, u))
    S.add("(raze (list %s %s))" % (ex(t, a), y), ["LIST", [ca(t, v) for v in a] + [ca(u, b[1])]], ("raze", t, u))
    S.add("(raze (list %s %s))" % (ex(t, a), ex(u, b)), ["LIST", [ca(t, v) for v in a] + [ca(u, v) for v in b]], ("raze", t, u))
    S.add("(concat %s %s)" % (ex(t, a), y), ["LIST", [cv(t, a), ca(u, b[1])]], ("concat", t, u))
# ---- where, til and the binary searches
for k in range(1, 9 if deep else 7):
    for bits in itertools.product((0, 1), repeat=k):
        S.add("(where %s)" % vec("B8", bits), ["I64", [i for i, b in enumerate(bits) if b]], ("where", k))
        S.add("(sum %s)" % "(as 'I64 %s)" % vec("B8", bits), ["i64", sum(bits)], ("where", k))
for n in list(range(70)) + [255, 256, 511, 512, 4095, 4097]:
    S.add("(til %d)" % n, ["I64", list(range(n))], ("til", n))
for n in ("-1", "0Nl", "'a", "1.5", "[1 2]"):
    S.add("(til %s)" % n, ERR, ("til", n)) if n != "[1 2]" else None
for t, al in (("I32", [-5, 0, 7]), ("I64", [-5, 0, 7]), ("DATE", [-5, 0, 7]), ("TIME", [1, 5, 9]), ("TIMESTAMP", [-5, 0, 7])):
    qs = sorted({v + d for v in al for d in (-1, 0, 1)} | {al[-1] + 5})
    for k in range(0, 6 if deep else 5):
        for vs in itertools.combinations_with_replacement(al, k):
            x = ex(t, list(vs))
            b = [sum(v <= q for v in vs) - 1 for q in qs]
            r = [sum(v < q for v in vs) for q in qs]
            S.add("(bin %s %s)" % (x, vec(t, qs)), ["I64", b], ("bin", t, k))
            S.add("(binr %s %s)" % (x, vec(t, qs)), ["I64", r], ("binr", t, k))
            for q, i, j in zip(qs, b, r):
                S.add("(as 'i64 (bin %s %s))" % (x, atom(t, q)), ["i64", i], ("bin", t, k, q))
                S.add("(as 'i64 (binr %s %s))" % (x, atom(t, q)), ["i64", j], ("binr", t, k, q))
# ---- text is cut at every place of the delimiter
for k in range(0, 7 if deep else 6):
    for s in itertools.product("a,;", repeat=k):
        s = "".join(s)
        for d in (",", ",,", ",;", "a,"):
            S.add('(split "%s" "%s")' % (s, d), ["LIST", [["C8", p] for p in s.split(d)]], ("split text", d, s.count(d)))
        if k and "," not in s[:1] and ";" not in s:
            S.add("(split (as 'symbol \"%s\") \",\")" % s, ["LIST", [["C8", p] for p in s.split(",")]], ("split symbol", s.count(",")))
for n in (15, 16, 17, 31, 32, 33, 63, 64, 65, 100):
    for i in range(0, n, 1 if deep else 3):
        s = "x" * i + "," + "y" * (n - i - 1)
        S.add('(split "%s" ",")' % s, ["LIST", [["C8", p] for p in s.split(",")]], ("split text", n))
# ---- dictionaries
KS = {"SYMBOL": ["k", "l", "m"], "I64": [3, 1, 2], "I32": [3, 1, 2], "C8": ["x", "y", "z"], "DATE": [0, 1, 2], "TIMESTAMP": [5, 6, 7], "F64": [0.5, 1.5, 2.5]}
for kt, ks in KS.items():
    for t, al in AL.items():
        for k in range(1, 4):
            vs = (al * 3)[:k]
            d = "(dict %s %s)" % (ex(kt, ks[:k]), ex(t, vs))
            cd = lambda q: ["DICT", cv(kt, [ks[i] for i in q]), cv(t, [vs[i] for i in q])]
            S.add(d, cd(range(k)), ("dict", kt, t, k))
            S.add("(key %s)" % d, cv(kt, ks[:k]), ("key", kt, t))
            S.add("(value %s)" % d, cv(t, vs), ("value", kt, t))
            S.add("(count %s)" % d, ["i64", k], ("count", kt, t))
            for i in range(k):
                S.add("(at %s %s)" % (d, ea(kt, ks[i])), ca(t, vs[i]), ("at", kt, t, i))
            if kt != "C8":
                for q in itertools.product(range(k), repeat=2):
                    S.add("(at %s %s)" % (d, ex(kt, [ks[i] for i in q])), collect([ca(t, vs[i]) for i in q]), ("at keys", kt, t, q))
            for n in range(-2 * k, 2 * k + 1):
                q = take(n, list(range(k)))
                S.add("(take %s %d)" % (d, n), cd(q), ("take", kt, t, k, n))
            for s, m in itertools.product(range(-k, k + 1), range(1, k + 1)):
                q = rng(s, m, list(range(k)))
                S.add("(take %s [%d %d])" % (d, s, m), cd(q), ("range", kt, t, k, s, m))
        S.add("(dict %s %s)" % (ex(kt, ks), ex(t, al[:2])), ERR, ("dict", kt, t))
# the right one of two dictionaries wins, the order of the left one stays
for k, l in itertools.product(range(1, 4), repeat=2):
    for a, b in itertools.product(itertools.permutations("kln", k), itertools.permutations("lmk", l)):
        va, vb = list(range(k)), list(range(10, 10 + l))
        m = dict(zip(a, va))
        m.update(zip(b, vb))
        order = list(a) + [q for q in b if q not in a]
        S.add("(concat (dict %s (list %s)) (dict %s (list %s)))" % (vec("SYMBOL", a), " ".join(map(str, va)), vec("SYMBOL", b), " ".join(map(str, vb))),
              ["DICT", ["SYMBOL", order], ["LIST", [["i64", m[q]] for q in order]]], ("concat dict", k, l))
# ---- tables
for t, u in itertools.product(AL, repeat=2):
    for k in range(1, 4):
        p, q = (AL[t] * 3)[:k], (AL[u] * 3)[1:k + 1]
        x = "(table [p q] (list %s %s))" % (ex(t, p), ex(u, q))
        ct = lambda ids: ["TABLE", ["SYMBOL", ["p", "q"]], ["LIST", [cv(t, [p[i] for i in ids]), cv(u, [q[i] for i in ids])]]]
        S.add(x, ct(range(k)), ("table", t, u))
        S.add("(count %s)" % x, ["i64", k], ("count", t, u))
        S.add("(at %s 'q)" % x, cv(u, q), ("column", t, u))
        S.add("(at %s [q p])" % x, ["LIST", [cv(u, q), cv(t, p)]], ("columns", t, u))
        S.add("(at %s 'r)" % x, NIL, ("column", t, u))
        S.add("(at %s [p r])" % x, ["LIST", [cv(t, p), NIL]], ("columns", t, u))
        for n in range(-k - 1, k + 2):
            S.add("(take %s %d)" % (x, n), ct(take(n, list(range(k)))), ("take", t, u, n))
        for s, m in itertools.product(range(-k, k), range(1, k + 1)):
            S.add("(take %s [%d %d])" % (x, s, m), ct(rng(s, m, list(range(k)))), ("range", t, u, s, m))
        for bits in itertools.product((0, 1), repeat=k):
            S.add("(filter %s %s)" % (x, vec("B8", bits)), ct([i for i, b in enumerate(bits) if b]), ("filter", t, u, bits))
        S.add("(concat %s %s)" % (x, x), ct(list(range(k)) * 2), ("concat", t, u))
        y = "(table [q p] (list %s %s))" % (ex(u, q), ex(t, p))
        S.add("(concat %s %s)" % (x, y), ct(list(range(k)) * 2), ("concat", t, u, "other order"))
        S.add("(concat %s (table [p z] (list %s %s)))" % (x, ex(t, p), ex(u, q)), ERR, ("concat", t, u, "other names"))
        if t != u:
            S.add("(concat %s (table [p q] (list %s %s)))" % (x, ex(t, p), ex(t, p)), ERR, ("concat", t, u, "other types"))
        if "LIST" not in (t, u):
            for i in range(k):
                S.add("(at %s %d)" % (x, i), ["DICT", ["SYMBOL", ["p", "q"]], ["LIST", [ca(t, p[i]), ca(u, q[i])]]], ("row", t, u, i))
            S.add("(first %s)" % x, ["DICT", ["SYMBOL", ["p", "q"]], ["LIST", [ca(t, p[0]), ca(u, q[0])]]], ("first row", t, u))
            S.add("(last %s)" % x, ["DICT", ["SYMBOL", ["p", "q"]], ["LIST", [ca(t, p[-1]), ca(u, q[-1])]]], ("last row", t, u))
S.run(flavor="asan")
# ---- long ones, against the indices they must have, with several executors
IDX = {t: "(at %s (%%%% (til %%d) %d))" % (ex(t, AL[t]), len(AL[t])) for t in AL if t not in ("C8", "LIST")}
for n in (16383, 16384, 16385, 40001) + ((100003, 524289) if deep else ()):
    S.add("(sum (til %d))" % n, ["i64", n * (n - 1) // 2], ("long til", n))
    S.add("(sum (as 'I64 (== (til %d) (+ 0 (til %d)))))" % (n, n), ["i64", n], ("long til", n))
    for i in (0, 1, n // 2, n - 1):
        S.add("(at (til %d) %d)" % (n, i), ["i64", i], ("long til", n))
    for m in (1, 2, 7, 64, 1000):
        w = list(range(0, n, m))
        for e in ("(where (== 0 (%% (til %d) %d)))" % (n, m), "(filter (til %d) (== 0 (%% (til %d) %d)))" % (n, n, m)):
            S.add("(count %s)" % e, ["i64", len(w)], ("long where", n, m))
            S.add("(sum %s)" % e, ["i64", sum(w)], ("long where", n, m))
            S.add("(last %s)" % e, ["i64", w[-1]], ("long where", n, m))
            S.add("(sum (as 'I64 (== %s (* %d (til %d)))))" % (e, m, len(w)), ["i64", len(w)], ("long where", n, m))
    S.add("(sum (as 'I64 (== (reverse (til %d)) (- %d (til %d)))))" % (n, n - 1, n), ["i64", n], ("long reverse", n))
    S.add("(sum (as 'I64 (== (concat (til %d) (+ %d (til 100))) (til %d))))" % (n, n, n + 100), ["i64", n + 100], ("long concat", n))
    S.add("(sum (as 'I64 (== (raze (list (til 100) (+ 100 (til %d)))) (til %d))))" % (n, n + 100), ["i64", n + 100], ("long raze", n))
    S.add("(sum (as 'I64 (== (take (til %d) %d) (%% (til %d) %d))))" % (n, 2 * n + 5, 2 * n + 5, n), ["i64", 2 * n + 5], ("long take", n))
    S.add("(sum (as 'I64 (== (take (til %d) [77 %d]) (+ 77 (til %d)))))" % (n, n - 200, n - 200), ["i64", n - 200], ("long range", n))
    for t in ("I64", "TIMESTAMP", "I32", "DATE", "TIME"):
        x = "(as '%s (* 3 (til %d)))" % (t, n)
        y = "(as '%s (- (til %d) 2))" % (t, 3 * n)
        S.add("(sum (as 'I64 (== (bin %s %s) (- (/ (+ 1 (til %d)) 3) 1))))" % (x, y, 3 * n), ["i64", 3 * n], ("long bin", t, n))
        S.add("(sum (as 'I64 (== (binr %s %s) (/ (til %d) 3))))" % (x, y, 3 * n), ["i64", 3 * n], ("long binr", t, n))
    for t, e in IDX.items():
        x, k = e % n, len(AL[t])
        probes = sorted({0, 1, k, n // 2, n - 2, n - 1})
        for i in probes:
            S.add("(at %s %d)" % (x, i), [LOWER[t], AL[t][i % k]], ("long at", t, n))
            if t != "GUID":
                S.add("(at (reverse %s) %d)" % (x, i), [LOWER[t], AL[t][(n - 1 - i) % k]], ("long reverse", t, n))
            S.add("(at (concat %s %s) %d)" % (x, ex(t, AL[t]), n + i % k), [LOWER[t], AL[t][i % k]], ("long concat", t, n))
            S.add("(at (take %s %d) %d)" % (x, n + 9, i), [LOWER[t], AL[t][i % k]], ("long take", t, n))
            S.add("(at (filter %s (< 4 (til %d))) %d)" % (x, n, i - 5 if i >= 5 else i), [LOWER[t], AL[t][(i if i >= 5 else i + 5) % k]], ("long filter", t, n))
held = S.cases
for k in (1, 3, 8):
    S.cases = held
    S.run(cores=k)
c.finish("distinct operations whose result was predicted")
