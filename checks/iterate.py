"""P26: map, pmap, map-left, map-right, fold and scan apply the function to each element, in order, once; pmap gives what map gives for every number of executors."""
import sys, os, itertools, functools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import suite, report
from vt.val import *
from vt.suite import ERR

pid, tier = sys.argv[1], sys.argv[2]
c = report.Check(pid, tier, "exploration")
S = suite.Suite(c)
deep = tier == "thorough"
NaN = float("nan")
VEC = {"i64": "I64", "f64": "F64", "symbol": "SYMBOL", "c8": "C8", "b8": "B8", "i32": "I32", "i16": "I16", "u8": "U8", "date": "DATE", "time": "TIME", "timestamp": "TIMESTAMP", "guid": "GUID"}
NULLV = ["NULL"]


class Fail(Exception):
    pass


def isvec(v):
    return v[0] in VEC.values() or v[0] == "LIST"


def items(v):
    """elements of a vector or list"""
    if v[0] == "LIST":
        return v[1]
    n = {b: a for a, b in VEC.items()}[v[0]]
    return [[n, x] for x in v[1]]


def collect(rs):
    """what a sequence of results is collected in"""
    t = rs[0][0]
    if t in VEC and all(r[0] == t for r in rs):
        return [VEC[t], "".join(r[1] for r in rs) if t == "c8" else [r[1] for r in rs]]
    return ["LIST", list(rs)]


def empty(v):
    return [v[0], "" if v[0] == "C8" else []]


def rank(args):
    ns = {len(items(a)) for a in args if isvec(a)}
    if len(ns) > 1:
        raise Fail
    return ns.pop() if ns else 1


def m_map(f, *args):
    n = rank(args)
    if n == 0:
        return empty(args[0])
    return collect([f(*[items(a)[i] if isvec(a) else a for a in args]) for i in range(n)])


def m_left(f, x, *rest):
    if not isvec(x):
        return f(x, *rest)
    return collect([f(i, *rest) for i in items(x)]) if items(x) else empty(x)


def m_right(f, *args):
    x, rest = args[-1], args[:-1]
    if not isvec(x):
        return f(*args)
    return collect([f(*(rest + (i,))) for i in items(x)]) if items(x) else empty(x)


def m_fold(f, x):
    if not items(x):
        return ["LIST", []]
    v = items(x)[0]
    for i in items(x)[1:]:
        v = f(v, i)
    return v


def m_scan(f, x):
    if not items(x):
        return ["LIST", []]
    r = [items(x)[0]]
    for i in items(x)[1:]:
        r.append(f(r[-1], i))
    return ["LIST", r]


def over(f, init, xs, flip):
    r = [init]
    for i in items(xs):
        r.append(f(r[-1], i) if flip else f(i, r[-1]))
    return r


def expr(v):
    t, x = v[0], v[1] if len(v) > 1 else None
    if t == "NULL":
        return "null"
    if t == "LIST":
        return "(list %s)" % " ".join(map(expr, x)) if x else "(list)"
    if t == "C8":
        return '"%s"' % x
    if t == "SYMBOL":
        return "[%s]" % " ".join(x) if x else "(take ['a] 0)"
    if t == "symbol":
        return "'" + x
    if t == "c8":
        return '(first "%s")' % x
    if t == "GUID":
        return "(take (as 'GUID (list \"%s\")) 0)" % ("0" * 32) if not x else "(as 'GUID (list %s))" % " ".join('"%s-%s-%s-%s-%s"' % (g[:8], g[8:12], g[12:16], g[16:20], g[20:]) for g in x)
    if t in VEC:
        return atom(VEC[t], x)
    return vec(t, x)


def pred(m, *a):
    try:
        return m(*a)
    except Fail:
        return ERR


I = lambda *v: ["I64", list(v)]
i = lambda v: ["i64", v]
L = lambda *v: ["LIST", list(v)]


def raises(x):
    raise Fail


QQ, Q, T = ["C8", "qq"], ["symbol", "q"], ["C8", "st"]
ONE = i(1)
# functions of one argument: text and meaning
F1 = [("(fn [x] x)", lambda x: x), ("(fn [x] (list x x))", lambda x: L(x, x)), ("(fn [x] [7 8])", lambda x: I(7, 8)), ("(fn [x] null)", lambda x: NULLV), ("(fn [x] 5)", lambda x: i(5)),
      ("(fn [x] (list))", lambda x: L()), ("(fn [x] G)", lambda x: I(3, 4)), ("(fn [x] (do (let y x) (list y y)))", lambda x: L(x, x)), ("(fn [x] (raise \"e\"))", raises), ("(fn [x] \"st\")", lambda x: T), ("(fn [x] 2.5)", lambda x: ["f64", 2.5]),
      ("(fn [x] (try (raise 5) (fn [e] 'q)))", lambda x: Q), ("(fn [x] (map (fn [y] y) [1 2]))", lambda x: I(1, 2)), ("(fn [x] (first (list x 'z)))", lambda x: x), ("(fn [x] {a: 1})", None), ("(fn [x] count)", None)]
F1 = [f for f in F1 if f[1]]
# functions of the elements 0 1 2 ... which change type, fail, at one of them
FI = []
for k in range(4):
    for t, v in (("'q", Q), ("\"st\"", T), ("null", NULLV), ("2.5", ["f64", 2.5]), ("[7 8]", I(7, 8)), ("(list)", L())):
        FI.append(("(fn [x] (if (== x %d) %s x))" % (k, t), lambda x, k=k, v=v: v if x == i(k) else x))
        FI.append(("(fn [x] (if (== x %d) x %s))" % (k, t), lambda x, k=k, v=v: x if x == i(k) else v))
    FI.append(("(fn [x] (if (== x %d) (raise \"e\") x))" % k, lambda x, k=k: raises(x) if x == i(k) else x))
    FI.append(("(fn [x] (if (== x %d) (raise \"e\") (list x \"st\")))" % k, lambda x, k=k: raises(x) if x == i(k) else L(x, T)))
    FI.append(("(fn [x] (if (> x %d) (list x) (if (== x %d) x 'q)))" % (k, k), lambda x, k=k: L(x) if x[1] > k else x if x[1] == k else Q))

SEQ = [I(*range(n)) for n in range(5)] + [L(*map(i, range(n))) for n in range(4)]
G1, G2 = "00112233445566778899aabbccddeeff", "f" * 32
TYPED = [["F64", [1.5, NaN, -2.0]], ["SYMBOL", ["a", "b", "a"]], ["C8", "abc"], ["C8", "a"], ["B8", [1, 0, 1]], ["U8", [0, 255]], ["I16", [1, N16, 32767]], ["I32", [1, N32, 7]], ["DATE", [0, N32, 8825]], ["TIME", [0, 1000]], ["TIMESTAMP", [0, N64, 10**18]],
         ["GUID", [G1, G2]], L(i(1), Q, T), L(I(1, 2), I(3)), L(NULLV, i(1)), L(T, T, T), L(L(), L(i(1)), I()), L(["f64", 1.5], i(2)), ["F64", []], ["SYMBOL", []], ["C8", ""], ["B8", []], ["U8", []], ["I16", []], ["I32", []], ["DATE", []], ["TIME", []], ["TIMESTAMP", []], ["GUID", []]]
SETUP = ["E (set G [3 4])", "E (set W (til 10))"]

for mp in ("map", "pmap"):
    for x in SEQ:
        for t, f in F1 + FI:
            S.add("(%s %s %s)" % (mp, t, expr(x)), pred(m_map, f, x), (mp, "integers", len(items(x))))
    for x in TYPED:
        for t, f in F1:
            S.add("(%s %s %s)" % (mp, t, expr(x)), pred(m_map, f, x), (mp, "typed", x[0]))
    for x in (i(5), Q, NULLV):
        S.add("(%s (fn [x] (list x)) %s)" % (mp, expr(x)), pred(m_map, lambda v: L(v), x), (mp, "one"))
    # several sequences
    P2 = [("(fn [a b] (list a b))", lambda a, b: L(a, b)), ("(fn [a b] a)", lambda a, b: a), ("(fn [a b] b)", lambda a, b: b), ("(fn [a b] (if (== b 1) 'q a))", lambda a, b: Q if b == i(1) else a)]
    for x, y in itertools.product([I(), I(0), I(0, 1), I(0, 1, 2), L(), L(Q), L(Q, i(1)), L(T, I(1), NULLV), ["SYMBOL", ["a", "b"]], i(7), Q], repeat=2):
        for k, (t, f) in enumerate(P2):
            if k == 3 and (y == Q or any(e[0] != "i64" for e in items(y) if isvec(y))) if isvec(y) else k == 3 and y == Q:
                continue
            if rank([a for a in (x, y) if isvec(a)][:1] or [i(1)]) == 0 and not isvec(x):
                continue
            S.add("(%s %s %s %s)" % (mp, t, expr(x), expr(y)), pred(m_map, f, x, y), (mp, "two"))
    for a, b, d in itertools.product([I(0, 1, 2), L(Q, T, i(1)), i(7), ["SYMBOL", ["a", "b", "c"]], I(5)], repeat=3):
        S.add("(%s (fn [a b c] (list a b c)) %s %s %s)" % (mp, expr(a), expr(b), expr(d)), pred(m_map, lambda *v: L(*v), a, b, d), (mp, "three"))
    # builtins
    for x in (L(T, I(1, 2, 3), L()), L(I(), I(5)), L(T)):
        S.add("(%s count %s)" % (mp, expr(x)), pred(m_map, lambda v: i(len(items(v)) if v[0] != "C8" else len(v[1])), x), (mp, "builtin"))
        S.add("(%s list %s %s)" % (mp, expr(x), expr(x)), pred(m_map, lambda a, b: L(a, b), x, x), (mp, "builtin"))
    for x in (L(I(3, 1), I(2)), L(I(5, 6, 7))):
        for b, g in (("sum", lambda v: i(sum(v[1]))), ("reverse", lambda v: I(*reversed(v[1]))), ("first", lambda v: i(v[1][0])), ("max", lambda v: i(max(v[1]))), ("neg", lambda v: I(*[-q for q in v[1]]))):
            S.add("(%s %s %s)" % (mp, b, expr(x)), pred(m_map, g, x), (mp, "builtin"))
        S.add("(%s + %s %s)" % (mp, expr(x), "1"), pred(m_map, lambda v: I(*[q + 1 for q in v[1]]), x), (mp, "builtin"))
        S.add("(%s - %s %s)" % (mp, "1", expr(x)), pred(m_map, lambda v: I(*[1 - q for q in v[1]]), x), (mp, "builtin"))
        S.add("(%s + %s %s)" % (mp, expr(x), expr(x)), pred(m_map, lambda v: I(*[2 * q for q in v[1]]), x), (mp, "builtin"))
        S.add("(%s + %s %s)" % (mp, expr(x), expr(I(*range(10, 10 + len(items(x)))))), pred(lambda: collect([I(*[q + 10 + k for q in v[1]]) for k, v in enumerate(items(x))])), (mp, "builtin"))
    # wrong calls
    for e in ("(%s (fn [x] x) [1] [2])", "(%s (fn [x y] x) [1])", "(%s 5 [1])", "(%s 'count [1])", "(%s count [1] [2])", "(%s (fn [] 1) [1])", "(%s nosuch [1])", "(%s (fn [a b] a) [1 2] [1])", "(%s (fn [a b] a) (list 1 2 3) [1 2])"):
        S.add(e % mp, ERR, (mp, "wrong"))
    # nested, recursive, with state
    for a in (1, 2, 3):
        for inner in ("map", "pmap"):
            S.add("(%s (fn [x] (%s (fn [y] (list y)) (til x))) %s)" % (mp, inner, expr(I(*range(1, a + 1)))), pred(m_map, lambda v: m_map(lambda w: L(w), I(*range(v[1]))), I(*range(1, a + 1))), (mp, "nested"))
            S.add("(%s (fn [x] (%s (fn [y] (if (== y 1) (raise \"e\") y)) (til x))) %s)" % (mp, inner, expr(I(*range(1, a + 1)))), pred(m_map, lambda v: m_map(lambda w: raises(w) if w == ONE else w, I(*range(v[1]))), I(*range(1, a + 1))), (mp, "nested"))
            S.add("(try (%s (fn [x] (%s (fn [y] (raise \"qq\")) [1 2])) %s) (fn [e] e))" % (mp, inner, expr(I(*range(1, a + 1)))), QQ, (mp, "raised"))
for t, f in F1:
    for x in SEQ + TYPED:
        S.add("(map-left %s %s)" % (t, expr(x)), pred(m_left, f, x), ("map-left", x[0]))
        S.add("(map-right %s %s)" % (t, expr(x)), pred(m_right, f, x), ("map-right", x[0]))
P2 = [("(fn [a b] (list a b))", lambda a, b: L(a, b)), ("(fn [a b] a)", lambda a, b: a), ("(fn [a b] b)", lambda a, b: b), ("(fn [a b] (if (== a 1) 'q b))", lambda a, b: Q if a == ONE else b)]
YS = [I(), I(0), I(0, 1), I(0, 1, 2), L(), L(Q), L(T, I(1), NULLV), ["SYMBOL", ["a", "b"]], ["C8", "ab"], i(7), Q, ["F64", [1.5]]]
for (k, (t, f)), x, y in itertools.product(enumerate(P2), YS, YS):
    if k == 3:
        if x[0] not in ("I64", "i64"):
            continue
        S.add("(map-left %s %s %s)" % (t, expr(x), expr(y)), pred(m_left, f, x, y), ("map-left", x[0]))
    else:
        S.add("(map-left %s %s %s)" % (t, expr(x), expr(y)), pred(m_left, f, x, y), ("map-left", x[0]))
        S.add("(map-right %s %s %s)" % (t, expr(x), expr(y)), pred(m_right, f, x, y), ("map-right", y[0]))
for x, y, z in itertools.product(YS[2:5] + YS[7:10], repeat=3):
    S.add("(map-left (fn [a b c] (list a b c)) %s %s %s)" % (expr(x), expr(y), expr(z)), pred(m_left, lambda *v: L(*v), x, y, z), ("map-left", "three"))
    S.add("(map-right (fn [a b c] (list a b c)) %s %s %s)" % (expr(x), expr(y), expr(z)), pred(m_right, lambda *v: L(*v), x, y, z), ("map-right", "three"))
# ---- folds: every order of arguments shows in the nesting of the result
F2 = [("(fn [a b] (list a b))", lambda a, b: L(a, b)), ("(fn [a b] (- b a))", lambda a, b: i(b[1] - a[1]) if a[0] == b[0] == "i64" else raises(a)), ("(fn [a b] a)", lambda a, b: a), ("(fn [a b] b)", lambda a, b: b), ("(fn [a b] (raise \"e\"))", lambda a, b: raises(a)),
      ("(fn [a b] (if (== b 2) (raise \"e\") (list a b)))", lambda a, b: raises(a) if b == i(2) else L(a, b)), ("(fn [a b] (concat a b))", None), ("(fn [a b] null)", lambda a, b: NULLV)]
F2 = [f for f in F2 if f[1]]
FS = SEQ + [L(i(3), i(2), i(1), i(2)), I(2, 3), I(5, 5, 5, 5, 5), I(2), I(3, 1, 4, 1)]
for x in FS + TYPED[:15]:
    num = x in FS
    for k, (t, f) in enumerate(F2):
        if not num and k in (1, 5):
            continue
        if x[0] == "LIST" and k == 1 and any(e[0] != "i64" for e in items(x)):
            continue
        S.add("(fold %s %s)" % (t, expr(x)), pred(m_fold, f, x), ("fold", x[0]))
        S.add("(scan %s %s)" % (t, expr(x)), pred(m_scan, f, x), ("scan", x[0]))
        for init in (i(9), Q, I(1, 2), L(), NULLV):
            if k == 1 and init[0] != "i64" or k == 5 and True:
                continue
            S.add("(fold-left %s %s %s)" % (t, expr(x), expr(init)), pred(lambda: over(f, init, x, False)[-1]), ("fold-left", x[0]))
            S.add("(fold-right %s %s %s)" % (t, expr(init), expr(x)), pred(lambda: over(f, init, x, True)[-1]), ("fold-right", x[0]))
            if items(x):
                S.add("(scan-left %s %s %s)" % (t, expr(x), expr(init)), pred(lambda: ["LIST", over(f, init, x, False)]), ("scan-left", x[0]))
                S.add("(scan-right %s %s %s)" % (t, expr(init), expr(x)), pred(lambda: ["LIST", over(f, init, x, False)]), ("scan-right", x[0]))
    if num and items(x):
        for b, g in (("-", lambda a, b: i(a[1] - b[1])), ("+", lambda a, b: i(a[1] + b[1])), ("*", lambda a, b: i(a[1] * b[1]))):
            S.add("(fold-left %s %s 9)" % (b, expr(x)), pred(lambda: over(g, i(9), x, False)[-1]), ("fold-left", "builtin"))
            S.add("(fold-right %s 9 %s)" % (b, expr(x)), pred(lambda: over(g, i(9), x, False)[-1]), ("fold-right", "builtin"))
            S.add("(scan-left %s %s 9)" % (b, expr(x)), pred(lambda: ["LIST", over(g, i(9), x, False)]), ("scan-left", "builtin"))
            S.add("(scan-right %s 9 %s)" % (b, expr(x)), pred(lambda: ["LIST", over(g, i(9), x, False)]), ("scan-right", "builtin"))
        S.add("(fold max %s)" % expr(I(*[e[1] for e in items(x)])), i(max(e[1] for e in items(x))), ("fold", "builtin"))
        S.add("(fold min %s)" % expr(I(*[e[1] for e in items(x)])), i(min(e[1] for e in items(x))), ("fold", "builtin"))
# functions of three arguments, and builtins over lists with an initial value
F3 = [("(fn [a b c] (list a b c))", lambda a, b, c: L(a, b, c)), ("(fn [a b c] (if (== (count (list a b)) 2) c a))", lambda a, b, c: c), ("(fn [a b c] b)", lambda a, b, c: b), ("(fn [a b c] a)", lambda a, b, c: a)]
for x in [I(*range(1, n + 1)) for n in range(1, 5)] + [L(i(3), Q, I(1, 2)), L(T, Q)]:
    xs, mid = items(x), I(*[10 * k for k in range(1, len(items(x)) + 1)])
    ms = items(mid)
    for t, f in F3:
        for init in (i(9), Q, L()):
            acc, rs, ls, ss = init, init, [init], [init]
            for a, b in zip(xs, ms):
                acc = f(acc, b, a)
                rs = f(a, rs, mid)
            for a in xs:
                ls.append(f(a, ls[-1], mid))
            S.add("(fold-right %s %s %s %s)" % (t, expr(init), expr(mid), expr(x)), acc, ("fold-right", "three arguments"))
            if init[0] == "i64":
                S.add("(scan-right %s %s %s %s)" % (t, expr(init), expr(mid), expr(x)), ["LIST", ls], ("scan-right", "three arguments"))
for k in range(1, 5):
    parts = [I(*range(10 * j, 10 * j + 1 + (j * 7) % 3)) for j in range(1, k + 1)]
    seq = L(*parts)
    flat = [v for q in parts for v in q[1]]
    h = parts[0][1]
    S.add("(fold concat 7 %s)" % expr(seq), I(7, *flat), ("fold", "builtin from a value"))
    S.add("(fold concat %s 7)" % expr(seq), I(*h, 7, *flat[len(h):]), ("fold", "builtin from a value"))
    w = [j * j + 1 for j in range(k)]
    for op, g in (("-", lambda acc, b: [b - u for u in acc]), ("+", lambda acc, b: [b + u for u in acc])):
        S.add("(fold-right %s [100 200 300] %s)" % (op, expr(I(*w))), I(*functools.reduce(g, w, [100, 200, 300])), ("fold-right", "builtin"))
    S.add("(fold - (list [100 200 300]) %d)" % k, I(100 - k, 200 - k, 300 - k), ("fold", "builtin from a value"))
for e in ("(fold (fn [a] a) [1 2])", "(scan (fn [a b c] a) [1 2])", "(fold 5 [1 2])", "(scan nosuch [1])", "(fold-left (fn [a] a) [1] 2)", "(fold-right (fn [a b c] a) 1 [2])", "(map-left (fn [a] a) [1] [2])", "(map-right (fn [a b c] a) [1] [2])"):
    S.add(e, ERR, ("wrong",))
S.run(setup=SETUP, flavor="asan", keep=True)
held = S.cases
for k in (2, 3, 8):
    S.cases = [x for x in held if "(pmap " in x[0]]
    S.run(setup=SETUP, cores=k)
S.cases = []

# ---- seams between executors: the results change type, or fail, at each place near a seam
E1 = [("x", lambda k: i(k)), ("(list x x)", lambda k: L(i(k), i(k))), ("'z", lambda k: ["symbol", "z"]), ("2.5", lambda k: ["f64", 2.5]), ("\"st\"", lambda k: T), ("null", lambda k: NULLV), ("[7 8]", lambda k: I(7, 8)), ("(list)", lambda k: L()), ("[]", lambda k: I())]
for n in (2, 3, 511, 512, 513, 1024, 1025, 1537, 4097) if not deep else (2, 3, 7, 511, 512, 513, 1023, 1024, 1025, 1536, 1537, 2048, 4095, 4096, 4097, 9001):
    ks = sorted({k for k in (0, 1, 510, 511, 512, 513, 1023, 1024, 1025, 1536, 4095, 4096, n - 2, n - 1) if 0 <= k < n})
    for (t, f) in E1:
        S.add("(pmap (fn [x] %s) (til %d))" % (t, n), collect([f(k) for k in range(n)]), ("pmap", n, t))
        for (t2, f2) in E1[:6] if n < 2000 else E1[:3]:
            if t2 == t:
                continue
            for k in ks if deep or n < 1100 else ks[::3]:
                S.add("(pmap (fn [x] (if (< x %d) %s %s)) (til %d))" % (k, t, t2, n), collect([(f if j < k else f2)(j) for j in range(n)]), ("pmap seam", n, t))
                if n < 1100:
                    S.add("(pmap (fn [x] (if (== x %d) %s %s)) (til %d))" % (k, t, t2, n), collect([(f if j == k else f2)(j) for j in range(n)]), ("pmap odd one", n, t))
    for k in ks:
        S.add("(try (pmap (fn [x] (if (== x %d) (raise \"qq\") x)) (til %d)) (fn [e] e))" % (k, n), QQ, ("pmap raise", n))
    S.add("(pmap (fn [x y] (list x y)) (til %d) (reverse (til %d)))" % (n, n), ["LIST", [L(i(k), i(n - 1 - k)) for k in range(n)]], ("pmap two", n))
    S.add("(pmap (fn [x y] (+ x y)) (til %d) 5)" % n, I(*[k + 5 for k in range(n)]), ("pmap two", n))
    S.add("(pmap (fn [x y] (- x y)) 5 (til %d))" % n, I(*[5 - k for k in range(n)]), ("pmap two", n))
    S.add("(pmap count (map (fn [x] (til (%% x 5))) (til %d)))" % n, I(*[k % 5 for k in range(n)]), ("pmap builtin", n))
    S.add("(pmap (fn [x] (count x)) (map (fn [x] (til (%% x 5))) (til %d)))" % n, I(*[k % 5 for k in range(n)]), ("pmap list", n))
    S.add("(pmap reverse (map (fn [x] (til (%% x 3))) (til %d)))" % n, ["LIST", [I(*reversed(range(k % 3))) for k in range(n)]], ("pmap builtin", n))
    S.add("(pmap first (map (fn [x] (if (< x %d) [1] ['z])) (til %d)))" % (n // 2, n), collect([i(1) if k < n // 2 else ["symbol", "z"] for k in range(n)]), ("pmap builtin", n))
    S.add("(pmap (fn [x] (+ x (sum W))) (til %d))" % n, I(*[k + 45 for k in range(n)]), ("pmap global", n))
    S.add("(pmap (fn [x] (sum (pmap (fn [y] (+ y 1)) (til (%% x 4))))) (til %d))" % n, None, ("pmap nested", n)) if False else None
held = S.cases
for k in (1, 2, 3, 8) if not deep else (1, 2, 3, 5, 8, 13):
    S.cases = held
    S.run(setup=SETUP, cores=k, chunk=400)
c.finish("distinct applications whose result was predicted")
