"""insert, upsert, update, alter, modify: every sequence of operations up to a depth from every small
starting object, run by the real interpreter and by a reference model.  Each sequence observes the result
of every operation (an error must leave the object as it was), the object after it, and an alias of the
object and of a column taken before the first operation (which no operation may change); the same
sequences are also run with nothing else holding the object (the code then modifies it in place)."""
import sys, os, itertools, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import report
from vt.suite import Suite, ERR, close
from vt import drv
from vt.val import *
from checks.select import lit, lit1c, canon, KD, VD, SETUP, guid, G0, NULLA, table, expect

NAN = float("nan")
EV = ["C8", "E"]


class Bad(Exception):
    pass


# ------------------------------------------------------------------ tables
# model of a table: list of [name, type, [values]]
def tcanon(t):
    return ["TABLE", ["SYMBOL", [c[0] for c in t]], ["LIST", [canon(c[1], c[2]) for c in t]]]


def tlit(t):
    return table([tuple(c) for c in t])


NULLV = {"C8": "\0", "B8": 0, "U8": 0, "SYMBOL": None, "LIST": ["NULL"], "ENUM": None}


def nullof(t):
    return NULLV[t] if t in NULLV else NULLA[t]


def atomlit(t, v):
    if t == "GUID":
        return "(at %s 0)" % lit("GUID", [v])
    if t == "LIST":
        return lit1c(v)
    if t == "C8":
        return "(at \"%s\" 0)" % v
    if t in ("SYMBOL", "ENUM"):
        return "'" + v if v else "0Ns"
    return atom(t, v)


def ins(t, rows, names=None):
    """rows: column values in order (or by names); all the columns of one length"""
    t = copy.deepcopy(t)
    n = len(rows[0])
    for i, c in enumerate(t):
        j = i if names is None and i < len(rows) else names.index(c[0]) if names and c[0] in names else None
        c[2] += rows[j] if j is not None else [nullof(c[1])] * n
    return t


def ups(t, keys, rows, names=None):
    t = copy.deepcopy(t)
    n = len(rows[0])
    cols = []
    for i, c in enumerate(t):
        j = i if names is None and i < len(rows) else names.index(c[0]) if names and c[0] in names else None
        cols.append(rows[j] if j is not None else None if names is None else [nullof(c[1])] * n)
    old = [repr([t[i][2][r] for i in range(keys)]) for r in range(len(t[0][2]))]
    for j in range(n):
        k = repr([cols[i][j] for i in range(keys)])
        if k in old:
            r = old.index(k)
            for i in range(keys, len(t)):
                if cols[i] is not None:
                    t[i][2][r] = cols[i][j]
        else:
            for i, c in enumerate(t):
                c[2].append(cols[i][j] if cols[i] is not None else nullof(c[1]))
    return t


def tab_ops(T, small=False):
    """(text with %s for the table, model function) ; T: type of the column v of k:I64 v:T s:SYMBOL"""
    D = VD[T]
    x, y, z = D[1], D[2], D[0]
    A = lambda v: atomlit(T, v)
    V = lambda vs: lit(T, vs)
    ops = []
    add = lambda text, f: ops.append((text, f))
    wrong = "'sym" if T not in ("SYMBOL", "LIST", "ENUM") else "5"

    def bad(t):
        raise Bad()
    if T != "LIST":  # a list given as a value is one record's value
        add("(insert @@ (list 7 %s 'n))" % A(x), lambda t: ins(t, [[7], [x], ["n"]]))
        add("(insert @@ (list 8 %s))" % A(y), lambda t: ins(t, [[8], [y]]))
        add("(insert @@ (dict [s k] (list 'm 9)))", lambda t: ins(t, [["m"], [9]], ["s", "k"]))
    add("(insert @@ (list [7 1] %s ['n 'm]))" % V([x, y]), lambda t: ins(t, [[7, 1], [x, y], ["n", "m"]]))
    add("(insert @@ (table [s v k] (list ['n 'm] %s [1 2])))" % V([y, x]), lambda t: ins(t, [["n", "m"], [y, x], [1, 2]], ["s", "v", "k"]))
    add("(insert @@ (table [k] (list [5 6])))", lambda t: ins(t, [[5, 6]], ["k"]))
    # the last column is wrong: nothing is inserted
    add("(insert @@ (list [7 1] %s [1.5 2.5]))" % V([x, y]), bad)
    add("(insert @@ (list [7 1] %s ['n]))" % V([x, y]), bad)
    if not small:
        add("(insert @@ (dict [k q] (list 1 2)))", bad)
        add("(insert @@ (list 7 %s 'n 4))" % A(x), lambda t: bad(t) if len(t) < 4 else ins(t, [[7], [x], ["n"], [4]]))
        add("(insert @@ 5)", bad)
        if T not in ("LIST",):
            add("(insert @@ (list 7 %s 'n))" % wrong, bad)
    if T != "LIST":
        add("(upsert @@ 1 (list 1 %s 'u))" % A(y), lambda t: ups(t, 1, [[1], [y], ["u"]]))
        add("(upsert @@ 1 (list 7 %s))" % A(x), lambda t: ups(t, 1, [[7], [x]]))
        add("(upsert @@ 2 (list 1 %s 'w))" % A(x), lambda t: ups(t, 2, [[1], [x], ["w"]]))
    add("(upsert @@ 1 (list [2 7 1] %s ['p 'q 'r]))" % V([y, x, z]), lambda t: ups(t, 1, [[2, 7, 1], [y, x, z], list("pqr")]))
    add("(upsert @@ 2 (list [1 2 7] %s ['p 'q 'r]))" % V([x, x, y]), lambda t: ups(t, 2, [[1, 2, 7], [x, x, y], list("pqr")]))
    add("(upsert @@ 1 (table [v k] (list %s [2 9])))" % V([x, y]), lambda t: ups(t, 1, [[x, y], [2, 9]], ["v", "k"]))
    add("(upsert @@ 1 (list [1 7] %s [1.5 2.5]))" % V([x, y]), bad)
    if not small:
        add("(upsert @@ 0 (list [1 7] %s ['p 'q]))" % V([x, y]), bad)
        add("(upsert @@ 3 (list [1 7] %s))" % V([x, y]), bad)
        add("(upsert @@ 3 (list [1 7] %s ['a 'b]))" % V([x, y]), lambda t: ups(t, 3, [[1, 7], [x, y], ["a", "b"]]))

    def upd(t, sel, **cols):
        t = copy.deepcopy(t)
        rows = [r for r in range(len(t[0][2])) if sel(t, r)]
        new = {}
        for name, f in cols.items():
            new[name] = [f(t, r) for r in rows]
        for name, vs in new.items():
            c = next(c for c in t if c[0] == name)
            for r, v in zip(rows, vs):
                c[2][r] = v
        return t

    def addcol(t, sel, name, ty, f):
        t = copy.deepcopy(t)
        vs = [f(t, r) if sel(t, r) else nullof(ty) for r in range(len(t[0][2]))]
        t2 = [c for c in t if c[0] != name]
        if len(t2) < len(t):
            c = next(c for c in t if c[0] == name)
            if c[1] != ty:
                raise Skip()
            for r in range(len(vs)):
                if sel(t, r):
                    c[2][r] = vs[r]
            return t
        return t + [[name, ty, vs]]
    allr = lambda t, r: True
    kk = lambda t, r: t[0][2][r]
    ge2 = lambda t, r: kk(t, r) >= 2
    if T not in ("LIST", "ENUM"):
        add("(update {v: %s from: @@})" % A(x), lambda t: upd(t, allr, v=lambda t, r: x))
        add("(update {v: %s from: @@ where: (>= k 2)})" % A(y), lambda t: upd(t, ge2, v=lambda t, r: y))
        add("(update {v: v from: @@ where: (>= k 2)})", lambda t: upd(t, ge2, v=lambda t, r: t[1][2][r]))
        add("(update {v: (first v) from: @@ by: s})", lambda t: upd(t, allr, v=lambda t, r: t[1][2][next(q for q in range(len(t[2][2])) if t[2][2][q] == t[2][2][r])]))
        add("(update {v: (first v) from: @@ by: s where: (>= k 2)})", lambda t: upd(t, ge2, v=lambda t, r: t[1][2][next(q for q in range(len(t[2][2])) if t[2][2][q] == t[2][2][r] and ge2(t, q))]))
    add("(update {s: 'upd from: @@ where: (== k 1)})", lambda t: upd(t, lambda t, r: kk(t, r) == 1, s=lambda t, r: "upd"))
    add("(update {k: (* k 10) s: 'upd from: @@ where: (== k 1)})", lambda t: upd(t, lambda t, r: kk(t, r) == 1, s=lambda t, r: "upd", k=lambda t, r: 10 * kk(t, r)))
    add("(update {k: (+ k 1) from: @@})", lambda t: upd(t, allr, k=lambda t, r: kk(t, r) + 1))
    add("(update {k: (sum k) from: @@ by: s})", lambda t: upd(t, allr, k=lambda t, r: sum(kk(t, q) for q in range(len(t[0][2])) if t[2][2][q] == t[2][2][r])))
    add("(update {n: (* 2 k) from: @@})", lambda t: addcol(t, allr, "n", "I64", lambda t, r: 2 * kk(t, r)))
    add("(update {n: (+ 1 k) from: @@ where: (>= k 2)})", lambda t: addcol(t, ge2, "n", "I64", lambda t, r: 1 + kk(t, r)))
    add("(update {n: (max k) from: @@ by: s})", lambda t: addcol(t, allr, "n", "I64", lambda t, r: max(kk(t, q) for q in range(len(t[0][2])) if t[2][2][q] == t[2][2][r])))
    add("(update {k: 0 s: 5 from: @@ where: (>= k 1)})", bad)  # the second column is wrong
    if not small:
        add("(update {k: 'a from: @@ where: (>= k 1)})", bad)
        add("(update {k: [1 2 3 4 5 6 7 8 9 1 2 3 4 5 6 7 8 9] from: @@})", bad)
        add("(update {k: zzz from: @@})", bad)
        add("(update {k: 5 from: @@ where: k})", bad)
    return ops


class Skip(Exception):
    pass


def tab_starts(T):
    D = VD[T]
    out = [
        [["k", "I64", [1, 2]], ["v", T, [D[1], D[2]]], ["s", "SYMBOL", ["a", "b"]]],
        [["k", "I64", [2, 1, 2]], ["v", T, [D[1], D[1], D[3]]], ["s", "SYMBOL", ["a", "b", "a"]]],
        [["k", "I64", [3]], ["v", T, [D[2]]], ["s", "SYMBOL", ["z"]]],
    ]
    return out


def seq_tab(s, T, depth, small, starts=None):
    ops = tab_ops(T, small)
    for t0 in starts or tab_starts(T):
        def rec(t, path, exps, d):
            if path:
                # by name, with aliases of the table and of a column, the table observed after each operation
                txt = ["(set t %s)" % tlit(t0), "(set u t)", "(set c (at t 'k))"]
                ex = []
                for (o, _), (e, after) in zip(path, exps):
                    txt.append("(try %s (fn [e] \"E\")) t" % o.replace('@@', "'t"))
                    ex += [e, after]
                s.add("(do (list %s) (list %s t u c))" % (" ".join(txt[:3]), " ".join(txt[3:])),
                      ["LIST", ex + [tcanon(t), tcanon(t0), ["I64", t0[0][2]]]], (T, len(path), "alias"))
                # by name, nothing else holds the table: operations in place
                s.add("(do (set t %s) (set r (list %s)) (list r t))" % (tlit(t0), " ".join("(try %s (fn [e] \"E\"))" % o.replace('@@', "'t") for o, _ in path)),
                      ["LIST", [["LIST", [e for e, _ in exps]], tcanon(t)]], (T, len(path), "own"))
                # the operations inside of a function
                if len(path) <= 2:
                    s.add("(do (set t %s) (set f (fn [x] (list %s))) (set r (f 0)) (list r t))" % (tlit(t0), " ".join("(try %s (fn [e] \"E\"))" % o.replace('@@', "'t") for o, _ in path)),
                          ["LIST", [["LIST", [e for e, _ in exps]], tcanon(t)]], (T, len(path), "fn"))
                # by value: the last operation of the sequence applied to the value of the variable
                if len(path) == 1:
                    e, after = exps[0]
                    s.add("(do (set t %s) (list (try %s (fn [e] \"E\")) t))" % (tlit(t0), path[0][0].replace('@@', 't')), ["LIST", [EV if e == EV else tcanon(t), tcanon(t0)]], (T, "value"))
                    s.add("(try %s (fn [e] \"E\"))" % path[0][0].replace('@@', tlit(t0)), EV if e == EV else tcanon(t), (T, "literal"))
            if d == 0:
                return
            for o in ops:
                try:
                    t2 = o[1](t)
                    e = ["symbol", "t"]
                except Bad:
                    t2, e = t, EV
                except Skip:
                    continue
                rec(t2, path + [o], exps + [(e, tcanon(t2))], d - 1)
        rec(t0, [], [], depth)


# ------------------------------------------------------------------ alter / modify on values
# the model works on the canonical form itself
VECS = ("B8", "U8", "I16", "I32", "I64", "SYMBOL", "DATE", "TIME", "TIMESTAMP", "F64", "GUID", "C8")


def els(c):
    if c[0] == "LIST":
        return list(c[1])
    if c[0] in VECS:
        return [[c[0].lower(), v] for v in c[1]]
    raise Bad()


def mk(like, es):
    """the vector of the type of like, or a list if some element is of another type"""
    if like != "LIST" and all(e[0] == like.lower() for e in es):
        vs = [e[1] for e in es]
        return [like, "".join(vs) if like == "C8" else vs]
    return ["LIST", es]


def isatom(c):
    return c[0].islower()


def at1(o, ix):
    if o[0] == "DICT":
        ks = els(o[1])
        if ix not in ks:
            return [o[2][0].lower(), NULLA[o[2][0]]] if o[2][0] in NULLA else ["NULL"]
        return els(o[2])[ks.index(ix)]
    es = els(o)
    if ix[0] == "i64":
        if not 0 <= ix[1] < len(es):
            raise Bad()
        return es[ix[1]]
    if ix[0] == "I64":
        if any(not 0 <= i < len(es) for i in ix[1]):
            raise Bad()
        return mk(o[0], [es[i] for i in ix[1]])
    raise Bad()


def set1(o, ix, v):
    if o[0] == "DICT":
        ks, vs = els(o[1]), els(o[2])
        if ix in ks:
            vs[ks.index(ix)] = v
            return ["DICT", o[1], mk(o[2][0], vs)]
        if not isatom(ix):
            raise Skip()
        return ["DICT", mk(o[1][0], ks + [ix]), mk(o[2][0], vs + [v])]
    es = els(o)
    if ix[0] == "i64":
        if not 0 <= ix[1] < len(es):
            raise Bad()
        es[ix[1]] = v
        return mk(o[0], es)
    if ix[0] == "I64":
        if any(not 0 <= i < len(es) for i in ix[1]):
            raise Bad()
        if v[0].upper() != o[0] != "LIST":
            raise Skip()  # the vector may take it in its own type or become a list
        if isatom(v) or v[0] == "C8" and o[0] != "C8":  # a string is one value for an element of a list
            for i in ix[1]:
                es[i] = v
        else:
            vs = els(v)
            if len(vs) != len(ix[1]):
                raise Bad()
            for i, e in zip(ix[1], vs):
                es[i] = e
        return mk(o[0], es)
    raise Bad()


def plus(a, b):
    if a == ["NULL"]:
        raise Bad()
    if isatom(a) and isatom(b):
        ta, tb = a[0], b[0]
        if not {ta, tb} <= {"i64", "f64"}:
            raise Skip()
        if "f64" in (ta, tb):
            f = lambda p: NAN if p[1] == (N64 if p[0] == "i64" else NAN) or p[1] != p[1] else float(p[1])
            return ["f64", f(a) + f(b)]
        return ["i64", N64 if N64 in (a[1], b[1]) else a[1] + b[1]]
    if not isatom(a) and isatom(b) and a[0] in ("I64", "F64", "LIST"):
        es = [plus(e, b) for e in els(a)]
        t = {e[0] for e in es}
        if a[0] == "LIST" or len(t) != 1:
            raise Skip()
        return [es[0][0].upper(), [e[1] for e in es]]
    raise Skip()


def val_ops(o0):
    """(name, function of the object, text builder)"""
    ops = []
    add = lambda text, f: ops.append((text, f))
    vals = [["i64", 9], ["f64", 2.5], ["symbol", "n"], ["C8", "xy"], ["I64", [4, 5]]]
    if o0[0] == "DICT":
        ixs = [["symbol", "a"], ["symbol", "b"], ["symbol", "c"], ["i64", 0]]
    else:
        ixs = [["i64", 0], ["i64", 1], ["i64", 2], ["i64", -1], ["I64", [0, 1]], ["I64", [1, 1]], ["I64", [0, 5]]]
    for ix in ixs:
        for v in vals:
            add("(alter @@ set %s %s)" % (lit1c(ix), lit1c(v)), lambda o, ix=ix, v=v: set1(o, ix, v))
        add("(alter @@ + %s 10)" % lit1c(ix), lambda o, ix=ix: set1(o, ix, plus(at1(o, ix), ["i64", 10])))
        add("(alter @@ (fn [a b] (list b a)) %s 10)" % lit1c(ix), lambda o, ix=ix: set1(o, ix, pair(["i64", 10], at1(o, ix))))
        if isatom(ix):
            for v in (["i64", 9], ["symbol", "n"]):
                add("(alter @@ concat %s %s)" % (lit1c(ix), lit1c(v)), lambda o, ix=ix, v=v: set1(o, ix, push(at1(o, ix), v)) if o[0] == "LIST" or o[0] == "DICT" and ix in els(o[1]) else bad())
            for j in (["i64", 0], ["i64", 7]):
                for v in (["i64", 9], ["symbol", "n"]):
                    add("(modify @@ set (list %s %s) %s)" % (lit1c(ix), lit1c(j), lit1c(v)), lambda o, ix=ix, j=j, v=v: deep(o, ix, j, lambda e: set1(e, j, v)))
                add("(modify @@ + (list %s %s) 10)" % (lit1c(ix), lit1c(j)), lambda o, ix=ix, j=j: deep(o, ix, j, lambda e: set1(e, j, plus(at1(e, j), ["i64", 10]))))
            add("(modify @@ set %s 9)" % lit1c(ix), lambda o, ix=ix: set1(o, ix, ["i64", 9]))
        add("(alter @@ remove %s)" % lit1c(ix), lambda o, ix=ix: rem(o, ix))
    for v in vals:
        add("(alter @@ concat %s)" % lit1c(v), lambda o, v=v: push(o, v))
    return ops


def bad():
    raise Bad()


def pair(a, b):
    return ["LIST", [a, b]]


def push(o, v):
    if isatom(o) or o[0] == "DICT":
        raise Bad()
    return mk(o[0], els(o) + [v])


def rem(o, ix):
    if o[0] == "DICT":
        ks, vs = els(o[1]), els(o[2])
        if not isatom(ix):
            raise Skip()
        if ix in ks:
            i = ks.index(ix)
            del ks[i], vs[i]
        return ["DICT", mk(o[1][0], ks), mk(o[2][0], vs)]
    es = els(o)
    if o[0] == "GUID":
        raise Skip()
    ids = [ix[1]] if isatom(ix) else ix[1]
    if not isatom(ix) and not all(0 <= i < len(es) for i in ids):
        raise Skip()
    return mk(o[0], [e for i, e in enumerate(es) if i not in ids])


def deep(o, ix, j, f):
    """modify a place inside the element at ix"""
    if o[0] not in ("LIST", "DICT"):
        raise Bad()
    if o[0] == "DICT" and ix not in els(o[1]):
        raise Bad()
    e = at1(o, ix)
    if isatom(e):
        raise Bad()
    return set1(o, ix, f(e))


OBJS = [
    ["I64", [1, 2, 3]], ["F64", [1.5, NAN]], ["C8", "ab"], ["SYMBOL", ["a", "b"]], ["I16", [1, 2]], ["DATE", [3, 4]],
    ["TIMESTAMP", [3, N64]], ["B8", [1, 0]], ["U8", [1, 2]], ["I32", [5, 6]], ["TIME", [5, 6]],
    ["U8", [1, 200, 3, 255]], ["B8", [1, 0, 0, 1]], ["C8", "abcde"], ["I16", [300, -300, 32767, 7]], ["I32", [70000, -5, 1 << 30, 90000]],
    ["DATE", [70000, -70000, 80000, 5]], ["TIME", [70000, 80000000, 80000, 5]], ["TIMESTAMP", [1 << 40, -(1 << 50), 3, 1 << 33]],
    ["SYMBOL", ["a", "b", "c", "dd"]], ["F64", [1e10, -2.5, 0.125, 0.25]], ["GUID", [guid(1), guid(2)]],
    ["LIST", [["i64", 1], ["I64", [1, 2]]]], ["LIST", [["C8", "ab"], ["LIST", [["i64", 1], ["C8", "q"]]], ["f64", 1.5]]],
    ["DICT", ["SYMBOL", ["a", "b"]], ["LIST", [["i64", 1], ["I64", [2, 3]]]]],
    ["DICT", ["SYMBOL", ["a", "b"]], ["I64", [7, 8]]],
]


def vlit(o):
    if o[0] == "DICT":
        return "(dict %s %s)" % (vlit(o[1]), vlit(o[2]))
    if o[0] == "LIST":
        return "(list %s)" % " ".join(vlit(e) for e in o[1])
    if o[0].islower():
        return atom(o[0].upper(), o[1]) if o[0] != "symbol" else "'" + o[1]
    return lit(o[0], list(o[1]))


def seq_val(s, o0, depth, ops=None):
    ops = ops or val_ops(o0)

    def same(model):
        return model

    def rec(o, path, exps, d):
        if path:
            ex = []
            txt = []
            for p, (e, after) in zip(path, exps):
                txt.append("(try %s (fn [e] \"E\")) t" % p.replace('@@', "'t"))
                ex += [e, after]
            s.add("(do (set t %s) (set u t) (list %s u))" % (vlit(o0), " ".join(txt)), ["LIST", ex + [o0]], ("val", o0[0], len(path)))
            s.add("(do (set t %s) (list %s) t)" % (vlit(o0), " ".join("(try %s (fn [e] \"E\"))" % p.replace('@@', "'t") for p in path)), o, ("own", o0[0]))
            if len(path) == 1:
                s.add("(do (set t %s) (list (try %s (fn [e] \"E\")) t))" % (vlit(o0), path[0].replace('@@', 't')), lambda g, e=exps[0][0], o=o: lst2(g, EV if e == EV else o, o0), ("byval", o0[0]))
        if d == 0:
            return
        for text, f in ops:
            try:
                o2 = f(o)
                e = ["symbol", "t"]
            except Bad:
                o2, e = o, EV
            except Skip:
                continue
            rec(o2, path + [text], exps + [(e, o2)], d - 1)
    rec(o0, [], [], depth)


def lst2(g, a, b):
    return g[0] == "LIST" and len(g[1]) == 2 and close(g[1][0], a) and close(g[1][1], b)


# ------------------------------------------------------------------ key types of upsert and of update by
def keyed(s):
    for T in KD:
        dom = KD[T]
        for T2 in ("I64", "SYMBOL", "F64") if T not in ("LIST",) else ():
            d2 = KD[T2]
            for n in (1, 2):
                for old in itertools.product(range(3), repeat=n):
                    for new in itertools.product(range(3), repeat=2):
                        t0 = [["a", T, [dom[i % len(dom)] for i in old]], ["b", T2, [d2[(i + j) % len(d2)] for j, i in enumerate(old)]], ["v", "I64", list(range(n))]]
                        rows = [[dom[i % len(dom)] for i in new], [d2[(i + 1) % len(d2)] for i in new], [10, 11]]
                        if T == "C8" and False:
                            continue
                        for k in (1, 2):
                            if k == 1 and T == "I16":
                                continue  # not supported as the only key
                            s.add("(upsert %s %d (list %s %s [10 11]))" % (tlit(t0), k, lit(T, rows[0]), lit(T2, rows[1])), tcanon(ups(t0, k, rows)), ("key", T, T2, k))


def ups_fast(t0, nk, nv):
    t = copy.deepcopy(t0)
    pos = {}
    for r, k in enumerate(t[0][2]):
        pos.setdefault(k, r)
    for k, v in zip(nk, nv):
        if k in pos:
            t[1][2][pos[k]] = v
        else:
            t[0][2].append(k)
            t[1][2].append(v)
    return t


def run_big(c, cores, quick):
    N = 20001 if quick else 70001
    for name, key in (("dense", "I"), ("wide", "(- (* I 1000000007) 5000000000000)"), ("dups", "(% I 7)"), ("float", "(* I 0.5)"), ("guid", None)):
        f = {"dense": lambda i: i, "wide": lambda i: i * 1000000007 - 5 * 10**12, "dups": lambda i: i % 7, "float": lambda i: i * 0.5}.get(name)
        if f is None:
            continue
        ks = [f(i) for i in range(N)]
        ii = range(1, N + 9000, 3)
        t0 = [["k", "F64" if name == "float" else "I64", ks], ["v", "I64", list(range(N))]]
        nk = [f(i) for i in ii]
        if name == "dups":
            nk = nk[:7]
            ii = list(ii)[:7]
        nv = [5000000 + i for i in ii]
        exp = tcanon(ups_fast(t0, nk, nv))
        s = Suite(c)
        setup = ["Q (set I (til %d))" % N, "Q (set bt (table [k v] (list %s I)))" % key.replace("I", "I"),
                 "Q (set J (+ 1 (* 3 (til %d))))" % len(list(ii)), "Q (set nr (list %s (+ 5000000 J)))" % key.replace("I", "J")]
        s.add("(upsert bt 1 nr)", exp, ("big", name))
        s.add("(do (set x bt) (upsert 'x 1 nr) (list x bt))", ["LIST", [exp, tcanon(t0)]], ("big", name, "isolated"))
        g = [i % 7 for i in range(N)]
        sums = {}
        for i in range(N):
            if i % 3 != 0:
                sums[g[i]] = sums.get(g[i], 0) + i
        s.add("(update {v: (sum v) from: (table [k g v] (list %s (%% I 7) I)) by: g where: (!= 0 (%% I 3))})" % key,
              ["TABLE", ["SYMBOL", ["k", "g", "v"]], ["LIST", [canon(t0[0][1], ks), ["I64", g], ["I64", [sums[g[i]] if i % 3 else i for i in range(N)]]]]], ("big", name, "by"))
        s.add("(update {v: (+ v 1) from: bt where: (!= 0 (% I 3))})", tcanon([t0[0], ["v", "I64", [i + 1 if i % 3 else i for i in range(N)]]]), ("big", name, "where"))
        s.add("(insert bt nr)", tcanon([[t0[0][0], t0[0][1], ks + nk], ["v", "I64", list(range(N)) + nv]]), ("big", name, "insert"))
        s.run(setup=setup, cores=cores)


def main(pid, tier):
    c = report.Check(pid, tier, "exploration")
    quick = tier == "quick"
    s = Suite(c)
    part = os.environ.get("VT_PART")
    if part in (None, "tab"):
        for T in VD:
            seq_tab(s, T, 1, False)
        seq_tab(s, "I64", 2, False)
        for T in VD:
            seq_tab(s, T, 2, quick)
        s.run(setup=SETUP)
        for T in ("I64",) if quick else ("I64", "SYMBOL", "LIST"):
            seq_tab(s, T, 3, True, tab_starts(T)[1:2] if quick else None)
            s.run(setup=SETUP)
    if part in (None, "val"):
        for o in OBJS:
            seq_val(s, o, 1)
            seq_val(s, o, 2)
            s.run(setup=SETUP)
        if not quick:
            ops = [x for i, x in enumerate(val_ops(next(o for o in OBJS if o[0] == "LIST"))) if i % 3 == 0]
            seq_val(s, next(o for o in OBJS if o[0] == "LIST"), 3, ops)
            s.run(setup=SETUP)
    if part in (None, "key"):
        keyed(s)
        s.run(setup=SETUP)
    if part in (None, "big"):
        for cores in (1, 4, 8) if quick else (1, 2, 3, 4, 5, 7, 8, 13):
            run_big(c, cores, quick)
    if part in (None, "asan"):
        for T in ("I64", "LIST", "C8", "SYMBOL"):
            seq_tab(s, T, 1, False)
        for o in OBJS:
            seq_val(s, o, 1)
        s.run(setup=SETUP, flavor="asan")
        seq_tab(s, "I64", 2, True, tab_starts("I64")[1:2])
        s.run(setup=SETUP, flavor="asan")
    return c.finish("every sequence of insert/upsert/update operations up to the depth over each starting table (every column type), of alter/modify over each starting value, upsert keys of every pair of key types, and large tables around the parallel split", True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2]))
