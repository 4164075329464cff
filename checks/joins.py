"""P08: left, inner, asof and window joins pair the rows their definition gives, whatever the types and number of the key columns,
the length of the tables and the number of executors."""
import sys, os, itertools, bisect
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import suite, report, drv
from vt.val import *
from vt.suite import ERR

pid, tier = sys.argv[1], sys.argv[2]
c = report.Check(pid, tier, "exploration")
S = suite.Suite(c)
deep = tier == "thorough"
NaN = float("nan")
G = ["00112233-4455-6677-8899-aabbccddeeff", "00112233-4455-6677-8899-aabbccddee00", "ffffffff-4455-6677-8899-aabbccddeeff"]
NUL = {"i16": N16, "i32": N32, "i64": N64, "date": N32, "time": N32, "timestamp": N64}
MISS = object()


def lit(t, vs):
    if t == "GUID":
        return "(as 'GUID (list %s))" % " ".join('"%s"' % g for g in vs) if vs else "(as 'GUID [])"
    if t == "LIST":
        return "(list %s)" % " ".join(vs)
    return vec(t, vs) if vs or t != "SYMBOL" else "(as 'SYMBOL [])"


def tab(names, cols):
    return "(table [%s] (list %s))" % (" ".join(names), " ".join(lit(t, vs) for t, vs in cols))


LV = {"1": ["i64", 1], "'a": ["symbol", "a"], '"xy"': ["C8", "xy"], "2.5": ["f64", 2.5], "[1 2]": ["I64", [1, 2]], '"z"': ["C8", "z"], '""': ["C8", ""], "'q'": ["c8", "q"]}


def key(t, v):
    """canonical element: nulls of every type and absent values are the same"""
    if v is MISS or isnull(t, v):
        return "null"
    if t == "GUID":
        return v.replace("-", "")
    if t == "LIST":
        return str(LV[v])
    return v


def elems(col):
    """canonical elements of a printed column, and its element type"""
    t, vs = col[0], col[1]
    if t == "ENUM":
        return elems(vs)
    if t == "LIST":
        out = []
        for x in vs:
            if x == ["NULL"]:
                out.append("null")
            elif x[0] in NUL and x[1] == NUL[x[0]] or x[0] == "f64" and x[1] != x[1] or x == ["symbol", None]:
                out.append("null")
            elif x[0].islower():
                out.append((x[0], x[1]))
            else:
                out.append(str(x))
        return "LIST", out
    return t, ["null" if isnull(t, v) else v for v in vs]


def agree(got, t, want):
    """does the printed column hold the wanted values of type t (an absent value may be any null)"""
    gt, ge = elems(got)
    if len(ge) != len(want):
        return False
    for g, w in zip(ge, want):
        k = key(t, w)
        if gt == "LIST":
            if t == "LIST":
                if isinstance(g, tuple):
                    g = str([g[0], g[1]])
                if g != k and not (w is MISS and g == "null"):
                    return False
            elif g != "null":
                # typed atoms among nulls
                if not isinstance(g, tuple) or g[0].upper() != t or not (g[1] == k or t == "F64" and g[1] == k):
                    return False
            elif k != "null":
                return False
        elif w is MISS and (t in ("B8", "U8", "C8") or t == "GUID" and g == "0" * 32):
            continue
        elif g != k:
            return False
    return gt == t or gt == "LIST" or not want


def wants(names, cols):
    """predicate: a table with exactly these columns (any order), these values"""
    def pred(g):
        if g[0] != "TABLE" or sorted(g[1][1]) != sorted(names):
            return False
        for n, x in zip(g[1][1], g[2][1]):
            t, w = cols[n]
            if t is None:
                if not w(x):
                    return False
            elif not agree(x, t, w):
                return False
        return True
    pred.__doc__ = str({k: (v if v[0] is None else (v[0], ["absent" if z is MISS else z for z in v[1][:20]])) for k, v in cols.items()})[:1500]
    return pred


def match(lk, rk):
    """for each left row the first right row of equal keys"""
    first = {}
    for i, k in enumerate(rk):
        first.setdefault(k, i)
    return [first.get(k) for k in lk]


def lr(kinds, ks, lkeys, rkeys, lcols, rcols, tag, both=True):
    """add a left and an inner join. lkeys/rkeys: rows of key tuples; lcols/rcols: {name: (type, values)}"""
    kt = list(zip(*lkeys)) if lkeys else [()] * len(ks)
    rt = list(zip(*rkeys)) if rkeys else [()] * len(ks)
    lt = tab(list(ks) + list(lcols), [(t, list(v)) for t, v in zip(kinds, kt)] + list(lcols.values()))
    rtb = tab(list(rcols) + list(ks), list(rcols.values()) + [(t, list(v)) for t, v in zip(kinds, rt)])
    nk = lambda row: tuple(key(t, v) for t, v in zip(kinds, row))
    m = match([nk(r) for r in lkeys], [nk(r) for r in rkeys])
    names = list(ks) + list(lcols) + [x for x in rcols if x not in lcols]
    if both is True or both == "left":
        if not rkeys or not lkeys:
            cols = {k: (t, list(v)) for k, t, v in zip(ks, kinds, kt)}
            cols.update(lcols)
            nm = list(ks) + list(lcols)
        else:
            nm = names
            cols = {k: (t, list(v)) for k, t, v in zip(ks, kinds, kt)}
            for x in names[len(ks):]:
                if x in rcols:
                    t, v = rcols[x]
                    cols[x] = (t, [v[j] if j is not None else (lcols[x][1][i] if x in lcols else MISS) for i, j in enumerate(m)])
                else:
                    cols[x] = lcols[x]
        S.add("(left-join [%s] %s %s)" % (" ".join(ks), lt, rtb), wants(nm, cols), tag + ("left",))
    if both is True or both == "inner":
        hit = [i for i, j in enumerate(m) if j is not None]
        cols = {k: (t, [v[i] for i in hit]) for k, t, v in zip(ks, kinds, kt)}
        for x in names[len(ks):]:
            cols[x] = (rcols[x][0], [rcols[x][1][m[i]] for i in hit]) if x in rcols else (lcols[x][0], [lcols[x][1][i] for i in hit])
        S.add("(inner-join [%s] %s %s)" % (" ".join(ks), lt, rtb), wants(names, cols), tag + ("inner",))


A = ("I64", [10, 20, 30, 40, 50, 60])
B_ = ("I64", [1, 2, 3, 4, 5, 6])
C_ = ("SYMBOL", ["x", "y", "z", "u", "v", "w"])
D_ = ("SYMBOL", ["p", "q", "r", "s", "t", "k"])


def cut(col, n):
    return (col[0], col[1][:n])


KD = {"I64": [N64, 1, -5], "I32": [N32, 1, -5], "I16": [N16, 7, -7], "SYMBOL": [None, "aa", "b"], "F64": [-1.5, 0.25, 2.0], "DATE": [N32, 0, 366], "TIME": [N32, 0, 5],
      "TIMESTAMP": [N64, 0, 1 << 40], "U8": [0, 1, 255], "B8": [0, 1], "GUID": G, "LIST": ["1", "'a", '"xy"'], "C8": ["a", "b", "c"]}
# ---- one key column
for t, dom in [x for x in KD.items() if x[0] != "I16"]:
    for nl in range(0, 4):
        for nr in range(0, 4 if deep or t in ("I64", "SYMBOL") else 3):
            for x in itertools.product(dom, repeat=nl):
                for y in itertools.product(dom, repeat=nr):
                    if t == "LIST" and (not x or not y):
                        continue
                    lr([t], ["k"], [(v,) for v in x], [(v,) for v in y], {"a": cut(A, nl), "c": cut(C_, nl)}, {"c": cut(D_, nr), "b": cut(B_, nr)}, (t,))
S.run()
# ---- several key columns
MK = [("SYMBOL", "I64"), ("I64", "DATE"), ("F64", "I32"), ("TIMESTAMP", "SYMBOL"), ("GUID", "I64"), ("U8", "TIME"), ("I64", "LIST"), ("C8", "I64"), ("I16", "B8")]
for ts in MK:
    ds = [KD[t][:2] for t in ts]
    rws = list(itertools.product(*ds))
    for nl in range(0, 4 if deep else 3):
        for nr in range(0, 4 if deep or ts == MK[0] else 3):
            for x in itertools.product(rws, repeat=nl):
                for y in itertools.product(rws, repeat=nr):
                    if "LIST" in ts and (not x or not y):
                        continue
                    lr(ts, ["k", "j"], x, y, {"a": cut(A, nl), "c": cut(C_, nl)}, {"c": cut(D_, nr), "b": cut(B_, nr)}, ts)
    S.run()
ts = ("SYMBOL", "I64", "DATE")
rws = list(itertools.product(*[KD[t][:2] for t in ts]))
for nl, nr in ((1, 1), (1, 2), (2, 1), (2, 2)):
    for x in itertools.product(rws, repeat=nl):
        for y in itertools.product(rws, repeat=nr):
            lr(ts, ["k", "j", "h"], x, y, {"a": cut(A, nl)}, {"b": cut(B_, nr)}, ts)
S.run()
# ---- every type of value column, present in either table or both, for every pattern of hits and misses
VD = {"B8": [1, 0, 1], "U8": [5, 255, 0], "C8": ["a", "b", "c"], "I16": [1, N16, -3], "I32": [1, N32, 2], "I64": [7, N64, -1], "F64": [1.5, NaN, -2.5], "DATE": [0, N32, 7], "TIME": [0, N32, 9],
      "TIMESTAMP": [0, N64, 1 << 50], "SYMBOL": ["a", None, "bcd"], "GUID": G, "LIST": ["1", '"xy"', "[1 2]"]}
for t, d in VD.items():
    for x in itertools.product([1, 2, 3, 9], repeat=3):
        for y in ((1, 2, 3), (3, 1, 3), (2,)):
            n = len(y)
            lr(["I64"], ["k"], [(v,) for v in x], [(v,) for v in y], {"a": (t, d)}, {"b": (t, d[::-1][:n])}, (t, "value"))
            lr(["I64"], ["k"], [(v,) for v in x], [(v,) for v in y], {"a": (t, d)}, {"a": (t, d[::-1][:n])}, (t, "both"))
            lr(["I64", "SYMBOL"], ["k", "j"], [(v, "s") for v in x], [(v, "s") for v in y], {"a": (t, d)}, {"a": (t, d[::-1][:n]), "b": (t, d[:n])}, (t, "two keys"))
S.run()
# ---- enumerated keys and values
dm = "(set dm [b aa zz])"
for x in itertools.product(["aa", "b", "zz"], repeat=2):
    for y in itertools.product(["aa", "b", "q"], repeat=2):
        m = match(x, y)
        for lf, rf in (("(enum 'dm %s)", "%s"), ("%s", "(enum 'dm2 %s)"), ("(enum 'dm %s)", "(enum 'dm2 %s)")):
            L = "(table [k j a] (list %s [1 1] [10 20]))" % (lf % vec("SYMBOL", x))
            R = "(table [k j b] (list %s [1 1] [1 2]))" % (rf % vec("SYMBOL", y))
            for ks in ("k j",):
                S.add("(at (left-join [%s] %s %s) 'b)" % (ks, L, R), lambda g, m=m: agree(g, "I64", [MISS if j is None else j + 1 for j in m]), ("enum", lf, rf))
                S.add("(at (inner-join [%s] %s %s) 'b)" % (ks, L, R), lambda g, m=m: agree(g, "I64", [j + 1 for j in m if j is not None]), ("enum", lf, rf))
S.run(setup=["Q (set dm [b aa zz])", "Q (set dm2 [q aa b])"])
# ---- wrong arguments are errors
T1, T2 = "(table [k j a] (list [1 2] [1i 2i] [3 4]))", "(table [k j b] (list [1 2] [1i 2i] [5 6]))"
for j in ("left-join", "inner-join", "asof-join"):
    for e in ("(%s [zz] {1} {2})", "(%s [a] {1} {2})", "(%s [b] {1} {2})", "(%s 5 {1} {2})", "(%s [k j] [1 2] {2})", "(%s [k j] {1} 5)", "(%s [k j] {1})", "(%s [k j] {1} {2} 1)"):
        S.add((e % j).replace("{1}", T1).replace("{2}", T2), ERR, ("error", j))
W0 = "(list [0i 0i] [9i 9i])"
for j in ("window-join", "window-join1"):
    for w in ("(list [0i] [9i])", "(list [0i 0i])", "(list [0i 0i] [9i])", "(list [0 0] [9 9])", "(list 1 2)", "[1 2]", "(list [0i 0i 0i] [9i 9i 9i])", "(list [0i 0i] [9i 9i] [9i 9i])"):
        S.add("(%s [k j] %s %s %s {s: (sum b)})" % (j, w, T1, T2), ERR, ("error", j, w))
    for e in ("(%s [k z] {0} {1} {2} {s: (sum b)})", "(%s [k j] {0} {1} {2} {s: (sum nosuch)})", "(%s [k j] {0} {1} {2} 5)", "(%s [k j] {0} {1} {2})", "(%s 5 {0} {1} {2} {s: (sum b)})"):
        S.add((e % j).replace("{0}", W0).replace("{1}", T1).replace("{2}", T2), ERR, ("error", j))
S.run()


# ---- asof
def asof(lk, lt, rk, rt):
    """last right row of equal key whose time is not after the left one (right times ascending)"""
    out = []
    for k, t in zip(lk, lt):
        best = None
        for i, (k2, t2) in enumerate(zip(rk, rt)):
            if k2 == k and t2 <= t:
                best = i
        out.append(best)
    return out


TM = {"I32": [N32, -1, 2, 7], "DATE": [N32, -1, 2, 366], "TIME": [N32, 0, 2, 86399999], "I64": [N64, -1, 2, 1 << 40], "TIMESTAMP": [N64, -1, 2, 1 << 60]}
for t, d in TM.items():
    for nl in (0, 1, 2):
        for lt_ in itertools.product(d, repeat=nl):
            for lk in itertools.product("ab", repeat=nl):
                for nr in range(0, 4):
                    for rt_ in itertools.combinations_with_replacement(d[(0 if deep or nr < 3 else 1):], nr):
                        for rk in itertools.product("ab", repeat=nr):
                            if not deep and nl == 2 and nr == 3 and t not in ("TIME", "TIMESTAMP"):
                                continue
                            if nl == 2 and lk[0] > lk[1]:
                                continue
                            m = asof(lk, lt_, rk, rt_)
                            e = "(asof-join [k j] %s %s)" % (tab("kjac", [("SYMBOL", lk), (t, lt_), cut(A, nl), cut(C_, nl)]), tab("bkjc", [cut(B_, nr), ("SYMBOL", rk), (t, rt_), cut(D_, nr)]))
                            S.add(e, wants("kjabc", {"k": ("SYMBOL", lk), "j": (t, lt_), "a": cut(A, nl), "b": ("I64", [MISS if i is None else i + 1 for i in m]),
                                                     "c": ("SYMBOL", [C_[1][x] if i is None else D_[1][i] for x, i in enumerate(m)])}), ("asof", t))
    S.run()
for lk in itertools.product(itertools.product("ab", [1, 2]), repeat=2):
    for rk in itertools.product(itertools.product("ab", [1, 2]), repeat=3):
        for lt_ in ((0, 3), (2, 1)):
            rt_ = (1, 2, 2)
            m = asof(lk, lt_, rk, rt_)
            S.add("(at (asof-join [k h j] %s %s) 'b)" % (tab("khj", [("SYMBOL", [x[0] for x in lk]), ("I64", [x[1] for x in lk]), ("I32", lt_)]), tab("khjb", [("SYMBOL", [x[0] for x in rk]), ("I64", [x[1] for x in rk]), ("I32", rt_), cut(B_, 3)])),
                  (lambda g, m=m: agree(g, "I64", [MISS if i is None else i + 1 for i in m])), ("asof3",))
for t in ("F64", "U8", "I16"):
    v = vec(t, [1, 2] if t != "F64" else [1.0, 2.0])
    S.add("(asof-join [k j] (table [k j a] (list [1 2] %s [1 2])) (table [k j b] (list [1 2] %s [3 4])))" % (v, v), ERR, ("asof type",))
S.run()


# ---- window joins
def window(kind, lk, lo, hi, rk, rt):
    """right rows (ordered by key and time) aggregated for each left row; None if there are none"""
    order = sorted(range(len(rk)), key=lambda i: (rk[i], rt[i], i))
    out = []
    for k, a, b in zip(lk, lo, hi):
        rows = [i for i in order if rk[i] == k]
        sel = [i for i in rows if a <= rt[i] <= b]
        if kind == 0:
            before = [i for i in rows if rt[i] <= a]
            if before:
                sel = [before[-1]] + [i for i in sel if rt[i] > a]
        out.append(sel)
    return out


AGG = {"s": ("I64", "(sum b)", sum), "n": ("I64", "(count b)", len), "m": ("I64", "(min b)", min), "x": ("I64", "(max b)", max), "f": ("I64", "(first b)", lambda v: v[0]), "l": ("I64", "(last b)", lambda v: v[-1]),
       "g": ("F64", "(avg b)", lambda v: sum(v) / len(v)), "d": ("F64", "(med b)", lambda v: (sorted(v)[len(v) // 2] + sorted(v)[(len(v) - 1) // 2]) / 2)}


def wexpr(kind, t, lk, lt_, lo, hi, rk, rt_, bv, aggs, cols=True):
    nl, nr = len(lk), len(rk)
    sel = window(kind, lk, lo, hi, rk, rt_)
    e = "(%s [k j] (list %s %s) %s %s {%s})" % ("window-join1" if kind else "window-join", vec(t, lo), vec(t, hi), tab("kja", [("SYMBOL", lk), (t, lt_), cut(A, nl)]), tab("bkj", [("I64", bv[:nr]), ("SYMBOL", rk), (t, rt_)]),
                                              " ".join("%s: %s" % (a, AGG[a][1]) for a in aggs) + (" r: b" if cols else ""))
    want = {"k": ("SYMBOL", lk), "j": (t, lt_), "a": cut(A, nl)}
    for a in aggs:
        ty, _, f = AGG[a]
        want[a] = (ty, [(0 if a == "n" else MISS) if not s else f([bv[i] for i in s]) for s in sel])
    if cols:
        def raw(col, sel=sel):
            if col[0] != "LIST" or len(col[1]) != len(sel):
                return False
            return all((x == ["NULL"] or x[1] == []) if not s else x == ["I64", [bv[i] for i in s]] for x, s in zip(col[1], sel))
        want["r"] = (None, raw)
    return e, wants(list(want), want)


BV = [5, 1, 4, 9, 2, 7]
for t, off in (("TIME", 0), ("TIMESTAMP", 1 << 58), ("I32", -2), ("I64", 1 << 33), ("DATE", 360)):
    small = t not in ("TIME", "TIMESTAMP")
    for kind in (0, 1):
        for nr in range(0, 4):
            for rt_ in itertools.product([0, 1, 2, 3] if not small else [0, 2, 3], repeat=nr):
                if nr == 3 and not deep and (small or len(set(rt_)) == 1):
                    continue
                for rk in itertools.product("ab", repeat=nr):
                    if nr and rk[0] == "b" and not deep and nr == 3:
                        continue
                    for wins in ([(0, 1), (1, 2)], [(1, 1), (0, 3)], [(2, 3), (1, 3)], [(0, 0), (3, 4)], [(-1, -1), (4, 5)]):
                        lk = ("a", "b") if nr < 3 else ("a", "a")
                        lo, hi = [w[0] + off for w in wins], [w[1] + off for w in wins]
                        e, p = wexpr(kind, t, lk, (1 + off, 2 + off), lo, hi, rk, [x + off for x in rt_], BV, "snmxfl" if nr < 3 else "sgdn")
                        S.add(e, p, ("window", kind, t))
        cs = S.cases
        S.run(flavor="asan" if t == "DATE" else "rel")
        S.cases = cs  # also small tables are split among executors
        S.run(cores=3)
# the kinds of values aggregated
for ty, vals, z in (("I32", [3, 1, 2], 0), ("I16", [3, 1, 2], 0), ("F64", [1.5, -2.0, 4.25], 0), ("DATE", [5, 1, 9], 1), ("TIME", [5, 1, 9], 1), ("TIMESTAMP", [5, 1, 9], 1), ("SYMBOL", ["x", "y", "z"], 2), ("GUID", G, 2), ("LIST", ["1", "'a", '"xy"'], 2)):
    for kind in (0, 1):
        for lo, hi in itertools.combinations_with_replacement(range(0, 6), 2):
            sel = window(kind, ("a",), (lo,), (hi,), ("a",) * 3, (1, 3, 4))[0]
            ags = ["first", "last"] + (["min", "max"] if z < 2 and ty not in ("I16", "I32") else []) + (["sum", "avg"] if ty == "F64" else ["avg"] if ty == "I32" else [])
            for ag in ags:
                f = {"first": lambda v: v[0], "last": lambda v: v[-1], "min": min, "max": max, "sum": sum, "avg": lambda v: sum(v) / len(v)}[ag]
                w = MISS if not sel else f([vals[i] for i in sel])
                e = "(at (%s [k j] (list %s %s) %s %s {s: (%s b)}) 's)" % (("window-join", "window-join1")[kind], vec("TIME", (lo,)), vec("TIME", (hi,)), tab("kj", [("SYMBOL", ["a"]), ("TIME", [0])]), tab("bkj", [(ty, vals), ("SYMBOL", "aaa"), ("TIME", [1, 3, 4])]), ag)
                out = {"sum": ty if ty == "F64" else "I64", "avg": "F64"}.get(ag, ty)
                S.add(e, (lambda g, out=out, w=w, ag=ag: (elems(g)[0] in ("I32", "I64", "F64", "LIST") and elems(g)[1] in ([key(out, w)], [("i64", w)], [("i32", w)])) if ag in ("sum", "avg") else agree(g, out, [w])), ("window value", ty, ag))
cs = S.cases
S.run()
S.cases = cs
S.run(cores=2, flavor="asan")

# ---- long tables, several executors
N = 40000 if deep else 20001
for k in ((1, 2, 3, 8, 13) if deep else (1, 3, 8)):
    li = range(N)
    # left keys i*7 % P, right keys j*3 % Q; first matching right row
    for ty, P, Q, nr in (("I64", 5003, 7001, 9000), ("SYMBOL", 97, 113, 17000), ("GUID", 3, 2, 50), ("I64", 20011, 20011, 20000)):
        conv = {"I64": "%s", "SYMBOL": "(as 'SYMBOL %s)", "GUID": None}[ty]
        L = "(%% (* 7 (til %d)) %d)" % (N, P)
        R = "(%% (* 3 (til %d)) %d)" % (nr, Q)
        if ty == "GUID":
            lk, rk = "(at %s %s)" % (lit("GUID", G), L), "(at %s %s)" % (lit("GUID", G), R)
        elif ty == "SYMBOL":
            lk, rk = "(at ss %s)" % L, "(at ss %s)" % R
        else:
            lk, rk = L, R
        m = match([i * 7 % P for i in li], [j * 3 % Q for j in range(nr)])
        lt_, rt_ = "(table [k a] (list %s (til %d)))" % (lk, N), "(table [k b] (list %s (til %d)))" % (rk, nr)
        S.add("(at (left-join [k] %s %s) 'b)" % (lt_, rt_), (lambda g, m=m: agree(g, "I64", [MISS if j is None else j for j in m])), ("long left", ty))
        S.add("(at (inner-join [k] %s %s) 'b)" % (lt_, rt_), (lambda g, m=m: agree(g, "I64", [j for j in m if j is not None])), ("long inner", ty))
        S.add("(at (inner-join [k] %s %s) 'a)" % (lt_, rt_), (lambda g, m=m: agree(g, "I64", [i for i, j in enumerate(m) if j is not None])), ("long inner", ty))
        m2 = match([(i * 7 % P, i % 2) for i in li], [(j * 3 % Q, j % 3) for j in range(nr)])
        lt_, rt_ = "(table [k j a] (list %s (%% (til %d) 2) (til %d)))" % (lk, N, N), "(table [k j b] (list %s (%% (til %d) 3) (til %d)))" % (rk, nr, nr)
        S.add("(at (left-join [k j] %s %s) 'b)" % (lt_, rt_), (lambda g, m=m2: agree(g, "I64", [MISS if j is None else j for j in m])), ("long left 2", ty))
        S.add("(at (inner-join [k j] %s %s) 'b)" % (lt_, rt_), (lambda g, m=m2: agree(g, "I64", [j for j in m if j is not None])), ("long inner 2", ty))
    # asof and window: left row i at time i*3 % 10007 of symbol i % 5, right row j at time j of symbol j*2 % 7
    nr = 9000
    by = {}
    for j in range(nr):
        by.setdefault(j * 2 % 7, []).append(j)
    ex, w0, w1, r1 = [], [], [], []
    for i in li:
        t, s = i * 3 % 10007, i % 5
        lst = by.get(s, [])
        p = bisect.bisect_right(lst, t)
        ex.append(lst[p - 1] if p else MISS)
        a, b = bisect.bisect_left(lst, t - 20), bisect.bisect_right(lst, t + 20)
        w1.append(sum(lst[a:b]) if a < b else MISS)
        a0 = max(bisect.bisect_right(lst, t - 20) - 1, 0)
        w0.append(sum(lst[a0:b]) if a0 < b else MISS)
        r1.append(b - a if a < b else 0)
    for ty in ("TIME", "TIMESTAMP"):
        L = "(table [k j] (list (at ss (%% (til %d) 5)) (as '%s (%% (* 3 (til %d)) 10007))))" % (N, ty, N)
        R = "(table [k j b] (list (at ss (%% (* 2 (til %d)) 7)) (as '%s (til %d)) (til %d)))" % (nr, ty, nr, nr)
        S.add("(at (asof-join [k j] %s %s) 'b)" % (L, R), (lambda g: agree(g, "I64", ex)), ("long asof", ty))
        iv = "(map-left + [-20 20] (at l 'j))"
        S.add("(do (set l %s) (at (window-join [k j] %s l %s {s: (sum b)}) 's))" % (L, iv, R), (lambda g: agree(g, "I64", w0)), ("long window", ty))
        S.add("(do (set l %s) (at (window-join1 [k j] %s l %s {s: (sum b)}) 's))" % (L, iv, R), (lambda g: agree(g, "I64", w1)), ("long window1", ty))
        S.add("(do (set l %s) (at (window-join1 [k j] %s l %s {s: (count b)}) 's))" % (L, iv, R), (lambda g: agree(g, "I64", r1)), ("long window1", ty))
    S.run(setup=["Q (set ss [%s])" % " ".join("s%d" % i for i in range(120))], cores=k, chunk=3)
c.finish("distinct joins whose table was predicted row by row")
