"""select: filters, projections, grouping by one and several keys, aggregates, take.

Small tables enumerated exhaustively (every mask, every key sequence over three values including null,
every key type and pair of key types), queries evaluated by the real interpreter and compared with a
row-by-row reference; then the same queries on tables around the boundaries of the parallel split with
1, 3 and 4 executors and with narrow, wide and negative key ranges (the strategies the code switches
between)."""
import sys, os, itertools, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import report
from vt.suite import Suite, ERR, close
from vt import drv
from vt.val import *
from checks import aggr

NAN = float("nan")
G0 = "0" * 32
def guid(i): return "%032x" % (0x11223344556677889900aabbccddee00 + i) if i is not None else G0
def gtxt(h): return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))

# key domains: three values per type, null among them where the type has one
KD = {
    "I64": [N64, 3, -7], "SYMBOL": ["a", "b", None], "TIMESTAMP": [N64, 5, 86400000000000], "F64": [NAN, 1.5, -2.0],
    "GUID": [G0, guid(1), guid(2)], "ENUM": ["ex", "ey", "ez"], "U8": [0, 7, 255], "B8": [0, 1], "C8": ["x", "y", "z"],
    "LIST": [["C8", "ab"], ["i64", 1], ["I64", [1, 2]]],
    "I16": [N16, 3, -7], "I32": [N32, 3, -7], "DATE": [N32, 3, 40], "TIME": [N32, 3, 86399999],
}
VD = {  # value domains: null, repeated order, extremes
    "I64": [N64, -5, 40, 2, 2**40], "F64": [NAN, -2.5, 4.0, 0.25, 7.0], "I16": [N16, -5, 32767, 32766, 3], "I32": [N32, -5, 4, 70000, 9],
    "DATE": [N32, -5, 40, 8000, 9], "TIME": [N32, 7, 40, 86399999, 9], "TIMESTAMP": [N64, -5, 40, 638755200123456789, 9],
    "SYMBOL": ["q", "w", "e", None, "longer"], "GUID": [G0, guid(7), guid(8), guid(9), guid(10)], "ENUM": ["ez", "ey", "ex", "ey", "ez"],
    "U8": [0, 1, 255, 7, 200], "B8": [0, 1, 1, 0, 1], "C8": list("xaz!0"), "LIST": [["i64", 1], ["C8", "ab"], ["F64", [1.5]], ["i64", 2], ["symbol", "s"]],
}
AG = {
    "I64": ["first", "last", "count", "sum", "avg", "min", "max", "med", "dev"], "F64": ["first", "last", "count", "sum", "avg", "min", "max", "med", "dev"],
    "I16": ["first", "last", "sum", "avg", "min", "max", "med", "dev"], "I32": ["first", "last", "count", "avg", "dev"],
    "DATE": ["first", "last", "count", "min", "max"], "TIME": ["first", "last", "count", "min", "max"],
    "TIMESTAMP": ["first", "last", "count", "min", "max"], "SYMBOL": ["first", "last", "count"], "GUID": ["first", "last", "count"],
    "ENUM": ["first", "last"], "U8": ["first"], "B8": ["first"], "C8": ["first"], "LIST": ["first", "last", "count"],
}
SETUP = ["Q (set esyms ['ex 'ey 'ez])"]


def lit(t, vs):
    if t == "GUID" and len(vs) > 300:
        d = sorted(set(vs))
        ix = {v: i for i, v in enumerate(d)}
        return "(at %s %s)" % (lit(t, d), vec("I64", [ix[v] for v in vs]))
    if t == "GUID":
        return "(as 'GUID (list %s))" % " ".join('"%s"' % gtxt(v) for v in vs) if vs else "(as 'GUID [])"
    if t == "ENUM":
        return "(enum 'esyms %s)" % lit("SYMBOL", vs)
    if t == "SYMBOL":
        if not vs:
            return "(as 'SYMBOL [])"
        return "[" + " ".join("0Ns" if v in ("", None) else "'" + v for v in vs) + "]"
    if t == "LIST":
        return "(list %s)" % " ".join(lit1c(v) for v in vs)
    return vec(t, vs)


def lit1c(c):
    t, v = c
    if t == "C8":
        return '"%s"' % v
    if t.isupper():
        return vec(t, v)
    return atom(t.upper(), v)


def canon(t, vs):
    if t == "ENUM":
        t = "SYMBOL"
    if t == "C8":
        return ["C8", "".join(vs)]
    return [t, list(vs)]


def cval(t, v):
    """one canonical element of a column, as a hashable key"""
    if isinstance(v, float) and v != v:
        return "nan"
    return repr(v)


def table(cols):
    """cols: list of (name, type, values)"""
    return "(table [%s] (list %s))" % (" ".join(c[0] for c in cols), " ".join(lit(c[1], c[2]) for c in cols))


def expect(cols):
    return ["TABLE", ["SYMBOL", [c[0] for c in cols]], ["LIST", [canon(c[1], c[2]) for c in cols]]]


NULLA = dict(NULLS, GUID=G0)


def isn(t, v):
    if t == "GUID":
        return v == G0
    if t == "SYMBOL":
        return v is None
    return isnull(t, v)


def agg(op, t, vals):
    """acceptable values of an aggregate over the non-empty values of one group (type, [alternatives])"""
    rt = {"ENUM": "SYMBOL"}.get(t, t)
    if op == "first":
        return rt, [vals[0]]
    if op == "last":
        nn = [v for v in vals if not isn(t, v)]
        return rt, [vals[-1]] + nn[-1:]
    if op == "count":
        return "I64", [len(vals)]
    if op == "sum":
        nn = [v for v in vals if not isn(t, v)]
        return ("I64" if t == "I16" else t), [sum(nn) if t != "F64" else float(sum(nn))]
    if op in ("min", "max"):
        nn = [v for v in vals if not isn(t, v)]
        return t, [(min if op == "min" else max)(nn) if nn else NULLA[t]]
    nn = [float(v) for v in vals if not isn(t, v)]
    n = len(nn)
    if not n:
        return "F64", [NAN]
    m = math.fsum(nn) / n
    if op == "avg":
        return "F64", [m]
    if op == "med":
        s = sorted(nn)
        return "F64", [s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2]
    if op == "dev":
        return "F64", [("dev", math.sqrt(math.fsum((x - m) ** 2 for x in nn) / n), m)]


def okv(alts, g):
    for a in alts:
        if isinstance(a, tuple):
            if isinstance(g, float) and abs(g - a[1]) <= 1e-6 * max(abs(a[1]), abs(a[2]) * 1e-3, 1e-9):
                return True
        elif close(a, g, 1e-9):
            return True
    return False


def grouped(keys, aggs, rows, t):
    """keys: [(out name, type, values)], aggs: [(out name, op, type, values)], rows: selected row numbers"""
    groups = {}
    for r in rows:
        groups.setdefault(tuple(cval(k[1], k[2][r]) for k in keys), []).append(r)
    names = [k[0] for k in keys] + [a[0] for a in aggs]
    kt = [{"ENUM": "SYMBOL"}.get(k[1], k[1]) for k in keys]
    want = {}
    for k, rs in groups.items():
        row = []
        for n, op, at, vs in aggs:
            row.append((at, [[vs[r] for r in rs]]) if op == "collect" else agg(op, at, [vs[r] for r in rs]))
        want[k] = row

    def check(g):
        if g[0] != "TABLE" or g[1] != ["SYMBOL", names]:
            return False
        cols = g[2][1]
        if len(cols) != len(names):
            return False
        nk = len(keys)
        for i in range(nk):
            if cols[i][0] != kt[i]:
                return False
        n = len(cols[0][1])
        if n != len(want) or any(len(c[1]) != n for c in cols):
            return False
        seen = set()
        for i in range(n):
            k = tuple(cval(kt[j], cols[j][1][i]) for j in range(nk))
            if k not in want or k in seen:
                return False
            seen.add(k)
            for j, (rt, alts) in enumerate(want[k]):
                c = cols[nk + j]
                if aggs[j][1] == "collect":
                    if c[0] != "LIST" or not close(canon(rt, alts[0]), c[1][i]):
                        return False
                elif c[0] != rt or not okv(alts, c[1][i]):
                    return False
        return True
    check.__doc__ = "%d groups: %s" % (len(want), str(list(want.items())[:4])[:300])
    return check


def masks(n):
    return [list(m) for m in itertools.product([0, 1], repeat=n)]


CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def cyc(dom, n, off=0):
    return [dom[(i + off) % len(dom)] for i in range(n)]


def filters(s, tier):
    """rows kept by a filter: exactly the rows whose mask is true, in order, in every column"""
    N = 4 if tier == "quick" else 6
    for n in range(0, N + 1):
        cols = [("c%d" % i, t, cyc(VD[t], n, 1)) for i, t in enumerate(VD)]
        if n == 0:
            cols = [c for c in cols if c[1] not in ("LIST", "ENUM")]
        T = table(cols)
        s.setup.append("Q (set ft%d %s)" % (n, T))
        for m in masks(n):
            if n == 0:
                continue
            rows = [i for i in range(n) if m[i]]
            M = vec("B8", m)
            s.add(f"(select {{from: ft{n} where: {M}}})", expect([(c[0], c[1], [c[2][r] for r in rows]) for c in cols]), "mask")
            s.add(f"(select {{a: c3 id: c0 from: ft{n} where: {M}}})", expect([("a", cols[3][1], [cols[3][2][r] for r in rows]), ("id", "I64", [cols[0][2][r] for r in rows])]), "project")
            i64 = cols[0][2]
            add = [N64 if i64[r] == N64 else i64[r] + 10 for r in rows]
            s.add(f"(select {{z: (+ c0 10) from: ft{n} where: {M}}})", expect([("z", "I64", add)]), "compute")
            # ungrouped aggregates over the filtered rows
            for c in cols:
                for op in AG[c[1]]:
                    vs = [c[2][r] for r in rows]
                    if c[1] in aggr.DOM and op not in ("first", "last"):
                        e = aggr.ref(op, c[1], vs)
                        if e in (None, ERR):
                            continue
                        if callable(e):
                            s.add(f"(select {{z: ({op} {c[0]}) from: ft{n} where: {M}}})", (lambda g, e=e: g[0] == "TABLE" and e(["f64", g[2][1][0][1][0]])), ("agg", op, c[1]))
                        else:
                            s.add(f"(select {{z: ({op} {c[0]}) from: ft{n} where: {M}}})", expect([("z", e[0].upper(), [e[1]])]), ("agg", op, c[1]))
                    elif op == "count":
                        s.add(f"(select {{z: (count {c[0]}) from: ft{n} where: {M}}})", expect([("z", "I64", [len(vs)])]), ("agg", op, c[1]))
                    elif vs and c[1] != "LIST":
                        s.add(f"(select {{z: ({op} {c[0]}) from: ft{n} where: {M}}})", (lambda g, v=vs[0 if op == "first" else -1], t=c[1]: g[0] == "TABLE" and close(g[2][1][0], canon(t, [v]))), ("agg", op, c[1]))
    # predicates
    n = 3
    dom = [N64, -1, 0, 2]
    sd = ["a", "b", None]
    for x in itertools.product(dom, repeat=n):
        y = [5, 6, 7]
        sy = cyc(sd, n, x[0] & 1)
        T = table([("x", "I64", x), ("y", "I64", y), ("s", "SYMBOL", sy)])
        for op, f in CMP.items():
            for k in (0, 2):
                p = [f(v, k) for v in x]
                q = [v in ("a", "b") for v in sy]
                for e, m in ((f"({op} x {k})", p), (f"(and ({op} x {k}) (in s ['a 'b]))", [a and b for a, b in zip(p, q)]),
                             (f"(or ({op} x {k}) (== s 'a))", [a or v == "a" for a, v in zip(p, sy)]), (f"(not ({op} x {k}))", [not a for a in p])):
                    rows = [i for i in range(n) if m[i]]
                    s.add(f"(select {{y: y s: s from: {T} where: {e}}})", expect([("y", "I64", [y[r] for r in rows]), ("s", "SYMBOL", [sy[r] for r in rows])]), ("pred", op))
    # take
    for n in range(1, 5):
        cols = [("x", "I64", list(range(n))), ("s", "SYMBOL", cyc(["a", "b", "c"], n)), ("g", "GUID", [guid(i) for i in range(n)])]
        T = table(cols)
        for m in masks(n):
            rows = [i for i in range(n) if m[i]]
            for k in range(-n, n + 1):
                if abs(k) > len(rows):
                    continue
                rr = rows[:k] if k >= 0 else rows[k:]
                s.add(f"(select {{from: {T} where: {vec('B8', m)} take: {k}}})", expect([(c[0], c[1], [c[2][r] for r in rr]) for c in cols]), "take")


def groups1(s, tier):
    """one key: every key type, every sequence of keys, every mask"""
    SK = ["I64", "SYMBOL", "TIMESTAMP", "F64", "GUID", "ENUM", "U8", "B8", "C8", "LIST"]
    N = 4 if tier == "quick" else 5
    for n in range(1, N + 1):
        vals = [("v" + t.lower(), t, cyc(VD[t], n, 4)) for t in AG]
        aggs = [("%s_%s" % (op, c[0]), op, c[1], c[2], c[0]) for c in vals for op in AG[c[1]]]
        for kt in SK:
            dom = KD[kt]
            for ks in itertools.product(range(len(dom)), repeat=n):
                # every sequence up to renaming is kept: the values differ (null, extremes)
                k = [dom[i] for i in ks]
                T = table([("k", kt, k)] + [c for c in vals])
                name = "g_%s_%s" % (kt.lower(), "".join(map(str, ks)))
                # all aggregates at once; then a filter, rotating over the masks
                for mi, m in enumerate(masks(n)):
                    if tier == "quick" and n == 4 and mi not in (15,) and (mi + sum(ks)) % 4:
                        continue
                    rows = [i for i in range(n) if m[i]]
                    w = "" if all(m) else " where: " + vec("B8", m)
                    q = "(select {%s from: %s by: k%s})" % (" ".join(f"{a[0]}: ({a[1]} {a[4]})" for a in aggs), T, w)
                    s.add(q, grouped([("k", kt, k)], [a[:4] for a in aggs], rows, T), ("by", kt, n))
                    if mi % 3 == 0:
                        col = [("x", "collect", "I64", vals[0][2]), ("y", "collect", "SYMBOL", vals[7][2]), ("z", "collect", "GUID", vals[8][2])]
                        q = f"(select {{x: vi64 y: vsymbol z: vguid from: {T} by: k{w}}})"
                        s.add(q, grouped([("k", kt, k)], col, rows, T), ("collect", kt, n))
                        # no columns: the first row of each group
                        fr = [("k", "first", kt, k)] + [(c[0], "first", c[1], c[2]) for c in vals]
                        q = f"(select {{from: {T} by: k{w}}})"
                        s.add(q, (lambda g, f=grouped([("k", kt, k)], [x for x in fr if x[0] != "k"], rows, T): f(g)), ("firsts", kt, n))


def groupsn(s, tier):
    """several keys: every pair of key types, some triples"""
    KT = list(KD)
    n = 3 if tier == "quick" else 4
    v = cyc(VD["I64"], n, 1)
    fl = cyc(VD["F64"], n, 1)
    pats = list(itertools.product(range(3), repeat=n))
    for a, b in itertools.product(KT, KT):
        for i, pa in enumerate(pats):
            if tier == "quick" and (i + KT.index(a) + KT.index(b)) % 3:
                continue
            ka = [KD[a][x % len(KD[a])] for x in pa]
            for pb in (pats[(7 * i + 5) % len(pats)], tuple([0] * n), tuple(1 if x == 0 else 0 for x in pa), tuple(range(n)) if n <= 3 else (0, 1, 2, 0)):
                kb = [KD[b][x % len(KD[b])] for x in pb]
                T = table([("k", a, ka), ("j", b, kb), ("v", "I64", v), ("f", "F64", fl)])
                ms = masks(n)
                for m in (ms[-1], ms[(i * 5 + 3) % len(ms)]):
                    rows = [r for r in range(n) if m[r]]
                    w = "" if all(m) else " where: " + vec("B8", m)
                    s.add(f"(select {{s: (sum v) c: (count v) x: (first f) y: (last v) from: {T} by: {{kk: k jj: j}}{w}}})",
                          grouped([("kk", a, ka), ("jj", b, kb)], [("s", "sum", "I64", v), ("c", "count", "I64", v), ("x", "first", "F64", fl), ("y", "last", "I64", v)], rows, T), ("by2", a, b))
    for a, b, c in itertools.product(["I64", "I32", "SYMBOL", "U8", "GUID", "F64"], repeat=3):
        for i, pa in enumerate(pats):
            if i % (4 if tier == "quick" else 1):
                continue
            ka, kb, kc = [[KD[t][(x + o) % len(KD[t])] for x in p] for t, p, o in ((a, pa, 0), (b, pats[(5 * i + 1) % len(pats)], 1), (c, pats[(11 * i + 2) % len(pats)], 2))]
            T = table([("k", a, ka), ("j", b, kb), ("i", c, kc), ("v", "I64", v)])
            s.add(f"(select {{s: (sum v) m: (max v) from: {T} by: {{i: i k: k j: j}}}})",
                  grouped([("i", c, kc), ("k", a, ka), ("j", b, kb)], [("s", "sum", "I64", v), ("m", "max", "I64", v)], range(n), T), ("by3", a, b, c))


def exprs(s, tier):
    """expressions inside and around aggregates, computed keys, nested selects"""
    n = 4
    for k in itertools.product([1, 2], repeat=n):
        for m in masks(n):
            v = [3, N64, -4, 10]
            u = [1, 5, 5, 2]
            k = list(k)
            T = table([("k", "I64", k), ("v", "I64", v), ("u", "I64", u), ("w", "B8", m)])
            rows = [i for i in range(n) if m[i]]
            if not rows:
                continue  # an expression over no groups has no type
            v2 = [N64 if x == N64 else x * 2 + y for x, y in zip(v, u)]
            for by, kn in (("k", "k"), ("{g: k}", "g")):
                for w in (" where: w", " where: (not (not w))", f" where: {vec('B8', m)}"):
                    s.add(f"(select {{a: (sum (+ (* v 2) u)) b: (max (- u)) c: (avg (+ u 1)) from: {T} by: {by}{w}}})".replace("(- u)", "(- 0 u)"),
                          grouped([(kn, "I64", k)], [("a", "sum", "I64", v2), ("b", "max", "I64", [-x for x in u]), ("c", "avg", "I64", [x + 1 for x in u])], rows, T), "expr-in")
            # arithmetic on aggregates
            gr = {}
            for r in rows:
                gr.setdefault(k[r], []).append(r)
            want = {kk: (sum(v[r] for r in rs if v[r] != N64) + len(rs), max(u[r] for r in rs) - min(u[r] for r in rs)) for kk, rs in gr.items()}
            s.add(f"(select {{a: (+ (sum v) (count v)) b: (- (max u) (min u)) from: {T} by: k where: w}})",
                  (lambda g, want=want: g[0] == "TABLE" and g[1][1] == ["k", "a", "b"] and {a: (b, c) for a, b, c in zip(*[x[1] for x in g[2][1]])} == want and len(g[2][1][0][1]) == len(want)), "expr-out")
            # a computed key
            mod = [x // 4 * 4 for x in u]
            s.add(f"(select {{a: (sum v) from: {T} by: {{g: (xbar u 4) h: k}} where: w}})", grouped([("g", "I64", mod), ("h", "I64", k)], [("a", "sum", "I64", v)], rows, T), "key-expr")
            s.add(f"(select {{a: (sum v) from: {T} by: {{g: (xbar u 4)}} where: w}})", grouped([("g", "I64", mod)], [("a", "sum", "I64", v)], rows, T), "key-expr1")
            # nested: filter then group = group with filter
            s.add(f"(select {{a: (sum v) b: (first u) from: (select {{from: {T} where: w}}) by: k}})", grouped([("k", "I64", k)], [("a", "sum", "I64", v), ("b", "first", "I64", u)], rows, T), "nested")


def big(c, tier):
    """tables around the parallel split; key ranges that select each grouping strategy"""
    sizes = [16385, 40007] if tier == "quick" else [16383, 16384, 16385, 20479, 32769, 40007, 70001]
    for n in sizes:
        ids = list(range(n))
        base = {
            "v": ("I64", [N64 if i % 11 == 3 else (i * 7919) % 1009 - 500 for i in ids]),
            "f": ("F64", [NAN if i % 13 == 5 else float((i * 31) % 257) - 100.0 for i in ids]),
            "h": ("I16", [N16 if i % 17 == 2 else (i * 131) % 3001 - 1500 for i in ids]),
            "d": ("DATE", [N32 if i % 19 == 7 else (i * 37) % 9001 for i in ids]),
            "p": ("TIMESTAMP", [N64 if i % 7 == 1 else i * 1000003 % 99991 for i in ids]),
            "s": ("SYMBOL", [["q", "w", "e", "r"][(i * i) % 4] for i in ids]),
            "g": ("GUID", [G0 if i % 23 == 11 else guid(i % 200) for i in ids]),
            "b": ("B8", [1 if (i * 5) % 7 < 4 else 0 for i in ids]),
            "b2": ("B8", [1 if (i * 3) % n < 16900 else 0 for i in ids]),  # rounding to pages leaves the last of 8 executors without work
        }
        keys = {
            "low": ("I64", [(i * 7) % 5 for i in ids]),
            "neg": ("I64", [(i * 13) % 301 - 150 for i in ids]),
            "nulls": ("I64", [N64 if i % 5 == 0 else i % 3 for i in ids]),
            "mid": ("I64", [(i * 7919) % 5003 for i in ids]),
            "wide": ("I64", [((i * 2654435761) % 1009) * 10**12 - 5 * 10**14 for i in ids]),
            "uniq": ("I64", [(i * 48271) % 65537 * 1000003 for i in ids]),
            "blocks": ("I64", [i // 3000 for i in ids]),
            "late": ("I64", [7 if i == n - 1 else (9 if i == 8191 else 1) for i in ids]),
            "u8": ("U8", [(i * 3) % 256 for i in ids]),
            "b8": ("B8", [1 if i % 3 == 0 else 0 for i in ids]),
            "sym": ("SYMBOL", [["aa", "bb", "cc", None, "dd"][(i * 3) % 5] for i in ids]),
            "f64": ("F64", [NAN if i % 9 == 4 else float(i % 50) - 25.5 for i in ids]),
            "gu": ("GUID", [guid(i % 77) for i in ids]),
            "en": ("ENUM", [["ex", "ey", "ez"][(i // 7) % 3] for i in ids]),
            "ts": ("TIMESTAMP", [(i % 24) * 3600 * 10**9 for i in ids]),
        }
        allc = [(k,) + v for k, v in base.items()] + [("k" + k,) + v for k, v in keys.items()]
        allc += [("k32", "I32", [(i * 7) % 61 - 30 for i in ids]), ("k16", "I16", [i % 4 for i in ids])]
        D = {x[0]: x for x in allc}
        setup = SETUP + ["Q (set bt %s)" % table(allc)]
        s = Suite(c)
        ops = [("a0", "first", "v"), ("a1", "last", "v"), ("a2", "sum", "v"), ("a3", "min", "v"), ("a4", "max", "v"), ("a5", "avg", "v"), ("a6", "med", "v"), ("a7", "dev", "v"), ("a8", "count", "v"),
               ("b0", "first", "f"), ("b1", "last", "f"), ("b2", "sum", "f"), ("b3", "min", "f"), ("b4", "max", "f"), ("b5", "avg", "f"), ("b6", "med", "f"), ("b7", "dev", "f"),
               ("c0", "first", "h"), ("c1", "last", "h"), ("c2", "sum", "h"), ("c3", "min", "h"), ("c4", "max", "h"), ("c5", "avg", "h"), ("c6", "med", "h"),
               ("d0", "first", "d"), ("d1", "last", "d"), ("d2", "min", "d"), ("d3", "max", "d"), ("d4", "count", "d"),
               ("e0", "first", "p"), ("e1", "last", "p"), ("e2", "min", "p"), ("e3", "max", "p"), ("f0", "first", "s"), ("f1", "last", "s"), ("g0", "first", "g"), ("g1", "last", "g"), ("g2", "count", "g"), ("h0", "first", "b")]
        agx = [(o, op, D[cn][1], D[cn][2]) for o, op, cn in ops]
        wh = [("", list(ids)), (" where: b", [i for i in ids if D["b"][2][i]]), (" where: b2", [i for i in ids if D["b2"][2][i]]), (" where: (> v 400)", [i for i in ids if D["v"][2][i] > 400]),
              (" where: (== klow 3)", [i for i in ids if D["klow"][2][i] == 3])]
        for k in keys:
            for w, rows in (wh if tier == "thorough" else wh[:2] if k not in ("low", "mid", "sym", "uniq") else wh):
                kn, kt, kv = D["k" + k]
                use = [x for x in range(len(ops)) if ops[x][1] != "med" or k not in ("mid", "uniq", "wide")]  # a sort per group
                sl = " ".join("%s: (%s %s)" % ops[x] for x in use)
                s.add(f"(select {{{sl} from: bt by: {kn}{w}}})", grouped([(kn, kt, kv)], [agx[x] for x in use], rows, None), ("big", k, w))
        for ks in (("klow", "k32"), ("ksym", "k16"), ("kgu", "kblocks"), ("kf64", "kb8"), ("ken", "ku8"), ("kwide", "ksym", "kb8"), ("kuniq", "klow")):
            for w, rows in wh[:3]:
                few = [x for x in range(len(ops)) if x % 4 == 0]
                s.add("(select {%s from: bt by: {%s}%s})" % (" ".join("%s: (%s %s)" % ops[x] for x in few), " ".join("x%s: %s" % (k, k) for k in ks), w),
                      grouped([("x" + k, D[k][1], D[k][2]) for k in ks], [agx[x] for x in few], rows, None), ("bign", ks, w))
        # filters over many rows
        for w, rows in wh[1:]:
            s.add(f"(select {{from: bt{w}}})", expect([(x[0], x[1], [x[2][r] for r in rows]) for x in allc]), ("bigf", w))
            s.add(f"(select {{a: (+ v 1) b: g from: bt{w}}})", expect([("a", "I64", [N64 if D["v"][2][r] == N64 else D["v"][2][r] + 1 for r in rows]), ("b", "GUID", [D["g"][2][r] for r in rows])]), ("bigp", w))
        cs = s.cases
        for cores in ((1, 4, 8) if tier == "quick" else (1, 2, 3, 4, 7, 8, 13)):
            s.cases = list(cs)
            s.run(setup=setup, cores=cores, chunk=14)


def huge(c, tier):
    """ranges above the limit of the shift strategy: group ids calculated in parallel"""
    n = 600001
    ids = range(n)
    ks = [(i * 7919) % 101 * 5400 - 777 for i in ids]
    vs = [N64 if (i * 31) % 257 == 5 else (i * 31) % 257 for i in ids]
    us = [i * 48271 % 1000003 for i in ids]
    b = [1 if (i * 5) % 7 < 6 else 0 for i in ids]
    setup = ["Q (do (set i (til %d)) (set k (- (* 5400 (%% (* i 7919) 101)) 777)) (set v (at [%s] (%% (* i 31) 257))) (set u (%% (* i 48271) 1000003)) (set b (< (%% (* i 5) 7) 6)) (set t (table [k v u b] (list k v u b))))"
             % (n, " ".join(lit1("I64", N64 if j == 5 else j) for j in range(257)))]
    s = Suite(c)
    for w, rows in (("", ids), (" where: b", [i for i in ids if b[i]])):
        ops = [("a", "sum", vs, "v"), ("b", "first", us, "u"), ("c", "last", us, "u"), ("d", "count", us, "u"), ("e", "max", us, "u"), ("f", "avg", vs, "v"), ("g", "min", vs, "v"), ("h", "dev", us, "u")]
        s.add("(select {%s from: t by: k%s})" % (" ".join(f"{o}: ({op} {cn})" for o, op, _, cn in ops), w), grouped([("k", "I64", ks)], [(o, op, "I64", x) for o, op, x, _ in ops], rows, None), ("huge", w))
    cs = s.cases
    for cores in ((1, 8) if tier == "quick" else (1, 2, 3, 4, 5, 8)):
        s.cases = list(cs)
        s.run(setup=setup, cores=cores, chunk=1)


def seams(c, tier):
    """lengths whose pages do not divide among the executors: no task may reach past the rows (AddressSanitizer)"""
    sizes = [16384, 16385, 16897, 20481, 33000] if tier == "quick" else [16384, 16385, 16896, 16897, 17409, 18433, 20481, 22529, 24577, 33000, 40961, 66000]
    for n in sizes:
        m = n + 1234
        ids = range(m)
        ks, vs, f = [i % 61 for i in ids], [(i * 7) % 1000 for i in ids], [1 if i < n - 1 or i == m - 1 else 0 for i in ids]
        setup = ["Q (do (set i (til %d)) (set k (%% i 61)) (set v (%% (* i 7) 1000)) (set w (or (< i %d) (== i %d))) (set j (* k 1000000007)) (set x (as 'F64 k)) (set k3 (as 'I32 (%% i 3))) (set t (table [i k v w j x k3] (list i k v w j x k3))))" % (m, n - 1, m - 1)]
        s = Suite(c)
        ag = [("s", "sum", "I64", vs), ("m", "max", "I64", vs), ("a", "first", "I64", list(ids)), ("z", "last", "I64", list(ids)), ("c", "count", "I64", vs), ("d", "dev", "I64", vs)]
        sel = "s: (sum v) m: (max v) a: (first i) z: (last i) c: (count v) d: (dev v)"
        rows = [i for i in ids if f[i]]
        for by, keys in (("k", [("k", "I64", ks)]), ("j", [("j", "I64", [x * 1000000007 for x in ks])]), ("x", [("x", "F64", [float(x) for x in ks])]),
                         ("{k: k l: (% v 2)}", [("k", "I64", ks), ("l", "I64", [x % 2 for x in vs])]), ("{k: k k3: k3}", [("k", "I64", ks), ("k3", "I32", [i % 3 for i in ids])]), ("{j: j x: x}", [("j", "I64", [x * 1000000007 for x in ks]), ("x", "F64", [float(x) for x in ks])])):
            s.add(f"(select {{{sel} from: t by: {by} where: w}})", grouped(keys, ag, rows, None), ("seam", by, n))
        s.add("(select {i: i v: (+ v 1) from: t where: w})", expect([("i", "I64", rows), ("v", "I64", [vs[r] + 1 for r in rows])]), ("seam", "filter", n))
        cs = s.cases
        for cores in ((3, 8) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8, 12, 16)):
            for fl in ("rel", "asan"):
                s.cases = list(cs)
                s.run(setup=setup, cores=cores, chunk=4, flavor=fl)


class S2(Suite):
    setup = None


def main(pid, tier):
    c = report.Check(pid, tier, "exploration")
    only = os.environ.get("VT_PART", "filters groups1 groupsn exprs big huge seams").split()
    for f in (filters, groups1, groupsn, exprs):
        if f.__name__ not in only:
            continue
        s = S2(c)
        s.setup = list(SETUP)
        f(s, tier)
        st = s.setup
        s.run(setup=st, chunk=1500)
    if "big" in only:
        big(c, tier)
    if "seams" in only:
        seams(c, tier)
    if "huge" in only:
        huge(c, tier)
    c.finish("tables of at most %d rows: every filter mask; every sequence of three keys (null among them) for ten key types with every supported aggregate of fourteen column types; pairs of fourteen key types; "
             "computed keys and nested selects; tables of up to %d rows over key ranges that select each grouping strategy, on 1 to %d executors" % ((4, 600001, 8) if tier == "quick" else (6, 600001, 13)), True)


if __name__ == "__main__":
    main(*sys.argv[1:3])
