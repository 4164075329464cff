"""Aggregates and element-wise unary functions over plain vectors.

Every vector over a small per-type domain (null, negative, zero, positive, extreme) up to a length
bound, every aggregate, compared with a reference that ignores nulls; plus long vectors whose length
sits around the boundaries of the parallel split, on 1..4 executors (parallel must equal sequential)."""
import sys, os, itertools, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import report
from vt.suite import Suite, ERR, judge
from vt.val import *

DOM = {
    "U8": [0, 1, 7, 255],
    "I16": [0, -5, 300, N16],
    "I32": [0, -5, 70000, N32],
    "I64": [0, -5, 3, 5000000000, N64],
    "F64": [0.0, -2.5, 1024.25, 3.0, float("nan")],
    "DATE": [0, -5, 8000, N32],
    "TIME": [0, 5, 86399999, N32],
    "TIMESTAMP": [0, -5, 638755200123456789, N64],
}
NUM = ["U8", "I16", "I32", "I64", "F64"]
F = float


def ref(op, t, v):
    """model; returns canonical value, or None where the operation is not defined for the type"""
    nn = [x for x in v if not isnull(t, x)]
    n = len(nn)
    if op == "count":
        return ["i64", len(v)]
    if op in ("min", "max"):
        if t == "U8":
            return ["u8", (min if op == "min" else max)(v) if v else 0]
        return [TNAME[t], (min if op == "min" else max)(nn) if nn else NULLS[t]]
    if op == "sum":
        if t in ("U8", "I16"):
            return ["i64", sum(nn)]
        if t in ("I32", "I64", "TIME"):
            s = sum(nn)
            return [TNAME[t], s] if fits(t, s) else None
        if t == "F64":
            return ["f64", F(sum(nn))]
        return ERR
    if op == "avg":
        if t not in NUM:
            return ERR
        if t == "I32" and not fits(t, sum(nn)):
            return None
        return ["f64", F(sum(nn)) / n if n else float("nan")]
    if op == "med":
        if t not in ("U8", "I16", "I64"):
            return ERR if n else None
        if not n:
            return ["f64", float("nan")]
        s = sorted(nn)
        return ["f64", F(s[n // 2]) if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2]
    if op == "dev":
        if n == 0:
            return ["f64", float("nan")]
        if n == 1:
            return ["f64", 0.0]
        if t in ("I32", "TIME") and not fits(t, sum(nn)):
            return None
        m = F(sum(nn)) / n
        return lambda g, e=math.sqrt(sum((x - m) ** 2 for x in nn) / n): g[0] == "f64" and abs(g[1] - e) <= 1e-6 * max(abs(e), abs(m) * 1e-6, 1e-9)
    if op in ("first", "last"):
        if not v:
            return [TNAME[t], NULLS[t]] if t in NULLS else None
        return [TNAME[t], v[0] if op == "first" else v[-1]]
    if op in ("round", "floor", "ceil"):
        if t in ("U8", "I16"):
            return ERR
        if t != "F64":
            return [t, v]
        f = {"floor": math.floor, "ceil": math.ceil, "round": lambda x: math.floor(x + 0.5) if x >= 0 else -math.floor(-x + 0.5)}[op]
        return [t, [x if x != x else F(f(x)) for x in v]]
    if op == "neg":
        if t not in ("I16", "I32", "I64", "F64"):
            return None
        return [t, [x if isnull(t, x) else -x for x in v]]


def fits(t, v):
    return -(2 ** (BITS[t] - 1)) < v < 2 ** (BITS[t] - 1)


OPS = ["count", "min", "max", "sum", "avg", "med", "dev", "first", "last", "round", "floor", "ceil", "neg"]


REFC = {}


def main(pid, tier):
    c = report.Check(pid, tier, "exploration")
    s = Suite(c)
    L = 4 if tier == "quick" else 6
    for t, dom in DOM.items():
        if tier == "thorough" and len(dom) > 4:
            L1 = 5
        else:
            L1 = L
        for n in range(L1 + 1):
            for v in itertools.product(dom, repeat=n):
                v = list(v)
                lit = vec(t, v)
                for op in OPS:
                    e = ref(op, t, v)
                    if e is not None:
                        s.add(f"({op} {lit})", e, (op, t, n))
        # atoms
        for x in dom:
            for op in ("min", "max", "sum", "first", "last", "round", "floor", "ceil", "neg", "avg"):
                r = ref(op, t, [x])
                if op in ("min", "max", "first", "last", "sum") and r is not None and r != ERR:
                    v = r[1]
                    if op == "sum" and isnull(t, x):
                        v = NULLS["I64"] if t == "I16" else x
                    s.add(f"({op} {atom(t, x)})", [r[0], v], (op, t, "atom"))
                elif op in ("round", "floor", "ceil", "neg") and r not in (None, ERR):
                    s.add(f"({op} {atom(t, x)})", [TNAME[t], r[1][0]], (op, t, "atom"))
        # lists of vectors map over the elements
        a, b = [dom[0], dom[-1]], [dom[1], dom[2], dom[1]]
        for op in ("min", "max", "sum", "avg"):
            ra, rb = ref(op, t, a), ref(op, t, b)
            if ra in (None, ERR) or rb in (None, ERR):
                continue
            s.add(f"({op} (list {vec(t, a)} {vec(t, b)}))", [ra[0].upper(), [ra[1], rb[1]]], (op, t, "list"))
    # and / or / not over masks
    B = [list(v) for n in range(1, 5) for v in itertools.product([0, 1], repeat=n)]
    for x in B:
        s.add(f"(not {vec('B8', x)})", ["B8", [1 - i for i in x]], "not")
        for y in B:
            if len(x) == len(y):
                s.add(f"(and {vec('B8', x)} {vec('B8', y)})", ["B8", [i & j for i, j in zip(x, y)]], "and")
                s.add(f"(or {vec('B8', x)} {vec('B8', y)})", ["B8", [i | j for i, j in zip(x, y)]], "or")
            elif len(x) > 1 and len(y) > 1:
                s.add(f"(and {vec('B8', x)} {vec('B8', y)})", ERR, "and")
        for y in (0, 1):
            for op, f in (("and", lambda i, j: i & j), ("or", lambda i, j: i | j)):
                s.add(f"({op} {vec('B8', x)} {atom('B8', y)})", ["B8", [f(i, y) for i in x]], op)
                s.add(f"({op} {atom('B8', y)} {vec('B8', x)})", ["B8", [f(i, y) for i in x]], op)
                s.add(f"({op} {vec('B8', x)} {atom('B8', y)} {vec('B8', x[::-1])})", ["B8", [f(f(i, y), j) for i, j in zip(x, x[::-1])]], op)
    s.run()
    # long vectors: parallel result equals the model on every split
    lens = [16383, 16384, 16385, 40007, 70001] if tier == "quick" else [16383, 16384, 16385, 16391, 32768, 32769, 40007, 49152, 65536, 70001, 131072, 131073]
    pat = {
        "U8": [1, 0, 255, 7, 3], "I16": [3, -5, N16, 300, 0, 11], "I32": [3, -5, N32, 30, 0, 11, 17], "I64": [3, -5, N64, 5000000000, 0, 11, 17],
        "F64": [0.5, -2.5, float("nan"), 1024.25, 3.0, 0.0, 8.0], "DATE": [5, N32, -5, 8000, 3], "TIME": [5, N32, 1, 20, 3], "TIMESTAMP": [5, N64, -7, 638755200123456789, 11],
    }
    for cores in ((1, 3, 8) if tier == "quick" else (1, 2, 3, 4, 8, 13)):
        for t, p in pat.items():
            for n in lens:
                # extremes placed in the last element / first element, so that a lost tail or head shows
                for extra in range(2):
                    full = (p * (n // len(p) + 1))[:n]
                    big = {"U8": 254, "I16": 301, "I32": 31, "I64": 5000000001, "F64": 2000.0, "DATE": 8001, "TIME": 21, "TIMESTAMP": 638755200123456790}[t]
                    small = {"U8": 2, "I16": -6, "I32": -6, "I64": -6, "F64": -3.5, "DATE": -6, "TIME": 0, "TIMESTAMP": -8}[t]
                    if extra:
                        full = [big] + full + [small]
                        src = f"(concat (concat {vec(t, [big])} (take {vec(t, p)} {n})) {vec(t, [small])})"
                    else:
                        src = f"(take {vec(t, p)} {n})"
                    for op in OPS:
                        if op == "med" and n > 20000 and tier == "quick":
                            continue
                        e = ref(op, t, full)
                        if e is None:
                            continue
                        s.add(f"({op} {src})", e, (op, t, n, cores))
        for n in lens:
            m = [1, 0, 0, 1, 1]
            full = (m * (n // 5 + 1))[:n]
            m2 = [1, 1, 0]
            f2 = (m2 * (n // 3 + 1))[:n]
            A, B_ = f"(take {vec('B8', m)} {n})", f"(take {vec('B8', m2)} {n})"
            s.add(f"(and {A} {B_})", ["B8", [i & j for i, j in zip(full, f2)]], "pand")
            s.add(f"(or {A} {B_})", ["B8", [i | j for i, j in zip(full, f2)]], "por")
            for y in (0, 1):
                s.add(f"(and {A} {atom('B8', y)})", ["B8", [i & y for i in full]], "pand")
                s.add(f"(or {atom('B8', y)} {A})", ["B8", [i | y for i in full]], "por")
        s.run(cores=cores, chunk=24)
        # one distinguished element at every seam a page-aligned split can have, on constant and all-null backgrounds
        SZ = {"U8": 1, "I16": 2, "I32": 4, "DATE": 4, "TIME": 4, "I64": 8, "TIMESTAMP": 8, "F64": 8}
        hi = {"U8": 9, "I16": 9, "I32": 9, "DATE": 9, "TIME": 9, "I64": 9, "TIMESTAMP": 9, "F64": 9.5}
        if cores == 1:
            continue
        for t in pat:
            bgs = [hi[t] - 4] + ([NULLS[t]] if t in NULLS else [])
            nds = [hi[t], hi[t] - 8 if t != "F64" else -3.5] + ([NULLS[t]] if t in NULLS else [])
            step = 4096 // SZ[t]
            for n in ((16384 + 7, 40007) if tier == "quick" else (16384, 16391, 32768, 40007, 65536, 100003)):
                pos = sorted({q for k in range(0, n + step, step) for q in (k - 1, k, k + 1) if 0 <= q < n} | {n - 1, n - 2})
                for bg in bgs:
                    for nd in nds:
                        if repr(bg) == repr(nd):
                            continue
                        ops = [o for o in ("min", "max", "sum", "avg", "count", "first", "last", "dev")]
                        for k in pos:
                            fv = [bg] * k + [nd] + [bg] * (n - 1 - k)
                            # the model value only depends on the position for first/last: compute on a short equivalent
                            es, os_ = [], []
                            for o in ops:
                                if o in ("first", "last"):
                                    e = [TNAME[t], fv[0] if o == "first" else fv[-1]]
                                else:
                                    e = REFC.setdefault((o, t, n, repr(bg), repr(nd)), ref(o, t, [bg] * 2 + [nd] + [bg] * (n - 3)) if (o, t, n, repr(bg), repr(nd)) not in REFC else 0)
                                if e is None or e == ERR:
                                    continue
                                es.append(e)
                                os_.append(o)

                            head = f"(take {vec(t, [bg])} {k})" if k else vec(t, [])
                            tail = f"(take {vec(t, [bg])} {n - 1 - k})"
                            v = f"(concat {head} {vec(t, [nd])})" if k else vec(t, [nd])
                            v = f"(concat {v} {tail})" if n - 1 - k else v
                            s.add("(do (set v %s) (list %s 'end))" % (v, " ".join("(%s v)" % o for o in os_)), (lambda g, es=es: g[0] == "LIST" and len(g[1]) == len(es) + 1 and all(judge(e, x) for e, x in zip(es, g[1]))), ("seam", t, n))
        s.run(cores=cores, chunk=200)
    c.finish("every vector over the per-type domains up to the length bound x every aggregate; long vectors around every split boundary x executors",
             extra={"ops": OPS, "max_len": L, "long_lengths": lens})


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
