"""Arithmetic and comparison: bounded-exhaustive comparison of the interpreter with a reference model.

Model: result type is a function of operator and operand base types only; null in -> null out;
atom/vector shapes broadcast element by element; comparison orders null below everything and
nulls equal each other.  Every ordered pair of values of a small domain per type pair is
evaluated in every shape (atom-atom, atom-vector, vector-atom, vector-vector at several lengths,
nested list, long vectors that take the parallel path)."""
import math, sys, os, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import drv, report
from vt.val import *

T = ["B8", "U8", "I16", "I32", "I64", "F64", "DATE", "TIME", "TIMESTAMP"]
DOM = {
    "B8": [0, 1],
    "U8": [0, 1, 3, 7, 200, 255],
    "I16": [0, 1, -1, 3, -3, 7, -7, 120, -300, 32767, -32767, N16],
    "I32": [0, 1, -1, 3, -3, 7, -7, 86400, -1000, 2**31 - 1, 1 - 2**31, N32],
    "I64": [0, 1, -1, 3, -3, 7, -7, 5000, -100000, 2**53 + 1, 2**63 - 1, 1 - 2**63, N64],
    "F64": [0.0, 1.0, -1.0, 0.5, -2.5, 3.0, -7.0, 1024.25, float("nan")],
    "DATE": [0, 1, -1, 3, 7, 7305, -300, N32],
    "TIME": [0, 1, -1, 3, 1000, 45296789, -7, N32],
    "TIMESTAMP": [0, 1, -1, 3, 7, 638755200123456789, -1000000000, 86400 * 10**9 - 1, 86400 * 10**9 + 1, N64],
}
INT = {"U8", "I16", "I32", "I64"}
NS_DAY, NS_MS = 86400 * 10**9, 10**6


def rtype(op, a, b):
    """result element type, or None where the pair is not supported"""
    if op in ("==", "!=", "<", ">", "<=", ">="):
        num = {"I16", "I32", "I64", "F64"}
        if a in num and b in num:
            return "B8"
        if a in ("DATE", "TIMESTAMP") and b in ("DATE", "TIMESTAMP"):
            return "B8"
        if a == b == "TIME":
            return "B8"
        return None
    rank = ["U8", "I16", "I32", "I64", "F64"]
    if op == "div":
        return "F64" if a in ("I32", "I64", "F64") and b in ("I32", "I64", "F64") else None
    if op == "xbar":
        n = ("I32", "I64", "F64")
        if a in n and b in n:
            return "F64" if "F64" in (a, b) else ("I32" if a == b == "I32" else "I64")
        if a in ("DATE", "TIME", "TIMESTAMP") and b in ("I32", "I64"):
            return a
        if a in ("TIME", "TIMESTAMP") and b == "TIME":
            return a
        return None
    if op in ("+", "-", "*"):
        if a in rank and b in rank:
            if {a, b} == {"U8", "I16"}:
                return None
            return rank[max(rank.index(a), rank.index(b))]
        if op == "+":
            if a in ("I32", "I64") and b in ("DATE", "TIME", "TIMESTAMP"):
                return b
            if b in ("I32", "I64") and a in ("DATE", "TIME", "TIMESTAMP"):
                return a
            if a == b == "TIME":
                return "TIME"
            if {a, b} == {"DATE", "TIME"} or {a, b} == {"TIME", "TIMESTAMP"}:
                return "TIMESTAMP"
            return None
        if op == "-":
            if b in ("I32", "I64") and a in ("DATE", "TIME", "TIMESTAMP"):
                return a
            if a in ("I32", "I64") and b == "TIME":
                return "TIME"
            if a == b == "DATE":
                return "I32"
            if a == b == "TIME":
                return "TIME"
            if a == b == "TIMESTAMP":
                return "I64"
            if (a, b) in (("DATE", "TIME"), ("TIMESTAMP", "TIME")):
                return "TIMESTAMP"
            return None
        if op == "*":
            if {a, b} & {"I32", "I64"} and "TIME" in (a, b):
                return "TIME"
            return None
    if op == "/":
        if a in rank and b in rank and {a, b} != {"U8", "I16"}:
            if a in ("U8", "I16"):
                return rank[max(rank.index(a), rank.index(b))]
            return a
        if a == "TIME" and b in ("I32", "I64", "F64"):
            return "TIME"
        return None
    if op == "%":
        if a in rank and b in rank and {a, b} != {"U8", "I16"}:
            if "F64" in (a, b):
                return None if {a, b} & {"U8", "I16"} else "F64"
            if a in ("U8", "I16"):
                return b
            if b == "I64":
                return "I64"
            if a == "I64" and b == "I32":
                return "I32"
            return a if b in ("U8", "I16") else "I32"
        if a == "TIME" and b in ("I32", "I64"):
            return "TIME"
        return None


def fits(t, v):
    b = BITS.get(t)
    if b is None:
        return True
    return -(2 ** (b - 1)) < v < 2 ** (b - 1)


SKIP = object()


def ev(op, a, x, b, y, t):
    """value of one element operation, SKIP where the exact result does not fit (overflow)"""
    if op in ("==", "!=", "<", ">", "<=", ">="):
        if a == "DATE" and b == "TIMESTAMP":
            x = N64 if x == N32 else x * NS_DAY
        if b == "DATE" and a == "TIMESTAMP":
            y = N64 if y == N32 else y * NS_DAY
        nx = isnull("TIMESTAMP" if a == "DATE" and b == "TIMESTAMP" else a, x)
        ny = isnull("TIMESTAMP" if b == "DATE" and a == "TIMESTAMP" else b, y)
        kx = (0, 0) if nx else (1, x)
        ky = (0, 0) if ny else (1, y)
        return int({"==": kx == ky, "!=": kx != ky, "<": kx < ky, ">": kx > ky, "<=": kx <= ky, ">=": kx >= ky}[op])
    if isnull(a, x) or isnull(b, y):
        return NULLS[t]
    if op in ("/", "%", "xbar", "*", "div") and "F64" in (a, b) and max(abs(x), abs(y)) > 2**53:
        return SKIP  # not exactly representable: the rounding of intermediate results is not specified
    if "TIME" in (a, b) and {a, b} & {"I32", "I64"} and max(abs(x), abs(y)) >= 2**31:
        return SKIP  # counts of milliseconds beyond what a TIME can hold
    if op == "xbar" and "F64" not in (a, b) and not fits(t, x - y):
        return SKIP  # the bin of values within one bin of the type's limits
    if op == "div" and min(x, y) <= 1 - 2**63:
        return SKIP  # the most negative values become null when converted to floating point
    # temporal scale
    if t == "TIMESTAMP" and not (op == "xbar"):
        if a == "DATE":
            x *= NS_DAY
        if a == "TIME":
            x *= NS_MS
        if b == "DATE":
            y *= NS_DAY
        if b == "TIME":
            y *= NS_MS
    if op == "xbar" and a == "TIMESTAMP" and b == "TIME":
        y *= NS_MS
    if op in ("+", "-", "*"):
        r = x + y if op == "+" else x - y if op == "-" else x * y
        if t == "F64":
            return float(r)
        if t == "U8":
            return r % 256
        return r if fits(t, r) else SKIP
    if op == "div":
        return NULLS["F64"] if y == 0 else x / y
    if op == "/":
        if y == 0:
            return 0 if t == "U8" else NULLS[t]
        r = math.floor(x / y) if "F64" in (a, b) else x // y
        if t == "F64":
            return float(r)
        return r if fits(t, r) or t == "U8" else SKIP
    if op == "%":
        if y == 0:
            return 0 if t == "U8" else NULLS[t]
        r = x - math.floor(x / y) * y if "F64" in (a, b) else x % y
        if t == "F64":
            return float(r)
        return r if fits(t, r) or t == "U8" else SKIP
    if op == "xbar":
        if y == 0:
            return NULLS[t]
        r = math.floor(x / y) * y if "F64" in (a, b) else x // y * y
        if t == "F64":
            return float(r)
        return r if fits(t, r) else SKIP


OPS = ["+", "-", "*", "/", "%", "div", "xbar", "==", "!=", "<", ">", "<=", ">="]


def skip_case(op, a, x, b, y):
    # xbar with a negative or zero-valued float bin: documented only for positive bins
    return op == "xbar" and (isnull(b, y) is False) and y <= 0


def cases(op, a, b, tier):
    """yield (expression, expected canonical value)"""
    t = rtype(op, a, b)
    if t is None:
        return
    A, Bv = DOM[a], DOM[b]
    pairs = []
    for x in A:
        for y in Bv:
            if skip_case(op, a, x, b, y):
                continue
            v = ev(op, a, x, b, y, t)
            if v is SKIP:
                continue
            pairs.append((x, y, v))
            yield f"({op} {atom(a, x)} {atom(b, y)})", canon_atom(t, v)
    # broadcast: every atom against every vector of the other side
    for x in A:
        ok = [(y, v) for (p, y, v) in pairs if (p == x or (p != p and x != x))]
        for k in ([0, 1, 2, len(ok)] if tier == "quick" else range(len(ok) + 1)):
            s = ok[:k]
            yield f"({op} {atom(a, x)} {vec(b, [y for y, _ in s])})", canon_vec(t, [v for _, v in s])
    for y in Bv:
        ok = [(x, v) for (x, q, v) in pairs if (q == y or (q != q and y != y))]
        for k in ([0, 1, 3, len(ok)] if tier == "quick" else range(len(ok) + 1)):
            s = ok[-k:] if k else []
            yield f"({op} {vec(a, [x for x, _ in s])} {atom(b, y)})", canon_vec(t, [v for _, v in s])
    # vector-vector: all pairs in one vector, all prefixes and all suffixes (every tail length of a blocked loop)
    n = len(pairs)
    lens = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, n] if tier == "quick" else range(n + 1)
    for k in lens:
        if k > n:
            continue
        for s in (pairs[:k], pairs[n - k:]):
            yield (f"({op} {vec(a, [p[0] for p in s])} {vec(b, [p[1] for p in s])})", canon_vec(t, [p[2] for p in s]))
    # nested lists
    if len(pairs) > 3 and t != "B8":
        (x0, y0, v0), (x1, y1, v1), (x2, y2, v2) = pairs[0], pairs[len(pairs) // 2], pairs[-1]
        yield (f"({op} (list {atom(a, x0)} {vec(a, [x1, x2])}) (list {atom(b, y0)} {vec(b, [y1, y2])}))",
               ["LIST", [canon_atom(t, v0), canon_vec(t, [v1, v2])]])
    # length mismatch is an error
    yield f"({op} {vec(a, A[:2])} {vec(b, Bv[:1] * 3)})", ["ERR"]


def long_cases(op, a, b):
    t = rtype(op, a, b)
    if t is None:
        return
    pairs = []
    for x in DOM[a]:
        for y in DOM[b]:
            if skip_case(op, a, x, b, y):
                continue
            v = ev(op, a, x, b, y, t)
            if v is not SKIP:
                pairs.append((x, y, v))
    # long vectors; results reduced to: equality with the tiled short result (checked by the same
    # interpreter's take) plus explicit dump of the region around each split point
    n = len(pairs)
    for N in (16383, 16384, 16391, 40007, 70001):
        exp = [pairs[i % n][2] for i in range(N)]
        yield (f"({op} (take {vec(a, [p[0] for p in pairs])} {N}) (take {vec(b, [p[1] for p in pairs])} {N}))", ("tile", t, [p[2] for p in pairs], N))
    y = DOM[b][1]
    ok = [(x, v) for (x, q, v) in pairs if q == y]
    if ok:
        yield f"({op} (take {vec(a, [x for x, _ in ok])} 40007) {atom(b, y)})", ("tile", t, [v for _, v in ok], 40007)
    x = DOM[a][1]
    ok = [(y, v) for (q, y, v) in pairs if q == x]
    if ok:
        yield f"({op} {atom(a, x)} (take {vec(b, [y for y, _ in ok])} 40007))", ("tile", t, [v for _, v in ok], 40007)


def eq_cases():
    """comparisons of symbols, enums, guids, strings and lists"""
    import operator
    F = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge}
    dom = ["a", "b", "c", None]
    lit = lambda s: "'" + s if s else "0Ns"
    syms = [list(p) for k in (0, 1, 2, 3) for p in itertools.product(dom, repeat=k)]
    V = lambda v: "[" + " ".join(x or "0Ns" for x in v) + "]" if v else "(as 'SYMBOL [])"
    E = lambda v: f"(enum 'dom {V(v)})"
    yield "(set dom ['a 'b 'c])", None
    yield "(set dom2 ['c 'b 'a])", None
    for o in ("==", "!="):
        f = lambda x, y: int(F[o](x, y))
        for v in syms:
            if v and None not in v:
                for x in dom:
                    yield f"({o} {E(v)} {lit(x)})", ["B8", [f(y, x) for y in v]]
                    yield f"({o} {lit(x)} {E(v)})", ["B8", [f(y, x) for y in v]]
                for w in syms:
                    if len(w) == len(v):
                        yield f"({o} {E(v)} {V(w)})", ["B8", [f(x, y) for x, y in zip(v, w)]]
                        yield f"({o} {V(w)} {E(v)})", ["B8", [f(x, y) for x, y in zip(v, w)]]
                        if None not in w:
                            yield f"({o} {E(v)} (enum 'dom2 {V(w)}))", ["B8", [f(x, y) for x, y in zip(v, w)]]
            for x in dom:
                yield f"({o} {V(v)} {lit(x)})", ["B8", [f(y, x) for y in v]]
                yield f"({o} {lit(x)} {V(v)})", ["B8", [f(y, x) for y in v]]
        for x in dom:
            for y in dom:
                yield f"({o} {lit(x)} {lit(y)})", ["b8", f(x, y)]
    # lists against atoms: element by element, whatever the mixture
    ats = [("1", 1), ("2", 2), ("0Nl", None), ("2.5", 2.5), ("1.0", 1.0), ("0Nf", None), ("2i", 2), ("1h", 1), ("0Ni", None)]
    key = lambda v: (0, 0) if v is None else (1, v)
    for o in F:
        for (a, x) in ats:
            for k in (1, 2, 3):
                for p in itertools.product(ats, repeat=k):
                    ls = "(list %s)" % " ".join(e[0] for e in p)
                    yield f"({o} {ls} {a})", ["B8", [int(F[o](key(e[1]), key(x))) for e in p]]
                    if k < 3:
                        yield f"({o} {a} {ls})", ["B8", [int(F[o](key(x), key(e[1]))) for e in p]]
    # strings are compared as wholes
    S = ["", "a", "b", "ab", "aa", "abc", "Z", "a b"]
    for o in F:
        for x in S:
            for y in S:
                yield f'({o} "{x}" "{y}")', ["b8", int(F[o](x, y))]
    # guids: equality with themselves and the null guid
    yield "(set gs (guid 3))", None
    for i in range(3):
        for j in range(3):
            yield f"(== (at gs {i}) (at gs {j}))", ["b8", int(i == j)]
            yield f"(!= (at gs {i}) (at gs {j}))", ["b8", int(i != j)]
            yield f"(!= (< (at gs {i}) (at gs {j})) (>= (at gs {i}) (at gs {j})))", ["b8", 1]
            yield f"(!= (> (at gs {i}) (at gs {j})) (<= (at gs {i}) (at gs {j})))", ["b8", 1]
        yield f"(== gs (at gs {i}))", ["B8", [int(i == j) for j in range(3)]]
        yield f"(!= (at gs {i}) gs)", ["B8", [int(i != j) for j in range(3)]]
    yield "(== gs gs)", ["B8", [1, 1, 1]]
    yield "(!= gs (at gs [2 1 0]))", ["B8", [1, 0, 1]]


def long_eq_cases():
    """the same over several executors"""
    import operator
    F = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge}
    gs = ["00000000-0000-0000-0000-000000000001", "00112233-4455-6677-8899-aabbccddeeff", "00112233-4455-6677-8899-aabbccddeefe", "ff000000-0000-0000-0000-000000000000", "00112233-4455-6677-8899-aabbccddeeff"]
    sy = ["a", "b", "c", "b", None, "dd", "a"]
    yield "(set dom ['a 'b 'c 'dd])", None
    yield "(set dom2 ['dd 'c 'b 'a])", None
    yield "(set gs (as 'GUID (list %s)))" % " ".join('"%s"' % g for g in gs), None
    yield "(set sy [%s])" % " ".join(x or "0Ns" for x in sy), None
    for n in (16384, 20001, 40007):
        g = "(at gs (%% (til %d) 5))" % n
        g3 = "(at gs (%% (til %d) 3))" % n
        s7, e7, f7 = ("(at %s (%% (til %d) 7))" % (x, n) for x in ("sy", "(enum 'dom sy)", "(enum 'dom2 sy)"))
        s5 = "(at sy (%% (til %d) 5))" % n
        R = lambda f: ["B8", [int(f(i)) for i in range(n)]]
        for o in F:
            for k in (1, 3):
                yield f"({o} {g} (at gs {k}))", R(lambda i: F[o](gs[i % 5], gs[k]))
                yield f"({o} (at gs {k}) {g})", R(lambda i: F[o](gs[k], gs[i % 5]))
            yield f"({o} {g} {g3})", R(lambda i: F[o](gs[i % 5], gs[i % 3]))
        for o in ("==", "!="):
            for x in (s7, e7):
                for k in (1, 4):
                    yield f"({o} {x} (at sy {k}))", R(lambda i: F[o](sy[i % 7], sy[k]))
                    yield f"({o} (at sy {k}) {x})", R(lambda i: F[o](sy[k], sy[i % 7]))
                yield f"({o} {x} {s5})", R(lambda i: F[o](sy[i % 7], sy[i % 5]))
                yield f"({o} {s5} {x})", R(lambda i: F[o](sy[i % 5], sy[i % 7]))
                yield f"({o} {x} {f7})", R(lambda i: F[o](1, 1))


def expand(e):
    if isinstance(e, tuple):
        _, t, vs, N = e
        return canon_vec(t, (vs * (N // len(vs) + 1))[:N])
    return e


def judge(exp, got):
    if isinstance(got, drv.Crash):
        return False
    if exp == ["ERR"]:
        return got[0] == "ERR"
    return same(exp, got) or close(exp, got)


def close(a, b):
    """floats equal up to a few ulp (the shipped build reassociates floating point), all else identical"""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-14 * max(abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def main(pid, tier):
    c = report.Check(pid, tier, "exploration")
    allc = []
    for op in OPS:
        for a in T:
            for b in T:
                for e, v in cases(op, a, b, tier):
                    allc.append((op, a, b, e, v))
    res = drv.run_all(["E " + x[3] for x in allc])
    c.states += len(allc)
    c.transitions += len(allc)
    for (op, a, b, e, v), r in zip(allc, res):
        c.traces += 1
        if not judge(v, r):
            c.violation(e, f"{e}\n expected {str(v)[:300]}\n got      {str(r)[:300]}", f"echo '{e}' evaluated by the interpreter\nexpected {v}\ngot {r}")
        else:
            c.mark((op, a, b, len(e)))
    c.sample({"expr": allc[100][3], "value": res[100]})
    c.sample({"expr": allc[-2][3], "value": res[-2]})
    ec = list(eq_cases())
    setup = [e for e, v in ec if v is None]
    ec = [x for x in ec if x[1] is not None]
    for (e, v), r in zip(ec, drv.run_all(["E " + e for e, _ in ec], setup=["E " + e for e in setup])):
        c.states += 1
        c.transitions += 1
        c.traces += 1
        if not judge(v, r):
            c.violation(e, f"{e}\n expected {str(v)[:300]}\n got      {str(r)[:300]}", f"echo '{e}' evaluated by the interpreter\nexpected {v}\ngot {r}")
        else:
            c.mark(("eq", len(e), e[:3]))
    ec = list(long_eq_cases())
    setup = [e for e, v in ec if v is None]
    ec = [x for x in ec if x[1] is not None]
    for cores in ("1", "2", "3", "8") if tier != "quick" else ("3", "8"):
        for (e, v), r in zip(ec, drv.run_all(["E " + e for e, _ in ec], setup=["E " + e for e in setup], cores=cores, chunk=20)):
            c.states += 1
            c.transitions += 1
            c.traces += 1
            if not judge(v, r):
                c.violation(e, f"cores={cores} {e}: differs from the element-wise result, got {str(r)[:300]}", f"{e}\ncores {cores}\n{setup}")
            else:
                c.mark(("longeq", len(e), e[:3]))
    # parallel path
    lc = []
    for op in OPS:
        for a in T:
            for b in T:
                for e, v in long_cases(op, a, b):
                    lc.append((e, v))
    step = 64
    for cores in ("1", "2", "3", "8", "13") if tier != "quick" else ("3", "8"):
        for i in range(0, len(lc), step * 8):
            blk = lc[i:i + step * 8]
            res = drv.run_all(["E " + e for e, _ in blk], cores=cores, chunk=step)
            for (e, v), r in zip(blk, res):
                c.states += 1
                c.transitions += 1
                c.traces += 1
                if not judge(expand(v), r):
                    c.violation(e, f"cores={cores} {e[:200]}: long-vector result differs from the element-wise result\n got {str(r)[:200]}", f"{e}\ncores {cores}")
    c.finish("all operand pairs of the per-type value domains (nulls, zeros, signs, large) x all supported type pairs x all shapes",
             extra={"operators": OPS, "types": T, "domain": {k: len(v) for k, v in DOM.items()}})


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
