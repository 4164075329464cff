"""P13: casts keep the number, the text and the nulls of a value, and cast a vector or list element by element."""
import sys, os, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import suite, report
from vt.val import *
from vt.suite import ERR

pid, tier = sys.argv[1], sys.argv[2]
c = report.Check(pid, tier, "exploration")
S = suite.Suite(c)
deep = tier == "thorough"
NaN = float("nan")
W = {"U8": 8, "I16": 16, "I32": 32, "I64": 64, "DATE": 32, "TIME": 32, "TIMESTAMP": 64}
NUL = {"I16": N16, "I32": N32, "I64": N64, "DATE": N32, "TIME": N32, "TIMESTAMP": N64, "F64": NaN}
NUM = ["B8", "U8", "I16", "I32", "I64", "F64", "DATE", "TIME", "TIMESTAMP"]
LOW = {t: t.lower() for t in NUM + ["SYMBOL", "GUID"]}


def isnul(t, v):
    return v is None or t == "F64" and v != v or t in NUL and t != "F64" and v == NUL[t]


def wrap(t, v):
    b = W[t]
    v &= (1 << b) - 1
    return v if t == "U8" or v < 1 << (b - 1) else v - (1 << b)


def cast(src, dst, v):
    """None: not predicted"""
    if isnul(src, v):
        return {"B8": 0, "U8": 0}.get(dst, NUL.get(dst))
    if dst == "B8":
        return int(v != 0)
    if dst == "F64":
        return float(v)
    if src == "F64":
        if dst != src and not (-(2 ** 63) < v < 2**63):
            return None
        v = int(v)
    return wrap(dst, v)


edge = lambda b: [0, 1, 2, -1, 7, 100, -100] + [s * 2**k + d for k in (7, 8, 15, 16, 31, 32, 62) if k < b for d in (-1, 0, 1) for s in (1, -1) if -(2 ** (b - 1)) < s * 2**k + d < 2 ** (b - 1)]
VALS = {"B8": [0, 1], "U8": list(range(256)) if deep else [0, 1, 2, 7, 127, 128, 254, 255], "F64": [NaN, 0.0, 0.5, -0.5, 0.25, 1.0, -1.0, 1.5, -1.5, 2.75, 100.9, -100.9, 127.0, 255.0, 255.9, 32767.5, -32767.5, 65535.0, 2147483647.0, -2147483647.5, 4294967296.0, 1099511627776.0, -9007199254740991.0]}
for t in ("I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP"):
    VALS[t] = [NUL[t]] + sorted(set(edge(W[t])) | {2 ** (W[t] - 1) - 1, -(2 ** (W[t] - 1)) + 1})


def lit(t, v):
    if t in ("DATE", "TIME", "TIMESTAMP"):
        if isnul(t, v):
            return {"DATE": "0Nd", "TIME": "0Nt", "TIMESTAMP": "0Np"}[t]
        return None
    return atom(t, v)


# building a vector whose values have no literal goes through set-up values of its own kind: raw integers of the same width
def vexpr(t, vs):
    if t in ("DATE", "TIME", "TIMESTAMP"):
        if len(vs) == 0:
            return "(as '%s [])" % t
        # identity of bits between a temporal type and its integer type is what is checked first
        return "(as '%s %s)" % (t, vec("I64" if t == "TIMESTAMP" else "I32", [NUL["I64" if t == "TIMESTAMP" else "I32"] if isnul(t, v) else v for v in vs]))
    return vec(t, vs)


# dates, times and timestamps against their literals
for t, xs in (("DATE", [("2000.01.01", 0), ("2000.01.02", 1), ("1999.12.31", -1), ("2024.02.29", 8825), ("1970.01.01", -10957), ("0Nd", N32)]),
              ("TIME", [("00:00:00.000", 0), ("00:00:00.001", 1), ("23:59:59.999", 86399999), ("0Nt", N32)]),
              ("TIMESTAMP", [("2000.01.01D00:00:00.000000000", 0), ("2000.01.01D00:00:00.000000001", 1), ("1999.12.31D23:59:59.999999999", -1), ("0Np", N64)])):
    for x, v in xs:
        for d in NUM:
            w = cast(t, d, v)
            S.add("(as '%s %s)" % (LOW[d], x), [LOW[d], w], ("atom", t, d))
            S.add("(as '%s [%s])" % (d, x), [d, [w]], ("vector", t, d))
            S.add("(as '%s (list %s))" % (d, x), [d, [w]], ("list", t, d))
for s, d in itertools.product(NUM, repeat=2):
    vs = [v for v in VALS[s] if cast(s, d, v) is not None and not (s == "F64" and d in W and v == v and not (0 <= v < 256 if d == "U8" else abs(v) < 2 ** (W[d] - 1)))]
    ex = [cast(s, d, v) for v in vs]
    for v, w in zip(vs, ex):
        e = vexpr(s, [v])
        S.add("(as '%s %s)" % (d, e), [d, [w]], ("vector", s, d))
        S.add("(as '%s (first %s))" % (LOW[d], e), [LOW[d], w], ("atom", s, d))
        S.add("(as '%s (list (first %s)))" % (d, e), [d, [w]], ("list", s, d))
        S.add("(as '%s %s)" % (LOW[d], e), [d, [w]], ("vector by name of atoms", s, d))
    for i in range(0, len(vs), 3):
        S.add("(as '%s %s)" % (d, vexpr(s, vs[i:i + 9])), [d, ex[i:i + 9]], ("vector", s, d))
        S.add("(as '%s (map (fn [x] x) %s))" % (d, vexpr(s, vs[i:i + 9])), [d, ex[i:i + 9]], ("vector", s, d))
    S.add("(as '%s %s)" % (d, vexpr(s, vs)), [d, ex], ("vector", s, d))
    S.add("(as '%s %s)" % (d, vexpr(s, [])), [d, []], ("empty", s, d))
    for n in (63, 64, 65, 1000, 4097):
        big = [vs[(k * 7) % len(vs)] for k in range(n)]
        S.add("(as '%s (at %s (%% (* 7 (til %d)) %d)))" % (d, vexpr(s, vs), n, len(vs)), [d, [ex[(k * 7) % len(vs)] for k in range(n)]], ("long", s, d))
    # the way out and back
    if d in ("I64", "TIMESTAMP") and s not in ("F64",):
        S.add("(as '%s (as '%s %s))" % (s, d, vexpr(s, vs)), [s, [1 if s == "B8" and v else v for v in vs]], ("back", s, d))
# mixed lists
for d in NUM:
    S.add("(as '%s (list 1 2i 3h 4.0 0x05 true 0Nl 0Ni 0Nh 0Nf))" % d, [d, [cast("I64", d, v) for v in (1, 2, 3, 4, 5, 1)] + [cast("I64", d, N64)] * 4], ("mixed", d))
    S.add("(as '%s (list))" % d, [d, []], ("empty", d))
    for bad in ("(list 1 'a)", "'a", "(fn [x] x)", "(list 1 (list 2))", "{a: 1}"):
        S.add("(as '%s %s)" % (d, bad), ERR, ("no cast", d))
# ---- text
for v in edge(64) + [2**63 - 1, -(2**63) + 1]:
    for t in ("I16", "I32", "I64"):
        if abs(v) < 2 ** (W[t] - 1):
            S.add("(as 'C8 (first %s))" % vec(t, [v]), ["C8", str(v)], ("text", t))
            S.add("(as '%s \"%d\")" % (LOW[t], v), [LOW[t], v], ("text", t))
            S.add("(as '%s \"  %d\")" % (LOW[t], v), [LOW[t], v], ("text", t))
            S.add("(as 'symbol (first %s))" % vec(t, [v]), ["symbol", str(v)], ("symbol", t))
            S.add("(as '%s (as 'C8 (first %s)))" % (LOW[t], vec(t, [v])), [LOW[t], v], ("text back", t))
            S.add("(== (as 'symbol (first %s)) (as 'symbol \"%d\"))" % (vec(t, [v]), v), ["b8", 1], ("symbol identity", t))
    S.add("(as 'SYMBOL [%d 5])" % v, ["SYMBOL", [str(v), "5"]], ("symbol", "vector"))
    S.add("(== (as 'SYMBOL [%d 5]) (list-s))" % v if False else "(== (as 'SYMBOL [%d 5]) (concat (as 'symbol \"%d\") (as 'symbol \"5\")))" % (v, v), ["B8", [1, 1]], ("symbol identity", "vector"))
for k in range(1, 19):
    for s in ("", "-"):
        for digits in ("1234567890123456789", "9" * 19, "1" + "0" * 18):
            x = s + digits[:k]
            S.add("(as 'i64 \"%s\")" % x, ["i64", int(x)], ("digits", k))
            S.add(x, ["i64", int(x)], ("digits", k))
            if k < 10:
                S.add("(as 'i32 \"%s\")" % x, ["i32", int(x)], ("digits", k))
            if k < 16:
                S.add("(as 'f64 \"%s\")" % x, ["f64", float(x)], ("digits", k))
                S.add("(as 'f64 \"%s.5\")" % x, ["f64", float(x + ".5")], ("digits", k))
                S.add(x + ".25", ["f64", float(x + ".25")], ("digits", k))
# every number of digits, every first and last digit, every run of nulls and nines between
ns = []
for j in range(0, 19):
    for d in list(range(1, 100)) + [123, 900, 999]:
        for r in (0, 1, 10 ** j - 1, 1234567890123456789 % 10 ** j, 9 * 10 ** (j // 2)):
            if d * 10 ** j + r < 2 ** 63:
                ns.append(d * 10 ** j + r)
ns = sorted(set(ns))
for i in range(0, len(ns), 30):
    g = ns[i:i + 30]
    for sg in (1, -1):
        for z in (0, 1, 7, 8) if deep or i % 4 == 0 else (0,):
            q = ["%s%s%d" % ("-" if sg < 0 else "", "0" * z, v) for v in g]
            S.add("(as 'I64 (list %s))" % " ".join('"%s"' % x for x in q), ["I64", [sg * v for v in g]], ("digits", "I64", i))
            S.add("[%s]" % " ".join(q), ["I64", [sg * v for v in g]], ("digits", "literal", i)) if z == 0 else None
            S.add("(as 'F64 (list %s))" % " ".join('"%s"' % x for x in q), ["F64", [float(sg * v) for v in g]], ("digits", "F64", i))
            S.add("(as 'F64 (list %s))" % " ".join('"%s.%s"' % (x, "0%d" % (v % 1000003)) for x, v in zip(q, g)), ["F64", [float("%s.0%d" % (x, v % 1000003)) for x, v in zip(q, g)]], ("digits", "F64 fraction", i))
            S.add("(as 'F64 (list %s))" % " ".join('"%s.5e%d"' % (x, v % 9 - 4) for x, v in zip(q, g)), ["F64", [float("%s.5e%d" % (x, v % 9 - 4)) for x, v in zip(q, g)]], ("digits", "F64 exponent", i))
            for t, w in (("I32", 31), ("I16", 15)):
                h = [(x, v) for x, v in zip(q, g) if v < 2 ** w]
                if h:
                    S.add("(as '%s (list %s))" % (t, " ".join('"%s"' % x for x, _ in h)), [t, [sg * v for _, v in h]], ("digits", t, i))
            for x, v in list(zip(q, g))[::10]:
                S.add("(as 'i64 \"%s\")" % x, ["i64", sg * v], ("digits", "i64"))
                S.add("(as 'f64 \"%s\")" % x, ["f64", float(sg * v)], ("digits", "f64"))
for x, v in (("0.1", 0.1), ("1e3", 1e3), ("-2.5e-3", -2.5e-3), ("1.5e10", 1.5e10), (".5", 0.5), ("0.000001", 1e-6), ("12345678.87654321", 12345678.87654321), ("1e-10", 1e-10), ("1e20", 1e20)):
    S.add("(as 'f64 \"%s\")" % x, ["f64", v], ("float text",))
for t, nul in (("i64", N64), ("i32", N32), ("i16", N16), ("f64", NaN)):
    for x in ("abc", "x", "--", " "):
        S.add("(as '%s \"%s\")" % (t, x), [t, nul], ("not a number", t))
for n, v in (("0Nl", None), ("0Ni", None), ("0Nh", None), ("0Nf", None), ("0Nd", None), ("0Nt", None), ("0Np", None)):
    S.add("(as 'symbol %s)" % n, ["symbol", None], ("null symbol",))
    S.add("(as 'SYMBOL (list %s 'a))" % n, ["SYMBOL", [None, "a"]], ("null symbol",))
    S.add("(as 'C8 %s)" % n, ["C8", n], ("null text",))
S.add("(as 'SYMBOL [0Nl 7 0Nl])", ["SYMBOL", [None, "7", None]], ("null symbol",))
for x in ("a", "hello", "a b", "x-y_z", "5", "a,b", "é"):
    S.add("(as 'symbol \"%s\")" % x, ["symbol", x.encode().decode("latin1")], ("symbol",)) if x.isascii() else None
    if x.isascii():
        S.add("(as 'SYMBOL (list \"%s\" \"zz\"))" % x, ["SYMBOL", [x, "zz"]], ("symbol",))
        S.add("(as 'C8 (as 'symbol \"%s\"))" % x, ["C8", x], ("symbol",))
        S.add("(as 'c8 \"%s\")" % x, ["c8", x[0]], ("char",))
for n in list(range(1, 140)) + [250, 254, 255, 256, 257, 300, 511, 512, 1000, 4095, 4096, 5000]:
    x = ("abcdefghijklmnopqrstuvw" * (n // 20 + 1))[:n]
    t = '(take "abcdefghijklmnopqrstuvw" %d)' % n
    S.add("(as 'C8 (as 'symbol %s))" % t, ["C8", x], ("symbol length", n))
    S.add("(as 'symbol %s)" % t, ["symbol", x], ("symbol length", n))
    S.add("(as 'SYMBOL (list %s \"zz\"))" % t, ["SYMBOL", [x, "zz"]], ("symbol length", n))
    S.add("(== (as 'symbol %s) (as 'symbol (as 'C8 (as 'symbol %s))))" % (t, t), ["b8", 1], ("symbol length", n))
    S.add("(== (as 'symbol %s) (as 'symbol (concat %s \"x\")))" % (t, t), ["b8", 0], ("symbol length", n))
for v in range(256) if deep else (0, 1, 255, 128, 10):
    S.add("(as 'symbol 0x%02x)" % v, ["symbol", str(v)], ("symbol", "U8"))
for x, v in (("true", "1"), ("false", "0")):
    S.add("(as 'symbol %s)" % x, ["symbol", v], ("symbol", "B8"))
    S.add("(as 'C8 %s)" % x, ["C8", x], ("text", "B8"))
for x in ("2024.02.29", "12:34:56.789", "2024.02.29D12:34:56.123456789", "00112233-4455-6677-8899-aabbccddeeff"):
    g = "(as 'guid \"%s\")" % x if "-" in x else x
    S.add("(as 'symbol %s)" % g, ["symbol", x], ("symbol", "temporal"))
    S.add("(as 'C8 %s)" % g, ["C8", x], ("text", "temporal"))
for k in range(16):
    for d in ("00", "7f", "80", "ff", "a5", "A5"):
        g = "0123456789abcdeffedcba9876543210"
        g = g[:2 * k] + d + g[2 * k + 2:]
        x = "%s-%s-%s-%s-%s" % (g[:8], g[8:12], g[12:16], g[16:20], g[20:])
        S.add("(as 'guid \"%s\")" % x, ["guid", g.lower()], ("guid", k))
        S.add("(as 'C8 (as 'guid \"%s\"))" % x, ["C8", x.lower()], ("guid", k))
        S.add("(as 'GUID (list \"%s\" \"%s\"))" % (x, "ffffffff-ffff-ffff-ffff-ffffffffffff"), ["GUID", [g.lower(), "f" * 32]], ("guid", k))
G0 = "00112233-4455-6677-8899-aabbccddeeff"
for x in [G0[:k] + "g" + G0[k + 1:] for k in range(36)] + [G0[:k] for k in (1, 5, 35)] + [G0 + "0"]:
    S.add("(as 'guid \"%s\")" % x, ["guid", "0" * 32], ("guid", "malformed"))
# floats to text and symbols: six places, and back
for k in range(0, 13):
    for m in (1, 3, 9, 12345678, 99999999):
        for d in (0, 123456, 500000, 1, 999999):
            for sign in (1, -1):
                v = sign * (m * 10 ** k % 10 ** 9 + d / 1e6) if k < 9 else sign * float(m * 10 ** (k - 9))
                if abs(v) < 2 ** 31:
                    S.add("(as 'symbol %f)" % v, ["symbol", "%f" % float("%f" % v)], ("symbol", "F64"))
                    S.add("(as 'F64 (list (as 'C8 (as 'symbol %f)) \"1\"))" % v, ["F64", [float("%f" % v), 1.0]], ("symbol", "F64 back"))
# tables and dictionaries
S.add("(as 'DICT (as 'TABLE {a: [1 2] b: ['x 'y]}))", ["DICT", ["SYMBOL", ["a", "b"]], ["LIST", [["I64", [1, 2]], ["SYMBOL", ["x", "y"]]]]], ("table",))
S.add("(as 'TABLE {a: [1 2] b: ['x 'y]})", ["TABLE", ["SYMBOL", ["a", "b"]], ["LIST", [["I64", [1, 2]], ["SYMBOL", ["x", "y"]]]]], ("table",))
for e in ("(as 'NOSUCH 1)", "(as 5 1)", "(as 'I64)", "(as 'I64 1 2)", "(as \"I64\" 1)"):
    S.add(e, ERR, ("wrong",))
# what a handler gets is the text that was raised
for x in ("", "a", "boom", "a b c"):
    S.add("(try (raise \"%s\") (fn [e] e))" % x, ["C8", x], ("raise",)) if x else None
S.run(flavor="asan")
# ---- long vectors, several executors
for s, d in itertools.product(NUM, repeat=2):
    vs = [v for v in VALS[s] if not (s == "F64" and d in W and v == v and not (0 <= v < 256 if d == "U8" else abs(v) < 2 ** (W[d] - 1)))]
    for n in (16384, 40001):
        f = "(as 'I64 %s)" if d in ("B8", "U8") else "%s"  # != does not take these
        S.add("(sum (as 'I64 (!= %s %s)))" % (f % "(as '%s (at %s (%% (til %d) %d)))" % (d, vexpr(s, vs), n, len(vs)), f % "(at (as '%s %s) (%% (til %d) %d))" % (d, vexpr(s, vs), n, len(vs))),
              ["i64", 0], ("long", s, d))
held = S.cases
for k in (1, 3, 8):
    S.cases = held
    S.run(cores=k)
c.finish("distinct casts whose result was predicted")
