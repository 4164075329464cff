"""Literals of the language for typed values given as raw machine values (null included)."""
import math
N16, N32, N64 = -2**15, -2**31, -2**63
NULLS = {"I16": N16, "I32": N32, "I64": N64, "DATE": N32, "TIME": N32, "TIMESTAMP": N64, "F64": float("nan"), "SYMBOL": None}
SUF = {"I16": "h", "I32": "i", "I64": "", "F64": ""}
NLIT = {"I16": "0Nh", "I32": "0Ni", "I64": "0Nl", "DATE": "0Nd", "TIME": "0Nt", "TIMESTAMP": "0Np", "F64": "0Nf", "SYMBOL": "0Ns"}
BITS = {"U8": 8, "I16": 16, "I32": 32, "I64": 64, "DATE": 32, "TIME": 32, "TIMESTAMP": 64}
EPOCH = 730120  # 2000.01.01 as proleptic Gregorian ordinal (day 1 = 0001-01-01)


def isnull(t, v):
    if t == "F64":
        return v != v
    return t in NULLS and v == NULLS[t]


def civil(days):
    """days since 2000-01-01 -> (y, m, d), Gregorian"""
    z = days + 730425  # days since 0000-03-01
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return (y + (m <= 2), m, d)


def lit1(t, v):
    """literal of one element (also valid inside a vector literal)"""
    if isnull(t, v):
        return NLIT[t]
    if t == "B8":
        return "true" if v else "false"
    if t == "U8":
        return "0x%02x" % v
    if t == "F64":
        if v == math.inf or v == -math.inf:
            raise ValueError
        r = repr(float(v))
        if "e" in r:
            r = "%.1f" % v
        return r
    if t in ("I16", "I32", "I64"):
        return "%d%s" % (v, SUF[t])
    if t == "DATE":
        y, m, d = civil(v)
        return "%04d.%02d.%02d" % (y, m, d)
    if t == "TIME":
        s = "-" if v < 0 else ""
        v = abs(v)
        return "%s%02d:%02d:%02d.%03d" % (s, v // 3600000, v // 60000 % 60, v // 1000 % 60, v % 1000)
    if t == "TIMESTAMP":
        d, ns = divmod(v, 86400 * 10**9)
        y, m, dd = civil(d)
        return "%04d.%02d.%02dD%02d:%02d:%02d.%09d" % (y, m, dd, ns // 3600000000000, ns // 60000000000 % 60, ns // 10**9 % 60, ns % 10**9)
    if t == "C8":
        return "'%s'" % v
    if t == "SYMBOL":
        return v
    raise KeyError(t)


TNAME = {"B8": "b8", "U8": "u8", "I16": "i16", "I32": "i32", "I64": "i64", "F64": "f64", "DATE": "date", "TIME": "time", "TIMESTAMP": "timestamp", "SYMBOL": "symbol", "C8": "c8"}


def atom(t, v):
    if t == "SYMBOL":
        return "'" + v if v is not None else "0Ns"
    return lit1(t, v)


def vec(t, vs):
    if not vs:
        return "(as '%s [])" % t if t != "I64" else "[]"
    if t == "C8":
        return '"' + "".join(vs) + '"'
    return "[" + " ".join(lit1(t, v) for v in vs) + "]"


def canon_atom(t, v):
    return [TNAME[t], v]


def canon_vec(t, vs):
    return [t, list(vs)]


def same(a, b):
    """structural equality of canonical values, NaN equal to NaN, -0.0 equal to 0.0"""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) != type(b):
        return False
    return a == b
