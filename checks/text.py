#!/usr/bin/env python3
"""P10: reading text: every text up to a length; literals, names, strings and their compositions against a model."""
import datetime, itertools, json, math, os, re, struct, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import build as B, report

CHARS = list("ab01.-:'\"\\ ()[]{};+xNinld\n")
TOKENS = ["a", "1", "-1", "1.5", "0Ni", "0x1f", "'a", "'", "\"a\"", "\"", "\\", "(", ")", "[", "]", "{", "}", ":", " ", "\n",
          ";", "fn", "true", "2024.01.02", "12:00:00.", "D"]
ENVV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:quarantine_size_mb=4", RAYFORCE_LOG="")
ERR = "ERR"


class F:      # a float known up to rounding
    def __init__(self, v): self.v = v


def eq(got, want):
    if want == ERR: return isinstance(got, list) and got[:1] == ["ERR"]
    if isinstance(want, F): return isinstance(got, (int, float)) and (got == want.v or (want.v != want.v and got != got) or math.isclose(got, want.v, rel_tol=1e-14, abs_tol=0))
    if isinstance(want, list): return isinstance(got, list) and len(got) == len(want) and all(map(eq, got, want))
    return type(got) == type(want) and got == want


def L(*x): return ["LIST", list(x)]


EPOCH = datetime.date(2000, 1, 1)


def atoms(tier):
    """(text, value) of single literals"""
    big = tier != "quick"
    ints = set(range(0, 1100 if not big else 20000))
    for b in (7, 8, 15, 16, 24, 31, 32, 53, 62, 63):
        ints |= {2**b + d for d in (-2, -1, 0, 1)}
    for k in range(1, 19):
        ints |= {10**k - 1, 10**k, 10**k + 1, int("1234567890123456789"[:k]), int("9" * (k - 1) + "0") if k > 1 else 9}
    ints = sorted(i for i in ints if i < 2**63)
    for i in ints:
        for s in ((1, -1) if i else (1,)):
            v, t = s * i, ("-" if s < 0 else "") + str(i)
            yield t, ["i64", v]; yield t + "l", ["i64", v]
            yield t + "h", ["i16", v] if abs(v) <= 32767 else ERR
            yield t + "i", ["i32", v] if abs(v) <= 2**31 - 1 else ERR
            yield t + "f", ["f64", F(float(v))]
            if abs(v) < 2**31: yield t + "d", ["date", v]; yield t + "t", ["time", v]
            if v > 0: yield t + "x", ["u8", v] if v < 256 else ERR
    for z in ("00", "007", "0000000000000000012", "00000001", "000000010"):
        yield z, ["i64", int(z)]; yield "-" + z, ["i64", -int(z)]
    digs = ("", "0", "5", "9", "25", "05", "125", "001", "999999", "123456789")
    for a in ("0", "1", "7", "12", "100", "99999999", "123456789", "12345678901234567"):
        for f in digs:
            for e in ("", "e0", "e1", "e2", "e-1", "e-3", "e10", "E5", "e+4"):
                t = f"{a}.{f}{e}"
                v = float(f"{a}.{f or '0'}{e}")
                yield t, ["f64", F(v)]; yield "-" + t, ["f64", F(-v)]
                if not e:
                    yield t + "f", ["f64", F(v)]
                    for s in "hixdtl": yield t + s, ERR
    for n in range(256): yield f"0x{n:02x}", ["u8", n]; yield f"0x{n:02X}", ["u8", n]
    for t in ("0x", "0x1", "0xg1", "0x1g", "0xzz"): yield t, ERR
    NI = -2**31
    for s, v in (("h", ["i16", -32768]), ("i", ["i32", NI]), ("l", ["i64", -2**63]), ("d", ["date", NI]), ("t", ["time", NI]),
                 ("p", ["timestamp", -2**63]), ("f", ["f64", F(math.nan)]), ("s", ["symbol", None]), ("g", ["guid", "00" * 16]), ("0", ["NULL"])):
        yield "0N" + s, v
    yield "true", ["b8", 1]; yield "false", ["b8", 0]; yield "null", ["NULL"]
    d = datetime.date(1970, 1, 1) if not big else datetime.date(1800, 1, 1)
    end = datetime.date(2040, 1, 1) if not big else datetime.date(2300, 1, 1)
    days = []
    while d < end: days.append(d); d += datetime.timedelta(1)
    days += [datetime.date(y, m, dd) for y in (1, 4, 100, 400, 1599, 1600, 1700, 1800, 1900, 2000, 2100, 2200, 2400, 9999) for m, dd in ((1, 1), (2, 28), (3, 1), (12, 31))]
    for d in days: yield f"{d.year:04}.{d.month:02}.{d.day:02}", ["date", (d - EPOCH).days]
    for t in ("2024.13.01", "2024.99.01", "2024.01.32", "2024.12.99", "2024.13.01D00:00:00.000000000", "2024.01.01D24:00:00.000000000",
              "2024.01.01D00:60:00.000000000", "2024.01.01D00:00:60.000000000"): yield t, ERR
    hs, ms, ss = ("00", "01", "09", "10", "12", "23"), ("00", "01", "30", "59"), ("00", "01", "10", "59")
    for h, m, s in itertools.product(hs, ms, ss):
        base = (int(h) * 3600 + int(m) * 60 + int(s)) * 1000
        for f in (None, "0", "1", "9", "10", "01", "99", "001", "010", "100", "999"):
            t, v = f"{h}:{m}:{s}" + ("." + f if f else ""), base + int(f or 0)
            yield t, ["time", v]
            yield "-" + t, ["time", -v]
        for d in (datetime.date(2000, 1, 1), datetime.date(2024, 2, 29), datetime.date(1999, 12, 31), datetime.date(1970, 1, 1), datetime.date(2001, 3, 1)):
            for n in (0, 1, 999999999, 123456789, 100000000, 1000):
                yield f"{d.year:04}.{d.month:02}.{d.day:02}D{h}:{m}:{s}.{n:09}", ["timestamp", (d - EPOCH).days * 86400 * 10**9 + base * 10**6 + n]
    # characters and quoted symbols
    for c in map(chr, range(33, 127)):
        if c not in "\\':)]}": yield f"'{c}'", ["c8", c]
    for e, c in (("n", "\n"), ("r", "\r"), ("t", "\t"), ("\\", "\\"), ("'", "'")): yield f"'\\{e}'", ["c8", c]
    for n in range(128 if not big else 256): yield f"'\\{n:03o}'", ["c8", chr(n)]
    for t in ("'\\q'", "'\\12'", "'\\8'", "'\\1'", "'\\18'", "'ab'", "'a1b'"): yield t, ERR
    yield "'", ["symbol", None]
    for c in itertools.product("0123789a", repeat=3):
        o = "".join(c)
        if all(x in "01234567" for x in c): yield f'"\\{o}"', ["C8", chr(int(o, 8) % 256)]; yield f"'\\{o}'", ["c8", chr(int(o, 8) % 256)]
        else: yield f'"\\{o}"', ERR; yield f"'\\{o}'", ERR
    for h, m, s in itertools.product(("00", "23", "24", "29", "99"), ("00", "59", "60", "99"), ("00", "59", "60", "99")):
        if h > "23" or m > "59" or s > "59": yield f"2024.01.01D{h}:{m}:{s}.000000000", ERR
    for y in ("0000", "2024"):
        for m, d in itertools.product(("12", "13", "20", "99"), ("01", "31", "32", "40", "99")):
            if m > "12" or d > "31": yield f"{y}.{m}.{d}", ERR
    # strings
    units = [("a", "a"), ("\n", "\n"), (" ", " "), (";", ";"), ("(", "("), (")", ")"), ("'", "'"), ("\\\\", "\\"), ("\\\"", '"'), ("\\n", "\n"), ("\\r", "\r"),
             ("\\t", "\t"), ("\\101", "A"), ("\\000", "\0"), ("\\377", "\xff"), ("\\177", "\x7f"), ("\xe9", "\xe9"), ("1", "1"), ("0Nl", "0Nl")]
    for n in range(4 if big else 3):
        for u in itertools.product(units, repeat=n): yield '"' + "".join(x[0] for x in u) + '"', ["C8", "".join(x[1] for x in u)]
    for n in (7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 1000, 5000):
        yield '"' + "ab\\n" * n + '"', ["C8", "ab\n" * n]; yield '"' + "x" * n + '"', ["C8", "x" * n]
    for t in ('"', '"a', '"\\', '"\\"', '"a\\', '"\\q"', '"\\8"', '"\\12"', '"\\1', '"\\18"', '"\\', '"a\n'): yield t, ERR


def names(tier):
    first, rest = "tnaZ_?", "tZ1.-=_"
    for n in range(1, 5 if tier == "quick" else 6):
        for c in itertools.product(first, *[rest] * (n - 1)): yield "".join(c)
    for k in ("true", "false", "null", "fn", "do", "map", "select", "0" and "x0N", "nan", "D", "e5", "x1f"):
        for s in ("a", "1", "able", ".x", "-y", "?", "_", "=", "null", "true"): yield k + s
        yield "a" + k
    for n in (6, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 79, 80, 81, 127, 128, 255, 256, 1000): yield "q" * n
    yield from ("fn", "map", "sum", "do", "select", "if")


KW = {"true": ["b8", 1], "false": ["b8", 0], "null": ["NULL"]}


def texts(tier):
    A = list(atoms(tier))
    for t, v in A:
        yield t, v
        if len(t) < 40: yield t + " ", v; yield f"({t})", v if v == ERR else L(v)
    up = {"i64": "I64", "i32": "I32", "i16": "I16", "u8": "U8", "f64": "F64", "date": "DATE", "time": "TIME", "timestamp": "TIMESTAMP", "b8": "B8", "symbol": "SYMBOL", "guid": "GUID", "c8": "C8"}
    prev = {}
    for t, v in A:
        if v != ERR and v[0] in ("i64", "i32", "i16", "u8", "f64", "date", "time", "timestamp", "b8", "symbol"):
            k = v[0]
            yield f"[{t}]", [up[k], [v[1]]]
            if k in prev: yield f"[{prev[k][0]} {t}]", [up[k], [prev[k][1], v[1]]]
            prev[k] = (t, v[1])
    for n in names(tier):
        if n in KW: continue
        yield f"[{n}]", ["SYMBOL", [n]]; yield f"'{n}", ["symbol", n]
        yield f"[a {n} b]", ["SYMBOL", ["a", n, "b"]]
        yield "{" + n + ":1}", ["DICT", ["SYMBOL", [n]], L(["i64", 1])]
    # compositions: every sequence of items, between every separator
    items = [("1", ["i64", 1]), ("-2i", ["i32", -2]), ("1.5", ["f64", 1.5]), ("'b", ["symbol", "b"]), ("'c'", ["c8", "c"]), ('"s;("', ["C8", "s;("]), ("[1 2]", ["I64", [1, 2]]), ("[]", ["I64", []]),
             ("[x y]", ["SYMBOL", ["x", "y"]]), ("()", ["NULL"]), ("(q)", L(["symbol", "q"])), ("(1 (2 'z))", L(["i64", 1], L(["i64", 2], ["symbol", "z"]))), ("{k: 1}", ["DICT", ["SYMBOL", ["k"]], L(["i64", 1])]),
             ("{k: (1 2) m: {n: [1.5]}}", ["DICT", ["SYMBOL", ["k", "m"]], L(L(["i64", 1], ["i64", 2]), ["DICT", ["SYMBOL", ["n"]], L(["F64", [1.5]])])]),
             ("zz", ["symbol", "zz"]), ("nullable", ["symbol", "nullable"]), ("null", ["NULL"]), ("0Nd", ["date", -2**31]), ("2024.02.29", ["date", (datetime.date(2024, 2, 29) - EPOCH).days]),
             ("12:00:00.5", ["time", 43200005]), ("true", ["b8", 1]), ("+", ["FN", "+"]), ("sum", ["FN", "sum"]), ("0x1f", ["u8", 31]),
             ("(fn [x] 1)", ["LAMBDA", ["SYMBOL", ["x"]], ["i64", 1]]), ("(fn [x y] (q x) 'r)", ["LAMBDA", ["SYMBOL", ["x", "y"]], L(["FN", "do"], L(["symbol", "q"], ["symbol", "x"]), ["symbol", "r"])])]
    seps = [" ", "\n", "\t", ";c (\"\n", " ;\n;\n ", "\r\n"]
    for n in range(1, 4 if tier != "quick" else 3):
        for its in itertools.product(items, repeat=n):
            vs = [v for _, v in its]
            for s in (seps if n < 3 else [" ", ";c (\"\n"]):
                if its[0][0] != "fn": yield "(" + s.join(t for t, _ in its) + ")", L(*vs)
                yield "(" + s + s.join(t for t, _ in its) + s + ")", L(*vs)
                if n > 1:
                    yield s.join(t for t, _ in its), L(["FN", "do"], *vs)
                ks = ["k%d" % i for i in range(n)]
                yield "{" + s.join(f"{k}:{s}{t}" for k, (t, _) in zip(ks, its)) + "}", ["DICT", ["SYMBOL", ks], L(*vs)]
                yield f"(fn [a{s}b]{s}" + s.join(t for t, _ in its) + ")", ["LAMBDA", ["SYMBOL", ["a", "b"]], vs[0] if n == 1 else L(["FN", "do"], *vs)]
            for cut in ("(", "[", "{", "(fn [x] ", "(1 ", "{k: "):
                yield cut + " ".join(t for t, _ in its), ERR
            yield " ".join(t for t, _ in its) + ")", ERR
            yield " ".join(t for t, _ in its) + "]", ERR
            yield "(" + " ".join(t for t, _ in its) + "]", ERR
    for d in (1, 2, 3, 10, 50, 200):
        v = ["i64", 1]
        for _ in range(d): v = L(v)
        yield "(" * d + "1" + ")" * d, v
        yield "(" * d + "1" + ")" * (d - 1), ERR
        yield "(" * d + "1" + ")" * (d + 1), ERR
        v = ["i64", 1]
        for _ in range(d): v = ["DICT", ["SYMBOL", ["k"]], L(v)]
        yield "{k:" * d + "1" + "}" * d, v
    for n in (1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 500, 3000):
        yield "(" + " ".join(map(str, range(n))) + ")", L(*[["i64", i] for i in range(n)])
        for k, suf in (("I64", ""), ("I32", "i"), ("I16", "h"), ("DATE", "d"), ("TIME", "t"), ("F64", ".0")):
            yield "[" + " ".join(f"{i}{suf}" for i in range(n)) + "]", [k, [float(i) if k == "F64" else i for i in range(n)]]
        yield "[" + " ".join(f"0x{i % 256:02x}" for i in range(n)) + "]", ["U8", [i % 256 for i in range(n)]]
        yield "[" + " ".join("true" if i % 3 else "false" for i in range(n)) + "]", ["B8", [int(i % 3 > 0) for i in range(n)]]
        yield "[" + " ".join(f"s{i}" for i in range(n)) + "]", ["SYMBOL", [f"s{i}" for i in range(n)]]
        yield "{" + " ".join(f"s{i}: {i}" for i in range(n)) + "}", ["DICT", ["SYMBOL", [f"s{i}" for i in range(n)]], L(*[["i64", i] for i in range(n)])]
    # integers among floats become floats; otherwise the elements of a vector have one type
    for n in range(1, 5):
        for m in itertools.product((0, 1), repeat=n):
            if any(m): yield "[" + " ".join(f"{i}.5" if x else f"{i}" for i, x in enumerate(m)) + "]", ["F64", [i + .5 if x else float(i) for i, x in enumerate(m)]]
    one = {"I64": "1", "I32": "1i", "I16": "1h", "U8": "0x01", "B8": "true", "DATE": "1d", "TIME": "1t", "SYMBOL": "a", "F64": "1.0", "TIMESTAMP": "2024.01.01D00:00:00.000000000"}
    for a, b in itertools.product(one, repeat=2):
        if a != b and {a, b} != {"I64", "F64"} and (a, b) != ("F64", "I16"): yield f"[{one[a]} {one[b]}]", ERR
        for bad in ("\"s\"", "(1)", "[1]", "{a:1}"): yield f"[{one[a]} {bad}]", ERR


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    ck = report.Check(pid, tier, "exploration")
    exe = B.build("asan", ["text.c"], wraps=["pthread_setaffinity_np"])
    tmp = tempfile.mkdtemp(prefix="vt_text_")
    nc, nt = (4, 4) if tier == "quick" else (5, 5)
    jobs = [("chars", CHARS, nc, p) for p in range(8)] + [("tokens", TOKENS, nt, p) for p in range(8)]
    T = list(texts(tier))
    seen = {}
    for t, v in T: seen.setdefault(t, v)
    T = list(seen.items())
    nb = 16
    jobs += [("list", T[i::nb], None, i) for i in range(nb)]

    def go(j):
        kind, a, n, p = j
        pf = os.path.join(tmp, f"{kind}{p}")
        if kind == "list":
            with open(pf + ".in", "wb") as f: f.write(b"".join(t.encode("latin1") + b"\0" for t, _ in a))
            cmd = [exe, pf, "@" + pf + ".in"]
        else: cmd = [exe, pf, "\x01".join(a), str(n), str(p), "8"]
        with open(pf + ".out", "wb") as o:
            r = subprocess.run(cmd, stdout=o, stderr=subprocess.PIPE, env=ENVV, timeout=850)
        b = open(pf, "rb").read()
        runs, ok, er, n, ln = struct.unpack_from("<3q2i", b)
        txt = b[32:32 + ln].decode("latin1"); what = b[288:800].split(b"\0")[0].decode("latin1")
        if r.returncode == 3: raise SystemExit("harness setup failed")
        bad = []
        if r.returncode or n != -1:
            err = r.stderr.decode("latin1")
            san = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
            fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) /", err) if f not in ("heap_free", "bad")][:4]
            bad.append((txt, what or (f"{san.group(1)} in {' < '.join(fr)}" if san else f"exit {r.returncode}: {err[-300:]}"), err[-4000:]))
        if kind == "list":
            out = open(pf + ".out", "rb").read().decode("latin1").split("\n")
            for (t, v), o in zip(a, out):
                if not o: break
                try: g = json.loads(o)
                except ValueError: g = o
                if not eq(g, v): bad.append((t, f"reads as {o[:200]} not {str(getattr(v, 'v', v))[:200]}", ""))
        return kind, runs, bad
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(go, jobs))
    for kind, runs, bad in res:
        ck.traces += runs
        for t, w, e in bad[:40]: ck.violation(t, f"text {t[:120]!r}: {w}", f"text: {t!r}\n{w}\n{e}")
    ck.transitions = ck.traces
    ck.ndistinct = ck.traces
    ck.sample(f"every text of 1-{nc} characters out of {len(CHARS)}: {''.join(CHARS)!r}")
    ck.sample(f"every text of 1-{nt} tokens out of {len(TOKENS)}")
    for i in range(0, len(T), len(T) // 8): ck.sample(f"{T[i][0][:60]!r}")
    subprocess.run(["/bin/rm", "-rf", tmp])
    ck.finish("a case is one text read by the real reader: every text over an alphabet (it ends with a value or an error, touches nothing outside of it, gives memory back, and is the same between white space and comments), or a literal, name, string or composition with its value in the model", exhaustive=True)


main()
