"""P14: read-csv gives the table the text of the file says, write-csv writes text that reads back as the same table."""
import sys, os, itertools, tempfile, shutil, csv as pycsv, io
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import suite, report, drv
from vt.val import *
from vt.suite import ERR

pid, tier = sys.argv[1], sys.argv[2]
c = report.Check(pid, tier, "exploration")
S = suite.Suite(c)
deep = tier == "thorough"
NaN = float("nan")
W = tempfile.mkdtemp(prefix="vtcsv")
G = ["00112233-4455-6677-8899-aabbccddeeff", "ffffffff-4455-6677-8899-aabbccddeeff"]
nf = 0
# texts of every type and the values they stand for
TX = {
    "I64": [("", N64), ("0", 0), ("-1", -1), ("7", 7)] + [("%s" % ("1234567890123456789"[:k]), int("1234567890123456789"[:k])) for k in range(2, 20)] + [("-" + "9876543210987654321"[1:k], -int("9876543210987654321"[1:k])) for k in range(3, 19)] +
           [("9223372036854775807", 2**63 - 1), ("-9223372036854775807", -2**63 + 1), ("99999999", 99999999), ("100000000", 10**8), ("00000012", 12), ("9999999999999999", 10**16 - 1)],
    "I32": [("", N32), ("0", 0), ("-1", -1), ("2147483647", 2**31 - 1), ("-2147483647", -2**31 + 1)] + [("123456789"[:k], int("123456789"[:k])) for k in range(1, 10)] + [("-123456789"[:k + 1], -int("123456789"[:k])) for k in range(1, 10)],
    "I16": [("", N16), ("0", 0), ("-1", -1), ("32767", 32767), ("-32767", -32767), ("12345", 12345)],
    "U8": [("0", 0), ("7", 7), ("255", 255), ("128", 128)],
    "B8": [("true", 1), ("false", 0)],
    "F64": [("", NaN), ("0", 0.0), ("1.5", 1.5), ("-0.25", -0.25), ("0.1", 0.1), ("12345678.25", 12345678.25), ("123456789012345", 123456789012345.0), ("1e3", 1000.0), ("-2.5E-3", -0.0025), ("3.14159265358979", 3.14159265358979), ("-7", -7.0), ("100000000", 1e8)],
    "DATE": [("", N32), ("2000.01.01", 0), ("1999.12.31", -1), ("2024.02.29", 8825), ("1970.01.01", -10957)],
    "TIME": [("", N32), ("00:00:00.000", 0), ("23:59:59.999", 86399999), ("12:34:56.789", 45296789), ("00:00:01.000", 1000)],
    "TIMESTAMP": [("", N64), ("2000.01.01D00:00:00.000000000", 0), ("2001.01.01D00:00:00.000000001", 366 * 86400 * 10**9 + 1), ("1999.12.31D23:59:59.999999999", -1)],
    "SYMBOL": [("", None), ("a", "a"), ("some-longer_name!", "some-longer_name!"), ("x y", "x y"), ("5", "5")],
    "C8": [("", ""), ("a", "a"), ("some text", "some text"), ("5.5", "5.5"), (" ", " ")],
    "GUID": [("", "0" * 32)] + [(g, g.replace("-", "")) for g in G],
}


def put(text):
    global nf
    nf += 1
    p = "f%d.csv" % nf
    with open(os.path.join(W, p), "wb") as f:
        f.write(text.encode("latin1"))
    return p


def colval(t, vs):
    if t == "C8":
        return ["LIST", [["C8", v] for v in vs]]
    return [t, list(vs)]


def q(s, sep=",", force=False):
    if force or any(x in s for x in (sep, '"', "\n", "\r")):
        return '"' + s.replace('"', '""') + '"'
    return s


NM = ["a", "bb", "c3", "d", "e"]


def read(types, rows, tag, sep=",", nl="\n", last=True, quote=(), exp=None):
    """rows of (text, value) pairs; quote: columns quoted in any case"""
    k = len(types)
    lines = [sep.join(NM[:k])] + [sep.join(q(x[0], sep, i in quote) for i, x in enumerate(r)) for r in rows]
    text = nl.join(lines) + (nl if last else "")
    if exp is None:
        exp = ["TABLE", ["SYMBOL", NM[:k]], ["LIST", [colval(t, [r[i][1] for r in rows]) for i, t in enumerate(types)]]]
    S.add('(read-csv [%s] "%s"%s)' % (" ".join(types), put(text), "" if sep == "," else " '%s'" % sep), exp, tag)


def wipe(p):
    if os.path.isdir(p):
        shutil.rmtree(p)
    else:
        os.unlink(p)


def run(cores=1, flavor="rel", chunk=4000):
    global nf
    S.run(cwd=W, cores=cores, flavor=flavor, chunk=chunk)
    for f in os.listdir(W):
        wipe(os.path.join(W, f))
    nf = 0


try:
    # ---- every text of every type in every position, by line end and by separator
    for t, tx in TX.items():
        other = "I64" if t != "I64" else "SYMBOL"
        o = TX[other][1:4]
        for x in tx:
            for sep in (",", ";", "|") if not ("." == x[0]) else (",",):
                for nl, last in (("\n", True), ("\n", False), ("\r\n", True), ("\r\n", False)):
                    if x[0] == "" and not last:
                        last_ok = False
                    else:
                        last_ok = True
                    if last_ok:
                        read([t], [[x], [tx[-1]], [x]], (t, "alone"), sep, nl, last)
                    read([t, other], [[x, o[0]], [tx[-1], o[1]], [x, o[2]]], (t, "first"), sep, nl, last)
                    if last_ok:
                        read([other, t], [[o[0], x], [o[1], tx[1]], [o[2], x]], (t, "last"), sep, nl, last)
                    read([other, t, other], [[o[0], x, o[1]], [o[1], tx[-1], o[2]]], (t, "middle"), sep, nl, last)
        for x, y in itertools.product(tx[:6], repeat=2):
            read([t, t], [[x, y], [y, x]], (t, "pairs"))
            for z in ((0,), (1,), (0, 1)):
                read([t, t], [[x, y], [y, x]], (t, "quoted"), quote=z)
                read([t, t], [[x, y], [y, x]], (t, "quoted"), quote=z, nl="\r\n", last=bool(y[0]))
    run(flavor="asan")
    # ---- text with separators, quotes and newlines: every string over the critical characters
    for n in range(0, 4 if not deep else 5):
        for s in map("".join, itertools.product('a,"\n;', repeat=n)):
            x = (s, s)
            for typs, row in ((["C8"], [x]), (["C8", "I64"], [x, ("5", 5)]), (["I64", "C8"], [("5", 5), x]), (["I64", "C8", "SYMBOL"], [("5", 5), x, ("q", "q")])):
                if len(typs) == 1 and not s:
                    continue
                read(typs, [row, row], ("text", len(typs)))
                if len(typs) > 1:
                    read(typs, [row] * 3, ("text", len(typs), ";"), sep=";")
                    read(typs, [row] * 2, ("text", len(typs), "crlf"), nl="\r\n", last=False)
                    read(typs, [row] * 2, ("text", len(typs), "quoted"), quote=tuple(range(len(typs))))
            if s:
                read(["SYMBOL", "C8"], [[x, x], [("b", "b"), x]], ("symbol text",))
    # fields of every length, quoted and not
    for n in list(range(1, 80)) + [127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 4095, 4096, 4097, 70000]:
        x = ("abcdefgh1jklmnop2rstuvw" * (n // 20 + 1))[:n]
        for y in (x, x[:-1] + '"', x[:n // 2] + ',"\n' + x[n // 2:]):
            for z in ((), (0,), (2,)):
                read(["SYMBOL", "I64", "C8"], [[(y, y), ("5", 5), (y, y)], [("b", "b"), ("6", 6), (y, y)], [(y, y), ("7", 7), ("", "")]], ("length", n), quote=z)
    run(flavor="asan" if not deep else "rel")
    # quotes at every offset around the widths of the scan
    for off in range(0, 70):
        pad = "x" * off
        read(["C8", "I64"], [[(pad + ",\n\"", pad + ",\n\""), ("1", 1)], [("z", "z"), ("2", 2)]], ("offset",))
        read(["C8", "I64"], [[(pad, pad), ("1", 1)], [("\n" + pad, "\n" + pad), ("2", 2)], [("", ""), ("3", 3)]], ("offset",), last=False)
        read(["SYMBOL", "SYMBOL"], [[(pad or "e", pad or "e"), ("5", "5")]] * 3, ("offset",))
        x = pad + 'a"b'  # a quote inside of an unquoted field is text
        S.add('(read-csv [C8 I64] "%s")' % put("a,bb\n%s,1\nz,2\n" % x), ["TABLE", ["SYMBOL", ["a", "bb"]], ["LIST", [["LIST", [["C8", x], ["C8", "z"]]], ["I64", [1, 2]]]]], ("inner quote",))
    # ---- numbers of lines
    for n in (0, 1, 2, 3, 10, 1000, 1023, 1024, 1025, 3000):
        for nl, last in (("\n", True), ("\n", False), ("\r\n", True)):
            read(["I64", "SYMBOL"], [[(str(i), i), ("s", "s")] for i in range(n)], ("lines", n), nl=nl, last=last)
            read(["I64"], [[(str(i % 10), i % 10)] for i in range(n)], ("short lines", n), nl=nl, last=last)
    # ---- names of columns: every length, letters and digits of them; numbers of columns
    for n in list(range(1, 70)) + [79, 80, 81, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 4095, 4096, 5000]:
        nm = ("abcdefgh1jklmnop2rstuvw" * (n // 20 + 1))[:n]
        for h, names in (("%s,bb", [nm, "bb"]), ("bb,%s", ["bb", nm]), ("\"%s\", b-b", [nm, "bb"]), ("b_b, %s ", ["bb", nm])):
            for nl in ("\n", "\r\n"):
                S.add('(read-csv [I64 I64] "%s")' % put(h % nm + nl + "1,2" + nl + "3,4" + nl), ["TABLE", ["SYMBOL", names], ["LIST", [["I64", [1, 3]], ["I64", [2, 4]]]]], ("header",))
    for k in list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 100, 255, 256, 257]:
        for sep in (",", ";", "|", ":"):
            for t, f in (("I64", str), ("SYMBOL", lambda v: "s%d" % v)):
                txt = "\n".join([sep.join("c%d" % i for i in range(k))] + [sep.join(f(i * 10 + r) for i in range(k)) for r in range(3)])
                S.add('(read-csv [%s] "%s"%s)' % (" ".join([t] * k), put(txt), "" if sep == "," else " (first \"%s\")" % sep), ["TABLE", ["SYMBOL", ["c%d" % i for i in range(k)]], ["LIST", [[t, [(i * 10 + r) if t == "I64" else f(i * 10 + r) for r in range(3)]] for i in range(k)]]], ("columns", k))
    # more columns in the file than asked for
    for k, m in itertools.product(range(1, 5), repeat=2):
        if m <= k:
            txt = "\n".join([",".join(NM[:k])] + [",".join(str(i * 10 + r) for i in range(k)) for r in range(3)]) + "\n"
            S.add('(read-csv [%s] "%s")' % (" ".join(["I64"] * m), put(txt)), ["TABLE", ["SYMBOL", NM[:m]], ["LIST", [["I64", [i * 10 + r for r in range(3)]] for i in range(m)]]], ("more columns", k))
    # ---- malformed files are errors, absent trailing fields are nulls
    for txt in ("", "\n", "a\n", "a,bb\n1\n", "a,bb\n1,2\n3\n", "a,bb\n\"1,2\n", "a,bb\n\"1\"x,2\n", "a,bb\n1,\"2\"x\n", "a,bb\n\"1\"", "a,bb\n1,\"2\n"):
        S.add('(read-csv [I64 I64] "%s")' % put(txt), ERR, ("malformed",))
    for typ in ("[NOSUCH I64]", "[LIST I64]", "5", "[1 2]", "[DICT I64]"):
        S.add('(read-csv %s "%s")' % (typ, put("a,bb\n1,2\n")), ERR, ("malformed",))
    for a in ('(read-csv [I64 I64] "nosuch.csv")', '(read-csv [I64 I64])', '(read-csv [I64 I64] 5)', '(read-csv [I64 I64] "x" "yy")', "(write-csv \"z.csv\" 5)", "(write-csv 5 (table [a] (list [1])))"):
        S.add(a, ERR, ("malformed",))
    S.add('(read-csv [I64 I64 I64] "%s")' % put("a,bb,c3\n1,\n2,3,4\n,\n"), ["TABLE", ["SYMBOL", ["a", "bb", "c3"]], ["LIST", [["I64", [1, 2, N64]], ["I64", [N64, 3, N64]], ["I64", [N64, 4, N64]]]]], ("absent",))
    S.add('(read-csv [I64 I64] "%s")' % put("a,bb\n1,x\ny,3\n"), ["TABLE", ["SYMBOL", ["a", "bb"]], ["LIST", [["I64", [1, N64]], ["I64", [N64, 3]]]]], ("not a number",))
    for t, nul in (("I32", N32), ("I16", N16), ("F64", NaN)):
        S.add('(read-csv [%s I64] "%s")' % (t, put("a,bb\nx,1\n,2\n")), ["TABLE", ["SYMBOL", ["a", "bb"]], ["LIST", [[t, [nul, nul]], ["I64", [1, 2]]]]], ("not a number",))
    run(flavor="asan")
    # ---- written tables read back, here and by an independent reader
    DOM = {t: [v for _, v in tx] for t, tx in TX.items()}
    DOM["F64"] += [1 / 3, 123456789.123456789, -1e-7, 5e17, 1.0000000000000002]
    DOM["SYMBOL"] += ["a,b", 'q"q', "x;y", '"', "l\nm"]
    for n in (31, 32, 33, 63, 64, 79, 80, 81, 127, 128, 255, 256, 257, 1000):
        DOM["SYMBOL"].append(("abcdefghijklmnop" * 70)[:n])
        DOM["C8"] += [("abcdefghijklmnop" * 70)[:n], ("abcdefghi,klmn\"p" * 70)[:n]]
    DOM["C8"] += ["a,b", 'q"q', '"a"', "x;y", '""', "l\nm", "cr\rlf", ",", "\n"]
    RT = {"C8": "LIST"}

    def lits(t, vs):
        if t == "C8":
            return "(list %s)" % " ".join('"%s"' % v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r") for v in vs)
        if t == "GUID":
            return "(as 'GUID (list %s))" % " ".join('"%s"' % v for v in vs)
        if t == "F64":
            return "(list-f)" if False else "[" + " ".join("0Nf" if v != v else ("%.25f" % v).rstrip("0") + ("0" if ("%.25f" % v).rstrip("0").endswith(".") else "") for v in vs) + "]"
        if t == "SYMBOL" and any(v is not None and not v.replace("-", "").replace("_", "").isalnum() or v is not None and v[0].isdigit() for v in vs):
            parts = ["[0Ns]" if v is None else "(as 'SYMBOL %s)" % lits("C8", [v]) for v in vs]
            e = parts[0]
            for x in parts[1:]:
                e = "(concat %s %s)" % (e, x)
            return e
        return vec(t, vs)

    def text(t, v):
        if t == "F64":
            return None
        for s, w in TX[t]:
            if w == v:
                return s
        return v if t in ("SYMBOL", "C8") else None
    written = []

    def rt(types, rows, tag, sep=","):
        global nf
        nf += 1
        p = "w%d.csv" % nf
        sp = "" if sep == "," else " '%s'" % sep
        cols = [[r[i] for r in rows] for i in range(len(types))]
        e = "(do (write-csv \"%s\" (table [%s] (list %s))%s) (read-csv [%s] \"%s\"%s))" % (p, " ".join(NM[:len(types)]), " ".join(lits(t, v) for t, v in zip(types, cols)), sp, " ".join(types), p, sp)
        S.add(e, ["TABLE", ["SYMBOL", NM[:len(types)]], ["LIST", [colval(t, v) for t, v in zip(types, cols)]]], tag)
        written.append((p, types, rows, sep, e))

    for t in DOM:
        d = [v for v in DOM[t] if not (t == "GUID" and v == "0" * 32)]
        d = [next(g for g in G if g.replace("-", "") == v) for v in d] if t == "GUID" else d
        fixg = lambda v: v.replace("-", "")
        for sep in (",", ";", "\t"[:0] or "|"):
            for o in ("I64", "SYMBOL", "C8"):
                od = [v for v in DOM[o]][:3]
                for a in d:
                    for b in od:
                        if t == "GUID":
                            continue
                        rt([t, o], [[a, b], [d[-1], od[0]]], ("written", t, o), sep)
                        rt([o, t], [[b, a], [od[1], d[0] if t != "C8" else "z"]], ("written", o, t), sep)
    e = "(do (write-csv \"g.csv\" (table [a bb] (list (as 'GUID (list \"%s\" \"%s\")) [1 2]))) (read-csv [GUID I64] \"g.csv\"))" % tuple(G)
    S.add(e, ["TABLE", ["SYMBOL", ["a", "bb"]], ["LIST", [["GUID", [g.replace("-", "") for g in G]], ["I64", [1, 2]]]]], ("written", "GUID"))
    S.add("(do (write-csv \"c.csv\" (table [a bb] (list \"xyz\" [1 2 3]))) (read-csv [SYMBOL I64] \"c.csv\"))", ["TABLE", ["SYMBOL", ["a", "bb"]], ["LIST", [["SYMBOL", ["x", "y", "z"]], ["I64", [1, 2, 3]]]]], ("written", "chars"))
    for tn in ("[a b a]", "[a 0Ns b]"):
        S.add("(do (set-splayed \"t/\" (table [a bb] (list %s [1 2 3]))) (write-csv \"e.csv\" (get-splayed \"t/\")) (read-csv [SYMBOL I64] \"e.csv\"))" % tn,
              ["TABLE", ["SYMBOL", ["a", "bb"]], ["LIST", [["SYMBOL", [None if x == "0Ns" else x for x in tn[1:-1].split()]], ["I64", [1, 2, 3]]]]], ("written", "stored"))
    res = S.run(cwd=W)
    for p, types, rows, sep, e in written:
        try:
            got = list(pycsv.reader(io.StringIO(open(os.path.join(W, p), encoding="latin1", newline="").read(), newline=""), delimiter=sep))
        except FileNotFoundError:
            got = None
        want = [NM[:len(types)]] + [[text(t, v) for t, v in zip(types, r)] for r in rows]
        ok = got is not None and len(got) == len(want) and all(len(g) == len(w) for g, w in zip(got, want))
        if ok:
            for r, g, w in zip(rows, got[1:], want[1:]):
                for t, v, x, y in zip(types, r, g, w):
                    if y is not None and x != y and not (t in ("I64", "I32") and x == str(v)):
                        ok = False
                    if t == "F64" and not (v != v and x == "" or v == v and abs(float(x) - v) <= 4e-16 * abs(v)):
                        ok = False
        c.traces += 1
        if not ok:
            c.violation("text " + e[:300], "%s wrote %s, expected %s" % (e[:300], str(got)[:300], str(want)[:300]), e)
    shutil.rmtree(os.path.join(W, "t"), ignore_errors=True)
    for f in os.listdir(W):
        wipe(os.path.join(W, f))

    # ---- long files, several executors
    ts = ["I64", "SYMBOL", "F64", "C8", "DATE", "I32", "TIME"]
    NM += ["f", "g"]
    for n in (16383, 16384, 20001, 70001) if not deep else (16383, 16384, 16385, 20001, 32768, 70001, 200003):
        for style in (0, 1, 2):
            rows = []
            for i in range(n):
                s = "s%d" % (i % 97)
                txt = ["t%d" % i, "x" * (i % 90), 'a "q" %d' % (i % 5), ",", "p\nq" if style == 1 else "pq"][i % 5]
                j = i % 5
                rows.append([("" if i % 11 == 3 else str(i * 37 - 5), N64 if i % 11 == 3 else i * 37 - 5), (s, s) if i % 13 else ("", None), TX["F64"][i % 12], (txt, txt), TX["DATE"][j], ("%d" % (i % 1000), i % 1000), TX["TIME"][1 + i % 4]])
            read(ts, rows, ("long", n), last=style != 2, nl="\r\n" if style == 2 else "\n")
            if style == 0:
                read(["I64"], [[(str(i % 10), i % 10)] for i in range(n)], ("long narrow", n))
                bad = list(rows)
                for at in (1, n // 2, n - 1):
                    lines = ["a,bb"] + ["1,2"] * n
                    lines[at] = "5"
                    S.add('(read-csv [I64 C8] "%s")' % put("\n".join(lines) + "\n"), ERR, ("long bad",))
        held = S.cases
        for k in (1, 3, 8, 13):
            S.cases = held
            S.run(cwd=W, cores=k, chunk=4)
        for f in os.listdir(W):
            wipe(os.path.join(W, f))
        nf = 0
finally:
    shutil.rmtree(W, ignore_errors=True)
c.finish("distinct files whose table, or tables whose text, was predicted")
