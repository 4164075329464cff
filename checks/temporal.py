"""P12: the text of every date, time and timestamp is the one of the Gregorian calendar, and reading text gives the value it denotes."""
import sys, os, itertools, datetime
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import suite, report
from vt.val import *
from vt.suite import ERR

pid, tier = sys.argv[1], sys.argv[2]
c = report.Check(pid, tier, "exploration")
S = suite.Suite(c)
more = tier == "thorough"
E0 = datetime.date(2000, 1, 1).toordinal()
DAY, NS = 86400000, 86400 * 10**9


def dtext(d):
    y, m, dd = (lambda x: (x.year, x.month, x.day))(datetime.date.fromordinal(d + E0))
    return "%04d.%02d.%02d" % (y, m, dd)


def ttext(ms):
    s = "-" if ms < 0 else ""
    ms = abs(ms)
    return s + "%02d:%02d:%02d.%03d" % (ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, ms % 1000)


def ptext(n):
    d, r = divmod(n, NS)
    return dtext(d) + "D%02d:%02d:%02d.%09d" % (r // 3600 // 10**9, r // 60 // 10**9 % 60, r // 10**9 % 60, r % 10**9)


TEXT = {"DATE": dtext, "TIME": ttext, "TIMESTAMP": ptext}
NUL = {"DATE": N32, "TIME": N32, "TIMESTAMP": N64}
LOW = {"DATE": "date", "TIME": "time", "TIMESTAMP": "timestamp"}


def both(t, vs, tag):
    """values -> text, text -> values, literals, as elements of a printed vector"""
    tx = [TEXT[t](v) for v in vs]
    raw = "[%s]" % " ".join(map(str, vs))
    S.add("(map (fn [x] (as 'C8 x)) (as '%s %s))" % (t, raw), ["LIST", [["C8", x] for x in tx]], (t, "text", tag))
    S.add("(map (fn [x] (as '%s x)) (list %s))" % (LOW[t], " ".join('"%s"' % x for x in tx)), [t, vs], (t, "read", tag))
    S.add("[%s]" % " ".join(tx), [t, vs], (t, "literal", tag))


def batches(t, vs, tag, k=1000):
    vs = list(vs)
    for i in range(0, len(vs), k):
        both(t, vs[i:i + k], tag)


# ---- dates
lo, hi = datetime.date(1, 1, 1).toordinal() - E0, datetime.date(9999, 12, 31).toordinal() - E0
batches("DATE", range(lo, hi + 1), "every day of the years 1 to 9999")
# ---- times
msec = range(0, 1000, 37) if more else (0, 1, 9, 10, 99, 100, 500, 999)
batches("TIME", [s * 1000 + m for s in range(0, 86400, 1) for m in msec], "times")
batches("TIME", [h * 3600000 + x for h in range(0, 24) for x in (0, 1, 59999, 60000, 3599999)] + list(range(0, 2000)), "times")
# ---- timestamps
nan = sorted({0, 999999999} | {10**k for k in range(9)} | {10**k - 1 for k in range(1, 10)} | {123456789, 987654321})
tod = (list(range(0, 86400, 1800)) if more else []) + [0, 1, 59, 60, 3599, 3600, 43199, 43200, 86398, 86399]
days = sorted({d for y in range(1710, 2291, 1) for d in (datetime.date(y, 1, 1).toordinal() - E0, datetime.date(y, 12, 31).toordinal() - E0, datetime.date(y, 3, 1).toordinal() - E0 - 1, datetime.date(y, 3, 1).toordinal() - E0)} | set(range(-800, 800, 1)) | {-366, -365, -2, -1, 0, 1, 58, 59, 60, 365, 366})
batches("TIMESTAMP", [d * NS + s * 10**9 + n for d in days for s in tod for n in (nan)], "timestamps")
S.run(chunk=40)
# ---- all other ways of reading: shortened fractions, signs, other separators, what is no time
O = "0123456789"
for d, s in itertools.product((-1, 0, 59, 8825), (0, 1, 43200, 86399)):
    for k in range(1, 10):
        for f in ("0" * k, "1" * k, "9" * k, "123456789"[:k]):
            for sep in ("T", " "):
                for z, off in (("", 0), ("Z", 0), ("+00:00", 0), ("+02:00", 120), ("-05:30", -330), ("+14:00", 840), ("-12:00", -720), ("+0130", 90), ("-01", -60)):
                    y = datetime.date.fromordinal(d + E0)
                    x = "%04d-%02d-%02d%s%02d:%02d:%02d.%s%s" % (y.year, y.month, y.day, sep, s // 3600, s // 60 % 60, s % 60, f, z)
                    S.add("(as 'timestamp \"%s\")" % x, ["timestamp", d * NS + s * 10**9 + int((f + "0" * 9)[:9]) - off * 60 * 10**9], ("iso",))
    for z, off in (("", 0), ("Z", 0), ("+02:00", 120), ("-05:30", -330)):
        y = datetime.date.fromordinal(d + E0)
        S.add("(as 'timestamp \"%04d-%02d-%02dT%02d:%02d:%02d%s\")" % (y.year, y.month, y.day, s // 3600, s // 60 % 60, s % 60, z), ["timestamp", d * NS + s * 10**9 - off * 60 * 10**9], ("iso",))
    S.add("(as 'timestamp \"%04d-%02d-%02d\")" % (y.year, y.month, y.day), ["timestamp", d * NS], ("iso",))
for v in (1, 1000, 59999, 3600000, 86399999, 45296789):
    S.add("(as 'time \"-%s\")" % ttext(v), ["time", -v], ("negative",))
    S.add("(as 'C8 (as 'time -%d))" % v, ["C8", "-" + ttext(v)], ("negative",))
    S.add("-%s" % ttext(v), ["time", -v], ("negative",))
    S.add("(as 'time \"%s\")" % ttext(v)[:8], ["time", v - v % 1000], ("no fraction",))
for t in TEXT:
    S.add("(as 'C8 0N%s)" % {"DATE": "d", "TIME": "t", "TIMESTAMP": "p"}[t], ["C8", "0N%s" % {"DATE": "d", "TIME": "t", "TIMESTAMP": "p"}[t]], ("null",))
    for x in ("x", "abc", "--", ":", ".", "2024", "2024.01", "2024.13.01", "2024.00.10", "2024.01.32", "2024.01.00", "12", "12:30", "1a:00:00.000", "12:30:45.1:2", "12:30:45.123.4"):
        if t == "DATE" or t == "TIMESTAMP" or ":" not in x or x in ("12:30", "1a:00:00.000", "12:30:45.1:2", "12:30:45.123.4", ":"):
            if t == "DATE" and x.count(":") + x.count(".") >= 2 and not x.startswith("2024") or t == "TIMESTAMP" and x[:1] in "1" and (x.count(":") + x.count(".") >= 2):
                continue
            if t == "TIME" and x.startswith("2024."):
                continue
            S.add("(as '%s \"%s\")" % (LOW[t], x), [LOW[t], NUL[t]], ("malformed", t))
S.add("[2024.01.02 0Nd 2000.01.01]", ["DATE", [8767, N32, 0]], ("null",))
S.add("[0Nt 00:00:00.001]", ["TIME", [N32, 1]], ("null",))
S.add("[0Np 2000.01.01D00:00:00.000000001]", ["TIMESTAMP", [N64, 1]], ("null",))
# ---- printed inside of other values
for x in ("[2024.02.29 0Nd]", "[12:34:56.789 0Nt]", "[2024.02.29D23:59:59.999999999 0Np]", "1999.12.31", "23:59:59.999", "1999.12.31D23:59:59.999999999"):
    S.add('(format "%" ' + x + ")", ["C8", x], ("format",))
S.run(flavor="asan")

c.finish("distinct batches of values and texts read or written")
