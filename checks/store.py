"""P15: stored values read back unchanged, in this and in other processes.  P16: files cut short at any byte."""
import sys, os, itertools, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
from vt import report, drv
from vt.val import *
NaN = float("nan")
DOM = {
    "B8": [0, 1], "U8": [0, 127, 255], "C8": ["a", "b"],
    "I16": [N16, -1, 32767], "I32": [N32, -1, 2**31 - 1], "I64": [N64, -1, 2**63 - 1], "F64": [NaN, -2.5, 0.1],
    "DATE": [N32, 0, 9999], "TIME": [N32, 0, 86399999], "TIMESTAMP": [N64, 0, 1 << 60],
    "SYMBOL": [None, "aa", "b", "longer-name-than-sixteen"],
}
G = ["00112233-4455-6677-8899-aabbccddeeff", "ffffffff-ffff-ffff-ffff-fffffffffffe"]
REP = ["5", "true", "0x10", "3h", "7i", "1.5", "0Nf", "'sym", "0Ns", "'a'", "2001.01.01", "00:00:01.000", "2001.01.01D00:00:00.000000001", "(as 'guid \"%s\")" % G[0],
       "[true]", "[0x01 0x02]", '"abc"', '""', "[1h 2h 3h]", "[1i]", "[1 2]", "[]", "[1.5]", "[a bc]", "[2001.01.01]", "(as 'GUID (list \"%s\"))" % G[1],
       "(list)", "(list 1 'a)", "{a: 1}", "(table [a b] (list [1 2] [x y]))", "+", "(fn [x y] (+ x y))", "null"]
OTHER = ["Q (list 'q 'bc 'zz 'abc 'xx 'aa)", "Q (list 'sym 'm 'l 'k 'b)"]


def norm(v):
    """enumerations are symbols, mapped lists are lists"""
    if isinstance(v, list) and v and isinstance(v[0], str):
        if v[0] in ("ENUM", "MAPLIST") and len(v) == 2 and isinstance(v[1], list):
            return norm(v[1])
        if v[0] == "LIST":
            return ["LIST", [norm(x) for x in v[1]]]
        if v[0] in ("TABLE", "DICT"):
            return [v[0], norm(v[1]), norm(v[2])]
    return v


def rows(v):
    v = norm(v)
    if isinstance(v, list) and v and v[0] == "TABLE":
        try:
            cols = [x[1] for x in v[2][1]]
            return ["TABLE", v[1], [x[0] for x in v[2][1]], sorted([list(r) for r in zip(*cols)], key=json.dumps)]
        except Exception:
            return v
    return v


class Batch:
    """independent scenarios: each a list of sessions (processes over one directory), each a list of (command, key of the expected value or None)"""
    def __init__(self, c):
        self.c, self.sc = c, []

    def add(self, name, sessions, want=()):
        """sessions: [[commands..]..]; want: expressions giving the expected values of the commands marked with a leading '=' (in order)"""
        self.sc.append((name, sessions, list(want)))

    def run(self, flavor="rel", cores=1, bag=False, env=None):
        exe = drv.driver(flavor)

        def one(part):
            res = []
            for name, ss, want in part:
                d = tempfile.mkdtemp(prefix="vtst")
                try:
                    got = []
                    for cmds in ss:
                        pre = [x for x in cmds if x[0] == "!"]
                        r = drv.run_chunk(exe, [x[1:] for x in pre], [x.lstrip("=") for x in cmds if x[0] != "!"], cores, d, env)
                        got += [y for x, y in zip([x for x in cmds if x[0] != "!"], r) if x[0] == "="]
                        bad = [(x, y) for x, y in zip([x for x in cmds if x[0] != "!"], r) if x[0] != "=" and (isinstance(y, drv.Crash) or y[0] == "ERR")]
                        if bad:
                            got.append(("failed", bad[0]))
                            break
                    res.append((name, ss, want, got))
                finally:
                    shutil.rmtree(d)
            return res
        n = 1
        parts = [self.sc[i:i + n] for i in range(0, len(self.sc), n)]
        ws = sorted({w for _, _, want in self.sc for w in want})
        wv = dict(zip(ws, drv.run_all(["E " + w for w in ws], flavor=flavor, cores=cores)))
        f = rows if bag else norm
        with ThreadPoolExecutor(8) as ex:
            for part in ex.map(one, parts):
                for name, ss, want, got in part:
                    c = self.c
                    c.states += 1
                    c.transitions += sum(map(len, ss))
                    c.traces += len(want)
                    rep = "\n---\n".join("\n".join(s) for s in ss)
                    for w, g in itertools.zip_longest(want, got):
                        if isinstance(g, tuple):
                            c.violation(name, "%s: %s -> %s" % (name, g[1][0], str(g[1][1])[:500]), rep)
                            break
                        e = wv.get(w)
                        if isinstance(e, drv.Crash) or e is None or e[0] == "ERR":
                            if isinstance(g, drv.Crash) or (e is not None and not isinstance(e, drv.Crash) and g[0] != "ERR" and False):
                                c.violation(name, "%s: %s" % (name, g), rep)
                            continue
                        if isinstance(g, drv.Crash) or g is None or not same(f(e), f(g)):
                            c.violation(name + " " + w, "%s: %s\n expected %s\n got      %s" % (name, w, str(e)[:400], str(g)[:400]), rep)
                            break
                        c.mark(name + w)
        if self.sc:
            c.sample({"scenario": self.sc[-1][0], "sessions": str(self.sc[-1][1])[:300]})
        self.sc = []


ACC = ["{}", "(count {})", "(at {} 0)", "(at {} -1)", "(at {} [1 0])", "(take {} 2)", "(take {} -1)", "(first {})", "(last {})", "(at {} 7)", "(reverse {})", "(distinct {})", "(group {})", "(concat {} {})", "(as 'LIST {})", "(== {} {})", "(find {} (at {} 1))", "(where (== {} (at {} 0)))"]


def values(deep):
    vecs, syms = [], []
    for t, d in DOM.items():
        vs = [vec(t, x) if x or t != "SYMBOL" else "(as 'SYMBOL [])" for n in range(0, 4 if deep else 3) for x in itertools.product(d, repeat=n)]
        vs += ["(take %s %d)" % (vec(t, d), n) for n in ((3, 5, 9, 255, 300, 4095, 4097, 16385, 70000) if deep else (5, 300, 5000))]
        (syms if t == "SYMBOL" else vecs).extend(vs)
    vecs += ["(as 'GUID (list %s))" % " ".join('"%s"' % g for g in gs) for n in (1, 2, 3) for gs in itertools.product(G, repeat=n)] + ["(as 'GUID [])"]
    lists = ["(list)"] + ["(list %s 'e)" % a for a in REP] + ["(list 'e (list %s 1))" % a for a in REP]
    lists += ["(list %s %s 'e)" % (a, b) for a, b in itertools.product(REP if deep else REP[::2], repeat=2)]
    lists += ["(map (fn [x] (list x 'y \"str\")) (til %d))" % n for n in (1, 100, 1000)]
    # elements of every serialized size around the powers of two and around the page, in every place of a list
    big = ["(til %d)" % n for n in ((1, 29, 30, 31, 32, 61, 62, 63, 100, 509, 510, 511, 512, 513, 8190, 8191, 8192, 8193) if deep else (30, 31, 32, 62, 63, 510, 511, 512, 513, 8192))]
    big += ["(take \"abc\" %d)" % n for n in ((1, 127, 128, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 254, 255, 256, 257, 4080, 4096, 65535, 65536, 65537) if deep else (127, 128, 240, 244, 247, 255, 256, 4096, 65537))]
    big += ["(take (list 'a 7 \"text\") %d)" % n for n in (12, 60, 300)] + ["(table [p q] (list (til %d) (take [u v w] %d)))" % (n, n) for n in (20, 300)]
    for i, b in enumerate(big):
        o = big[(i * 7 + 3) % len(big)]
        lists += ["(list %s 'e)" % b, "(list 'e %s (til 5) 'x)" % b, "(list (til 3) %s %s \"tail\" 5)" % (b, o), "(list %s %s %s)" % (b, b, o)]
    lists.append("(list %s)" % " ".join(big))
    return vecs, syms, lists


COLS = ["[1 2 3]", "[0Nl 5 -1]", "[1h 0Nh 3h]", "[1i 2i 0Ni]", "[1.5 0Nf -2.5]", "[true false true]", "[0x01 0xff 0x00]", "[2001.01.01 0Nd 1999.12.31]", "[00:00:01.000 0Nt 23:59:59.999]",
        "[2001.01.01D00:00:00.000000001 0Np 1999.01.01D00:00:00.000000000]", "[a b a]", "[a 0Ns c]", "[0Ns 0Ns 0Ns]", "[dd ee ff]", '(list "ab" "" "cde")', "(list 1 'a [1 2])", '"xyz"', "(as 'GUID (list \"%s\" \"%s\" \"%s\"))" % (G[0], G[1], G[0])]
TQ = ["(select {{from: {t} where: (== p (at (at {t} 'p) 1))}})", "(select {{from: {t} where: (== q (at (at {t} 'q) 0))}})", "(select {{n: (count p) from: {t} by: q}})", "(select {{n: (first q) from: {t} by: p}})", "(select {{p: p from: {t}}})", "(at {t} 1)", "(at {t} [2 0])", "(count {t})",
      "(take {t} 2)", "(reverse {t})", "(select {{m: (max p) l: (last q) from: {t}}})", "(update {{p: (reverse p) from: {t}}})", "(xasc {t} 'p)", "(xdesc {t} 'q)",
      "(select {{from: {t} where: (== p 'zzz)}})", "(select {{from: {t} where: (!= p 'zzz)}})", "(select {{from: {t} where: (in q ['a 'zzz 'c])}})", "(select {{from: {t} where: (== p 0Ns)}})", "(select {{from: {t} where: (in p (at (at {t} 'p) [0 2]))}})", "(at (at {t} 'q) 2)", "(concat {t} {t})", "(find (at {t} 'p) (at (at {t} 'p) 2))", "(select {{v: (first q) w: (last q) n: (count q) from: {t} by: p where: (== q q)}})"]


def p15(tier):
    c = report.Check("P15", tier, "exploration")
    deep = tier == "thorough"
    b = Batch(c)
    vecs, syms, lists = values(deep)
    allv = vecs + syms + lists + ["(table [p q] (list %s %s))" % x for x in itertools.product(COLS, repeat=2)]
    # one value to a file: read here, and by another process with another interning history
    for i in range(0, len(allv), 40):
        g = allv[i:i + 40]
        b.add("values %d" % i, [["Q (set \"f%d\" %s)" % (k, v) for k, v in enumerate(g)] + ["=E (get \"f%d\")" % k for k in range(len(g))],
                                ["!" + x for x in OTHER] + ["=E (get \"f%d\")" % k for k in range(len(g))]], g + g)
    b.run()
    # every pair of successive values of one file
    few = ["[1 2 3]", "[5]", "[]", "(til 3000)", "[true]", '"ab"', "(take [1.5] 700)", "[a b c]", "[zz]", "(as 'SYMBOL [])", "(list 1 'a \"b\")", "(list [1 2])", "(list)", "(table [a b] (list [1 2] [x y]))", "(table [a] (list (til 900)))"]
    for x, y in itertools.product(few, repeat=2):
        b.add("%s then %s" % (x, y), [["Q (set \"f\" %s)" % x, "=E (get \"f\")", "Q (set \"f\" %s)" % y, "=E (get \"f\")"], ["!" + o for o in OTHER] + ["=E (get \"f\")", "Q (set \"f\" %s)" % x, "=E (get \"f\")"]], [x, y, y, x])
    b.run()
    # access to mapped values
    src = [vec(t, (d * 2)[:4]) for t, d in DOM.items() if t != "SYMBOL"] + ["[a b 0Ns a]", "(list 1 'a \"bc\" [1 2])", "(list \"x\" \"yy\" \"\" \"x\")", "(as 'GUID (list \"%s\" \"%s\"))" % (G[0], G[1]), "(til 300)"]
    for v in src:
        acc = [a for a in ACC if ("-1" not in a and " 7" not in a and "reverse" not in a and "group" not in a and "as 'LIST" not in a and "(== {} {})" not in a and ("distinct" not in a or "'" not in v)) or not v.startswith("(list")]
        b.add("access " + v, [["Q (set \"f\" %s)" % v], ["!Q (set x (get \"f\"))"] + ["=E " + a.replace("{}", "x") for a in acc] + ["=E " + a.replace("{}", "(get \"f\")") for a in acc]], [a.replace("{}", v) for a in acc] * 2)
    # changing a value that was read changes neither the file nor other readers
    for v, ch in (("[1 2 3]", "(alter 'x set 1 9)"), ("[1.5 2.5]", "(set x (+ x 1))"), ("(til 3000)", "(alter 'x set 2900 9)"), ("[true false]", "(alter 'x set 0 false)"), ('"abc"', "(alter 'x set 0 'z')")):
        b.add("change " + v, [["Q (set \"f\" %s)" % v], ["Q (set x (get \"f\"))", "Q " + ch, "=E (get \"f\")", "=E x"], ["=E (get \"f\")"]], [v, "(do (set x %s) %s x)" % (v, ch), v])
    b.run()
    # splayed tables, alone in their process and with a shared file of symbols
    for x, y in itertools.product(COLS, repeat=2):
        t = "(table [p q] (list %s %s))" % (x, y)
        lst = [k for k, z in (("p", x), ("q", y)) if z.startswith("(list")]
        sy = [k for k, z in (("p", x), ("q", y)) if z[0] == "[" and z[1] in "abd" and "0" not in z[1:3] or z.startswith("[0Ns")]
        TQx = [q for q in TQ if not any(("first " + k in q or "last " + k in q or "max " + k in q or "by: " + k in q or "count " + k in q or "reverse" in q or "== " + k in q or "asc" in q or "desc" in q) for k in lst) and not any("asc" in q and "'" + k in q or "desc" in q and "'" + k in q or "reverse" in q or "count " + k in q or "update" in q or "(in " + k in q or "(find" in q for k in sy)]
        qs = ["(do (set t %s) %s)" % (t, q.format(t="t")) for q in TQx]
        b.add("splayed " + t, [["Q (set-splayed \"t/\" %s)" % t, "=E (get-splayed \"t/\")"], ["!" + o for o in OTHER] + ["=E (get-splayed \"t/\")"], ["!Q (set t (get-splayed \"t/\"))"] + ["=E " + q.format(t="t") for q in TQx]], [t, t] + qs)
    b.run(bag=True)
    for n in (0, 1, 2):
        for x in COLS:
            t = "(table [p q] (list (take %s %d) (take [1 2 3] %d)))" % (x, n, n)
            b.add("splayed " + t, [["Q (set-splayed \"t/\" %s)" % t, "=E (get-splayed \"t/\")"], ["!" + o for o in OTHER] + ["=E (get-splayed \"t/\")"], ["=E (get \"t/\")" if False else "=E (get-splayed \"t/\")"]], [t] * 3)
    b.run(bag=True)
    # tables of many columns; columns of elements of many sizes
    for n in (1, 2, 3, 8, 31, 33, 64, 100) if deep else (1, 3, 33, 100):
        cs = [COLS[(k * 5) % len(COLS)] for k in range(n)]
        t = "(table [%s] (list %s))" % (" ".join("c%d" % k for k in range(n)), " ".join(cs))
        b.add("splayed, %d columns" % n, [["Q (set-splayed \"t/\" %s)" % t, "=E (get-splayed \"t/\")"], ["!" + o for o in OTHER] + ["=E (get-splayed \"t/\")"] + ["=E (at (get-splayed \"t/\") 'c%d)" % k for k in range(n)]], [t, t] + cs)
    for n in (3, 40, 700):
        for f in ("(fn [x] (take \"abcdefghij\" (* 3 x)))", "(fn [x] (til (% (* 37 x) 300)))", "(fn [x] (list x (take 'b (% x 50)) (til (% x 90))))", "(fn [x] (take \"xyz\" (- 260 x)))" if n < 200 else "(fn [x] (take \"xyz\" (- 760 x)))"):
            t = "(table [p q] (list (til %d) (map %s (til %d))))" % (n, f, n)
            qs = ["(at {t} [%d 2 0])" % (n - 1), "(at {t} 'q)", "(take {t} -2)", "(select {from: {t} where: (> p %d)})" % (n - 4), "(select {q: q from: {t} where: (== 0 (% p 7))})"]
            b.add("splayed, elements %s %d" % (f, n), [["Q (set-splayed \"t/\" %s)" % t, "=E (get-splayed \"t/\")"], ["!" + o for o in OTHER] + ["!Q (set t (get-splayed \"t/\"))"] + ["=E " + q.replace("{t}", "t") for q in qs]], [t] + ["(do (set t %s) %s)" % (t, q.replace("{t}", "t")) for q in qs])
    b.run(bag=True)
    # many rows, several executors
    BQ = ["(select {{n: (count q) f: (first q) l: (last q) from: {t} by: p}})", "(select {{from: {t} where: (== p (at (at {t} 'p) 1))}})", "(at {t} [20000 0 8191 8192])", "(take {t} -3)", "(== (at {t} 'p) (at (at {t} 'p) 2))", "(at (at {t} 'p) (where (== (at {t} 'q) 7)))", "(select {{s: (sum q) from: {t} where: (!= p (at (at {t} 'p) 0))}})", "(xasc {t} 'q)"]
    for x in COLS:
        if x.startswith("(list"):
            continue
        for n in ((20001, 65536, 100003) if deep else (20001,)):
            for k in (1, 3, 8, 13) if deep else (1, 3, 8):
                t = "(table [p q] (list (at %s (%% (til %d) 3)) (%% (* 7 (til %d)) 1001)))" % (x, n, n)
                sy = x.startswith("[a") or x.startswith("[d") or x.startswith("[0Ns")
                bq = [q.format(t="t") for q in BQ]
                b.add("splayed, %d rows %s" % (n, x), [["Q (set-splayed \"t/\" %s)" % t], ["!" + o for o in OTHER] + ["!Q (set t (get-splayed \"t/\"))"] + ["=E " + q for q in bq]], ["(do (set t %s) %s)" % (t, q) for q in bq])
                b.run(bag=True, cores=k)
    SC = ["[a b a]", "[c a]", "[b 0Ns]", "[d e f a b c]", "(as 'SYMBOL [])", "[0Ns]", "(at [k0 k1 k2 k3 k4 k5 k6] (% (til 40) 7))"]
    T = ["(table [p q] (list %s (til (count %s))))" % (x, x) for x in SC]
    for k in (1, 2, 3):
        for combo in itertools.product(range(len(T)), repeat=k):
            if k == 3 and not deep and len(set(combo)) < 3:
                continue
            same_ = ["Q (set-splayed \"t%d/\" %s \"sy\")" % (i, T[j]) for i, j in enumerate(combo)]
            rd = ["=E (get-splayed \"t%d/\" \"sy\")" % i for i in range(k)]
            w = [T[j] for j in combo]
            b.add("shared symbols, one writer %s" % (combo,), [same_ + rd, ["!" + o for o in OTHER] + rd], w + w)
            b.add("shared symbols, writers %s" % (combo,), [[s] for s in same_] + [["!" + o for o in OTHER] + rd[::-1]], w[::-1])
            if k > 1:
                b.add("shared symbols, rewritten %s" % (combo,), [[same_[0]], ["Q (set-splayed \"t0/\" %s \"sy\")" % T[combo[1]]], ["=E (get-splayed \"t0/\" \"sy\")"]], [T[combo[1]]])
    b.run()
    # columns called like the domain of the enumerations
    for x in ("[a b a]", "[x 0Ns y]", "[1 2 3]", "[1.5 0Nf 2]"):
        for y in ("[d e e]", "[a b a]", "[1 2 1]"):
            t = "(table [sym p q] (list %s %s [1 2 3]))" % (x, y)
            qs = ["(select {from: t where: (== p (at (at t 'p) 1))})", "(select {n: (count q) f: (first sym) from: t by: p})", "(select {from: t where: (== sym (at (at t 'sym) 0))})", "(at t 1)", "(at t [2 0])", "(take t 2)", "(select {s: sym p: p from: t where: (> q 1)})"]
            if x == "[1.5 0Nf 2]" or not ("." in x):
                b.add("column sym " + t, [["Q (set-splayed \"t/\" %s \"sy\")" % t, "=E (get-splayed \"t/\" \"sy\")"], ["!" + o for o in OTHER[:1]] + ["!Q (set t (get-splayed \"t/\" \"sy\"))"] + ["=E " + q for q in qs]], [t] + ["(do (set t %s) %s)" % (t, q) for q in qs])
    b.run(bag=True)
    t = "(table [sym p] (list [a b a] [d e e]))"
    b.add("column sym with the default file of symbols", [["Q (set-splayed \"t/\" %s)" % t], ["!" + o for o in OTHER[:1]] + ["=E (at (get-splayed \"t/\") 'sym)"]], ["(at %s 'sym)" % t])
    b.run()
    return c.finish("distinct (history of stores, value) pairs whose value read back was compared")



KINDS = [("[true false true]", []), ("[0x01 0x02 0xff]", []), ('"abc"', []), ("[1h 2h 0Nh]", []), ("[1i 0Ni]", []), ("[1 2 3]", []), ("[1.5 0Nf]", []), ("[2001.01.01 0Nd]", []), ("[00:00:01.000 0Nt]", []),
         ("[2001.01.01D00:00:00.000000001 0Np]", []), ("(as 'GUID (list \"%s\" \"%s\"))" % (G[0], G[1]), []), ("[a bc 0Ns a]", []), ("[]", []), ("(list 1 'a \"bc\" [1 2] (list 2.5 (list 'x)))", ["#"]),
         ("(list)", ["#"]), ("(table [a b] (list [1 2] [x y]))", []), ("(table [a] (list (list 1 \"s\")))", []), ("(list [1 2] {a: 1} (fn [x] (+ x 1)))", ["#"]), ("(til 600)", []), ("(at [aa b cc] (% (til 700) 3))", []), ("(take [1.5 2.5] 520)", [])]
ENUMT = "(table [p] (list [a bc 0Ns a]))"
USE = ["(get \"{f}\")", "(do (set x (get \"{f}\")) (list (count x) (at x 0) (first x) (last x) (take x 2) (== x x)))", "(do (set x (get \"{f}\")) (format \"%\" x) (count (concat x x)))", "(count (distinct (get \"{f}\")))", "(count (xasc (get \"{f}\") 'a))", "(count (asc (get \"{f}\")))"]


def shim():
    import subprocess, hashlib
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "fault.c")
    from vt import build
    so = os.path.join(build.CACHE, "fault-%s.so" % hashlib.sha256(open(src, "rb").read()).hexdigest()[:12])
    if not os.path.exists(so):
        os.makedirs(build.CACHE, exist_ok=True)
        subprocess.run(["clang", "-O1", "-shared", "-fPIC", "-o", so + ".%d" % os.getpid(), src, "-ldl"], check=True)
        os.rename(so + ".%d" % os.getpid(), so)
    return so


def cuts(n, deep):
    """every length shorter than n; the padding of a page is taken at its ends and middle only"""
    if n <= 700 or deep:
        return list(range(n))
    return sorted(set(list(range(0, 100)) + list(range(100, n - 600, 61)) + list(range(4000, min(n, 4200))) + list(range(max(0, n - 300), n))))


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def wr(p, b):
    with open(p, "wb") as f:
        f.write(b)


def torn(c, deep, flavor):
    """single values: every prefix of every file of theirs, every byte of the headers replaced"""
    exe = drv.driver(flavor)
    d = tempfile.mkdtemp(prefix="vtst")
    try:
        jobs = []
        for k, (v, ext) in enumerate(KINDS + [("enum", [])]):
            f = "k%d" % k
            if v == "enum":
                r = drv.run_chunk(exe, [], ["E (set-splayed \"sp/\" %s)" % ENUMT], 1, d)
                shutil.copy(os.path.join(d, "sp/p"), os.path.join(d, f))
                want, pre = None, ["Q (get-splayed \"sp/\")"]
            else:
                r = drv.run_chunk(exe, [], ["Q (set \"%s\" %s)" % (f, v), "E " + v], 1, d)
                want, pre = r[1], []
            for e in [""] + ext:
                data = rd(os.path.join(d, f + e))
                muts = [("cut at %d" % n, data[:n]) for n in cuts(len(data), deep)]
                hdr = list(range(16)) + (list(range(4096, 4112)) if len(data) > 4111 and data[1] != 0 and v[0] in "(e" else []) + (list(range(16, min(len(data), 120))) if v.startswith("(") or v.startswith("[a") else [])
                vals = range(256) if deep else [0, 1, 2, 3, 4, 5, 7, 9, 12, 15, 20, 21, 63, 64, 98, 99, 100, 101, 102, 111, 127, 128, 135, 160, 244, 245, 247, 250, 251, 252, 253, 254, 255]
                muts += [("byte %d = %d" % (o, b), data[:o] + bytes([b]) + data[o + 1:]) for o in hdr if o < len(data) for b in vals if data[o] != b]
                jobs.append((k, v, f, e, ext, want, pre, muts))
        parts = []
        for j in jobs:
            parts += [j[:7] + (j[7][i:i + 100],) for i in range(0, len(j[7]), 100)]

        def one(j):
            k, v, f, e, ext, want, pre, muts = j
            if len(c.viol) > 40:
                return j, None
            w = tempfile.mkdtemp(dir=d)
            if v == "enum":
                shutil.copytree(os.path.join(d, "sp"), os.path.join(w, "sp"))
            cmds = []
            for i, (_, m) in enumerate(muts):
                for x in [""] + ext:
                    wr(os.path.join(w, "f%d%s" % (i, x)), m if x == e else rd(os.path.join(d, f + x)))
                cmds += ["E " + u.format(f="f%d" % i) for u in USE]
            r = drv.run_chunk(exe, pre, cmds, 1, w, {"VT_ALARM": "20"}, 900, fork=True)
            shutil.rmtree(w)
            return j, r
        with ThreadPoolExecutor(8) as ex:
            for j, r in ex.map(one, parts):
                if r is None:
                    continue
                k, v, f, e, ext, want, pre, muts = j
                for i, (name, m) in enumerate(muts):
                    c.states += 1
                    for q, u in enumerate(USE):
                        g = r[i * len(USE) + q]
                        c.transitions += 1
                        rep = "value %s, file %s, %s\n%s" % (v, e, name, u)
                        if isinstance(g, drv.Crash):
                            c.violation("torn %s%s %s" % (v, e, u), "%s%s with %s: %s -> %s" % (v, e, name, u, str(g)[:300]), rep)
                        elif q == 0 and want is not None and name.startswith("cut") and g[0] != "ERR" and not same(norm(want), norm(g)):
                            c.violation("silent %s%s" % (v, e), "%s%s %s is read as %s" % (v, e, name, str(g)[:300]), rep)
                    c.mark(v + e + name)
    finally:
        shutil.rmtree(d)


TORNT = ["(table [p q] (list [1 2 3] [a b a]))", "(table [p q] (list (list \"ab\" 'c 5) [0Ns x y]))", "(table [p] (list [1.5 2.5]))"]
TUSE = ["T", "(count T)", "(select {from: T where: (== p (at p 1))})", "(at T 1)", "(take T 2)", "(select {n: (count p) from: T by: p})", "(format \"%\" T)"]


def session(c, exe, w, cmds, name, env=None):
    r = drv.run_chunk(exe, [], cmds, 1, w, env)
    c.transitions += len(cmds)
    for x, y in zip(cmds, r):
        if isinstance(y, drv.Crash):
            c.violation(name.split(":")[0], "%s: %s -> %s" % (name, x, str(y)[:300]), name + "\n" + "\n".join(cmds))
    return r


def torn_tables(c, deep, flavor):
    exe = drv.driver(flavor)
    d = tempfile.mkdtemp(prefix="vtst")
    try:
        jobs = []
        for k, t in enumerate(TORNT):
            b = os.path.join(d, "b%d" % k)
            os.mkdir(b)
            r = drv.run_chunk(exe, [], ["Q (set-splayed \"t/\" %s)" % t, "E " + t], 1, b)
            for f in sorted(os.listdir(b + "/t")):
                n = os.path.getsize(b + "/t/" + f)
                jobs += [(t, b, f, x, r[1]) for x in [-1] + (cuts(n, deep) if n < 700 or deep else [x for x in cuts(n, deep) if x < 40 or x > 4080])]

        def one(j):
            t, b, f, n, want = j
            w = tempfile.mkdtemp(dir=d)
            shutil.copytree(b + "/t", w + "/t")
            if n < 0:
                os.unlink(w + "/t/" + f)
            else:
                wr(w + "/t/" + f, rd(b + "/t/" + f)[:n])
            r = drv.run_chunk(exe, [], ["E (set T (get-splayed \"t/\"))"] + ["E " + u for u in TUSE], 1, w)
            shutil.rmtree(w)
            return j, r
        with ThreadPoolExecutor(8) as ex:
            for (t, b, f, n, want), r in ex.map(one, jobs):
                c.states += 1
                c.mark("splayed %s %s %d" % (t, f, n))
                for u, g in zip(["get"] + TUSE, r):
                    c.transitions += 1
                    rep = "splayed %s, %s cut at %d: %s" % (t, f, n, u)
                    if isinstance(g, drv.Crash):
                        c.violation("torn splayed %s %s" % (f, u), rep + " -> " + str(g)[:300], rep)
                if f != "sym" and not isinstance(r[0], drv.Crash) and r[0][0] != "ERR" and not same(norm(want), norm(r[0])):
                    c.violation("silent splayed " + f, "%s: %s cut at %d is read as %s" % (t, f, n, str(r[0])[:300]), rep)
    finally:
        shutil.rmtree(d)


HIST = [("value", ["(set \"f\" %s)" % v], ["(get \"f\")"]) for v in ("[1 2 3]", "[a b 0Ns]", "(list 1 'a \"bc\")", "(table [a b] (list [1 2] [x y]))", "(til 600)")] + [
    ("splayed", ["(set-splayed \"t/\" %s)" % t], ["(get-splayed \"t/\")"]) for t in TORNT] + [
    ("splayed with symbols", ["(set-splayed \"t/\" %s \"sy\")" % TORNT[0]], ["(get-splayed \"t/\" \"sy\")"])]
BEFORE = [None, ("(set \"f\" [9 8 7 6])", "(set-splayed \"t/\" (table [p q] (list [7 8] [z a])))"), ("(set \"f\" (list \"abc\" 'x))", "(set-splayed \"t/\" (table [p q] (list [7 8] [z a])) \"sy\")"), ("(set \"f\" (til 1000))", "(set-splayed \"t/\" (table [q] (list [1 2 3])))")]


def faults(c, deep, flavor):
    exe = drv.driver(flavor)
    so = shim()
    d = tempfile.mkdtemp(prefix="vtst")
    parts_ = (0, 0.5, 1) if not deep else (0, 0.1, 0.25, 0.5, 0.75, 0.9, 1)
    try:
        jobs = [(kind, st[0], use[0], b, m) for kind, st, use in HIST for b in BEFORE for m in [("E", 0)] + [(m, p) for m in "SFC" for p in parts_ if not (m == "F" and p == 1)]]

        def one(j):
            kind, st, use, b, (m, p) = j
            res = []
            if len(c.viol) > 40:
                return j, None
            for n in range(40):
                w = tempfile.mkdtemp(dir=d)
                if b:
                    drv.run_chunk(exe, [], ["Q " + b[0 if kind == "value" else 1]], 1, w)
                r = drv.run_chunk(exe, [], ["E " + st], 1, w, {"LD_PRELOAD": so, "VT_FAULT": "%d:%s:%g" % (n, m, p)})
                died = isinstance(r[0], drv.Crash) and r[0].rc == 77
                g = drv.run_chunk(exe, [], ["E " + use, "E (count %s)" % use, "Q " + st, "E " + use, "E 0"], 1, w)
                g2 = drv.run_chunk(exe, [], ["E " + use], 1, w)
                shutil.rmtree(w)
                res.append((n, r[0], died, g, g2[0]))
                # the plain run: the fault lies behind the last write
                w = None
                if m == "C" and not died or m in "EF" and r[0][0] != "ERR" or m == "S" and n > 14:
                    break
            return j, res
        with ThreadPoolExecutor(8) as ex:
            for (kind, st, use, b, (m, p)), res in ex.map(one, jobs):
                if res is None:
                    continue
                want = res[-1][4]  # without a fault
                for n, r, died, g, g2 in res:
                    c.states += 1
                    c.transitions += 6
                    last = (n, r, died, g, g2) is res[-1] or n == res[-1][0]
                    name = "%s over %s: write %d %s%g" % (st, b and b[0 if kind == "value" else 1], n, m, p)
                    c.mark(name)
                    for x in (r,) + tuple(g) + (g2,):
                        if isinstance(x, drv.Crash) and not (x is r and died):
                            c.violation("fault crash " + kind, "%s -> %s" % (name, str(x)[:300]), name)
                    if isinstance(r, drv.Crash) and not died:
                        continue
                    if not died and r[0] != "ERR" and (isinstance(g[0], drv.Crash) or not same(rows(want), rows(g[0]))):
                        c.violation("lost " + kind, "%s reported success, but reads %s" % (name, str(g[0])[:300]), name)
                    if m == "S" and r[0] == "ERR":
                        c.violation("short " + kind, "%s failed: %s" % (name, r), name)
                    if b is None and not isinstance(g[0], drv.Crash) and g[0][0] != "ERR" and not same(rows(want), rows(g[0])) and use.startswith("(get \""):
                        c.violation("torn " + kind, "%s left %s" % (name, str(g[0])[:300]), name)
                    # the next store of the same value makes everything good
                    if isinstance(g[3], drv.Crash) or not same(rows(want), rows(g[3])) or isinstance(g2, drv.Crash) or not same(rows(want), rows(g2)):
                        c.violation("again " + kind, "%s, then stored again, reads %s and %s" % (name, str(g[3])[:200], str(g2)[:200]), name)
    finally:
        shutil.rmtree(d)


RECS = [("(list 'f 1)", lambda n: 10 * n + 1), ("(list 'f 2)", lambda n: 10 * n + 2), ("(list 'g \"text\" [1 2 3])", lambda n: 10 * n + 4 + 3), ("(list set 'n 7)", lambda n: 7), ("\"comment\"", lambda n: n), ("5", lambda n: n), ("(list 'g \"\" (table [a b] (list [1 2] [x y])))", lambda n: 10 * n + 2)]
JDEF = "Q (do (set n 0) (set f (fn [x] (set n (+ x (* 10 n))))) (set g (fn [x y] (f (+ (count x) (count y))))))"


def journal(c, deep, flavor):
    """every sequence of records, cut at every byte: what is whole is replayed, in order and once"""
    exe = drv.driver(flavor)
    d = tempfile.mkdtemp(prefix="vtst")
    try:
        jobs = [q for k in ((1, 2, 3, 4) if deep else (1, 2, 3)) for q in itertools.product(range(len(RECS)), repeat=k)]

        def one(q):
            w = tempfile.mkdtemp(dir=d)
            # written in as many sessions as records
            sizes = []
            for i in q:
                r = drv.run_chunk(exe, [JDEF], ["Q (set h (hopen \"j\"))", "E (write h %s)" % RECS[i][0], "E (hclose h)"], 1, w)
                sizes.append(os.path.getsize(w + "/j") - sum(sizes) if os.path.exists(w + "/j") else -1)
            data = rd(w + "/j")
            cs = list(range(1, len(data) + 1)) if len(q) < 3 or deep else sorted(set([len(data)] + [y for y in range(1, len(data)) if min(abs(y - sum(sizes[:z])) for z in range(len(q) + 1)) < 3]))
            cmds = []
            for y in cs:
                wr(w + "/j%d" % y, data[:y])
                cmds += ["Q (set n 0)", "Q (set h (hopen \"j%d\"))" % y, "E (read h)", "E n", "E (read h)", "E n", "E (hclose h)"]
            r = drv.run_chunk(exe, [JDEF], cmds, 1, w, None, 900, fork=True)
            shutil.rmtree(w)
            return q, sizes, cs, r
        with ThreadPoolExecutor(8) as ex:
            for q, sizes, cs, r in ex.map(one, jobs):
                for i, y in enumerate(cs):
                    c.states += 1
                    c.transitions += 7
                    k = max(z for z in range(len(q) + 1) if sum(sizes[:z]) <= y)
                    n = 0
                    exp = []
                    for rep in range(2):
                        for z in q[:k]:
                            n = RECS[z][1](n)
                        exp += [["DICT", ["SYMBOL", ["items", "read", "total"]], ["I64", [k, sum(sizes[:k]), y]]], ["i64", n]]
                    g = r[7 * i:7 * i + 7]
                    name = "records %s cut at %d of %d" % ([RECS[z][0] for z in q], y, sum(sizes))
                    c.mark(str(q) + str(y))
                    for e, got in zip(exp, g[2:6]):
                        if isinstance(got, drv.Crash) or e is not None and got != e:
                            c.violation("journal", "%s: expected %s, got %s" % (name, e, str(got)[:300]), name)
                            break
    finally:
        shutil.rmtree(d)


def p16(tier):
    c = report.Check("P16", tier, "fault_enumeration")
    deep = tier == "thorough"
    for fl in ("rel", "asan") if deep else ("rel",):
        torn(c, deep and fl == "rel", fl)
        torn_tables(c, deep and fl == "rel", fl)
    faults(c, deep, "rel")
    journal(c, deep, "rel")
    return c.finish("distinct torn files and fault positions")


if __name__ == "__main__":
    sys.exit({"P15": p15, "P16": p16}[sys.argv[1]](sys.argv[2]))
