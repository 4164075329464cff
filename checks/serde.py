"""P17: serialization followed by deserialization, in this or in another process, yields the same value."""
import sys, os, itertools, re, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import report, drv, build as B
from vt.val import *

pid, tier = sys.argv[1], sys.argv[2]
c = report.Check(pid, tier, "exploration")
deep = tier == "thorough"
NaN = float("nan")
DOM = {
    "B8": [0, 1], "U8": [0, 127, 128, 255], "C8": ["a", "b", "z"],
    "I16": [N16, -1, 0, 255, 256, 32767], "I32": [N32, -1, 0, 256, 65536, 2**31 - 1],
    "I64": [N64, -1, 0, 255, 1 << 32, 2**63 - 1], "F64": [NaN, -2.5, 0.0, 1e15, 0.1],
    "DATE": [N32, -1, 0, 9999], "TIME": [N32, 0, 86399999], "TIMESTAMP": [N64, -1, 0, 1 << 60],
    "SYMBOL": [None, "a", "abc", "longer-symbol-name-than-sixteen"],
}
G = ["00112233-4455-6677-8899-aabbccddeeff", "ffffffff-ffff-ffff-ffff-ffffffffffff"]
exprs = ["null", "(list)", "{}", '""']
atoms, vecs = [], []
for t, d in DOM.items():
    atoms += [atom(t, v) for v in d]
    for n in range(0, 4 if deep else 3):
        for vs in itertools.product(d, repeat=n):
            vecs.append(vec(t, vs) if vs or t != "SYMBOL" else "(as 'SYMBOL [])")
    vecs.append("(take %s %d)" % (vec(t, d), 300))
    vecs.append("(take %s %d)" % (vec(t, d), 5000))
atoms += ["(as 'guid \"%s\")" % g for g in G]
vecs += ["(as 'GUID (list %s))" % " ".join('"%s"' % g for g in gs) for n in (1, 2) for gs in itertools.product(G, repeat=n)]
exprs += atoms + vecs
# one element of every kind, as list elements: every pair, and nested
REP = ["5", "true", "0x10", "3h", "7i", "1.5", "0Nf", "'sym", "0Ns", "'a'", "2001.01.01", "00:00:01.000", "2001.01.01D00:00:00.000000001", "(as 'guid \"%s\")" % G[0],
       "[true]", "[0x01 0x02]", '"abc"', '""', "[1h 2h 3h]", "[1i]", "[1 2]", "[]", "[1.5]", "[a bc]", "[2001.01.01]", "[00:00:01.000]", "[2001.01.01D00:00:00.000000001]",
       "(as 'GUID (list \"%s\"))" % G[1], "(list)", "(list 1 'a)", "{a: 1}", "{}", "(table [a b] (list [1 2] [x y]))", "+", "count", "list", "(fn [x y] (+ x y))", "null"]
for a in REP:
    exprs.append(f"(list {a} 'e)")
    exprs.append(f"(list 'e (list {a} 1))")
    exprs.append("{k: %s}" % a)
    exprs.append("{k: {l: %s} m: 2}" % a)
for a, b in itertools.product(REP, repeat=2):
    exprs.append(f"(list {a} {b} 'e)")
    exprs.append(f"(dict [k l] (list {a} {b}))")
    if deep:
        exprs.append(f"(list (list {a} 'x) (list 1 {b}))")
        exprs.append(f"(dict (list {a} 'zz) (list 1 {b}))")
for d in (3, 10, 100, 1000):
    exprs.append("(fold (fn [x y] (list x 'y)) 1 (til %d))" % d)
# dictionaries and tables over every column type
cols = [v for t, dd in DOM.items() for v in (vec(t, dd[:2]), "(take %s 2)" % vec(t, dd[-1:]))] + ["(list 1 \"a\")", "(list [1] 'b)", '(list "ab" "c")', "(as 'GUID (list \"%s\" \"%s\"))" % (G[0], G[1])]
for a, b in itertools.product(cols, repeat=2):
    exprs.append(f"(dict {a} {b})")
    exprs.append(f"(table [p q] (list {a} {b}))")
for a in cols:
    exprs.append(f"(table [p] (list (take {a} 0)))")
    exprs.append(f"(first (table [p] (list {a})))")
    exprs.append(f"(group {a})")
# sizes: elements, lengths of names and texts, of lists, of dictionaries and tables, of functions
LEN = list(range(4, 40 if deep else 20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000] + ([4095, 4096, 4097, 16383, 16385, 65535, 65536, 65537] if deep else [4097, 65537])
for n in LEN:
    for t, d in DOM.items():
        exprs.append("(take %s %d)" % (vec(t, d), n))
        exprs.append("(list 'a (take %s %d) 'b)" % (vec(t, d), n))
    exprs.append("(take (as 'GUID (list \"%s\" \"%s\")) %d)" % (G[0], G[1], n))
    exprs.append("(take \"abcdefg\" %d)" % n)
    nm = '(as \'symbol (take "abcdefg" %d))' % n
    exprs += [nm, "(list %s 'b %s 1)" % (nm, nm), "(concat %s [a b])" % nm, "(dict (concat [a b] %s) [1 2 3])" % nm, "(table (concat %s [b]) (list [1 2] [x y]))" % nm]
    exprs.append("(take (list 1 'a \"b\") %d)" % n)
    exprs.append("(dict (til %d) (take [x y z] %d))" % (n, n))
    exprs.append("(dict (take (as 'SYMBOL (til %d)) %d) (take (list 1 \"s\") %d))" % (n, n, n))
    exprs.append("(table [p q r] (list (til %d) (take [x y z] %d) (take (list 1 \"s\") %d)))" % (n, n, n))
    if n <= 600:
        exprs.append("(table (as 'SYMBOL (til %d)) (map (fn [x] (til 3)) (til %d)))" % (n, n))
# every builtin
src = open(os.path.join(B.REPO, "core/env.c")).read()
names = re.findall(r'REGISTER_FN\(functions,\s*"([^"]+)"', src)
exprs += names
# functions: compared by behaviour below
LAM = [("(fn [x] x)", "5"), ("(fn [x y] (+ x y))", "2 3"), ("(fn [x] (let y 2) (* x y))", "4"), ("(fn [x] (if (> x 1) \"big\" [1 2]))", "2"),
       ("(fn [] (sum [1 2 3]))", ""), ("(fn [x] (map (fn [y] (* y 2)) x))", "[1 2 3]"), ("(fn [x] (select {a: a from: x where: (> a 1)}))", "(table [a] (list [1 2 3]))"),
       ("(fn [x] (try (raise \"e\") (fn [e] x)))", "7"), ("(fn [x] (list 'a x))", "5"), ("(fn [x] (self x))", None), ("(fn [x] (at x 'k))", "{k: 3}")]
for n in (3, 4, 7, 8, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, 129):
    ar = " ".join("a%d" % k for k in range(n))
    LAM.append(("(fn [%s] (list %s))" % (ar, ar), " ".join(str(k) for k in range(n))))
    LAM.append(("(fn [x] (do %s))" % " ".join("(let l%d (+ x %d))" % (k, 1000 + k) for k in range(n)), "5"))
    LAM.append(("(fn [x] (list x %s))" % " ".join('"s%d" %d.5' % (k, k) for k in range(n)), "5"))
    LAM.append(("(fn [x] %s)" % ("(+ 1 " * n + "x" + ")" * n), "5"))
exprs += [l for l, _ in LAM]

setup = ["Q (set zzz 1)"]
dup = [f"E {e}" for e in exprs]
want = drv.run_all(dup, setup=setup)
got = drv.run_all([f"E (de (ser {e}))" for e in exprs], setup=setup)
ser1 = drv.run_all([f"E (ser {e})" for e in exprs], setup=setup)
ser2 = drv.run_all([f"E (ser (de (ser {e})))" for e in exprs], setup=setup)
# another process with another interning history decodes the bytes
hexs = [None if isinstance(s, drv.Crash) or s[0] != "U8" else "[" + " ".join("0x%02x" % (x & 255) for x in s[1]) + "]" for s in ser1]
far_idx = [i for i, h in enumerate(hexs) if h and len(h) < 3000]
far = dict(zip(far_idx, drv.run_all(["E (de %s)" % hexs[i] for i in far_idx], setup=["Q (list 'q 'bc 'zz 'abc 'xx 'a)", "Q (list 'sym 'm 'l 'k)"])))
c.transitions += 4 * len(exprs) + len(far)
c.states = len(exprs)
mode = []
for i, e in enumerate(exprs):
    w, g = want[i], got[i]
    if isinstance(w, drv.Crash) or w[0] == "ERR":
        if w != ["ERR", 1] and isinstance(w, drv.Crash):
            c.violation(e, f"{e}: evaluating the value itself crashed {w}", e)
        mode.append(0)
        continue
    mode.append(1)
    c.mark(json.dumps(w))
    if isinstance(ser1[i], drv.Crash) or ser1[i][0] != "U8":
        c.violation("ser " + e, f"(ser {e}) -> {ser1[i]}", e)
        continue
    if isinstance(g, drv.Crash) or not same(w, g):
        c.violation(e, f"(de (ser {e}))\n expected {str(w)[:300]}\n got      {str(g)[:300]}", e)
    elif ser1[i] != ser2[i]:
        c.violation("reser " + e, f"(ser (de (ser {e}))) differs from (ser {e}): {str(ser1[i])[:300]} {str(ser2[i])[:300]}", e)
    hs = int.from_bytes(bytes(x & 255 for x in ser1[i][1][8:16]), "little")
    if hs != len(ser1[i][1]) - 16:
        c.violation("size " + e, f"(ser {e}): header says {hs}, payload is {len(ser1[i][1]) - 16} bytes", e)
    if i in far and (isinstance(far[i], drv.Crash) or not same(w, far[i])):
        c.violation("far " + e, f"bytes of (ser {e}) decoded in another process\n expected {str(w)[:300]}\n got      {str(far[i])[:300]}", e)
# a decoded function behaves as the original
ll = [(l, a) for l, a in LAM if a is not None]
for flav in ("rel", "asan"):
    w = drv.run_all([f"E ({l} {a})" for l, a in ll], flavor=flav)
    g = drv.run_all([x for l, a in ll for x in (f"Q (set f (de (ser {l})))", f"E (f {a})")], flavor=flav)[1::2]
    c.transitions += 2 * len(ll)
    for (l, a), x, y in zip(ll, w, g):
        if isinstance(y, drv.Crash) or not same(x, y):
            c.violation(f"call {l} {a}", f"decoded {l} applied to {a}: expected {x} got {y}", l)
c.notes["not_values"] = mode.count(0)
c.sample({"expr": exprs[40], "value": str(want[40])[:200]})
c.sample({"expr": exprs[-20], "value": str(want[-20])[:200]})
c.sample({"expr": exprs[len(exprs) // 2], "value": str(want[len(exprs) // 2])[:200]})
c.finish("distinct values whose (de (ser x)), re-encoding, header size and decoding in a process with another symbol history were compared with x")
