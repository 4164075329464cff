#!/usr/bin/env python3
"""P09: every builtin on every tuple of argument values: a value or an error, no memory error, nothing leaked, nothing changed."""
import os, re, sys, tempfile, subprocess, itertools, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import drv, report

VALS = """
true 0x05 3h 0Nh 3i 0Ni 3 0Nl -1 0 2.5 0Nf 'a 'zz 'c' 2024.01.02 0Nd 10:00:00.000 2024.01.02D10:00:00.000000000 0Np (first (guid 1))
(as 'B8 []) [true] [true false true] (as 'U8 []) [0x00 0x07 0xff] (as 'I16 []) [1h] [3h 0Nh 1h] (as 'I32 []) [2i] [1i 0Ni 2i] [] [1] [2 0Nl 0] [0 1 2] [-1 5 9]
(as 'F64 []) [1.5] [2.5 0Nf -1.0] (take ['a] 0) ['a] ['b 'a 'a] (as 'DATE []) [2024.01.02 0Nd 2000.01.01] [10:00:00.000 0Nt] [2024.01.02D10:00:00.000000000 0Np]
(as 'TIME []) (as 'TIMESTAMP []) (take (guid 1) 0) (guid 2) "" "a" "abc"
(list) (list 1 'a "x") (list [1 2] [3 4]) (list [1 2] 'a) (list 1 2 3) (list (list 1) (list)) (list "ab" "c") (list null null) (list (enum 'dom ['x 'y 'x]) (enum 'dom ['y])) (list {a: 1 b: 2} {a: 3 b: 4}) (list (table [a b] (list [1 2] ['x 'y])) (table [a b] (list [3] ['z]))) (list [1.5 0Nf] [2.5])
(list (list "x" 1) (list "y" 2)) (list count + (fn [x] x)) (dict [a b] (list {c: 1} (table [a] (list [1])))) (list 0x01 0x02) (list 'a 'b) (list true false) (list [1i 2i] [3h]) (list 1 2.5 0Nl)
{a: 1 b: 2} (dict [a b] [1 2]) (dict [1 2] ['x 'y]) (dict [a b] (list [1 2] [3 4 5])) (dict (take ['a] 0) (list)) (dict [a b c] [3 1 2])
(table [a b] (list [1 2 3] ['x 'y 'x])) (table [a] (list [])) (table [a] (list [1.5])) (table [b c] (list ['x 'y 'z] [10 20 30])) (table [a b] (list [1 2 2] (list "p" "q" [1 2])))
(fn [x] x) (fn [x y] (+ x y)) (fn [] 7) (fn [x] (raise "e")) + count list (quote (+ 1 2)) (quote zz) null (enum 'dom ['x 'y 'x]) ['I64] 'I64 'F64 'SYMBOL 'STR 'LIST 'U8
""".replace("\n", " ")


def split_vals(s):
    out, d, cur, instr, i = [], 0, "", False, 0
    while i < len(s):
        c = s[i]
        if instr:
            cur += c
            instr = c != '"'
        elif c == '"':
            cur += c; instr = True
        elif c in "([{":
            d += 1; cur += c
        elif c in ")]}":
            d -= 1; cur += c
        elif c == " " and d == 0:
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    if cur:
        out.append(cur)
    return out


V = split_vals(VALS)

UN = """get quote raise parse eval type til reverse distinct group sum avg med dev min max round floor ceil first last count not iasc idesc rank asc desc guid neg where key value
ser de rc date time timestamp nil? resolve show meta unify raze diverse row select update os-get-var load""".split()
BI = """try at == < > <= >= != + - * % / div like dict table find concat remove filter take in within sect except union rand as xasc xdesc xrank enum xbar split bin binr os-set-var""".split()
VA = """and or list enlist format apply map pmap map-left map-right fold fold-left fold-right scan scan-left scan-right alter modify insert upsert
left-join inner-join asof-join window-join window-join1 return do if""".split()
PATHY = {"load", "set"}
V3 = ["3", "0Nl", "2.5", "'a", "[1]", "[2 0Nl 0]", "[2.5 0Nf -1.0]", "['b 'a 'a]", "\"abc\"", "(list 1 'a \"x\")", "{a: 1 b: 2}", "(table [a b] (list [1 2 3] ['x 'y 'x]))", "(fn [x y] (+ x y))", "+", "count", "null", "(list)", "0x05", "[3h 0Nh 1h]", "(table [b c] (list ['x 'y 'z] [10 20 30]))", "[]", "(enum 'dom ['x 'y 'x])"]
V4F = ["+", "set", "concat", "remove", "count", "(fn [x y] (raise \"e\"))", "(fn [x y] (list x y))", "(fn [x y] (do (set zz 5) y))"]
V4X = ["'zz", "[2 0Nl 0]", "['b 'a 'a]", "[3h 0Nh 1h]", "\"abc\"", "(list 1 'a \"x\")", "(list [1 2] [3 4])", "{a: 1 b: 2}", "(dict [a b] (list [1 2] [3 4 5]))", "(dict [1 2] ['x 'y])", "(table [a b] (list [1 2 3] ['x 'y 'x]))", "(enum 'dom ['x 'y 'x])", "(fn [x y] (+ x y))", "3", "null", "[]"] + ["[2.5 0Nf -1.0]", "[true false true]", "(guid 2)", "[2024.01.02 0Nd 2000.01.01]", "[2024.01.02D10:00:00.000000000 0Np]", "[0x00 0x07 0xff]"]
V4I = ["0", "2", "7", "-1", "0Nl", "'a", "'c", "1h", "[0 2]", "[2 0 0]", "[9]", "['a 'b]", "['a 'c]", "null", "(list 0 1)", "(list 'a 1)", "(list 'a 'c)", "(list 0)", "(list)", "\"a\"", "2.5"]
V4V = ["5", "2.5", "'q", "[7 8]", "(list 7 8)", "\"xy\"", "[]", "null", "[7 8 9]", "['q 'r 's]", "(enum 'dom ['x 'y 'x])", "(table [a b] (list [1 2 3] ['x 'y 'x]))", "{a: 1 b: 2}", "0x05", "[1i 2i]", "[2 0]", "0", "'c'", "true", "(first (guid 1))", "2024.01.02", "2024.01.02D10:00:00.000000000", "3h"]
QT = ["t1", "t2", "t3", "'t1", "zz", "5", "null"]
QC = ["", "x: a", "a: b", "a: (sum a)", "c: [1 2 3]", "c: 7", "c: (list 1 2 3)", "c: (+ a 1)", "c: a", "a: 2.5", "b: 'q", "c: [1 2]", "c: (raise \"e\")", "c: nosuch", "c: (first b)", "c: \"abc\"", "c: 3h d: c", "c: (list \"p\" \"q\")", "c: (fn [x] x)", "c: null", "c: (count a)", "c: (map (fn [x] (+ x 1)) a)"]
QW = ["", "where: (> a 1)", "where: (> a 100)", "where: a", "where: [true false true]", "where: [true]", "where: nosuch", "where: (== b 'x)", "where: true", "where: null", "where: (raise \"e\")"]
QB = ["", "by: b", "by: a", "by: {g: b}", "by: {g: b h: a}", "by: nosuch", "by: [1 2 1]", "by: 5", "by: (+ a 1)", "by: (raise \"e\")", "by: {}", "by: null"]


def groups(tier):
    """chunks of cases; each chunk is run in one process and followed by a check that the operands are unchanged"""
    nv = len(V)
    i3 = [V.index(v) for v in V3]
    for f in UN:
        yield [f"({f} {m.format(i)})" for i in range(nv) if not (f in PATHY and V[i] == '""') for m in ("v{}", "(de s{})")]
    yield ["(set zz (de s%d))" % i for i in range(nv)] + ["(set zz v%d)" % i for i in range(nv)] + ["(let zz v%d)" % i for i in range(nv)]
    for f in BI + VA:
        for i in range(nv):
            yield [f"({f} v{i} v{j})" for j in range(nv)] + [f"({f} (de s{i}) (de s{j}))" for j in range(nv)]
    for f in UN + BI + VA:
        yield [f"({f})"]
    for f in ("alter", "modify"):
        for x in V4X:
            for g in V4F:
                yield [f"({f} {m % V.index(x) if m else x} {g} {i} {v})" for i in V4I for v in V4V if not (x == "'zz" and g.startswith("(fn [x y] (list") and i == "null") for m in ("v%d", "(de s%d)", "")[:3 if x != "'zz" else 2]]
                # a variable, shared and not
                yield [f"(do (set zz {m % V.index(x)}) {h}({f} 'zz {g} {i} {v}) (set zz 1))" for i in V4I for v in V4V for m in ("v%d", "(de s%d)") for h in ("",)]
    for q in ("select", "update"):
        for t in QT:
            for b in QB:
                yield [("(do (set zq t1) (%s {from: 'zq %s %s %s}))" % (q, c, w, b) if t == "'t1" else "(%s {from: %s %s %s %s})" % (q, t, c, w, b)) for c in QC for w in QW]
    for t in ("t1", "t2", "t3", "(de s%d)" % V.index("(table [a b] (list [1 2 3] ['x 'y 'x]))")):
        rows = ["(list %s)" % " ".join(e) for n in (0, 1, 2, 3) for e in itertools.product(("7", "'q", "2.5", "[7 8]", "['q 'r]", "[]", "(list 1 'q)", "null", "\"pq\"", "[2.5 0Nf]"), repeat=n)]
        rows += ["(dict [%s] (list %s))" % (" ".join(k), " ".join(e)) for n in (1, 2, 3) for k in (("a", "b", "c")[:n], ("c", "b", "a")[:n], ("a", "a", "b")[:n]) for e in itertools.product(("7", "'q", "[7 8]", "['q 'r]", "(list \"p\" \"q\")"), repeat=n)]
        rows += ["t1", "t2", "t3", "(dict [a b] [7 8])", "(dict [a b] ['q 'r])"]
        yield [f"(insert {t} {r})" for r in rows]
        for k in (0, 1, 2, 3):
            yield [f"(upsert {t} {k} {r})" for r in rows]
    for f in VA + BI[:3]:
        yield [f"({f} v{i})" for i in range(nv)] + [f"({f} (de s{i}))" for i in range(nv)]
        for i in i3:
            for j in i3:
                yield [f"({f} v{i} v{j} v{k})" for k in i3] + ([f"({f} (de s{i}) (de s{j}) (de s{k}))" for k in i3])


SETUP = ["E (set dom ['x 'y 'z])", "E (set t1 (table [a b] (list [1 2 3] ['x 'y 'x])))", "E (set t2 (table [a b c] (list [1i 2i 1i] (list \"p\" \"q\" [1]) [2.5 0Nf 1.5])))", "E (set t3 (table [a b] (list [3h 2h 1h] (enum 'dom ['x 'y 'x]))))"]
SETUP += [f"E (set v{i} {v})" for i, v in enumerate(V)] + [f"E (set s{i} (try (ser v{i}) (ser 0)))" for i in range(len(V))]
GL = "E (list t1 t2 t3 dom " + " ".join(f"v{i}" for i in range(len(V))) + ")"


def expand(e):
    return re.sub(r"\(de s(\d+)\)|\bv(\d+)\b", lambda m: V[int(m[1] or m[2])] + ("" if m[1] is None else "\u2032"), e)


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    ck = report.Check(pid, tier, "exploration")
    exe = drv.driver("asan")
    tmp = tempfile.mkdtemp(prefix="vt_total_")
    assert repr(drv.run_chunk(exe, SETUP, [GL], cwd=tmp, env={"VT_ALARM": "30"})[0]).startswith("['LIST'")
    gs = [g for g in groups(tier) if not os.environ.get("VT_F") or re.search(os.environ["VT_F"], g[0])]
    # merge groups into chunks
    chunks, cur = [], []
    for g in gs:
        cur += g
        if len(cur) > 1500:
            chunks.append(cur); cur = []
    if cur:
        chunks.append(cur)

    def go(ch):
        r = drv.run_chunk(exe, SETUP, [GL] + ["L " + e for e in ch] + [GL], cwd=tmp, env={"VT_ALARM": "30"}, timeout=700, fork=True)
        base, last, r = repr(r[0]), r[-1], r[1:-1]
        if isinstance(last, drv.Crash) or repr(last) != base:  # operands changed: find the culprit
            lo, hi = 0, len(ch)
            while hi - lo > 1:
                mid = (lo + hi) // 2
                rr = drv.run_chunk(exe, SETUP, [GL] + ["L " + e for e in ch[lo:mid]] + [GL], cwd=tmp, env={"VT_ALARM": "30"}, timeout=700, fork=True)
                if isinstance(rr[-1], drv.Crash) or repr(rr[-1]) != repr(rr[0]):
                    hi = mid
                else:
                    lo = mid
            return r, ch[lo]
        return r, None
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, chunks))
    nerr = nval = 0
    for ch, (r, changed) in zip(chunks, res):
        if changed:
            ck.violation("changed " + changed, f"{expand(changed)} modifies a value it does not own", changed)
        for e, x in zip(ch, r):
            ck.states += 1
            if isinstance(x, drv.Crash):
                san = re.search(r"ERROR: AddressSanitizer: (\S+)", x.err)
                fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) /", x.err) if f not in ("heap_free",)][:5]
                ck.violation("crash " + e, f"{expand(e)}: {san[1] if san else 'rc=%s' % x.rc} in {' < '.join(fr)}", x.err)
                continue
            v, bad, grow = x
            if isinstance(v, list) and v and v[0] == "err":
                nerr += 1
            else:
                nval += 1
            if bad:
                ck.violation("state " + e, f"{expand(e)}: interpreter registers not restored (mask {bad})", e)
            if grow:
                ck.violation("leak " + e, f"{expand(e)}: {grow} blocks are not released per evaluation", e)
    ck.ndistinct = nval
    ck.sample(f"{nval} cases give a value, {nerr} an error")
    subprocess.run(["/bin/rm", "-rf", tmp])
    ck.finish("a case is one application evaluated three times under AddressSanitizer; non-trivial: it yields a value rather than an error", exhaustive=True)


if __name__ == "__main__":
    main()
