#!/usr/bin/env python3
"""P29: queries on tables in partitions give what they give on the one table of all their rows."""
import itertools, os, re, sys, tempfile, subprocess
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import drv, report

DATES = ["2024.01.0%d" % d for d in range(1, 7)]
D0 = 8766
COLS = {   # text of the values of a column, by row
    "h": ["3h", "-1h", "0Nh", "7h", "2h", "2h", "9h", "0h"], "i": ["5i", "0Ni", "-2i", "1i", "8i", "4i", "0i", "6i"], "j": ["10", "-20", "30", "0Nl", "50", "7", "8", "9"],
    "f": ["1.5", "2.5", "0Nf", "-3.5", "8.25", "0.5", "7.0", "2.0"], "d": ["2001.01.01", "2002.02.02", "1999.12.31", "2003.03.03", "0Nd", "2004.04.04", "2005.05.05", "2000.01.01"],
    "t": ["00:00:01.000", "0Nt", "12:00:00.000", "00:00:00.001", "05:05:05.005", "23:59:59.999", "01:00:00.000", "02:00:00.000"],
    "p": ["2001.01.01D00:00:00.000000001", "2002.02.02D00:00:00.000000002", "0Np", "1999.12.31D23:59:59.999999999", "2004.04.04D00:00:00.000000000", "2005.01.01D00:00:00.000000000", "2006.01.01D00:00:00.000000000", "2007.01.01D00:00:00.000000000"],
    "b": ["true", "false", "true", "true", "false", "false", "true", "false"], "s": ["a", "b", "cc", "a", "b", "d", "a", "e"]}
NUM = "hijf"
AGG = [("count", c) for c in COLS] + [(f, c) for c in "jf" for f in ("sum", "min", "max", "avg", "med", "dev")]


def col(c, rows): return "[%s]" % " ".join(COLS[c][r] for r in rows)


def norm(v):
    """enumerations are symbols, mapped lists are lists"""
    if isinstance(v, list) and v and v[0] in ("ENUM", "MAPLIST") and len(v) == 2: return norm(v[1])
    if isinstance(v, list): return [norm(x) for x in v]
    if isinstance(v, float): return "nan" if v != v else float("%.12g" % v)
    return v


def err(v): return not isinstance(v, list) or v[0] == "ERR"


def case(args):
    sizes, tier, masks, flavor = args
    n = sum(sizes)
    part = [k for k, s in enumerate(sizes) for _ in range(s)]
    d = tempfile.mkdtemp(prefix="vt_parted_")
    names = list(COLS)
    mk = {m: [m >> r & 1 for r in range(n)] for m in masks}

    def table(rows, date):
        nm = (["Date"] if date else []) + names + ["m%d" % m for m in masks] + ["z"]
        cs = (["[%s]" % " ".join(DATES[part[r]] for r in rows)] if date else []) + [col(c, rows) for c in names] + ["[%s]" % " ".join(str(mk[m][r]) for r in rows) for m in masks]
        cs.append("(list %s)" % " ".join('"%s"' % ("x" * r) for r in rows))
        return "(table [%s] (list %s))" % (" ".join(nm), " ".join(cs))
    setup = ["Q (set-splayed \"db/%s/t/\" %s \"db/sym\")" % (DATES[k], table([r for r in range(n) if part[r] == k], False)) for k in range(len(sizes))]
    setup += ["Q (set t (get-parted \"db/\" 't))", "Q (set m %s)" % table(range(n), True)]
    q = []         # (query on T, rows selected by it, kind)
    conds = [("", range(n))]
    for m in masks: conds.append(("(== m%d 1)" % m, [r for r in range(n) if mk[m][r]]))
    for k in range(len(sizes)):
        for o, f in (("==", lambda a, b: a == b), ("!=", lambda a, b: a != b), ("<", lambda a, b: a < b), (">=", lambda a, b: a >= b)):
            conds.append(("(%s Date %s)" % (o, DATES[k]), [r for r in range(n) if f(part[r], k)]))
            conds.append(("(%s %s Date)" % (o, DATES[k]), [r for r in range(n) if f(k, part[r])]))
        for m in masks[::5]:
            conds.append(("(and (== Date %s) (== m%d 1))" % (DATES[k], m), [r for r in range(n) if part[r] == k and mk[m][r]]))
            conds.append(("(and (== m%d 1) (> Date %s))" % (m, DATES[k]), [r for r in range(n) if part[r] > k and mk[m][r]]))
            conds.append(("(and (== 1 m%d) (> %s Date))" % (m, DATES[k]), [r for r in range(n) if part[r] < k and mk[m][r]]))
            conds.append(("(or (== m%d 1) (== Date %s) (== m%d 1))" % (m, DATES[k], masks[-1 - masks.index(m)]), [r for r in range(n) if part[r] == k or mk[m][r] or mk[masks[-1 - masks.index(m)]][r]]))
            conds.append(("(or (== Date %s) (== m%d 1))" % (DATES[k], m), [r for r in range(n) if part[r] == k or mk[m][r]]))
    conds.append(("(in Date [%s %s])" % (DATES[0], DATES[len(sizes) - 1]), [r for r in range(n) if part[r] in (0, len(sizes) - 1)]))
    conds.append(("(== Date 2031.01.01)", []))
    for a, b in zip(masks, masks[3:] + masks[:3]):
        conds.append(("(and (== m%d 1) (== m%d 0))" % (a, b), [r for r in range(n) if mk[a][r] and not mk[b][r]]))
        conds.append(("(or (== m%d 1) (== m%d 1))" % (a, b), [r for r in range(n) if mk[a][r] or mk[b][r]]))
    aggs = [" ".join("%s%s: (%s %s)" % (f, c, f, c) for f, c in AGG if f in g) for g in (("count",), ("sum", "min", "max"), ("avg",), ("dev",), ("med",))]
    cmds, exp = [], []
    for c, rows in conds:
        w = "where: " + c if c else ""
        rows = list(rows)
        if c:
            cmds.append("E (select {from: T %s})" % w)
            exp.append(("table", rows, c))
            cmds.append("E (select {x: z y: j u: s v: p from: T %s})" % w)
            exp.append(("m", rows, c))
        for a in aggs:
            cmds.append("E (select {%s from: T %s})" % (a, w)); exp.append(("m", rows, c))
            if not re.search(r"m\d", c): cmds.append("E (select {%s from: T %s by: Date})" % (a, w)); exp.append(("by", rows, c))
        cmds.append("E (count (select {n: i from: T %s}))" % w if c else "E (count T)"); exp.append(("n", rows, c))
    full = []
    for x, (k, rows, c) in zip(cmds, exp):
        full.append(x.replace("T", "t", 1) if False else x.replace(": T", ": t").replace("count T", "count t"))
        if k == "by":
            for dd in sorted(set(part[r] for r in rows)):
                full.append("E (select {%s from: m where: (and (== Date %s) %s)})" % (re.match(r"E .select .(.*) from: T", x).group(1), DATES[dd], c or "(== Date %s)" % DATES[dd]))
        else:
            full.append(x.replace(": T", ": m").replace("count T", "count m"))
    r = drv.run_chunk(drv.driver(flavor), setup, full, 1 if n % 2 else 3, d)
    subprocess.run(["/bin/rm", "-rf", d])
    bad, i = [], 0
    for x, (k, rows, c) in zip(cmds, exp):
        got = norm(r[i]) if i < len(r) else None; i += 1
        if k == "by":
            ds = sorted(set(part[z] for z in rows))
            per = [norm(y) for y in r[i:i + len(ds)]]; i += len(ds)
            if any(err(y) for y in per): want = None
            elif not ds: want = "empty"
            else:
                nm = per[0][1][1]
                want = ["TABLE", ["SYMBOL", ["Date"] + nm], ["LIST", [["DATE", [D0 + z for z in ds]]] + [[per[0][2][1][j][0], sum((y[2][1][j][1] for y in per), [])] for j in range(len(nm))]]]
        else:
            want = norm(r[i]) if i < len(r) else None; i += 1
            if k == "table" and want and not err(want):
                # the in-memory side names exactly the rows of the condition
                if want[2][1][0][1] != [D0 + part[z] for z in rows]: bad.append((sizes, x, "in memory: " + repr(want)[:300], "rows %s" % rows))
            if k == "n" and want != ["i64", len(rows)]: want = ["i64", len(rows)]
        if want == "empty":
            if not err(got) and any(len(y[1]) for y in got[2][1]): bad.append((sizes, x, repr(got)[:600], "no rows"))
        elif want is not None and not (k == "m" and err(want)) and got != want:
            bad.append((sizes, x, diff(got, want), ""))
    return len(cmds), bad


def diff(a, b):
    if isinstance(a, list) and isinstance(b, list) and a[:2] == b[:2] and a[0] == "TABLE":
        return "; ".join("%s: %r instead of %r" % (nm, x, y) for nm, x, y in zip(a[1][1], a[2][1], b[2][1]) if x != y)[:600]
    return "%s instead of %s" % (repr(a)[:400], repr(b)[:400])


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    ck = report.Check(pid, tier, "exploration")
    mp, ms = (3, 2) if tier == "quick" else (4, 2)
    jobs = []
    for p in range(1, mp + 1):
        for s in itertools.product(range(1, ms + 1), repeat=p): jobs.append((s, tier, list(range(2 ** sum(s))), "rel"))
    for s in ((3, 1), (1, 3), (1, 1, 1, 1), (3, 3), (1, 1, 1, 1, 1), (4, 1, 3), (1, 1, 1, 1, 1, 1)):
        n = sum(s)
        if (s, tier, list(range(2 ** n)), "rel") not in jobs: jobs.append((s, tier, list(range(0, 2 ** n, 1 if n <= 5 else 5 if tier == "quick" else 1)), "rel"))
    for s in ((1, 2), (2, 1, 1)): jobs.append((s, tier, list(range(2 ** sum(s))), "asan"))
    drv.driver("rel"); drv.driver("asan")
    jobs.sort(key=lambda j: -len(j[2]))
    with ThreadPoolExecutor(8) as ex:
        for (s, _, ms_, fl), (k, bad) in zip(jobs, ex.map(case, jobs)):
            ck.states += k
            ck.sample("partitions of %s rows, %d sets of selected rows" % (list(s), len(ms_)))
            for z, x, g, w in bad: ck.violation("%s %s" % (list(z), x[2:]), "partitions of %s rows: %s: %s %s" % (list(z), x[2:200], g, w), x)
    ck.ndistinct = ck.states
    ck.finish("queries are distinct pairs of a way of cutting rows into partitions and a condition or list of columns, by construction", exhaustive=True)


main()
