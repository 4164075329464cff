"""Schedules of the real code under the controlled scheduler harness/vsched.c: executors (P24), interning (P23), parallel operations (P22)."""
import sys, os, re, time, subprocess, signal, json, tempfile, shutil, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
from vt import report, build

WRAPS = ["pthread_create", "pthread_self", "pthread_join", "pthread_setaffinity_np", "pthread_getaffinity_np", "pthread_mutex_init",
         "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_wait",
         "pthread_cond_timedwait", "pthread_cond_signal", "pthread_cond_broadcast", "backoff_spin", "exit", "abort", "mmap"]
HF = "-O1 -g -march=x86-64-v3"
SCRATCH = None


def exe(queue=False):
    return build.build("sched", ["conc.c", "vsched.c"], out="concq" if queue else "conc", wraps=WRAPS, harness_flags=HF + (" -DVT_QUEUE" if queue else ""))


def run(e, scen, cores, bound, args, seconds, nproc=2, maxsteps=400000, visits=None, env=None, replay=""):
    a = [e, scen, str(cores), str(bound), str(maxsteps), "100000000", str(nproc), replay] + [str(x) for x in args]
    cwd = tempfile.mkdtemp(dir=SCRATCH) if SCRATCH else None
    en = dict(os.environ, SCHED_SECONDS=str(seconds), **(env or {}))
    if visits:
        en["SCHED_VISITS"] = str(visits)
    p = subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, text=True, errors="replace", env=en, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=seconds * 2 + 60)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc, out = "timeout", ""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    return a, out, rc


def where(e, pcs):
    """function names (identity of a race) and source lines (for people) of code addresses"""
    ids, full = [], []
    for x in pcs:
        o = subprocess.run(["addr2line", "-e", e, "-f", "-s", "-i", hex(int(x, 16) - 1)], stdout=subprocess.PIPE, text=True).stdout.split("\n")
        fs = [(o[j], o[j + 1]) for j in range(0, len(o) - 1, 2)]
        ids.append(fs[-1][0] if fs else x)
        full.append(" < ".join("%s (%s)" % f for f in fs[:4]))
    return ids, full


def collect(c, e, name, a, out, rc, value_ok=True):
    m = re.search(r"^DONE runs=(\d+) steps=(\d+) choices=(\d+) states=(\d+) outcomes=(\d+) passes=(\d+) truncated=(\d+) fails=(\d+)", out, re.M)
    for l in out.splitlines():
        if l.startswith("BAD"):
            sch, what = l[3:].split(" | ", 1)
            pcs = re.findall(r"at 0x([0-9a-f]+)", what)
            if what.startswith("race"):
                ids, full = where(e, pcs[:2])
                for x, f in zip(pcs, full):
                    what = what.replace("at 0x" + x, "in " + f)
                key = "race: " + " / ".join(sorted(ids))
            else:
                key = re.sub(r"\d+", "N", what)[:120]
            c.violation(key, "%s\n %s\n schedule:%s" % (name, what, sch or " (default)"), " ".join(repr(x) for x in a) + "\n" + l)
    if not m:
        if "BAD" not in out:
            if rc == "timeout":
                return None
            c.violation("explorer died", "%s: exit %s %s" % (name, rc, out[-300:]), " ".join(repr(x) for x in a))
        return None
    c.states += int(m.group(4))
    c.transitions += int(m.group(2))
    c.traces += int(m.group(1))
    c.mark(name)
    return dict(schedules=int(m.group(1)), steps=int(m.group(2)), choices=int(m.group(3)), states=int(m.group(4)), outcomes=int(m.group(5)), truncated=m.group(7) != "0")


def explore(c, jobs, workers, budget):
    """jobs: (name, exe, scenario, cores, bound, args, seconds, kw, expect)"""
    full = True
    table = {}
    left = [len(jobs)]
    t0 = time.time()

    def one(j):
        name, e, scen, cores, bound, args, seconds, kw, one_outcome = j
        share = 3 * (budget - (time.time() - t0)) * workers / max(1, left[0])
        left[0] -= 1
        seconds = int(min(seconds, max(4, share)))
        return (j,) + run(e, scen, cores, bound, args, seconds, **kw)
    with ThreadPoolExecutor(workers) as ex:
        for j, a, out, rc in ex.map(one, jobs):
            name, e, scen, cores, bound, args, seconds, kw, one_outcome = j
            r = collect(c, e, name, a, out, rc)
            if r is None:
                full = False
                continue
            if r["truncated"]:
                full = False
            table[name] = r
            c.sample(dict(r, scenario=name))
            if one_outcome and r["outcomes"] > 1:
                c.violation("outcome depends on the schedule: " + name, "%s: %d different outcomes" % (name, r["outcomes"]), " ".join(repr(x) for x in a))
    return full, table


# ------------------------------------------------------------------------------------------------ P24
def p24(tier):
    c = report.Check("P24", tier, "model_checking")
    quick = tier == "quick"
    e = exe()
    S = 60 if quick else 320
    J = []

    def pool(cores, bq, bt, rounds, tasks, extra, kind, destroy=""):
        b = bq if quick else bt
        if b is not None:
            J.append(("pool: %d executors, %d rounds of %d%s tasks (%s)%s, %d preemptions" % (cores, rounds, tasks, "/%d" % (tasks + extra) if extra else "", {"s": "values", "l": "lists sharing a value", "o": "the last one frees a value", "e": "errors"}[kind], ", end" if destroy else "", b),
                      e, "pool", cores, b, [rounds, tasks, extra, kind, destroy], S, {"nproc": 2}, kind == "e"))
    pool(1, 1, 2, 2, 3, 0, "s")
    pool(2, 2, 3, 1, 3, 0, "s")
    pool(2, 2, 3, 2, 2, 0, "s")
    pool(2, 2, 2, 1, 1, 0, "s")
    pool(2, 1, 2, 3, 2, 2, "s")
    pool(3, 1, 2, 2, 2, 0, "s")
    pool(3, 2, 2, 1, 2, 0, "s")
    pool(3, 1, 2, 1, 3, 0, "s")
    pool(4, 1, 2, 1, 3, 0, "s")
    pool(4, 1, 1, 2, 4, 0, "s")
    pool(2, 1, 2, 2, 2, 0, "l")
    pool(3, 1, 2, 1, 3, 0, "l")
    pool(2, 1, 3, 1, 2, 0, "o")
    pool(2, 1, 2, 2, 2, 0, "o")
    pool(3, 1, 2, 1, 3, 0, "o")
    pool(2, 2, 3, 1, 3, 0, "e")
    pool(3, 1, 2, 1, 3, 0, "e")
    pool(2, 1, 2, 2, 3, 0, "e")
    pool(2, 0, 1, 1, 2, 0, "l", "d")
    J.append(("queue grows: 2 executors, 2051 tasks", e, "grow", 2, 1, [2051], S, {"nproc": 3, "visits": 1 if quick else 3}, False))
    J.append(("queue grows twice: 2 executors, 4200 tasks, no preemption", e, "grow", 2, 0, [4200], S, {"nproc": 3, "visits": 1}, False))
    J.append(("start and end of the runtime, 2 executors", e, "life", 2, 1 if quick else 2, [], S, {"nproc": 2}, False))
    J.append(("start and end of the runtime, 3 executors", e, "life", 3, 0 if quick else 1, [], S, {"nproc": 2}, False))
    if not quick:
        J.append(("queue grows twice: 3 executors, 4200 tasks", e, "grow", 3, 1, [4200], S, {"nproc": 3, "visits": 3}, False))
    try:
        q = exe(True)
    except SystemExit:
        q = None   # the queue is not visible outside its file
    if q:
        J.append(("queue: 2 producers of 2, 1 consumer", q, "queue", 1, 2 if quick else 3, [2, 2, 0], S, {"nproc": 2}, False))
        J.append(("queue: 2 producers of 2, 2 consumers", q, "queue", 1, 1, [2, 2, 2], S, {"nproc": 3}, False))
        J.append(("queue of 4: 2 producers of 3, 1 consumer", q, "queue", 1, 1 if quick else 2, [4, 3, 0], S, {"nproc": 2}, False))
    full, table = explore(c, J, 6, 200 if quick else 600)
    return c.finish("all schedules (with spurious wakeups) up to the number of preemptions given for each scenario", full, {"scenarios": table})


# ------------------------------------------------------------------------------------------------ P23
def p23(tier):
    c = report.Check("P23", tier, "model_checking")
    quick = tier == "quick"
    e = exe()
    S = 60 if quick else 380
    J = []
    for cores, bq, bt, tasks, names, room, kind in [(2, 2, 3, 2, 2, 0, ""), (2, 2, 3, 2, 3, 0, "c"), (2, 2, 3, 2, 5, 0, "c"), (3, 1, 2, 3, 2, 0, "c"), (3, 1, 2, 3, 3, 0, ""), (3, 1, 2, 3, 4, 0, "c"),
                                                    (2, 2, 3, 2, 2, 4, ""), (2, 2, 3, 2, 2, 8, ""), (2, 2, 3, 2, 2, 12, "c"), (3, 1, 2, 3, 2, 6, ""), (2, 2, 3, 3, 2, 16, "c"), (4, 1, 1, 4, 2, 0, "c")]:
        b = bq if quick else bt
        J.append(("%d threads intern %d names%s%s, %d preemptions" % (tasks, names, " of one bucket" if kind else "", ", %d bytes left for strings" % room if room else "", b), e, "intern", cores, b, [tasks, names, room, kind], S, {"nproc": 2}, False))
    full, table = explore(c, J, 6, 200 if quick else 600)
    return c.finish("all schedules up to the number of preemptions given for each scenario", full, {"scenarios": table})


# ------------------------------------------------------------------------------------------------ P22
N = 16400
T = "(set t (table [a b c d e] (list (%% (til %d) 7) (til %d) (as 'F64 (%% (til %d) 11)) (as 'I32 (%% (til %d) 100)) (at [x y z] (%% (til %d) 3)))))" % ((N,) * 5)
X = "(set x (- (%% (til %d) 1000) 500))(set y (reverse x))(set f (as 'F64 x))(set g (as 'I32 x))(set h (as 'I16 x))(set s (at [aa bb cc dd ee] (%% (til %d) 5)))" % (N, N)
WIDE = "(set t (table [a b v] (list (* 1000003 (%% (til %d) 4001)) (* 7919 (%% (til %d) 13)) (til %d))))" % ((N,) * 3)
QJ = ("(set lt (table [s tm p] (list (at [x y] (%% (til %d) 2)) (as 'TIME (* 10 (til %d))) (til %d))))" % ((N,) * 3) +
      "(set rt (table [s tm q] (list (at [x y] (%% (til %d) 2)) (as 'TIME (* 7 (til %d))) (til %d))))" % ((N,) * 3))
SMALLJ = ("(set lt (table [s tm p] (list (at [x y] (% (til 12) 2)) (as 'TIME (* 10 (til 12))) (til 12))))"
          "(set rt (table [s tm q] (list (at [x y] (% (til 40) 2)) (as 'TIME (* 3 (til 40))) (til 40))))")
CSV = ("(set tt (table [a b c] (list (til 16500) (at [u v w] (% (til 16500) 3)) (as 'F64 (til 16500)))))(write-csv \"t.csv\" tt)", "(read-csv [I64 SYMBOL F64] \"t.csv\")")
EXPRS = []   # (set-up, expression, quick)


def ex(setup, *es, quick=True):
    for x in es:
        EXPRS.append((setup, x, quick))


# element-wise operations, folds
ex(X, "(sum (+ x y))", "(max (* f 2.0))", "(sum (- x 1))", "(sum (neg x))")
ex(X, "(sum (as 'I64 (< x y)))", "(sum (as 'I64 (== s 'aa)))", "(avg f)", "(min g)", quick=True)
ex(X, "(sum (div x 7))", "(sum (% x 7))", "(sum (xbar x 10))", "(sum (round f))", "(sum (ceil f))", "(max h)", "(dev f)", "(med x)", "(count x)", "(sum (as 'I64 (>= f 2.0)))", "(sum (as 'I64 (!= x y)))", "(sum (/ x 3))", quick=False)
ex(X, "(sum (as 'I64 (and (> x 0) (< y 100))))", "(sum (as 'I64 (or (> x 0) (< y 100) (== x 5))))", "(sum (at x (where (> x 0))))")
ex(X, "(sum (at y (til 16390)))", "(count (distinct x))", "(sum (as 'I64 (in x [1 2 3])))", "(sum (find x [5 6 7]))", "(count (group x))", "(count (group s))", quick=False)
ex(X, "(sum (til 16500))", "(count (where (in x y)))", "(sum (at f (where (== s 'bb))))", "(count (distinct s))", "(sum (at x (iasc x)))", "(sum (iasc f))", quick=False)
# grouped queries
ex(T, "(select {s: (sum b) n: (count b) m: (max c) from: t by: a})", "(select {v: (avg c) x: (dev c) from: t by: e})", "(select {f: (first b) l: (last b) from: t by: e})",
   "(select {s: (sum b) from: t where: (> b 5) by: a})", "(select {m: (med b) from: t by: a})")
ex(T, "(select {s: (min c) from: t by: {a: a e: e}})", "(select {b: b from: t where: (and (> a 2) (< d 50))})", quick=True)
ex(T, "(select {s: (min b) x: (max b) from: t where: (== e 'x) by: a})", "(select {v: (avg b) from: t where: (> a 1) by: e})", "(select {r: b from: t by: a})", "(select {s: (sum (+ b d)) from: t by: (% b 5)})",
   "(select {x: (dev b) from: t where: (< a 3) by: {e: e}})", "(select {s: (sum b) m: (med b) from: t where: (> b 100)})", "(update {b: (+ b 1) from: t where: (> a 3)})", "(update {b: (sum b) from: t by: a})", quick=False)
ex(WIDE, "(select {s: (sum v) from: t by: a})", "(select {s: (sum v) from: t by: {a: a b: b}})")
# joins
ex(QJ, "(asof-join [s tm] lt rt)", quick=False)
ex(QJ, "(sum (at (asof-join [s tm] lt rt) 'q))")
ex(SMALLJ, "(window-join [s tm] (map-left + [-20 20] (at lt 'tm)) lt rt {m: (min q) a: (avg q) d: (dev q)})", "(window-join1 [s tm] (map-left + [-20 20] (at lt 'tm)) lt rt {m: (sum q) c: (count q)})")
ex(T + "(set u (table [a z] (list (til 7) (* 10 (til 7)))))", "(sum (at (left-join [a] t u) 'z))", "(sum (at (inner-join [a] t u) 'z))", quick=False)
# functions over elements
F = "(set f (fn [x] (+ x 1)))(set g (fn [x] (f (* 2 x))))(set h (fn [x] (list x 'k (+ x 1))))(set m (fn [x] (as 'symbol (format \"n%\" (% x 40)))))(set cl [1 2 3])(set k (fn [x] (at cl (% x 3))))"
ex(F, "(sum (pmap g (til 1100)))", "(sum (map count (pmap h (til 1100))))", "(count (distinct (pmap m (til 1100))))", "(sum (pmap k (til 1100)))")
ex(F, "(pmap (fn [x] (if (> x 600) (raise \"no\") x)) (til 1100))", "(try (pmap (fn [x] (if (> x 600) (/ x 'a) x)) (til 1100)) (fn [x] 'caught))", "(sum (pmap (fn [x] (try (if (== 0 (% x 2)) (raise \"odd\") x) 7)) (til 1100)))",
   "(sum (pmap (fn [x] (sum (map (fn [y] (+ y x)) (til 3)))) (til 1100)))", "(sum (pmap (fn [x] (let q (+ x 1)) (* q 2)) (til 1100)))")
ex("(set tt (table [a b] (list [1 1 2 2 3] [5 6 7 8 9])))(set cl (list 1 'a \"txt\" [1 2 3]))",
   "(sum (pmap (fn [x] (at (at (select {m: (med b) from: tt by: a}) 'm) 0)) (til 1030)))", "(count (distinct (pmap (fn [x] (count (at cl (% x 4)))) (til 1030))))", quick=False)
ex("(set v (til 1100))(set w (list 1 2 3))", "(sum (map neg v))", "(sum (pmap neg v))", "(count (pmap (fn [x] w) v))", "(sum (map (fn [x] (+ x 1)) v))", quick=False)
ex(*CSV)
ex("(set x (til %d))(set b (> x 7))(set ts (as 'TIMESTAMP (* 1000000000 x)))(set dt (as 'DATE (%% x 900)))(set u (as 'U8 (%% x 200)))" % N, "(sum (as 'I64 (in dt (as 'DATE [1 2 3]))))", "(min ts)", "(max dt)", "(sum (as 'I64 (not b)))", "(sum (as 'I64 (== ts ts)))", "(count (distinct u))", "(sum (as 'I64 u))", quick=False)
ex(T, "(select {n: (count b) from: t by: {a: a b: (% b 3) e: e}})", "(select {n: (sum b) from: t by: c})", "(count (select {from: t where: (in e [x y])}))", "(at (select {s: (sum b) from: t by: (xbar b 1000)}) 's)", quick=False)


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        try:
            return a == b or (a != a and b != b) or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)
        except TypeError:
            return False
    return a == b


def rows(v):
    """the order of groups is not specified: tables are compared as bags of rows"""
    if isinstance(v, list) and v and v[0] == "TABLE":
        try:
            cols = [x[1] for x in v[2][1]]
            return [v[1], sorted([list(r) for r in zip(*cols)], key=lambda r: json.dumps(r))]
        except Exception:
            return v
    return v


def p22(tier):
    global SCRATCH
    c = report.Check("P22", tier, "model_checking")
    quick = tier == "quick"
    e = exe()

    SCRATCH = tempfile.mkdtemp(prefix="vtconc")
    os.chmod(SCRATCH, 0o777)
    try:
        cases = [x for x in EXPRS if x[2] or not quick]

        def value(x):
            out = []
            for cores in ((1, 2) if quick else (1, 2, 3, 4)):
                a, o, rc = run(e, "expr", cores, 0, [0, 0, 0, x[0], x[1]], 60, env={"SCHED_VALUE": "1", "SCHED_NOSPURIOUS": "1"})
                m = re.findall(r"^VALUE (.*)$", o, re.M)
                out.append((cores, a, m[-1] if m else None, o[-300:]))
            return x, out
        with ThreadPoolExecutor(8) as ex_:
            for x, out in ex_.map(value, cases):
                try:
                    vs = [None if o[2] is None else json.loads(o[2]) for o in out]
                except Exception as err:
                    raise SystemExit("cannot read the value of %s: %s" % (x[1], err))
                for o, v in zip(out, vs):
                    c.traces += 1
                    if v is None:
                        c.violation("no value: " + x[1], "%s with %d executors gives no value: %s" % (x[1], o[0], o[3]), " ".join(repr(y) for y in o[1]))
                    elif vs[0] is not None and not close(rows(vs[0]), rows(v)):
                        c.violation("value: " + x[1], "%s\n with %d executors: %s\n with one: %s" % (x[1], o[0], o[2][:600], out[0][2][:600]), " ".join(repr(y) for y in o[1]))
        J = []
        S = 40 if quick else 120
        for setup, x, q in cases:
            for cores, b, vis in ([(2, 1, 2)] if quick else [(2, 1, 6), (2, 2, 2), (3, 1, 3)]):
                J.append(("%s: %d executors, %d preemptions, %d visits of a place" % (x, cores, b, vis), e, "expr", cores, b, [0, 0, 0, setup, x], S, {"nproc": 2, "visits": vis, "maxsteps": 2000000, "env": {"SCHED_NOSPURIOUS": "1"}}, True))
        full, table = explore(c, J, 5, 200 if quick else 500)
    finally:
        shutil.rmtree(SCRATCH)
    return c.finish("all schedules up to the given number of preemptions of every parallel operation in the corpus; every access instrumented and checked for data races with vector clocks", full, {"scenarios": table})


if __name__ == "__main__":
    sys.exit({"P22": p22, "P23": p23, "P24": p24}[sys.argv[1]](sys.argv[2]))
