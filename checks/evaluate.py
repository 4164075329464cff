"""P11: programs mean what the evaluation rules say (bindings, calls, conditions, sequences, errors and handlers, effects in order), the same at top level, in compiled bodies and in every kind of call.
Every program of a small grammar up to a size is put in every context and compared with a reference interpreter."""
import sys, os, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import suite, report
from vt.suite import ERR

pid, tier = sys.argv[1], sys.argv[2]
c = report.Check(pid, tier, "exploration")
S = suite.Suite(c)
deep = tier == "thorough"


class Skip(Exception):
    """the rules do not say what this program means"""


class Fail(Exception):
    def __init__(self, msg=None):
        self.msg = msg


class Ret(Exception):
    def __init__(self, v):
        self.v = v


def read(s):
    """text -> lists of atoms"""
    out, st = None, []
    for t in s.replace("(", " ( ").replace(")", " ) ").replace("[", " [ ").replace("]", " ] ").split():
        if t in "([":
            st.append([] if t == "(" else ["[]"])
            continue
        v = st.pop() if t in ")]" else t
        if st:
            st[-1].append(v)
        else:
            out = v
    return out


class Fn:
    def __init__(self, args, body):
        self.args, self.body = args, body


I = lambda v: ["i64", v]
B = lambda v: ["b8", int(v)]
NIL = ["NULL"]
COL = {"i64": "I64", "b8": "B8", "symbol": "SYMBOL", "f64": "F64", "c8": "C8"}
BUILTIN = {"+": 2, "-": 2, "*": 2, "<": 2, "==": 2, "count": 1, "neg": 1, "not": 1, "raise": 1, "list": None, "apply": None, "map": None, "quote": None, "first": 1, "fold": None, "type": 1, "concat": 2, "nil?": 1, "return": None, "eval": 1, "enlist": None}
FORMS = ("if", "do", "let", "set", "try", "and", "or", "fn", "quote", "timeit")


class Frame:
    def __init__(self, fn, args):
        self.fn, self.args, self.env = fn, dict(zip(fn.args, args)), {}


class Ref:
    def __init__(self, glob):
        self.g, self.st, self.n, self.mode = dict(glob), [], 0, "tree"

    def find(self, s):
        if s == "self":
            if not self.st:
                raise Skip
            return self.st[-1].fn
        for f in reversed(self.st):
            if s in f.args:
                return f.args[s]
            if s in f.env:
                return f.env[s]
        if s in self.g:
            return self.g[s]
        if s in BUILTIN:
            return ["builtin", s]
        raise Fail

    def call(self, fn, args):
        self.n += 1
        if self.n > 300 or len(self.st) > 30:
            raise Skip
        if isinstance(fn, Fn):
            if len(fn.args) != len(args):
                raise Fail
            self.st.append(Frame(fn, args))
            mode, self.mode = self.mode, "code"
            try:
                return self.ev(fn.body)
            except Ret as r:
                return r.v
            finally:
                self.st.pop()
                self.mode = mode
        if fn[0] == "symbol":
            f = self.find(fn[1])
            for _ in range(9):
                if isinstance(f, Fn) or f[0] != "symbol":
                    return self.call(f, args)
                f = self.find(f[1])
            raise Skip
        if fn[0] != "builtin":
            raise Fail
        return self.prim(fn[1], args)

    def prim(self, f, a):
        if BUILTIN[f] is not None and len(a) != BUILTIN[f]:
            raise Fail
        isfn = [isinstance(x, Fn) or x[0] == "builtin" for x in a]
        if f in ("list", "enlist"):
            if any(isfn) or f == "enlist" and not a:
                raise Skip
            return ["LIST", list(a)] if f == "list" else collect(a)
        if f == "return":
            if self.mode == "tree":
                raise Skip
            raise Ret(a[-1] if a else NIL)
        if f == "apply":
            if len(a) < 2:
                raise Skip
            return self.call(a[0], a[1:]) if isfn[0] else self._fail()
        if f == "map":
            if len(a) != 2 or not isfn[0]:
                raise Skip
            if a[1][0] in ("I64", "LIST"):
                return collect([self.call(a[0], [x]) for x in (map(I, a[1][1]) if a[1][0] == "I64" else a[1][1])])
            return self.call(a[0], [a[1]])
        if f == "fold":
            if len(a) != 2 or not isfn[0] or a[1][0] != "I64":
                raise Skip
            acc = I(a[1][1][0])
            for x in a[1][1][1:]:
                acc = self.call(a[0], [acc, I(x)])
            return acc
        if any(isfn):
            raise Skip
        t = [x[0] for x in a]
        if "unknown" in t:
            raise Skip
        if f == "raise":
            if t != ["C8"]:
                raise Fail
            raise Fail(a[0][1])
        if f == "eval":
            raise Skip
        if f in "+-*" and t == ["i64"] * 2:
            v = a[0][1] + a[1][1] if f == "+" else a[0][1] - a[1][1] if f == "-" else a[0][1] * a[1][1]
            return I(v) if abs(v) < 2**62 else self._skip()
        if f in ("<", "==") and t == ["i64"] * 2:
            return B(a[0][1] < a[1][1] if f == "<" else a[0][1] == a[1][1])
        if f == "neg" and t == ["i64"]:
            return I(-a[0][1])
        if f == "not" and t == ["b8"]:
            return B(not a[0][1])
        if f == "count":
            return I(len(a[0][1]) if t[0] in ("C8", "I64", "LIST", "B8") else 1) if t[0] != "NULL" else self._skip()
        if f in "+-*<==" and "symbol" in t and "NULL" not in t and "LIST" not in t:
            raise Fail
        raise Skip

    def _fail(self):
        raise Fail

    def _skip(self):
        raise Skip

    def tree(self, e):
        mode, self.mode = self.mode, "tree"
        try:
            return self.ev(e)
        finally:
            self.mode = mode

    def truth(self, v):
        if isinstance(v, Fn) or v[0] not in ("b8", "i64", "C8", "I64"):
            raise Skip
        return v[1] not in (0, "", [])

    def ev(self, e):
        if isinstance(e, str):
            if e in ("true", "false"):
                return B(e == "true")
            if e.lstrip("-").isdigit():
                return I(int(e))
            if e[0] == '"':
                return ["C8", e[1:-1]]
            if e[0] == "'":
                return ["symbol", e[1:]]
            return self.find(e)
        if e[0] == "[]":
            return ["I64", [int(x) for x in e[1:]]]
        h, a = e[0], e[1:]
        if h == "fn":
            return Fn(a[0][1:], ["do"] + a[1:] if len(a) > 2 else a[1])
        if h == "if":
            if len(a) not in (2, 3):
                raise Skip
            if self.truth(self.ev(a[0])):
                return self.ev(a[1])
            return self.ev(a[2]) if len(a) == 3 else NIL
        if h == "do":
            v = NIL
            for x in a:
                v = self.ev(x)
            return v
        if h in ("let", "set"):
            v = self.tree(a[1])
            if h == "set" or not self.st:
                self.g[a[0]] = v
            elif a[0] in self.st[-1].args:
                self.st[-1].args[a[0]] = v
            else:
                self.st[-1].env[a[0]] = v
            return v
        if h in ("and", "or"):
            # every operand is evaluated
            vs = [self.tree(x) if self.mode == "tree" else self.ev(x) for x in a]
            if any(isinstance(v, Fn) or v[0] != "b8" for v in vs):
                raise Skip
            return B((all if h == "and" else any)(v[1] for v in vs))
        if h == "try":
            depth = len(self.st)
            try:
                return self.tree(a[0])
            except Fail as x:
                assert len(self.st) == depth
                hd = self.tree(a[1])
                if isinstance(hd, Fn):
                    if len(hd.args) != 1:
                        raise Fail
                    return self.call(hd, [["C8", x.msg] if x.msg is not None else ["unknown"]])
                if a[1][0] in "'(" or a[1].isalpha() and a[1] not in ("true", "false"):
                    raise Skip
                return hd
        if h == "quote":
            raise Skip
        fn = None
        if isinstance(h, str) and self.mode == "tree" or isinstance(h, list) and self.mode == "tree":
            fn = self.ev(h)
            if isinstance(fn, list) and fn[0] == "symbol":
                fn = self.follow(fn)
            n = len(fn.args) if isinstance(fn, Fn) else BUILTIN[fn[1]] if fn[0] == "builtin" else None
            if not isinstance(fn, Fn) and fn[0] != "builtin" or n is not None and n != len(a):
                raise Fail  # before the arguments
            return self.call(fn, [self.ev(x) for x in a])
        vs = [self.ev(x) for x in a]
        fn = self.ev(h)
        return self.call(fn, vs)

    def follow(self, f):
        for _ in range(9):
            if isinstance(f, Fn) or f[0] != "symbol":
                return f
            f = self.find(f[1])
        raise Skip


def collect(rs):
    if any(isinstance(r, Fn) or r[0] in ("builtin", "unknown") for r in rs):
        raise Skip
    t = rs[0][0] if rs else None
    if t in COL and all(r[0] == t for r in rs):
        return [COL[t], [r[1] for r in rs]]
    return ["LIST", rs]


def known(v):
    if isinstance(v, Fn) or v[0] in ("builtin", "unknown"):
        return False
    return all(known(x) for x in v[1]) if v[0] == "LIST" else True


GLOB = {"g": "1", "x": "10", "y": "20", "f": "(fn [a] (+ (* 2 a) x))", "h": "(fn [n] (if (< n 1) 0 (+ n (self (- n 1)))))", "k": "(fn [y] (do (set g (+ g y)) (let x (+ y 1)) (f y)))", "w": "'f", "p": "(fn [a] (if (< a 3) (return 77) (+ a 100)))"}
RESET = " ".join("(set %s %s)" % kv for kv in GLOB.items())

T1 = ["2", "x", "g", "z", "(raise \"ab\")", "(set g (+ (* 10 g) 3))"]
C1 = ["true", "false", "(< x 6)"]


def grow(A, Bs, full):
    """expressions with subexpressions of A (first place) and Bs (others)"""
    for a in A:
        yield from ("(let x %s)" % a, "(let y %s)" % a, "(set g %s)" % a, "(f %s)" % a, "(k %s)" % a, "(w %s)" % a, "(p %s)" % a, "((fn [x] (+ x y)) %s)" % a,
                    "((fn [y] (do (let x (+ 1 y)) x)) %s)" % a, "(return %s)" % a, "(try %s 5)" % a, "(try %s (fn [m] (count m)))" % a, "(try %s (fn [m] (do (set g (+ g 100)) x)))" % a,
                    "(if (< %s 3) 4 5)" % a, "(map (fn [x] (+ x y)) (list %s 7))" % a, "(apply (fn [y] (* x y)) %s)" % a, "(fold (fn [u v] (+ (* 2 u) %s)) [1 2 3])" % a, "(neg %s)" % a)
        if full:
            yield from ("(h %s)" % a, "(if %s 4)" % a, "(try (do %s (raise \"abc\")) (fn [m] (+ (count m) x)))" % a, "((fn [x y] (- x y)) %s 3)" % a, "(map f (list 1 %s))" % a, "(apply + 1 %s)" % a,
                        "(f %s 1)" % a, "((fn [] %s))" % a, "(self %s)" % a, "(do (set f (fn [b] (* b 1000))) (f %s))" % a, "(list %s x)" % a, "(enlist %s y)" % a, "(5 %s)" % a)
    for a, b in itertools.product(A, Bs):
        yield from ("(+ %s %s)" % (a, b), "(do %s %s)" % (a, b), "(if (== %s 2) %s (f 1))" % (a, b), "(try (do %s %s) (fn [m] (+ x g)))" % (a, b))
        if full:
            yield from ("(if true %s %s)" % (a, b), "(if false %s %s)" % (a, b), "((fn [x y] (do (set g (+ g x)) (- x y))) %s %s)" % (a, b), "(and (< %s 3) (< %s 3))" % (a, b), "(or (< %s 3) (== %s 2))" % (a, b),
                        "(try %s (fn [m] %s))" % (a, b), "((fn [x] %s) %s)" % (b, a), "(do (let y %s) %s y)" % (a, b), "(map (fn [x] %s) (list 1 %s))" % (b, a))


E1 = T1
E2 = list(dict.fromkeys(grow(T1, T1, True)))
E3 = list(dict.fromkeys(list(grow(E2, T1, deep)) + (list(grow(T1, E2, False)))))
CTX = [
    "%s",
    "((fn [] %s))",
    "((fn [x] (list %s x y g)) 5)",
    "((fn [x] (do %s (let y x) (list x y g %s))) 5)",
    "(map (fn [x] %s) [1 2])",
    "((fn [x] (list ((fn [y] %s) 3) x y)) 4)",
    "(try %s (fn [m] (list 99 g x)))",
    "((fn [x] (list (try %s (fn [m] (list x y g))) x y)) 6)",
    "(apply (fn [x y] %s) 7 8)",
    "((fn [x y] (+ x (do %s y))) 7 8)",
    "((fn [x] (if (< x 1) %s (list x (self (- x 1))))) 2)",
    "(do (set q (fn [x] %s)) (list (q 1) (q 2) (q 1)))",
    "(fold (fn [x y] (do %s (+ x y))) [1 2 3])",
]
skipped = 0
ref0 = Ref({})
for k, v in GLOB.items():
    ref0.g[k] = ref0.ev(read(v))
OBS = "(list g x y)"
for es, ctxs in ((E1 + E2, CTX), (E3, None)):
    for n, e in enumerate(es):
        # each of the larger programs in some of the contexts, all contexts in turn
        use = ctxs or [CTX[(n + d) % len(CTX)] for d in (range(len(CTX)) if deep else (0, 3, 6, 9))]
        for ctx in use:
            p = ctx.replace("%s", e)
            r = Ref(ref0.g)
            try:
                w = r.ev(read(p))
                if not known(w):
                    skipped += 1
                    continue
            except Fail:
                w = ERR
            except Skip:
                skipped += 1
                continue
            S.add("(do %s %s)" % (RESET, p), w, ("program", ctx, e))
            s = [r.g[q] for q in "gxy"]
            if all(known(q) for q in s):
                S.add(OBS, ["LIST", s], ("state after", ctx, e))
            else:
                S.add("(do 0)", ["i64", 0], None)
# sizes: numbers of arguments, bindings, callers, constants, lengths of branches and nesting
def sized(e, v):
    S.add("(do %s %s)" % (RESET, e), v, ("sizes", e[:60]))


def L(xs):
    return ["LIST", [I(x) for x in xs]]


def sums(names):
    w = {n: 3 ** i for i, n in enumerate(names)}
    e = "0"
    for n in names:
        e = "(+ (* %d %s) %s)" % (w[n], n, e)
    return w, e


for na in range(0, 7):
    for nl in range(0, 7):
        ar, lo = ["a%d" % i for i in range(na)], ["b%d" % i for i in range(nl)]
        base = {n: 5 + 2 * i for i, n in enumerate(ar + lo)}
        w, body = sums(ar + lo)
        tot = lambda d: sum(w[n] * d[n] for n in d)
        lets = " ".join("(let %s %d)" % (n, base[n]) for n in lo)
        call = " ".join(str(base[n]) for n in ar)
        for outer in ("((fn [%s] (do %s %s)) %s)", "(do (set q (fn [%s] (do %s %s))) (q %s))"):
            sized(outer % (" ".join(ar), lets, body, call), I(tot(base)))
        # each of them bound again, and again from a function called meanwhile
        for n in ar + lo:
            d = dict(base)
            d[n] = 1000
            sized("((fn [%s] (do %s (let %s 1000) %s)) %s)" % (" ".join(ar), lets, n, body, call), I(tot(d)))
            sized("((fn [%s] (do %s ((fn [u] (let %s u)) 1000) %s)) %s)" % (" ".join(ar), lets, n, body, call), I(tot(base)))
            sized("((fn [%s] (do %s (set %s (+ %s 1)) (let %s %s) %s)) %s)" % (" ".join(ar), lets, "zz", n, n, "(* 2 %s)" % n, body, call), I(tot(dict(base, **{n: 2 * base[n]}))))
# callers at every depth, each with its own bindings, all seen from the innermost one
for depth in range(1, 9):
    for shape in (("n", 1), ("n m", 2)):
        names, d, prog = [], {}, ""
        for k in range(depth):
            names += ["x%d" % k, "y%d" % k]
            d["x%d" % k], d["y%d" % k] = k + 1, 20 + k
        w, body = sums(names)
        e = body
        for k in reversed(range(depth)):
            if shape[1] == 1:
                e = "((fn [x%d] (do (let y%d %d) (+ 0 %s))) %d)" % (k, k, d["y%d" % k], e, d["x%d" % k])
            else:
                e = "((fn [x%d y%d] (+ 0 %s)) %d %d)" % (k, k, e, d["x%d" % k], d["y%d" % k])
        sized(e, I(sum(w[n] * d[n] for n in names)))
        # the same through functions bound to names
        fs = ["(set q%d (fn [x%d] (do (let y%d %d) (+ 0 %s))))" % (k, k, k, d["y%d" % k], "(q%d %d)" % (k + 1, d["x%d" % (k + 1)]) if k < depth - 1 else body) for k in range(depth)]
        sized("(do %s (q0 1))" % " ".join(fs), I(sum(w[n] * d[n] for n in names)))
        # the innermost binding of a name wins, and is gone after the call
        e = "v"
        for k in reversed(range(depth)):
            e = "(+ (* 10 ((fn [v] %s) %d)) v)" % (e, k + 1)
        r = depth
        for k in reversed(range(depth)):
            r = 10 * r + k
        sized("(do (set v 0) %s)" % e, I(r))
for n in (1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000):
    cs = [1000 + 7 * k for k in range(n)]
    e = "0"
    body = " ".join("(set g (+ g %d))" % v for v in cs)
    sized("((fn [a] (do %s (+ a g))) 5)" % body, I(5 + 1 + sum(cs)))
    sized("((fn [a] (if (< a 3) (do %s g) (do %s (neg g)))) 1)" % (body, body), I(1 + sum(cs)))
    sized("((fn [a] (if (< a 3) (do %s g) (do %s (neg g)))) 4)" % (body, body), I(-1 - sum(cs)))
    sized("((fn [a] (do (if (< a 3) (do %s)) (+ a g))) 4)" % body, I(5))
    if n <= 200:
        sized("((fn [a] (count (list %s))) 4)" % " ".join(map(str, cs)), I(n))
        sized("((fn [a] (list %s a)) 4)" % " ".join(map(str, cs)), L(cs + [4]))
        sized("((fn [a] %s) 4)" % ("(+ 1 " * n + "a" + ")" * n), I(4 + n))
        sized("((fn [a] %s) 4)" % ("(- " * n + "a" + "".join(" %d)" % (k + 1) for k in range(n))), I(4 - n * (n + 1) // 2))
        sized("(%s 0)" % "h".replace("h", "(fn [n] (if (== n %d) n (+ 1 (self (+ n 1)))))" % n), I(2 * n))
        names = ["n%d" % k for k in range(n)]
        sized("((fn [%s] (list %s)) %s)" % (" ".join(names), " ".join(names[::-1]), " ".join(map(str, cs))), L(cs[::-1]))
        sized("((fn [a] (do %s (list %s))) 4)" % (" ".join("(let %s %d)" % kv for kv in zip(names, cs)), " ".join(names)), L(cs))
        sized("(try ((fn [a] (do %s (list %s nosuchname))) 4) (fn [m] 7))" % (" ".join("(let %s %d)" % kv for kv in zip(names, cs)), " ".join(names)), I(7))
c.sample({"programs without a defined meaning, left out": skipped})
print("%d programs, %d without a defined meaning" % (len(S.cases) // 2, skipped))
S.run(chunk=4000, flavor="asan" if deep else "rel")
c.finish("distinct programs whose value and effects were predicted")
