"""Case lists: expression -> value predicted by the model, evaluated by the real interpreter."""
import json
from . import drv
from .val import *

ERR = ["ERR"]


def close(a, b, rel=1e-12):
    """floats equal up to reassociation error (the shipped build reassociates), all else identical"""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= rel * max(abs(a), abs(b), 1e-300)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, rel) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def judge(exp, got):
    if isinstance(got, drv.Crash):
        return False
    if callable(exp):
        try:
            return bool(exp(got))
        except (TypeError, IndexError, KeyError, ValueError):
            return False
    if exp == ERR:
        return got[0] == "ERR"
    return got == exp or close(exp, got)


class Suite:
    def __init__(self, check):
        self.c = check
        self.cases = []   # (expr, expected, tag)
        self.hold = []

    def add(self, expr, exp, tag=None):
        self.cases.append((expr, exp, tag))

    def run(self, setup=(), cores=1, chunk=4000, flavor="rel", cwd=None, env=None, keep=False, cmd="E ", exe=None):
        """setup: list of commands (each 'Q ...' or 'E ...') replayed in every process"""
        c = self.c
        cs = self.cases
        res = drv.run_all([cmd + e for e, _, _ in cs], setup=setup, cores=cores, chunk=chunk, flavor=flavor, cwd=cwd, env=env, exe=exe)
        assert len(res) == len(cs), (len(res), len(cs))
        for (e, exp, tag), got in zip(cs, res):
            c.states += 1
            c.transitions += 1
            c.traces += 1
            if judge(exp, got):
                c.mark((tag, e))
            else:
                ex = "(predicate %s)" % getattr(exp, "__doc__", "") if callable(exp) else repr(exp)[:400]
                pre = "" if cores == 1 else f"[cores={cores}] "
                c.violation(pre + e[:300], f"{pre}{e[:500]}\n expected {ex}\n got      {str(got)[:400]}",
                            "\n".join(list(setup)[-40:]) + "\n" + pre + e + "\nexpected " + ex + "\ngot " + str(got)[:2000])
        if cs:
            c.sample({"expr": cs[len(cs) // 2][0][:200], "value": res[len(cs) // 2] if not isinstance(res[len(cs) // 2], drv.Crash) else "crash"})
            c.sample({"expr": cs[-1][0][:200], "value": str(res[-1])[:200]})
        self.cases = []
        return res
