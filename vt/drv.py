"""Talking to the line driver: exhaustive case lists in, canonical values out."""
import json, os, subprocess, tempfile, signal
from concurrent.futures import ThreadPoolExecutor
from . import build as B


class Crash:
    """the process ended while evaluating this case"""
    def __init__(self, rc, err):
        self.rc, self.err = rc, err

    def __repr__(self):
        return f"CRASH(rc={self.rc}) {self.err[-300:]}"

    def __eq__(self, o):
        return isinstance(o, Crash)


def driver(flavor="rel"):
    return B.build(flavor, ["driver.c"], wraps=("mmap", "pthread_setaffinity_np"))


def _env(cores, extra=None):
    e = dict(os.environ)
    e["VT_CORES"] = str(cores)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:max_allocation_size_mb=8000"
    if extra:
        e.update(extra)
    return e


def run_chunk(exe, setup, cmds, cores=1, cwd=None, env=None, timeout=600, fork=False):
    """evaluate cmds in order in one process (restarted after a crash, with setup replayed).
    returns a list of decoded results, Crash() where the process died"""
    res = []
    i = 0
    ns = len(setup)
    if fork:
        inp = "\n".join(c.replace("\n", "\x1f") for c in setup + cmds) + "\n"
        p = subprocess.run([exe], input=inp.encode("latin1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=_env(cores, dict(env or {}, VT_FORK=str(ns))), cwd=cwd, timeout=timeout)
        outl = [l for l in p.stdout.decode("latin1").split("\n") if l]
        if p.returncode or len(outl) != ns + len(cmds):
            raise RuntimeError("driver failed: rc=%s, %d of %d answers: %s" % (p.returncode, len(outl), ns + len(cmds), p.stderr[-2000:]))
        for l in outl[ns:]:
            r = json.loads(l)
            res.append(Crash(r["crash"], r["err"]) if isinstance(r, dict) and "crash" in r else r)
        return res
    while i < len(cmds):
        inp = "\n".join(c.replace("\n", "\x1f") for c in setup + cmds[i:]) + "\n"
        try:
            p = subprocess.run([exe], input=inp.encode("latin1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=_env(cores, env), cwd=cwd, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            p = ex
            p.returncode = -999
        outl = (p.stdout or b"").decode("latin1").split("\n")
        outl = [l for l in outl if l]
        if p.returncode == 0 and len(outl) == ns + len(cmds) - i:
            res += [json.loads(l) for l in outl[ns:]]
            break
        # the process died: output is buffered, find the culprit with flushing on
        try:
            p = subprocess.run([exe], input=inp.encode("latin1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=_env(cores, dict(env or {}, VT_FLUSH="1")), cwd=cwd, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            p = ex
            p.returncode = -999
        outl = [l for l in (p.stdout or b"").decode("latin1").split("\n") if l]
        got = []
        for l in outl[ns:]:
            try:
                got.append(json.loads(l))
            except json.JSONDecodeError:
                break
        if p.returncode == 0 and len(got) == len(cmds) - i:
            res += got
            break
        if len(outl) < ns:
            raise RuntimeError("driver died in setup: rc=%s %s" % (p.returncode, (p.stderr or b"")[-2000:]))
        got = got[: len(cmds) - i - 1] if len(got) >= len(cmds) - i else got
        res += got
        res.append(Crash(p.returncode, (p.stderr or b"").decode("latin1")[-3000:]))
        i += len(got) + 1
    return res


def run_all(cmds, setup=(), flavor="rel", cores=1, chunk=4000, workers=8, cwd=None, env=None, exe=None):
    exe = exe or driver(flavor)
    setup = list(setup)
    parts = [cmds[i:i + chunk] for i in range(0, len(cmds), chunk)]
    with ThreadPoolExecutor(workers) as ex:
        rs = list(ex.map(lambda p: run_chunk(exe, setup, p, cores, cwd, env), parts))
    return [r for part in rs for r in part]
