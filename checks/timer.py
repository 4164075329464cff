#!/usr/bin/env python3
"""P25: timers in virtual time, every sequence of operations up to a depth."""
import os, re, struct, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import build as B, report

WR = "clock_gettime time gettimeofday close epoll_create1 eventfd epoll_ctl epoll_wait pthread_setaffinity_np".split()


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    ck = report.Check(pid, tier, "model_checking")
    exe = B.build("asan", ["timer.c"], wraps=WR)
    depth, size = (4, 40) if tier == "quick" else (5, 90)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:quarantine_size_mb=16", RAYFORCE_LOG="")
    tmp = tempfile.mkdtemp(prefix="vt_timer_")
    jobs = [(d, p, 8) for d in (depth, -size) for p in range(8)]

    def go(j):
        pf = os.path.join(tmp, f"p{j[0]}_{j[1]}")
        r = subprocess.run([exe, pf, *map(str, j)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=850)
        b = open(pf, "rb").read()
        runs, steps, states, n = struct.unpack_from("<3qi", b)
        ops = struct.unpack_from("<64i", b, 28)
        what = b[28 + 256:28 + 256 + 512].split(b"\0")[0].decode("latin1")
        return j, r.returncode, r.stderr.decode("latin1"), runs, steps, states, n, ops, what
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, jobs))
    for j, rc, err, runs, steps, states, n, ops, what in res:
        ck.traces += runs; ck.transitions += steps; ck.states = max(ck.states, states)
        if rc == 3:
            raise SystemExit("harness setup failed: " + err)
        if rc or n != -1:
            san = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
            fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) /", err) if f not in ("heap_free", "bad")][:4]
            w = what or (f"{san.group(1)} in {' < '.join(fr)}" if san else f"exit {rc}: {err[-300:]}")
            args = " ".join(map(str, ops[:max(n, 0)]))
            if j[0] > 0:
                ck.violation("operations " + args, f"operations [{args}]: {w}", f"ASAN_OPTIONS=detect_leaks=0 {exe} /tmp/p {j[0]} 0 1 {args}\n\n{err[-4000:]}")
            else:
                ck.violation("timers " + args, f"many timers (count, pattern, removed) [{args}]: {w}", f"ASAN_OPTIONS=detect_leaks=0 {exe} /tmp/p {j[0]} {j[1]} {j[2]}\n\n{err[-4000:]}")
    ck.ndistinct = ck.states
    ck.sample(f"every sequence of {depth} operations out of 22 (15 kinds of timers, 4 removals, 3 kinds of waits), then 5 waits")
    ck.sample(f"1-{size} timers in 5 orders of intervals, each pair of removals")
    subprocess.run(["/bin/rm", "-rf", tmp])
    ck.finish("an execution is one run of the real event loop in virtual time under one sequence of operations; a state is the multiset of (time left, interval, count, action of the callback) of the timers set; transitions are operations and firings", exhaustive=True)


main()
