#!/usr/bin/env python3
"""P19/P20: event loop and IPC on a simulated kernel; every execution with at most D deviations."""
import os, re, struct, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import build as B, report

WR = ("epoll_create1 eventfd epoll_ctl epoll_wait poll ppoll select recv send accept close fcntl setsockopt "
      "socket bind listen connect getaddrinfo freeaddrinfo mmap pthread_setaffinity_np "
      "accept4 read write shutdown epoll_pwait").split()
NAMES = "basic two selfclose crossclose nested callback badhdr longhs queue reconnect po pc obj _ client-simple client-mixed client-idle client-big response-unsolicited across many sizes pipeline depth".split()
ID = {n: i for i, n in enumerate(NAMES)}
# property -> [(scenario, quick deviations, thorough deviations)]
PLAN = {
    "P19": [("basic", 2, 3), ("two", 2, 2), ("nested", 2, 2), ("callback", 2, 2), ("longhs", 2, 3), ("queue", 2, 3), ("obj", 1, 2),
            ("client-simple", 2, 3), ("client-mixed", 2, 2), ("client-idle", 2, 2), ("client-big", 1, 2), ("response-unsolicited", 2, 2)]
           + [(100 * s + ID["badhdr"], 1, 2) for s in range(12, 14)],
    "P20": [("selfclose", 2, 3), ("crossclose", 2, 2), ("reconnect", 2, 2), ("po", 2, 3), ("pc", 2, 2), ("across", 2, 2), ("two", 1, 2), ("client-simple", 2, 2)]
           + [(100 * s + ID["badhdr"], 1, 2) for s in range(12)],
}

# families without deviations: scenario -> (number of sub-scenarios, build)
BIG = {"P19": [("sizes", 2160 + 96, "size"), ("pipeline", 300, "size"), ("depth", 12, "size")], "P20": [("many", 176, "many"), ("pipeline", 300, "size")]}
BUILDS = {"many": "-DNC=420 -DINSZ=512 -DOUTSZ=512 -DNMSG=2", "size": "-DNC=3 -DINSZ=700000 -DOUTSZ=700000 -DNMSG=130"}


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    ck = report.Check(pid, tier, "model_checking")
    exe = B.build("asan", ["ipc.c"], wraps=WR)
    nparts = 8
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:quarantine_size_mb=16", RAYFORCE_LOG="")
    tmp = tempfile.mkdtemp(prefix="vt_ipc_")
    jobs = []
    for sc, dq, dt in PLAN[pid]:
        s = sc if isinstance(sc, int) else ID[sc]
        d = dq if tier == "quick" else dt
        np_ = nparts if d > 1 else 1
        jobs += [(s, d, p, np_) for p in range(np_)]
    jobs.sort(key=lambda j: -j[1])
    exes = {k: B.build("asan", ["ipc.c"], wraps=WR, out="ipc" + k, harness_flags=B.FLAVORS["asan"] + " " + BUILDS[k]) for k in {b for _, _, b in BIG[pid]}}
    big = {ID[n]: exes[b] for n, _, b in BIG[pid]}
    jobs = [(ID[n], -cnt, p, nparts) for n, cnt, _ in BIG[pid] for p in range(nparts) if p < cnt] + jobs

    def name(s):
        return NAMES[s % 100] + (f"/{s // 100}" if s >= 100 else "")

    def go(j):
        s, d, p, n = j
        pf = os.path.join(tmp, f"p{s}_{p}")
        r = subprocess.run([big.get(s, exe), pf, str(s), str(d), str(p), str(n)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=850)
        b = open(pf, "rb").read()
        runs, steps, states, maxpos, nd = struct.unpack_from("<4qi", b)
        pos = struct.unpack_from("<4i", b, 36); ch = struct.unpack_from("<4i", b, 52)
        what = b[68:68 + 512].split(b"\0")[0].decode("latin1")
        return j, r.returncode, r.stderr.decode("latin1"), runs, steps, states, nd, list(zip(pos, ch)), what
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, jobs))
    per = {}
    for (s, d, p, n), rc, err, runs, steps, states, nd, devs, what in res:
        q = per.setdefault(name(s), [max(d, 0), 0, 0, 0]); q[1] += runs; q[2] += steps; q[3] = max(q[3], states)
        if rc == 3:
            raise SystemExit("harness setup failed: " + err)
        if rc or nd != -1:
            san = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
            fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) /", err) if f not in ("heap_free", "bad")][:4]
            w = what or (f"{san.group(1)} in {' < '.join(fr)}" if san else f"exit {rc}: {err[-300:]}")
            args = " ".join(f"{a}:{c}" for a, c in devs[:max(nd, 0)])
            if d < 0:
                ck.violation(f"{name(s)} variant {devs[0][0]}", f"scenario {name(s)}, variant {devs[0][0]}: {w}", f"VT_V=1 ASAN_OPTIONS=detect_leaks=0 {big[s]} /tmp/p {s} {-devs[0][0] - 1} {devs[0][0]} 1\n\n{err[-6000:]}")
                continue
            ck.violation(f"{name(s)} {args}", f"scenario {name(s)}, deviations from the default schedule [{args}]: {w}",
                         f"VT_V=1 ASAN_OPTIONS=detect_leaks=0 {exe} /tmp/p {s} {d} 0 1 {args}\n\n{err[-6000:]}")
    ck.states = sum(q[3] for q in per.values())
    ck.transitions = sum(q[2] for q in per.values())
    ck.traces = sum(q[1] for q in per.values())
    ck.ndistinct = ck.states
    for k, q in per.items():
        ck.sample(f"{k}: all executions with <= {q[0]} deviations: {q[1]} executions, {q[2]} choice points, {q[3]}+ distinct kernel/loop states")
    subprocess.run(["/bin/rm", "-rf", tmp])
    ck.finish("an execution is one re-run of the real event loop on the simulated kernel under one choice sequence (byte arrival cuts, FIN/RST position, short/EINTR/EAGAIN recv and send, event order, accept/epoll_ctl/connect failure, timeout); states are distinct (socket, selector buffer) states at choice points; non-trivial: every one", exhaustive=True)


main()
