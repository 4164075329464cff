#!/usr/bin/env python3
"""P27: the line editor of the interactive session: every sequence of keys up to a depth, followed on a model."""
import os, re, struct, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import build as B, report

KEYS = "a ( ) \" space ; \u00e9 ' Backspace Delete Left Right Home End ^K ^U ^W word-left word-right Up Down Tab Enter Insert ^C ^B ^F F1 ] \\".split()
START = ["an empty line", "a history of 3 lines", "a line with open brackets and a string", "a pending input of 2 lines", "the first of 3 lines of history", "a history of 1 line"]


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    ck = report.Check(pid, tier, "model_checking")
    exe = B.build("asan", ["lineed.c"], wraps=["read", "timer_sleep", "pthread_setaffinity_np"])
    depth, parts = (5, 2) if tier == "quick" else (6, 8)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:quarantine_size_mb=8", RAYFORCE_LOG="")
    tmp = tempfile.mkdtemp(prefix="vt_lineed_")
    jobs = [(depth, s, p, parts) for s in (2, 4, 0, 1, 5, 3) for p in range(parts)] + [(-1, s, 0, 1) for s in range(16)]

    def go(j):
        d = os.path.join(tmp, "%d_%d_%d" % j[:3])
        os.makedirs(d)
        open(os.path.join(d, "abc"), "w").close()
        r = subprocess.run([exe, "progress", *map(str, j)], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=850)
        b = open(os.path.join(d, "progress"), "rb").read()
        trans, states, runs, n = struct.unpack_from("<3qi", b)
        ops = struct.unpack_from("<64i", b, 28)
        what = b[28 + 256:28 + 256 + 512].split(b"\0")[0].decode("utf8", "replace")
        return j, r.returncode, r.stderr.decode("latin1"), trans, states, runs, n, ops, what
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, jobs))
    for j, rc, err, trans, states, runs, n, ops, what in res:
        ck.traces += runs; ck.transitions += trans; ck.states += states
        if rc == 3:
            raise SystemExit("harness setup failed: " + err)
        if rc or n != -1:
            san = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
            fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) /", err) if f not in ("heap_free", "bad")][:4]
            w = what or (f"{san.group(1)} in {' < '.join(fr)}" if san else f"exit {rc}: {err[-300:]}")
            keys = " ".join(KEYS[o] for o in ops[:max(n, 0)])
            if j[0] > 0:
                ck.violation(f"{START[j[1]]}, keys {keys}", f"{START[j[1]]}, then {keys}: {w}", f"cd an empty directory; ASAN_OPTIONS=detect_leaks=0 {exe} progress {j[0]} {j[1]} 0 1 {' '.join(map(str, ops[:max(n, 0)]))}\n\n{err[-4000:]}")
            else:
                ck.violation(f"long line {j[1]}", f"a full line, family {j[1]}: {w}", f"ASAN_OPTIONS=detect_leaks=0 {exe} progress -1 {j[1]}\n\n{err[-4000:]}")
    ck.ndistinct = ck.states
    ck.sample(f"every sequence of up to {depth} keys out of {len(KEYS)}: {' '.join(KEYS)}")
    for s in START: ck.sample("start: " + s)
    subprocess.run(["/bin/rm", "-rf", tmp])
    ck.finish("a state is the line, cursor, pending input, history with its position and saved line, and what the editor holds beside them; a transition is one key given to the real editor, whose line, cursor, pending input, input to evaluate and screen are compared with the model", exhaustive=True)


main()
