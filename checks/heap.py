"""The real allocator explored state by state (harness/heapx.c): main heap, worker heaps, borrowing and merging."""
import sys, os, re, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
from vt import report, build

WRAPS = ["memcpy", "mmap_alloc", "mmap_free", "mmap_file_shared", "fs_fopen", "fs_fclose", "fs_fdelete", "fs_file_extend", "fs_get_fname_by_fd"]
M1, M16, M32, M64 = 1048560, 16777200, 33554416, 67108848
# workers, depth quick, depth thorough, blocks in use, faults, bulk, sizes, start
RUNS = [
    (1, 6, 8, 4, 0, 0, [16, 1000, M1], []),
    (1, 6, 8, 4, 0, 0, [16, 17], []),
    (2, 6, 7, 3, 0, 0, [16, M1], []),
    (3, 4, 6, 3, 0, 0, [500, M1], []),
    (1, 5, 6, 4, 1, 0, [16, M1, M32], []),
    (1, 4, 6, 3, 1, 0, [M16, M32, M64], []),
    (1, 5, 6, 2, 0, 1, [16], []),
    (2, 4, 5, 2, 0, 1, [16], []),
    (1, 4, 5, 2, 0, 1, [16, 500], ["fill@0", "free-small@0"]),
    (1, 5, 7, 6, 0, 0, [16, M1, M16], ["alloc:%d" % M1, "alloc:%d" % M16, "alloc:%d" % M16, "free#1"]),
    (2, 4, 6, 6, 0, 0, [16, M16], ["alloc:%d" % M16, "alloc:%d" % M16, "alloc:%d" % M16, "alloc:%d" % M16, "free#3", "free#1"]),
    (1, 5, 7, 6, 0, 0, [16, M16, M32, M64], ["alloc:%d" % M32, "alloc:%d" % M32, "free#0", "free#0"]),
    (1, 5, 7, 8, 0, 0, [1000, M1, 2 * M1 + 16], ["alloc:%d" % M1] * 4 + ["alloc:%d" % (2 * M1 + 16), "free#0", "free#1", "free#2"]),
    (2, 4, 6, 8, 0, 0, [1000, M1], ["alloc:%d" % M1] * 6 + ["free#0", "free#1", "free#2"]),
    (2, 4, 6, 6, 0, 0, [16, 48], ["alloc:16"] * 8 + ["free#0"] * 7),
]
# single allocations of every size around the powers of two
for k in range(5, 26):
    b = 1 << k
    RUNS.append((1, 2, 3, 2, 0, 0, sorted({max(1, b + d) for d in (-17, -16, -15, -1, 0, 1)}), []))


def main(pid, tier):
    c = report.Check(pid, tier, "model_checking")
    exe = build.build("rel", ["heapx.c"], wraps=WRAPS)
    quick = tier == "quick"

    def one(r):
        w, dq, dt, ml, f, b, sizes, start = r
        limit = 400000 if quick else 1500000
        a = [exe, str(w), str(dq if quick else dt), str(ml), str(limit), str(f), str(b), ",".join(map(str, sizes))] + start
        try:
            p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240 if quick else 380, errors="replace")
            return r, a, p.stdout, p.returncode
        except subprocess.TimeoutExpired as e:
            return r, a, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else e.stdout or "", "timeout"

    exhaustive = True
    depths = {}
    with ThreadPoolExecutor(8) as ex:
        for r, a, out, rc in ex.map(one, sorted(RUNS, key=lambda r: -r[1])):
            m = re.search(r"^DONE states=(\d+) transitions=(\d+) depth=(\d+) complete=(\d)", out, re.M)
            name = "workers=%d sizes=%s%s%s start=%s" % (r[0], r[6], " faults" if r[4] else "", " bulk" if r[5] else "", " ".join(r[7]))
            for l in out.splitlines():
                if l.startswith("BAD "):
                    hist, what = l[4:].split(" | ", 1)
                    c.violation("heap: " + re.sub(r"\d+", "N", what), "workers=%d: %s\n after %s" % (r[0], what, hist), " ".join(a) + "\n" + l)
            if not m:
                if rc == "timeout" and "BAD" not in out:
                    exhaustive = False
                    continue
                if "BAD" not in out:
                    c.violation("heap: explorer died", "%s: exit %s\n%s" % (name, rc, out[-500:]), " ".join(a))
                continue
            c.states += int(m.group(1))
            c.transitions += int(m.group(2))
            c.traces += int(m.group(2))
            depths[name] = int(m.group(3))
            if m.group(4) != "1":
                exhaustive = False
            c.mark(name)
            c.sample({"configuration": name, "states": int(m.group(1)), "transitions": int(m.group(2)), "depth": int(m.group(3))})
    return c.finish("all states of the allocator reachable by the operation sequences of each configuration up to its depth", exhaustive, {"depths": depths})


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2]))
