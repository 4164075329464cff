"""P18: decoding any byte string ends with an error or a well formed value, within the bytes given, leaking nothing."""
import sys, os, struct, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
from vt import report, drv, build as B

pid, tier = sys.argv[1], sys.argv[2]
c = report.Check(pid, tier, "exploration")
deep = tier == "thorough"
VALUES = ["5", "true", "0x10", "3h", "7i", "1.5", "'sym", "'a'", "2001.01.01", "00:00:01.000", "2001.01.01D00:00:00.000000001", "(as 'guid \"00112233-4455-6677-8899-aabbccddeeff\")",
          "[true false]", "[0x01 0x02]", '"abc"', '""', "[1h 2h]", "[1i 2i]", "[1 2]", "[1.5 2.5]", "[a bc]", "[2001.01.01]", "[00:00:01.000]", "[2001.01.01D00:00:00.000000001]",
          "(as 'GUID (list \"00112233-4455-6677-8899-aabbccddeeff\"))", "(list)", "(list 1 \"a\")", "(list [1] 'a)", "(list (list 1 [2i]) \"x\")", "{a: 1}", "{}", "(dict [1 2] [a b])",
          "(dict [x y] (list 'a 2))", "(table [a] (list [1 2]))", "(table [a b] (list [1] [x]))", "(table [a b] (list [1 2] (list 'a \"b\")))", "+", "count", "list", "(fn [x] x)", "(fn [x y] (+ x y))", "null",
          "(list (table [a] (list [1])) {a: {b: 2}})"]
res = drv.run_all([f"E (ser {v})" for v in VALUES])
lines = []
for v, r in zip(VALUES, res):
    if isinstance(r, drv.Crash) or r[0] != "U8":
        continue  # not serializable on this tree: the round-trip property decides that
    b = bytes(x & 255 for x in r[1])
    lines.append("R " + b[16:].hex())
    if v in ("5", "[1 2]", '"abc"', "(list 1 \"a\")"):
        lines.append("H " + b.hex())
# error values, only producible by a failing remote request
for code in (0, 1, 6, 11, 12, 200):
    lines.append("R " + (bytes([127, code]) + struct.pack("<q", 5) + (b"boom\0" if code == 11 else b"")).hex())
lines.append("R " + (bytes([0, 0]) + struct.pack("<q", 1) + bytes([127, 1]) + bytes(8)).hex())
exe = B.build("asan", ["decode.c"], wraps=("mmap", "pthread_setaffinity_np"))
d = tempfile.mkdtemp()
open(d + "/bases", "w").write("\n".join(lines) + "\n")
W = 8


def work(part):
    start, out, tot = 0, [], [0, 0, 0, 0]
    while len(out) < 40:
        pf = f"{d}/p{part}"
        if os.path.exists(pf):
            os.unlink(pf)
        p = subprocess.run([exe, d + "/bases", pf, str(part), str(W), str(start), "1" if deep else "0"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=9000:handle_sigtrap=1:quarantine_size_mb=8"))
        raw = open(pf, "rb").read()
        idx, n, ok, err = struct.unpack("<4q", raw[:32])
        msg = raw[32:544]
        ln = struct.unpack("<q", raw[544:552])[0]
        what = raw[552:616].split(b"\0")[0].decode()
        dist = struct.unpack("<q", raw[616:624])[0]
        tot = [tot[0] + n, tot[1] + ok, tot[2] + err, max(tot[3], dist)]
        if idx == -1 and p.returncode == 0:
            break
        e = p.stderr.decode("latin1")
        if not what:
            what = next((l for l in e.split("\n") if "ERROR: AddressSanitizer" in l or "runtime error" in l), "crash rc=%d" % p.returncode)
            fr = [l.strip() for l in e.split("\n") if l.strip().startswith("#") and "/repo" in l][:2]
            what += " " + " ".join(f.split(" in ", 1)[-1] for f in fr)
        out.append((msg[:ln].hex() if ln else f"nesting case {idx}", what, e[-1500:]))
        start = idx + 1
    return out, tot


with ThreadPoolExecutor(W) as ex:
    rs = list(ex.map(work, range(W)))
shutil.rmtree(d)
ok = err = 0
for out, tot in rs:
    c.transitions += tot[0]
    ok += tot[1]
    err += tot[2]
    c.ndistinct += tot[3]
    for m, w, e in out:
        c.violation(m[:200], f"decoding {m[:200]}: {w[:300]}", m + "\n" + w + "\n" + e)
c.states = c.transitions
for v, l in list(enumerate(lines))[::7]:
    c.sample({"base": v, "bytes": l[:120]})
c.finish("distinct decoded values among the mutated messages; every truncation, every single-byte replacement, insertion and removal, every boundary length in every 8-byte window, "
         "boundary byte pairs (short messages quick, all thorough), all strings of length <= 2, all type/length/tail headers, deep nesting", extra={"decoded": ok, "rejected": err, "bases": len(lines)})
