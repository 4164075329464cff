#!/usr/bin/env python3
"""P28: patterns: every string against every pattern up to given lengths, and the places where patterns are used."""
import itertools, os, re, struct, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import build as B, drv, report


def rx(p):
    """the pattern as a regular expression, None if a set does not end"""
    o, i = "", 0
    while i < len(p):
        c = p[i]
        if c == "*": o += ".*"
        elif c == "?": o += "."
        elif c == "[":
            j = i + 1
            inv = j < len(p) and p[j] == "^"
            if inv: j += 1
            k = p.find("]", j)
            if k < 0: return None
            s = p[j:k]
            o += ("[" + ("^" if inv else "") + "".join("\\x%02x" % ord(x) for x in s) + "]") if s else ("." if inv else "(?!)")
            i = k
        else: o += "\\x%02x" % ord(c)
        i += 1
    return re.compile(o, re.S)


def m(s, p):
    r = rx(p)
    return 1 if r and r.fullmatch(s) else 0


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    ck = report.Check(pid, tier, "exploration")
    exe = B.build("asan", ["like.c"], wraps=["pthread_setaffinity_np"])
    q = tier == "quick"
    FAM = [("abc", 5 if q else 6, "ab*?[]^", 7), ("ab", 9 if q else 11, "ab*?", 7 if q else 8), ("ab", 7, "ab*[]^", 7), ("a", 12, "a*?", 9 if q else 11), ("a*?[]^", 4, "a*?[]^", 6 if q else 7),
           ("a\n\xff\x80", 5, "a\n\xff*?", 5 if q else 6), ("a-^]", 4, "a-^][*", 6)]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0", RAYFORCE_LOG="")
    tmp = tempfile.mkdtemp(prefix="vt_like_")

    def go(j):
        (sa, sl, pa, pl), part = FAM[j[0]], j[1]
        f = os.path.join(tmp, "%d_%d" % j)
        r = subprocess.run([exe.encode(), f.encode(), sa.encode("latin1"), b"%d" % sl, pa.encode("latin1"), b"%d" % pl, b"%d" % part, b"16"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)
        b = open(f, "rb").read()
        pairs, pats, trues = struct.unpack_from("<3q", b)
        return j, r.returncode, r.stderr.decode("latin1"), pairs, pats, trues, b[24:24 + 512].split(b"\0")[0].decode("latin1")
    jobs = [(f, p) for f in range(len(FAM)) for p in range(16)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, jobs))
    trues = 0
    for j, rc, err, pairs, pats, tr, what in res:
        ck.states += pairs; trues += tr
        if rc == 3: raise SystemExit("harness setup failed: " + err)
        if rc:
            san = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
            ck.violation("family %d: %s" % (j[0], what or (san and san.group(1)) or rc), "strings over %r, patterns over %r: %s" % (FAM[j[0]][0], FAM[j[0]][2], what or err[-300:]), what + "\n" + err[-3000:])
    # where patterns are used: atoms, lists, columns in memory, on disk and in parts, conditions of queries
    strs = ["", "a", "b", "ab", "ba", "aa", "aab", "abab", "hello", "hallo", "hllo", "a*b", "x[y", "longer text with spaces"]
    pats = ["", "a", "*", "?", "a*", "*a", "*a*", "?b", "a?", "*b", "*ab", "a*b", "[ab]", "[^a]*", "*[^b]", "h[ae]llo", "h?llo", "*l*o", "??", "*??", "a[", "[]", "*text*", "l*[rz] * with*", "a[*]b", "*[[]*", "*aa*", "**", "*?a"]
    lst = "(list %s)" % " ".join('"%s"' % s for s in strs)
    n = len(strs)
    half = ["(table [i s] (list (+ %d (til %d)) (list %s)))" % (a, b - a, " ".join('"%s"' % x for x in strs[a:b])) for a, b in ((0, 4), (4, 5), (5, n))]
    sh = [["!Q (set t (table [i s] (list (til %d) %s)))" % (n, lst)], ["!Q (set-splayed \"t/\" (table [i s] (list (til %d) %s)))" % (n, lst), "!Q (set t (get-splayed \"t/\"))"],
          ["!Q (set-splayed \"db/2024.01.0%d/t/\" %s \"db/sym\")" % (k + 1, h) for k, h in enumerate(half)] + ["!Q (set t (get-parted \"db/\" 't))"]]

    def lists(ctx):
        cmds, want = [], []
        for p in pats:
            w = [m(s, p) for s in strs]; idx = [i for i in range(n) if w[i]]
            if ctx == 2:
                for e, v in (("(at (select {i: i from: t where: (like s \"%s\")}) 'i)", ["I64", idx]), ("(at (select {i: i s: s from: t where: (like s \"%s\")}) 'i)", ["I64", idx]),
                             ("(at (select {from: t where: (and (> i 2) (like s \"%s\"))}) 'i)", ["I64", [i for i in idx if i > 2]]),
                             ("(at (select {from: t where: (or (like s \"%s\") (< i 2))}) 'i)", ["I64", [i for i in range(n) if i < 2 or w[i]]])):
                    cmds.append("E " + e % p); want.append((e % p, v))
                continue
            for e, v in (("(like (at t 's) \"%s\")", ["B8", w]), ("(where (like (at t 's) \"%s\"))", ["I64", idx]),
                         ("(at (select {from: t where: (like s \"%s\")}) 'i)", ["I64", idx]),
                         ("(at (select {from: t where: (and (> i 2) (not (like s \"%s\")))}) 'i)", ["I64", [i for i in range(3, n) if not w[i]]]),
                         ("(at (select {from: t r: (sum (as 'I64 (like s \"%s\")))}) 'r)", ["I64", [len(idx)]])):
                cmds.append("E " + e % p); want.append((e % p, v))
        return cmds, want
    for k, ctx in enumerate(sh):
        for cores in (1, 3):
            d = tempfile.mkdtemp(prefix="vt_like_")
            cmds, want = lists(k)
            r = drv.run_chunk(drv.driver("rel"), [x[1:] for x in ctx], cmds, cores, d)
            for (e, v), got in zip(want, r):
                ck.states += 1
                if got != v: ck.violation("%s of column %d" % (e, k), "%s with a column %s: %r instead of %r" % (e, ("in memory", "on disk", "in parts")[k], got, v), "\n".join(ctx + ["E " + e]))
            subprocess.run(["/bin/rm", "-rf", d])
    cmds, want = [], []
    for p in pats:
        for s in strs:
            cmds.append('E (like "%s" "%s")' % (s, p)); want.append(["b8", m(s, p)])
        cmds.append('E (map (fn [x] (like x "%s")) %s)' % (p, lst)); want.append(["B8", [m(s, p) for s in strs]])
    for e in ('(like 1 "a")', '(like "a" 1)', '(like (list "a" 1) "a")', "(like 'a \"a\")", '(like "a" (list "a"))', '(like (list "a" [1 2]) "*")'):
        cmds.append("E " + e); want.append("ERR")
    r = drv.run_chunk(drv.driver("rel"), [], cmds, 1, tmp)
    for c, v, got in zip(cmds, want, r):
        ck.states += 1
        if not (got == v or v == "ERR" and isinstance(got, list) and got[:1] == ["ERR"]): ck.violation(c[2:], "%s: %r instead of %r" % (c[2:], got, v), c)
    for f in FAM: ck.sample("strings over %r up to %d, patterns over %r up to %d" % f)
    ck.ndistinct = ck.states
    subprocess.run(["/bin/rm", "-rf", tmp])
    ck.finish("each pair of a string and a pattern is distinct by construction (%d of them match)" % trues, exhaustive=True)


main()
