// The line editor of the interactive session (app/term.c) explored as a state machine: every sequence of keys up to a
// depth from several starts, followed on a model of an edited line, a pending input and a history. The bytes it
// writes are shown on a one-row screen that has to show the line, with the cursor in its place.
// usage: lineed PROGRESS depth start part nparts [key ...]      (keys: run this sequence only)
//        lineed PROGRESS -n start                               (long lines and bounds)
#define _GNU_SOURCE
#include "canon.h"
#include <fcntl.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include "core/runtime.h"
#include "app/term.h"
static struct prog { long trans, states, runs; int n, ops[64]; char what[512]; } *P;
static void bad(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(P->what, sizeof P->what, f, a); va_end(a); abort(); }
int __wrap_pthread_setaffinity_np(void) { return 0; }
void __wrap_timer_sleep(i64_t ms) { (void)ms; }
ssize_t __real_read(int, void *, size_t);
static unsigned char key; static int havekey;
ssize_t __wrap_read(int fd, void *b, size_t n) { if (fd || !havekey) return __real_read(fd, b, n); havekey = 0; *(unsigned char *)b = key; return 1; }

#define NH 24
typedef struct { int len, pos, plen, nh, hidx, saved, curl, ev; char line[128], cur[128], pend[512], h[NH][128]; int hl[NH]; } M;
static M m;
static term_p T;
static char *out; static size_t outn;
static struct { int col, n, prow; unsigned ch[200]; } S;

// the screen: one row
static void show(void) {
    fflush(stdout);
    for (size_t i = 0; i < outn; i++) {
        unsigned char c = out[i];
        if (c == '\r') S.col = 0;
        else if (c == '\n') { S.col = 0; S.n = 0; }
        else if (c == 27) {
            if (out[i + 1] != '[') bad("writes an unknown escape");
            size_t j = i + 2; int v = 0, q = 0;
            while (j < outn && !(out[j] >= 0x40 && out[j] <= 0x7e)) { if (out[j] == '?') q = 1; else if (out[j] == ';') v = 0; else v = v * 10 + out[j] - '0'; j++; }
            if (j >= outn) bad("writes a cut escape");
            if (!v) v = 1;
            switch (out[j]) {
                case 'D': S.col = S.col > v ? S.col - v : 0; break;
                case 'C': S.col += v; break;
                case 'K': case 'J': S.n = S.col < S.n ? S.col : S.n; break;
                case 'm': break;
                case 'h': case 'l': if (!q) bad("writes an unknown mode"); break;
                default: bad("moves the cursor to another row (%c)", out[j]);
            }
            i = j;
        } else {
            unsigned v = c; int k = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
            while (k-- > 0 && i + 1 < outn) v = v << 8 | (unsigned char)out[++i];
            while (S.n <= S.col) S.ch[S.n++] = ' ';
            S.ch[S.col++] = v;
            if (S.col > 150) bad("writes beyond the row");
        }
    }
    fseeko(stdout, 0, SEEK_SET); outn = 0;
}
static int cols(const char *s, int n) { int c = 0; for (int i = 0; i < n; i++) c += ((unsigned char)s[i] & 0xc0) != 0x80; return c; }
static void screen(void) {
    int want = 2 + cols(m.line, m.len), k = 2;
    int n = S.n; while (n > want && S.ch[n - 1] == ' ') n--;
    if (n < 2 && want > 2) bad("the prompt is not shown");
    for (int i = 0; i < m.len; k++) {
        unsigned v = (unsigned char)m.line[i]; int e = v < 0x80 ? 0 : v < 0xe0 ? 1 : 2; i++;
        while (e-- > 0) v = v << 8 | (unsigned char)m.line[i++];
        if (k >= n || S.ch[k] != v) bad("the screen does not show the line: column %d of [%.*s]", k - 2, m.len, m.line);
    }
    if (n > k) bad("the screen shows more than the line [%.*s]", m.len, m.line);
    if (S.col != 2 + cols(m.line, m.pos)) bad("the cursor is at column %d instead of %d of [%.*s]", S.col - 2, cols(m.line, m.pos), m.len, m.line);
}

static char got[1024]; static int gotn;
static void press1(int c) {
    key = c; havekey = 1;
    if (!term_getc(T)) bad("no key read");
    obj_p r = term_read(T);
    if (r == NULL) return;
    gotn = 0;
    if (r != NULL_OBJ) {
        if (r->type != TYPE_C8) bad("an input is no text");
        gotn = r->len;
        if (gotn && AS_C8(r)[gotn - 1] == 0) gotn--;
        memcpy(got, AS_C8(r), gotn < 1000 ? gotn : 1000);
    }
    drop_obj(r);
    if (T->multiline_len == 0) term_prompt(T);
}

static const char *KEYS[] = {"a", "(", ")", "\"", " ", ";", "\xc3\xa9", "'", "\x7f", "\x1b[3~", "\x1b[D", "\x1b[C", "\x01", "\x05", "\x0b", "\x15", "\x17", "\x1b" "b", "\x1b" "f",
    "\x1b[A", "\x1b[B", "\t", "\n", "\x1b[2~", "\x03", "\x02", "\x06", "\x1bOP", "]", "\\"};
enum { KA, KO, KC, KQ, KS, KSEMI, KU, KSQ, KBS, KDEL, KL, KR, KHOME, KEND, KK, KCU, KW, KWL, KWR, KUP, KDOWN, KTAB, KRET, KINS, KCC, KCB, KCF, KF1, KBR, KBSL, NK };
static int prevc(int p) { if (p > 0) p--; while (p > 0 && ((unsigned char)m.line[p] & 0xc0) == 0x80) p--; return p; }
static int nextc(int p) { if (p < m.len) p++; while (p < m.len && ((unsigned char)m.line[p] & 0xc0) == 0x80) p++; return p; }
static int alnum(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
static void cut(int a, int b) { memmove(m.line + a, m.line + b, m.len - b); m.len -= b - a; }
// 1: evaluate it now (complete, or nothing can complete it)
static int complete(const char *s, int n) {
    char st[1024]; int d = 0, q = 0;
    for (int i = 0; i < n; i++) {
        char c = s[i];
        if (c == '\\') { i++; continue; }
        if (q) { if (c == '"') q = 0; continue; }
        if (c == '"') q = 1;
        else if (c == ';') while (i + 1 < n && s[i + 1] != '\n') i++;
        else if (c == '\'') { if (i + 2 < n && s[i + 2] == '\'' && s[i + 1] != '\\' && !strchr(")]}: \r\n", s[i + 1])) i += 2; }
        else if (strchr("([{", c)) st[d++] = c;
        else if (strchr(")]}", c)) { if (!d || strchr("()[]{}", st[d - 1])[1] != c) return 1; d--; }
    }
    return !d && !q;
}
static void hadd(const char *s, int n) {
    if (m.nh && m.hl[m.nh - 1] == n && !memcmp(m.h[m.nh - 1], s, n)) return;
    while (1) {
        int k = 0; while (k < n && s[k] != '\n') k++;
        if (m.nh == NH) bad("model history");
        memcpy(m.h[m.nh], s, k); m.hl[m.nh++] = k;
        if (k == n) return;
        s += k + 1; n -= k + 1;
    }
}
static void setline(const char *s, int n) { memcpy(m.line, s, n); m.len = m.pos = n; }
static int wordc(int c) { return alnum(c) || c == '-'; }
// completion: nothing, a word that starts with the typed one, a closing bracket, or a file inside of a string
static void tab(void) {
    int L = T->buf_len, p = T->buf_pos; char *b = T->buf;
    if (L < 0 || L > 120 || p < 0 || p > L) bad("completion leaves length %d position %d", L, p);
    if (L == m.len && p == m.pos && !memcmp(b, m.line, L)) return;
    if (L == m.len + 1 && p == m.pos + 1 && !memcmp(b, m.line, m.pos) && !memcmp(b + p, m.line + m.pos, m.len - m.pos)) {
        char c = b[m.pos], o = c == ')' ? '(' : c == ']' ? '[' : c == '}' ? '{' : c == '"' ? '"' : c == '\'' ? '\'' : 0;
        if (o && (memchr(m.line, o, m.pos) || memchr(m.pend, o, m.plen))) goto ok;
    }
    int s = m.pos, e; while (s > 0 && wordc(m.line[s - 1])) s--;
    e = s; while (e < m.len && wordc(m.line[e])) e++;
    if (e > s && p - s >= e - s && !memcmp(b, m.line, e) && L - p == m.len - e && !memcmp(b + p, m.line + e, m.len - e) && p > s) goto ok;
    for (int q = 0; q < m.pos; q++) if (m.line[q] == '"' && p > q && !memcmp(b, m.line, q + 1)) {
        int f = q + 1; while (f < m.len && m.line[f] != ' ' && m.line[f] != '"') f++;
        if (L - p == m.len - f && !memcmp(b + p, m.line + f, m.len - f)) goto ok;
    }
    bad("completion turns [%.*s] at %d into [%.*s] at %d", m.len, m.line, m.pos, L, b, p);
ok:
    setline(b, L); m.pos = p;
}
// returns 0 if the model does not say
static int step(int k) {
    int q;
    gotn = -1;
    if ((k == KUP || k == KDOWN)) for (int i = 0; i < m.nh; i++) if (!m.hl[i]) return 0;
    if (m.len > 60 || m.plen > 300) return 0;
    for (const char *s = KEYS[k]; *s; s++) press1((unsigned char)*s);
    P->trans++;
    int want = -1; char text[700];
    switch (k) {
        case KA: case KO: case KC: case KQ: case KS: case KSEMI: case KU: case KSQ: case KBR: case KBSL:
            q = strlen(KEYS[k]); memmove(m.line + m.pos + q, m.line + m.pos, m.len - m.pos); memcpy(m.line + m.pos, KEYS[k], q); m.pos += q; m.len += q; break;
        case KBS: q = prevc(m.pos); cut(q, m.pos); m.pos = q; break;
        case KDEL: cut(m.pos, nextc(m.pos)); break;
        case KL: case KCB: m.pos = prevc(m.pos); break;
        case KR: case KCF: m.pos = nextc(m.pos); break;
        case KHOME: m.pos = 0; break;
        case KEND: m.pos = m.len; break;
        case KK: m.len = m.pos; break;
        case KCC: m.plen = 0; // fallthrough
        case KCU: m.len = m.pos = 0; m.saved = 0; break;
        case KW: q = m.pos; while (q > 0 && alnum(m.line[q - 1])) q--; cut(q, m.pos); m.pos = q; break;
        case KWL: if (m.pos) { m.pos = prevc(m.pos); while (m.pos > 0 && alnum(m.line[m.pos - 1])) m.pos--; } break;
        case KWR: if (m.pos < m.len) { m.pos = nextc(m.pos); while (m.pos < m.len && alnum(m.line[m.pos])) m.pos++; } break;
        case KUP:
            if (m.hidx > 0) {
                if (!m.saved) { memcpy(m.cur, m.line, m.len); m.curl = m.len; m.saved = 1; }
                m.hidx--; setline(m.h[m.hidx], m.hl[m.hidx]);
            }
            break;
        case KDOWN:
            if (m.hidx + 1 < m.nh) { m.hidx++; setline(m.h[m.hidx], m.hl[m.hidx]); }
            else { m.hidx = m.nh; if (m.saved) { setline(m.cur, m.curl); m.saved = 0; } }
            break;
        case KTAB: tab(); break;
        case KRET:
            m.saved = 0; m.hidx = m.nh;
            if (m.len || m.plen) {
                memcpy(text, m.pend, m.plen); memcpy(text + m.plen, m.line, m.len); want = m.plen + m.len;
                if (complete(text, want)) { m.plen = 0; hadd(text, want); m.hidx = m.nh; }
                else { memcpy(m.pend, text, want); m.pend[want] = '\n'; m.plen = want + 1; want = -1; }
            } else want = 0;
            m.len = m.pos = 0;
            break;
        default: break;
    }
    if (T->buf_len != m.len || memcmp(T->buf, m.line, m.len)) bad("the line is [%.*s] instead of [%.*s]", T->buf_len, T->buf, m.len, m.line);
    if (T->buf_pos != m.pos) bad("the cursor is at %d instead of %d of [%.*s]", T->buf_pos, m.pos, m.len, m.line);
    if (T->multiline_len != m.plen || memcmp(T->multiline_buf, m.pend, m.plen)) bad("the pending input is [%.*s] instead of [%.*s]", T->multiline_len, T->multiline_buf, m.plen, m.pend);
    if (gotn != want) bad(gotn < 0 ? "[%.*s] is not evaluated" : "[%.*s] is evaluated as %d characters", gotn < 0 ? want : gotn, gotn < 0 ? text : got, gotn);
    if (gotn > 0 && memcmp(got, text, gotn)) bad("[%.*s] is evaluated instead of [%.*s]", gotn, got, gotn, text);
    if (gotn > 0 && T->last_input_line < 1) bad("an input has no line");
    show(); screen();
    return 1;
}

// snapshots
typedef struct { struct term_t t; struct hist_t h; M m; char e[1024]; char s[sizeof S]; } snap;
static void save(snap *s) { s->t = *T; s->h = *T->hist; s->m = m; memcpy(s->e, T->hist->entries, 1024); memcpy(s->s, &S, sizeof S); }
static void load(const snap *s) { *T = s->t; *T->hist = s->h; m = s->m; memcpy(T->hist->entries, s->e, 1024); memcpy(&S, s->s, sizeof S); }
static uint64_t hs;
static void mix(const void *p, int n) { const unsigned char *c = p; for (int i = 0; i < n; i++) { hs ^= c[i]; hs *= 0x100000001b3ull; } hs ^= n + 77; hs *= 0x9E3779B97F4A7C15ull; hs ^= hs >> 29; }
static uint64_t state(void) {
    hs = 1469598103934665603ull;
    mix(m.line, m.len); mix(&m.pos, 4); mix(m.pend, m.plen); mix(&m.nh, 4); mix(&m.hidx, 4); mix(&m.saved, 4); if (m.saved) mix(m.cur, m.curl);
    hist_p h = T->hist; i64_t v[] = {h->pos, h->index, h->search_dir, h->curr_saved, h->curr_saved ? h->curr_len : 0, T->input_len, T->autocp_buf_len, T->autocp_buf_len ? T->autocp_buf_pos : 0, T->autocp_idx.entry, T->autocp_idx.index};
    mix(v, sizeof v); mix(h->entries, h->pos); if (h->curr_saved) mix(h->curr, h->curr_len);
    return hs ? hs : 1;
}
#define HB 22
static struct { uint64_t h; int d; } *tab_;
static int depth, part, nparts; static long top;
static snap *stk;
static void go(int d) {
    if (d == depth) return;
    uint64_t h = state(); long i = h & ((1l << HB) - 1);
    while (tab_[i].h && tab_[i].h != h) i = (i + 1) & ((1l << HB) - 1);
    if (tab_[i].h && tab_[i].d >= depth - d) return;
    if (!tab_[i].h) { if (++P->states > (3l << HB) / 4) bad("table of states"); tab_[i].h = h; }
    tab_[i].d = depth - d;
    save(&stk[d]);
    for (int k = 0; k < NK; k++) {
        if (d == 1 && top++ % nparts != part) continue;
        P->n = d + 1; P->ops[d] = k;
        if (step(k)) go(d + 1);
        load(&stk[d]);
    }
    P->runs++;
}
static void onalarm(int s) { (void)s; bad("it does not end"); }
static void type(const char *s) { for (; *s; s++) press1((unsigned char)*s); show(); }
static const char *START[] = {"", "aa\n(a)\nab\n", "a a(\xc3\xa9 \"a", "(a\n\"a;\n", "aa\nab\naa b\x1b[A\x1b[A", "a\n"};
// the model follows the same keys
static void start(const char *s) {
    while (*s) {
        int k; for (k = 0; k < NK; k++) if (!strncmp(s, KEYS[k], strlen(KEYS[k]))) break;
        if (k == NK) { // another letter
            memmove(m.line + m.pos + 1, m.line + m.pos, m.len - m.pos); m.line[m.pos++] = *s; m.len++; press1(*s); show(); s++; continue;
        }
        if (!step(k)) bad("start"); s += strlen(KEYS[k]);
    }
}
static void bounds(const char *fill, const char *keys) {
    // a full line: more keys change nothing outside of it
    for (int lines = 0; lines < 2; lines++) {
        // a long line typed before
        int i = 0, L = strlen(fill);
        for (; i < TERM_BUF_SIZE - 12 || i % L; i++) T->buf[i] = fill[i % L];
        T->buf_len = T->buf_pos = i; T->buf[i] = 0;
        for (int e = i + 16; i < e; i++) {
            press1((unsigned char)fill[i % L]);
            fflush(stdout); fseeko(stdout, 0, SEEK_SET); outn = 0;
            if (T->buf_len < 0 || T->buf_len >= TERM_BUF_SIZE || T->buf_pos < 0 || T->buf_pos > T->buf_len) bad("a line of %d characters, position %d", T->buf_len, T->buf_pos);
            P->trans++;
        }
        for (const char *k = keys; *k; k++) {
            press1((unsigned char)*k); P->trans++;
            if (T->buf_len < 0 || T->buf_len >= TERM_BUF_SIZE || T->buf_pos < 0 || T->buf_pos > T->buf_len) bad("a line of %d characters, position %d", T->buf_len, T->buf_pos);
            if (T->multiline_len < 0 || T->multiline_len >= TERM_BUF_SIZE) bad("a pending input of %d characters", T->multiline_len);
            fflush(stdout); fseeko(stdout, 0, SEEK_SET); outn = 0;
        }
        P->runs++;
    }
}
int main(int argc, char **argv) {
    int fd = open(argv[1], O_RDWR | O_CREAT, 0600); if (ftruncate(fd, 65536)) return 3;
    P = mmap(NULL, 65536, 3, MAP_SHARED, fd, 0); memset(P, 0, sizeof *P);
    runtime_create(0, NULL);
    signal(SIGALRM, onalarm); alarm(800);
    FILE *o0 = stdout; (void)o0;
    stdout = open_memstream(&out, &outn);
    T = term_create(); if (!T) return 3;
    { term_p t = malloc(sizeof *t); *t = *T; T = t; }
    depth = atoi(argv[2]); int st = atoi(argv[3]);
    term_prompt(T); show();
    if (depth < 0) {
        static const char *F[] = {"(", "a", "\"", "(a ", "\xc3\xa9", "a\"", ")(", "[{("};
        bounds(F[st % 8], st < 8 ? "\t\t\x01\t\x1b[C\t\x0e\x10\x1b" "b\x7f\t\t\t\n\t\t(\t\t\n" : "\n((\n(((\t\n((((\n\n\t\x03");
        P->n = -1; return 0;
    }
    part = argc > 4 ? atoi(argv[4]) : 0; nparts = argc > 5 ? atoi(argv[5]) : 1;
    tab_ = mmap(NULL, sizeof *tab_ << HB, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    stk = calloc(depth + 1, sizeof *stk);
    start(START[st]);
    if (argc > 6) {
        for (int i = 6; i < argc; i++) { P->n = i - 5; P->ops[i - 6] = atoi(argv[i]); if (!step(atoi(argv[i]))) break; fprintf(stderr, "[%.*s] %d pending [%.*s] history %d/%d\n", m.len, m.line, m.pos, m.plen, m.pend, m.hidx, m.nh); }
    } else go(0);
    P->n = -1;
    return 0;
}
