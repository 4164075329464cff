// The real reader on every text over an alphabet up to a length (address sanitizer, exact-size buffers), and on a
// list of texts whose values are printed.
// usage: text PROGRESS ALPHABET maxlen part nparts     tokens in ALPHABET are separated by \x01
//        text PROGRESS @FILE                           texts in FILE, NUL-separated: one canonical value per line
#define _GNU_SOURCE
#include "canon.h"
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/mman.h>
#include "core/runtime.h"
#include "core/parse.h"
#include "core/nfo.h"
#include "core/error.h"
int __wrap_pthread_setaffinity_np(void) { return 0; }
static struct prog { long runs, ok, err; int n, len; char txt[256]; char what[512]; } *P;
static void bad(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(P->what, sizeof P->what, f, a); va_end(a); abort(); }
static long live;
static void on_m(const volatile void *p, size_t n) { (void)n; if (p) live++; }
static void on_f(const volatile void *p) { if (p) live--; }
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern obj_p ray_parse_str(i64_t fd, obj_p str, obj_p file);
static char *toks[64]; static int ntok;
static char txt[256]; static int len;
static obj_p rds(const char *t, i64_t n) { obj_p s = C8(n); memcpy(AS_C8(s), t, n); obj_p r = ray_parse_str(0, s, NULL_OBJ); drop_obj(s); return r; }
static obj_p rd(void) { obj_p r = rds(txt, len); if (!IS_ERR(r)) error_clear_trace(); return r; }
static void fin(obj_p r) { drop_obj(r); error_clear_trace(); }
// structural equality without building text (same type, same contents)
static int same(obj_p a, obj_p b) {
    if (a == b) return 1;
    if (a == NULL || b == NULL || a->type != b->type) return 0;
    switch (a->type) {
        case TYPE_LIST: case TYPE_DICT: case TYPE_TABLE:
            if (a->type == TYPE_LIST && a->len != b->len) return 0;
            for (i64_t i = 0, n = a->type == TYPE_LIST ? a->len : 2; i < n; i++) if (!same(AS_LIST(a)[i], AS_LIST(b)[i])) return 0;
            return 1;
        case TYPE_LAMBDA: return same(AS_LAMBDA(a)->args, AS_LAMBDA(b)->args) && same(AS_LAMBDA(a)->body, AS_LAMBDA(b)->body);
        case TYPE_ERR: return 1;
        default: {
            static vt_buf x, y; x.n = y.n = 0; vt_canon(&x, a); vt_canon(&y, b);
            return x.n == y.n && !memcmp(x.p, y.p, x.n);
        }
    }
}
static void one(void) {
    P->len = len; memcpy(P->txt, txt, len);
    long l0 = live;
    obj_p r = rd();
    if (r == NULL) bad("no value");
    if (IS_ERR(r)) P->err++; else { P->ok++; if (r->type < -TYPE_C8 || r->type == TYPE_TOKEN) bad("a value of type %d", r->type); }
    int err = IS_ERR(r);
    fin(r);
    P->runs++;
    if (live != l0) {
        // names are interned once
        l0 = live; fin(rd()); if (live != l0) bad("reading it leaks %ld blocks", live - l0);
    }
    // white space and comments around a text do not change what it is
    if (len < 200) {
        char t[256]; int n = 0;
        memcpy(t, "\t ;(\n", 5); n = 5; memcpy(t + n, txt, len); n += len; memcpy(t + n, "\n;x(", 4); n += 4;
        r = rd();
        if (err) error_clear_trace();
        obj_p q = rds(t, n);
        if (IS_ERR(q) != err || (!err && !same(r, q))) bad("between white space and comments it is another value");
        error_clear_trace();
        drop_obj(r); drop_obj(q);
    }
}
static int part, nparts; static long top;
static void go(int depth) {
    for (int i = 0; i < ntok; i++) {
        int k = strlen(toks[i]), l = len;
        if (depth == 2 && top++ % nparts != part) continue;
        memcpy(txt + len, toks[i], k); len += k;
        if (depth > 1 || part == 0) one();
        if (depth < P->n) go(depth + 1);
        len = l;
    }
}
static void onalarm(int s) { (void)s; bad("reading it does not end"); }
int main(int argc, char **argv) {
    (void)argc;
    int fd = open(argv[1], O_RDWR | O_CREAT, 0600); if (ftruncate(fd, 65536)) return 3;
    P = mmap(NULL, 65536, 3, MAP_SHARED, fd, 0); memset(P, 0, sizeof *P);
    runtime_create(0, NULL);
    signal(SIGALRM, onalarm); alarm(800);
    if (argv[2][0] == '@' && argc == 3) {
        FILE *f = fopen(argv[2] + 1, "rb"); vt_buf b = {0};
        if (!f) return 3;
        size_t cap = 1 << 16; char *t = malloc(cap); int c, n = 0;
        while ((c = fgetc(f)) != EOF) {
            if (c) { if ((size_t)n == cap) t = realloc(t, cap *= 2); t[n++] = c; continue; }
            P->len = n < 255 ? n : 255; memcpy(P->txt, t, P->len);
            char *e = malloc(n ? n : 1); memcpy(e, t, n);
            obj_p r = rds(e, n); free(e);
            b.n = 0; vt_canon(&b, r); fwrite(b.p, 1, b.n, stdout); fputc('\n', stdout);
            fin(r); n = 0; P->runs++;
        }
        fflush(stdout); P->n = -1; return 0;
    }
    if (!freopen("/dev/null", "w", stdout)) return 3;
    for (char *p = argv[2], *q; p && *p; p = q) { q = strchr(p, 1); if (q) *q++ = 0; toks[ntok++] = p; }
    P->n = atoi(argv[3]); part = atoi(argv[4]); nparts = atoi(argv[5]);
    __sanitizer_install_malloc_and_free_hooks(on_m, on_f);
    go(1);
    P->n = -1;
    return 0;
}
