// Exhaustive decoder exploration: every mutation of a family applied to every base message, decoded by
// the real decoder from an exactly sized buffer (address sanitizer guards both ends).
// usage: decode BASES.hex PROGRESS part nparts start mode
#define _GNU_SOURCE
#include "canon.h"
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include "core/serde.h"
extern size_t __sanitizer_get_current_allocated_bytes(void);
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) {
    if (fl & MAP_HUGETLB) return MAP_FAILED;
    if (fl & MAP_ANONYMOUS) { fl &= ~(MAP_POPULATE); if (fl & MAP_SHARED) fl = (fl & ~MAP_SHARED) | MAP_PRIVATE; fl |= MAP_NORESERVE; }
    return __real_mmap(a, n, prot, fl, fd, off);
}
int __wrap_pthread_setaffinity_np(void) { return 0; }
static struct prog { long idx; long n, ok, err; unsigned char msg[512]; long len; char what[64]; long distinct; } *P;
static long idx, part, nparts, start_;
static vt_buf B1, B2;
static void bad(const char *w) { strncpy(P->what, w, 63); __builtin_trap(); }
static void on_alarm(int s) { (void)s; bad("decoding does not terminate"); }
static int hdr;
static unsigned char seen[1 << 20];

static obj_p dec(const unsigned char *m, long n, long *left) {
    obj_p r;
    if (hdr) {
        obj_p u = vector(TYPE_U8, n); memcpy(AS_U8(u), m, n);
        r = de_obj(u); drop_obj(u); *left = 0;
        return r;
    }
    unsigned char *b = malloc(n ? n : 1); memcpy(b, m, n);
    unsigned char *e = n ? b : b + 1;  // zero-length buffer: nothing readable
    i64_t l = n;
    r = de_raw(n ? b : e, &l);
    *left = l;
    free(b);
    return r;
}
static void one(const unsigned char *m, long n) {
    long k = idx++;
    if (k % nparts != part || k < start_) return;
    P->idx = k; P->len = n; memcpy(P->msg, m, n > 512 ? 512 : n); P->n++;
    if ((k & 0xff) == 0) alarm(20);
    size_t a0 = 0, a1 = 0;
    for (int round = 0; round < 2; round++) {
        long left = 0;
        a0 = __sanitizer_get_current_allocated_bytes();
        obj_p r = dec(m, n, &left);
        if (r == NULL) bad("NULL result");
        if (IS_ERR(r)) {
            if (round == 0) P->err++;
            drop_obj(r);
        } else {
            if (!hdr && (left < 0 || left > n)) bad("consumed more than the message");
            if (round == 0) {
                P->ok++;
                // the decoded value is a value like any other: it can be dumped, formatted and sent again
                B1.n = 0; vt_canon(&B1, r);
                obj_p f = obj_fmt(r, B8_TRUE); drop_obj(f);
                unsigned long h = 1469598103934665603ul;
                for (size_t i = 0; i < B1.n; i++) h = (h ^ (unsigned char)B1.p[i]) * 1099511628211ul;
                h = (h >> 20) % (8 * sizeof seen);
                if (!(seen[h >> 3] >> (h & 7) & 1)) { seen[h >> 3] |= 1 << (h & 7); P->distinct++; }
                i64_t sz = size_obj(r);
                if (sz <= 0) bad("decoded value has no size");
                unsigned char *b = malloc(sz);
                i64_t w = ser_raw(b, r);
                if (w != sz) bad("size_obj disagrees with ser_raw");
                i64_t l2 = sz;
                obj_p r2 = de_raw(b, &l2);
                free(b);
                B2.n = 0; vt_canon(&B2, r2);
                if (B1.n != B2.n || memcmp(B1.p, B2.p, B1.n)) bad("re-encoding changes the value");
                drop_obj(r2);
            }
            drop_obj(r);
        }
        a1 = __sanitizer_get_current_allocated_bytes();
    }
    if (a1 != a0) bad("decoding leaks memory");
}
int main(int argc, char **argv) {
    char *av[] = {"vt", "-c", "1", NULL};
    if (!runtime_create(3, av)) return 98;
    int fd = open(argv[2], O_RDWR | O_CREAT, 0600); ftruncate(fd, sizeof *P);
    P = __real_mmap(0, sizeof *P, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    part = atol(argv[3]); nparts = atol(argv[4]); start_ = atol(argv[5]);
    int deep = atoi(argv[6]);
    signal(SIGALRM, on_alarm);
    vt_puts(&B1, "x"); vt_puts(&B2, "x");
    static const unsigned char BV[] = {0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff, 0xfe, 5, 6, 98, 99, 100, 101, 127, 0xfa, 0xfb, 0xf4};
    static const int64_t LV[] = {0, 1, 2, 3, 8, -1, -2, -8, INT64_MIN, INT64_MAX, 1000000000, 1000000001, 0x20000000, 0x10000000, 0x40000000, 0x80000000ll, 0x100000000ll, 0x1000000000000000ll, 0x2000000000000000ll, 0x4000000000000000ll, 0x3ffffffffffffff7ll, 7, 9, 15, 16, 17};
    char *line = NULL; size_t cap = 0; ssize_t n;
    FILE *f = fopen(argv[1], "r");
    while ((n = getline(&line, &cap, f)) > 1) {
        unsigned char m[512], t[512]; long len = 0;
        hdr = line[0] == 'H';
        for (char *p = line + 2; p[0] && p[1] && p[0] != '\n'; p += 2) { unsigned v; sscanf(p, "%2x", &v); m[len++] = v; }
        for (long i = 0; i <= len; i++) one(m, i);                       // every truncation
        for (long i = 0; i < len; i++) {                                  // every byte replaced
            memcpy(t, m, len);
            for (int v = 0; v < 256; v++) { t[i] = v; one(t, len); }
        }
        for (long i = 0; i + 8 <= len; i++)                               // every 8-byte window replaced by a boundary length
            for (unsigned v = 0; v < sizeof LV / sizeof *LV; v++) {
                memcpy(t, m, len); memcpy(t + i, LV + v, 8); one(t, len);
                if (deep) for (long j = len > 4 ? len - 4 : 0; j < len; j++) one(t, j);
            }
        for (long i = 0; i < len; i++) {                                  // every byte removed / duplicated
            memcpy(t, m, i); memcpy(t + i, m + i + 1, len - i - 1); one(t, len - 1);
            memcpy(t, m, i + 1); memcpy(t + i + 1, m + i, len - i); one(t, len + 1);
        }
        if (deep || len <= 24)
            for (long i = 0; i < len; i++) for (long j = i + 1; j < len; j++)  // every pair of bytes from the boundary set
                for (unsigned a = 0; a < sizeof BV; a++) for (unsigned b = 0; b < sizeof BV; b++) {
                    memcpy(t, m, len); t[i] = BV[a]; t[j] = BV[b]; one(t, len);
                }
    }
    hdr = 0;
    unsigned char s[32] = {0};
    one(s, 0);
    for (int a = 0; a < 256; a++) { s[0] = a; one(s, 1); for (int b = 0; b < 256; b++) { s[1] = b; one(s, 2); } }
    // every type with every attribute byte from the boundary set, boundary length and every short tail
    for (int a = 0; a < 256; a++) for (unsigned v = 0; v < sizeof LV / sizeof *LV; v++) for (int tail = 0; tail < 20; tail++) for (unsigned fill = 0; fill < 3; fill++) {
        s[0] = a; s[1] = 0; memcpy(s + 2, LV + v, 8); memset(s + 10, fill == 0 ? 0 : fill == 1 ? 0xff : 'a', tail); one(s, 10 + tail);
    }
    // deep nesting: lists in lists, dicts in dicts
    for (long d = 1; d <= 200000; d = d * 3 + 1) {
        long k = idx++;
        if (k % nparts != part || k < start_) continue;
        P->idx = k; P->n++; P->len = 0; alarm(60);
        for (int kind = 0; kind < 4; kind++) {
            unsigned char *b = malloc(d * 10 + 16); long o = 0;
            for (long i = 0; i < d; i++) {
                if (kind < 2) { b[o++] = 0; b[o++] = 0; int64_t one_ = 1; memcpy(b + o, &one_, 8); o += 8; }
                else { b[o++] = kind == 2 ? TYPE_DICT : TYPE_LAMBDA; b[o++] = 0; }
            }
            b[o++] = kind == 1 ? 126 : 0xf6; 
            i64_t l = o; obj_p r = de_raw(b, &l);
            if (!IS_ERR(r)) { obj_p f2 = obj_fmt(r, B8_TRUE); drop_obj(f2); P->ok++; } else P->err++;
            drop_obj(r); free(b);
        }
    }
    alarm(0);
    P->idx = -1;
    return 0;
}
