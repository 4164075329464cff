// The real `like` on every string and every pattern over an alphabet up to given lengths, against the definition of
// the patterns (address sanitizer; the objects under test end where their memory ends as far as the heap allows).
// usage: like PROGRESS strings strlen pattern-alphabet patlen part nparts
#define _GNU_SOURCE
#include "canon.h"
#include <fcntl.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include "core/runtime.h"
int __wrap_pthread_setaffinity_np(void) { return 0; }
static struct prog { long pairs, patterns, trues; char what[512]; int bad; } *P;
static void bad(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(P->what, sizeof P->what, f, a); va_end(a); P->bad = 1; _exit(1); }
extern obj_p ray_like(obj_p, obj_p);
// an element of a pattern: * or a set of characters
typedef struct { int star; unsigned long set[4]; } el;
static int compile(const char *p, int n, el *e) {
    int k = 0;
    for (int i = 0; i < n; i++, k++) {
        memset(&e[k], 0, sizeof *e);
        if (p[i] == '*') { e[k].star = 1; continue; }
        if (p[i] == '?') { memset(e[k].set, 255, sizeof e[k].set); continue; }
        if (p[i] == '[') {
            int inv = 0; i++;
            if (i < n && p[i] == '^') { inv = 1; i++; }
            for (; i < n && p[i] != ']'; i++) { unsigned char c = p[i]; e[k].set[c >> 6] |= 1ul << (c & 63); }
            if (i >= n) return -1;       // a set that does not end
            if (inv) for (int j = 0; j < 4; j++) e[k].set[j] = ~e[k].set[j];
            continue;
        }
        unsigned char c = p[i]; e[k].set[c >> 6] |= 1ul << (c & 63);
    }
    return k;
}
// the set of the positions of the pattern reached after each character
static int matches(const el *e, int k, const char *s, int n) {
    unsigned cur = 1;
    if (k < 0) return 0;
    for (int j = 0; j < k; j++) if ((cur >> j & 1) && e[j].star) cur |= 1u << (j + 1);
    for (int i = 0; i < n; i++) {
        unsigned nx = 0; unsigned char c = s[i];
        for (int j = 0; j < k; j++) if (cur >> j & 1) {
            if (e[j].star) nx |= 1u << j;
            else if (e[j].set[c >> 6] >> (c & 63) & 1) nx |= 1u << (j + 1);
        }
        for (int j = 0; j < k; j++) if ((nx >> j & 1) && e[j].star) nx |= 1u << (j + 1);
        cur = nx;
    }
    return cur >> k & 1;
}
static obj_p str(const char *s, int n) { obj_p o = C8(n); memcpy(AS_C8(o), s, n); return o; }
static void onalarm(int s) { (void)s; bad("a match does not end"); }
int main(int argc, char **argv) {
    int fd = open(argv[1], O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (argc < 8 || fd < 0 || ftruncate(fd, sizeof *P)) return 3;
    P = mmap(0, sizeof *P, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    const char *sa = argv[2], *pa = argv[4];
    int sl = atoi(argv[3]), pl = atoi(argv[5]), part = atoi(argv[6]), np = atoi(argv[7]);
    runtime_create(0, NULL);
    signal(SIGALRM, onalarm); alarm(800);
    // every string
    int ns = 0, na = strlen(sa), npa = strlen(pa);
    long tot = 0, w = 1; for (int i = 0; i <= sl; i++) { tot += w; w *= na; }
    char (*ss)[16] = malloc(tot * 16); int *sn = malloc(tot * sizeof(int));
    obj_p all = LIST(tot);
    for (int n = 0; n <= sl; n++) {
        long c = 1; for (int i = 0; i < n; i++) c *= na;
        for (long v = 0; v < c; v++) {
            long x = v; for (int i = 0; i < n; i++) { ss[ns][i] = sa[x % na]; x /= na; }
            sn[ns] = n; AS_LIST(all)[ns] = str(ss[ns], n); ns++;
        }
    }
    el e[16]; char p[16];
    for (int n = 0; n <= pl; n++) {
        long c = 1; for (int i = 0; i < n; i++) c *= npa;
        for (long v = 0; v < c; v++) {
            if (v % np != part) continue;
            long x = v; for (int i = 0; i < n; i++) { p[i] = pa[x % npa]; x /= npa; }
            int k = compile(p, n, e);
            obj_p po = str(p, n), r = ray_like(all, po);
            if (r == NULL || r->type != TYPE_B8 || r->len != ns) bad("(like list \"%.*s\") is no vector of the length of the list", n, p);
            for (int i = 0; i < ns; i++) {
                int want = matches(e, k, ss[i], sn[i]);
                P->trues += want;
                if (AS_B8(r)[i] != want) bad("(like \"%.*s\" \"%.*s\") is %d in a list, %d expected", sn[i], ss[i], n, p, AS_B8(r)[i], want);
                if ((v / np + i) % 7 == 0) {
                    obj_p a = ray_like(AS_LIST(all)[i], po);
                    if (a == NULL || a->type != -TYPE_B8 || a->b8 != want) bad("(like \"%.*s\" \"%.*s\") is not %d", sn[i], ss[i], n, p, want);
                    drop_obj(a);
                }
            }
            P->pairs += ns; P->patterns++;
            drop_obj(r); drop_obj(po);
        }
    }
    drop_obj(all);
    return 0;
}
