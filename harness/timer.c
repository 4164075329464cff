// Explicit-state exploration of the timers: every sequence of operations up to a depth, in virtual time.
// The real event loop and interpreter run; the clock and epoll_wait are link-wrapped.  Between two waits the
// "handler of an event" performs operations; a wait ends exactly in time, early (an event) or late.
// usage: timer PROGRESS depth part nparts [op ...]     timer PROGRESS -N part nparts (size families)
#define _GNU_SOURCE
#include "canon.h"
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/time.h>
#include "core/poll.h"
#include "core/chrono.h"
#include "core/runtime.h"
#undef poll
int __wrap_pthread_setaffinity_np(void) { return 0; }
static struct prog { long runs, steps, states; int n, ops[64]; char what[512]; } *P;
static void bad(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(P->what, sizeof P->what, f, a); va_end(a); abort(); }
// ---------------------------------------------------------------- virtual time
static long vt;
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { (void)c; t->tv_sec = vt / 1000; t->tv_nsec = vt % 1000 * 1000000; return 0; }
time_t __wrap_time(time_t *t) { if (t) *t = vt / 1000; return vt / 1000; }
int __wrap_gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = vt / 1000; t->tv_usec = vt % 1000 * 1000; return 0; }
int __real_close(int);
int __wrap_close(int fd) { return fd >= 500 && fd < 510 ? 0 : __real_close(fd); }
int __wrap_epoll_create1(int f) { (void)f; return 500; }
int __wrap_eventfd(unsigned a, int b) { (void)a; (void)b; return 501; }
int __wrap_epoll_ctl(int e, int o, int f, struct epoll_event *v) { (void)e; (void)o; (void)f; (void)v; return 0; }
static int on_wait(int timeout);
static poll_p PL;
int __wrap_epoll_wait(int e, struct epoll_event *v, int n, int timeout) { (void)e; (void)v; (void)n; return on_wait(timeout); }
static long live;
static void on_m(const volatile void *p, size_t n) { (void)n; if (p) live++; }
static void on_f(const volatile void *p) { if (p) live--; }
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static obj_p ev(const char *s) { obj_p q = cstring_from_str((str_p)s, strlen(s)), r = ray_eval_str(q, NULL); drop_obj(q); return r; }
static void evd(const char *s) { obj_p r = ev(s); if (IS_ERR(r)) { obj_p f = obj_fmt(r, B8_TRUE); fprintf(stderr, "setup error: %s: %.*s\n", s, (int)f->len, AS_C8(f)); exit(3); } drop_obj(r); }
// ---------------------------------------------------------------- model
#define MT 400
typedef struct { int used, label, act; long exp, tic, num, id; } T;
static T M[MT]; static int nM;
static long ids[MT]; static int nids;  // every id returned, by number of the operation
static int consumed, opn;
enum { A_NONE, A_SELF, A_PREV, A_CHILD, A_ERR };
static long nextexp(void) { long e = -1; for (int i = 0; i < nM; i++) if (M[i].used && (e < 0 || M[i].exp < e)) e = M[i].exp; return e; }
static int add_model(long id, int label, long tic, long num, int act) {
    for (int i = 0; i < nM; i++) if (M[i].used && M[i].id == id) bad("id %ld given to two timers", id);
    int k = 0; while (k < nM && M[k].used) k++;
    if (k == nM && nM++ == MT) bad("harness: too many timers");
    M[k] = (T){1, label, act, vt + tic, tic, num, id};
    return k;
}
static void del_model(long id) { for (int i = 0; i < nM; i++) if (M[i].used && M[i].id == id) M[i].used = 0; }
static int cmpl(const void *a, const void *b) { long x = *(const long *)a, y = *(const long *)b; return (x > y) - (x < y); }
static unsigned char *seen; static long nseen;
static void mark(void) {
    long v[MT * 2]; int n = 0; for (int i = 0; i < nM; i++) if (M[i].used) v[n++] = ((M[i].exp - vt) * 16 + M[i].tic) * 64 + M[i].num * 8 + M[i].act;
    qsort(v, n, sizeof *v, cmpl);
    uint64_t h = 14695981039346656037ull; for (int i = 0; i < n; i++) h = (h ^ v[i]) * 1099511628211ull;
    h = (h ^ h >> 29) & ((1 << 24) - 1);
    if (!seen[h]) { seen[h] = 1; P->states = ++nseen; }
}
// the callbacks that ran since the last look, replayed on the model
static void follow(void) {
    obj_p l = ev("lg"); int n = l->type == TYPE_I64 ? (int)l->len : 0;
    for (; consumed < n; consumed++) {
        long v = AS_I64(l)[consumed], t = v % 100000, e = nextexp(), sl = v / 100000; int k = -1, label = (int)sl;
        for (int i = 0; i < nM; i++) if (M[i].used && M[i].label == label && M[i].exp == e) k = i;
        if (k < 0) bad("timer %d fired at %ld%s", label, vt, e < 0 ? ", no timer is set" : ", but it is not the one due first (or it was removed)");
        if (e > vt) bad("timer %d fired at %ld, before it is due at %ld", label, vt, e);
        if (t != vt) bad("timer %d got the time %ld at %ld", label, t, vt);
        T m = M[k];
        if (m.num == 0 || m.num > 1) { if (m.num) M[k].num--; M[k].exp += m.tic; } else M[k].used = 0;
        P->steps++;
        if (m.act == A_SELF) del_model(m.id);
        if (m.act == A_PREV && m.label > 0 && m.label < 100) del_model(ids[m.label - 1]);
        if (m.act == A_CHILD) {  // its id is the next one logged
            consumed++; if (consumed >= n) bad("the callback of timer %d did not finish", label);
            add_model(AS_I64(l)[consumed], m.label + 100, 1, 1, A_NONE);
        }
    }
    drop_obj(l);
    long e = nextexp(); if (e >= 0 && e <= vt) bad("a timer due at %ld did not fire at %ld", e, vt);
    mark();
}
static char *lambda_text(int label, int act) {
    static char b[300];
    int k = snprintf(b, 300, "(fn [t] (do (set lg (concat lg (+ %d t)))", label * 100000);
    if (act == A_SELF) k += snprintf(b + k, 300 - k, "(timer id%d)", label);
    if (act == A_PREV && label > 0) k += snprintf(b + k, 300 - k, "(timer id%d)", label - 1);
    if (act == A_CHILD) k += snprintf(b + k, 300 - k, "(set lg (concat lg (timer 1 1 (fn [t] (set lg (concat lg (+ %d t)))))))", (label + 100) * 100000);
    if (act == A_ERR) k += snprintf(b + k, 300 - k, "(raise \"boom\")");
    snprintf(b + k, 300 - k, "))");
    return b;
}
static void add(long tic, long num, int act) {
    char b[512]; int label = nids;
    snprintf(b, 512, "(set id%d (timer %ld %ld %s))", label, tic, num, lambda_text(label, act));
    obj_p r = ev(b);
    if (r->type != -TYPE_I64) { obj_p f = obj_fmt(r, B8_TRUE); bad("%s gives %.*s", b, (int)f->len, AS_C8(f)); }
    ids[nids++] = r->i64;
    add_model(r->i64, label, tic, num, act);
    drop_obj(r);
}
static void del(long id) {
    char b[64]; snprintf(b, 64, "(timer %ld)", id);
    obj_p r = ev(b); if (r != NULL_OBJ) bad("%s is not null", b);
    del_model(id);
}
// ---------------------------------------------------------------- operations
static const struct { int tic, num, act; } ADDS[] = {{1, 1, 0}, {2, 1, 0}, {3, 1, 0}, {1, 2, 0}, {3, 2, 0}, {1, 0, 0}, {2, 0, 0}, {3, 0, 0}, {2, 0, A_SELF}, {1, 3, A_SELF}, {1, 0, A_PREV}, {2, 2, A_PREV}, {2, 0, A_CHILD}, {1, 2, A_ERR}, {0, 2, 0}};
#define NADD 15
#define NDEL 4
#define NOP (NADD + NDEL + 3)
static int ops[64], nops;
static int on_wait(int timeout) {
    follow();
    long e = nextexp();
    if (e < 0 ? timeout != -1 : timeout != e - vt) bad("the loop waits for %d, the next timer is due in %ld", timeout, e < 0 ? -1 : e - vt);
    for (;;) {
        if (opn == nops) { PL->code = 0; return 0; }
        int o = ops[opn++];
        P->steps++;
        if (o < NADD) add(ADDS[o].tic, ADDS[o].num, ADDS[o].act);
        else if (o < NADD + NDEL) del(o - NADD < nids ? ids[o - NADD] : 1000 + o);
        else {
            long w = e < 0 ? 1 : e - vt;
            if (nextexp() >= 0 && e >= 0 && nextexp() < e) w = nextexp() - vt;
            // the wait was for what is known now: an event handler changed the timers, the loop comes back at once
            vt += o == NADD + NDEL ? w : o == NADD + NDEL + 1 ? w + 2 : w > 1 ? w - 1 : 0;
            return 0;
        }
    }
}
static long base;
static void execute(void) {
    memset(M, 0, sizeof(T) * nM); nM = nids = 0; consumed = opn = 0; vt = 5;
    evd("(set lg [])");
    PL = runtime_get()->poll = poll_create();
    alarm(10);
    poll_run(PL);
    alarm(0);
    follow();
    poll_destroy(PL); runtime_get()->poll = NULL;
    evd("(set lg [])");
    P->runs++;
}
static void run1(void) {
    long l0 = live; P->n = nops; for (int i = 0; i < nops; i++) P->ops[i] = ops[i];
    execute();
    if (live != l0) { l0 = live; execute(); if (live != l0) bad("memory is not reclaimed: %ld blocks", live - l0); }
}
static int part, nparts; static long top;
static void explore(int depth) {
    for (int o = 0; o < NOP; o++) {
        if (nops == 1 && top++ % nparts != part) continue;
        // the sequence ends with waits, so what its last operations did is seen
        ops[nops++] = o;
        if (nops == depth) {
            int n = nops; ops[nops++] = NADD + NDEL; ops[nops++] = NADD + NDEL + 1; ops[nops++] = NADD + NDEL; ops[nops++] = NADD + NDEL + 1; ops[nops++] = NADD + NDEL;
            run1();
            nops = n;
        } else explore(depth);
        nops--;
    }
}
// ---------------------------------------------------------------- many timers
static int fam_n, fam_pat, fam_del, fam_step;
static int fam_wait(int timeout);
static void family(void) {
    memset(M, 0, sizeof(T) * nM); nM = nids = 0; consumed = opn = 0; vt = 5;
    evd("(set lg [])");
    PL = runtime_get()->poll = poll_create();
    for (int i = 0; i < fam_n; i++) {
        int tic = fam_pat == 0 ? i + 1 : fam_pat == 1 ? fam_n - i : fam_pat == 2 ? (i * 7 + 3) % 31 + 1 : fam_pat == 3 ? (i & 1 ? i : 2 * fam_n - i) + 1 : 1 + i % 3;
        add(tic, 1 + i % 3, A_NONE);
    }
    if (fam_del >= 0) { del(ids[fam_del]); if (fam_del + 1 < fam_n) del(ids[fam_n - 1 - fam_del]); add(2, 1, A_NONE); }
    nops = 0; fam_step = 0;
    for (int i = 0; i < 40; i++) ops[nops++] = NADD + NDEL + (i % 7 == 3) + 0;
    alarm(20); poll_run(PL); alarm(0);
    follow();
    poll_destroy(PL); runtime_get()->poll = NULL;
    evd("(set lg [])");
    P->runs++;
}
static void onalarm(int s) { (void)s; bad("the event loop hangs"); }
int main(int argc, char **argv) {
    (void)base; (void)fam_wait;
    int fd = open(argv[1], O_RDWR | O_CREAT, 0600); ftruncate(fd, 65536);
    P = mmap(NULL, 65536, 3, MAP_SHARED, fd, 0); memset(P, 0, sizeof *P);
    int depth = atoi(argv[2]); part = atoi(argv[3]); nparts = atoi(argv[4]);
    seen = calloc(1 << 24, 1);
    vt = 5;
    runtime_create(0, NULL);
    if (runtime_get()->poll) poll_destroy(runtime_get()->poll);
    signal(SIGALRM, onalarm);
    freopen("/dev/null", "w", stdout);
    for (int i = 5; i < argc; i++) ops[nops++] = atoi(argv[i]);
    if (nops) { P->n = nops; execute(); return 0; }
    if (depth > 0) {
        ops[nops++] = 5; ops[nops++] = 12; ops[nops++] = 19; execute(); execute(); nops = 0;
        __sanitizer_install_malloc_and_free_hooks(on_m, on_f);
        P->runs = P->steps = 0;
        for (int d = 1; d < depth && part == 0; d++) if (d == 1) { int sp = nparts; nparts = 1; explore(1); nparts = sp; }
        top = 0; explore(depth);
    } else {
        int first = 1;
        for (int c = 0, n = 1; n <= -depth; n++) for (fam_pat = 0; fam_pat < 5; fam_pat++) for (fam_del = -1; fam_del < n; fam_del += n > 20 ? 3 : 1) {
            if (c++ % nparts != part) continue;
            fam_n = n; P->n = 3; P->ops[0] = n; P->ops[1] = fam_pat; P->ops[2] = fam_del;
            if (first) { family(); family(); __sanitizer_install_malloc_and_free_hooks(on_m, on_f); first = 0; }
            long l0 = live; family(); if (live != l0) { l0 = live; family(); if (live != l0) bad("memory is not reclaimed: %ld blocks", live - l0); }
        }
    }
    P->n = -1;
    return 0;
}
