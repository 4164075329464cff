#define _GNU_SOURCE
#include "vsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>

#define NT 6
#define STACK (1 << 20)
typedef uint32_t clk_t;
extern __thread void *__VM;

// ---------------------------------------------------------------- state shared by all the explored processes
#define NSHARED (1 << 16)
#define NFAIL 24
typedef struct {
    char what[900]; char path[400];
} fail_t;
static struct {
    long runs, steps, choices, active, stop, truncated, races; int nfail; fail_t fail[NFAIL];
    int newshared;
    uint64_t shared[NSHARED];
    uint64_t states[1 << 20]; long nstates;
    uint64_t outs[1 << 12]; long nouts;
    int lock;
} *G;
static void glock(void) { while (__atomic_exchange_n(&G->lock, 1, __ATOMIC_ACQUIRE)) usleep(1); }
static void gunlock(void) { __atomic_store_n(&G->lock, 0, __ATOMIC_RELEASE); }
static int set_add(uint64_t *t, long cap, uint64_t v) {
    v |= 1;
    long i = (v * 0x9E3779B97F4A7C15ull >> 20) & (cap - 1);
    for (long k = 0; k < cap; k++, i = (i + 1) & (cap - 1)) {
        uint64_t c = __atomic_load_n(&t[i], __ATOMIC_RELAXED), z = 0;
        if (c == v) return 0;
        if (!c) { if (__atomic_compare_exchange_n(&t[i], &z, v, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return 1; if (z == v) return 0; }
    }
    return 0;
}
static int set_has(uint64_t *t, long cap, uint64_t v) {
    v |= 1;
    long i = (v * 0x9E3779B97F4A7C15ull >> 20) & (cap - 1);
    for (;; i = (i + 1) & (cap - 1)) { uint64_t c = __atomic_load_n(&t[i], __ATOMIC_RELAXED); if (c == v) return 1; if (!c) return 0; }
}

// ---------------------------------------------------------------- this execution
typedef struct {
    ucontext_t uc; char *stack; int live, done, own;
    int block; void *on, *mx; int joined;   // block: 0 ready, 1 mutex, 2 cond, 3 join
    void *vm; void *(*fn)(void *); void *arg, *ret;
    clk_t vc[NT]; int yielded; int woken;
} thr_t;
static thr_t T[NT];
static int nthr, cur, on, quiet, bound, budget, spurious;
static long steps, maxsteps, maxruns;
static int hold_token = 1, nproc;
static pid_t kids[100000]; static int nkids;
static char path[400]; static int plen, npos;
static const char *replay; static int verbose;
static uint64_t hist;
int sched_tid(void) { return cur; }
void sched_quiet(int q) { quiet = q; }
void sched_spurious(int q) { spurious = q; }

static void finish(void) {
    for (;;) {
        if (hold_token) { __atomic_fetch_sub(&G->active, 1, __ATOMIC_RELAXED); hold_token = 0; }
        int st; pid_t p = wait(&st);
        if (p < 0) { if (errno == EINTR) continue; break; }
    }
    _exit(0);
}
static void failv(const char *f, va_list a) {
    char b[900]; vsnprintf(b, sizeof b, f, a);
    on = 0;
    glock();
    int dup = 0;
    for (int i = 0; i < G->nfail; i++) if (!strncmp(G->fail[i].what, b, 200)) dup = 1;
    if (!dup && G->nfail < NFAIL) { strcpy(G->fail[G->nfail].what, b); strcpy(G->fail[G->nfail].path, path); G->nfail++; }
    if (G->nfail >= 12) G->stop = 1;
    gunlock();
    if (verbose) fprintf(stderr, "FAIL %s\n", b);
}
void sched_fail(const char *f, ...) {
    va_list a; va_start(a, f); failv(f, a); va_end(a);
    __atomic_fetch_add(&G->runs, 1, __ATOMIC_RELAXED);
    finish();
}
static void note(const char *f, ...) { va_list a; va_start(a, f); int o = on; failv(f, a); on = o; va_end(a); }
void sched_outcome(uint64_t h) { if (set_add(G->outs, 1 << 12, h)) __atomic_fetch_add(&G->nouts, 1, __ATOMIC_RELAXED); }

// one of n alternatives; alternative 0 is followed here, the others in children
static long deadline;
static int choose(int n, const char *why) {
    int p = npos++;
    if (n <= 1) return 0;
    __atomic_fetch_add(&G->choices, 1, __ATOMIC_RELAXED);
    if (set_add(G->states, 1 << 20, hist)) __atomic_fetch_add(&G->nstates, 1, __ATOMIC_RELAXED);
    if (replay) {
        char k[32]; snprintf(k, sizeof k, " %d:", p);
        const char *q = strstr(replay, k);
        int c = q ? atoi(q + strlen(k)) : 0;
        if (verbose) fprintf(stderr, "choice %d %s (thread %d) -> %d of %d\n", p, why, cur, c, n);
        return c;
    }
    for (int c = 1; c < n; c++) {
        if (G->stop || __atomic_load_n(&G->runs, __ATOMIC_RELAXED) > maxruns || time(NULL) > deadline) { G->truncated = 1; return 0; }
        int token = 0;
        if (__atomic_add_fetch(&G->active, 1, __ATOMIC_RELAXED) <= nproc) token = 1;
        else __atomic_fetch_sub(&G->active, 1, __ATOMIC_RELAXED);
        pid_t k = fork();
        if (k < 0) { G->truncated = 1; if (token) __atomic_fetch_sub(&G->active, 1, __ATOMIC_RELAXED); return 0; }
        if (k == 0) {
            hold_token = token; nkids = 0;
            if (plen < 380) plen += snprintf(path + plen, sizeof path - plen, " %d:%d", p, c);
            return c;
        }
        if (!token) { int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR); }
        else { int st; while (waitpid(-1, &st, WNOHANG) > 0); }
    }
    return 0;
}

static void progress(void) { for (int i = 0; i < nthr; i++) T[i].yielded = 0; }
static int enabled(int t) {
    thr_t *x = &T[t];
    if (!x->live || x->done) return 0;
    if (x->block == 0) return 1;
    if (x->block == 1) { extern int sched_mutex_free(void *); return sched_mutex_free(x->on); }
    if (x->block == 3) return T[x->joined].done;
    return 0;
}
static void go(int t) {
    if (t == cur) return;
    int f = cur;
    T[f].vm = __VM;
    cur = t;
    __VM = T[t].vm;
    hist = (hist ^ (uint64_t)(t + 1)) * 0x9E3779B97F4A7C15ull; hist ^= hist >> 31;
    swapcontext(&T[f].uc, &T[t].uc);
}
// a scheduling point.  must: the current thread cannot go on (or gives up its turn)
static void point(int must, const char *why) {
    int cand[NT], n = 0;
    if (!on) return;
    if (++steps > maxsteps) sched_fail("livelock: no end after %ld steps", maxsteps);
    __atomic_fetch_add(&G->steps, 1, __ATOMIC_RELAXED);
    hist = (hist ^ (uint64_t)steps) * 0xC2B2AE3D27D4EB4Full; hist ^= hist >> 29;
    int self = enabled(cur) && !must;
    if (self) cand[n++] = cur;
    if (!(self && (quiet || budget <= 0)))
        for (int i = 1; i < nthr; i++) { int t = (cur + i) % nthr; if (enabled(t) && !(must && T[t].yielded)) cand[n++] = t; }
    if (must && n == 0) { progress(); for (int i = 1; i <= nthr; i++) { int t = (cur + i) % nthr; if (enabled(t)) cand[n++] = t; } }
    // a waiting thread may wake up without a signal
    int nw = n;
    if (spurious && budget > 0 && !quiet)
        for (int t = 0; t < nthr; t++) if (T[t].live && !T[t].done && T[t].block == 2) cand[n++] = t;
    if (nw == 0) {
        char b[200]; int o = 0;
        static const char *bn[] = {"ready", "lock", "wait", "join"};
        for (int t = 0; t < nthr; t++) if (T[t].live && !T[t].done) o += snprintf(b + o, sizeof b - o, " thread %d: %s", t, bn[T[t].block]);
        sched_fail("deadlock:%s", b);
    }
    int c = quiet ? 0 : choose(n, why);
    if (c >= n) sched_fail("harness: replay diverged");
    if (c >= nw) { budget--; T[cand[c]].block = 1; T[cand[c]].on = T[cand[c]].mx; if (verbose) fprintf(stderr, "  thread %d wakes up spuriously\n", cand[c]); if (enabled(cand[c])) go(cand[c]); else point(must, "after a spurious wakeup"); return; }
    if (self && c > 0) budget--;
    else if (must && c > 0 && enabled(cur)) budget--;
    if (verbose && cand[c] != cur) fprintf(stderr, "  %s: thread %d -> %d\n", why, cur, cand[c]);
    go(cand[c]);
}

// ---------------------------------------------------------------- happens-before
#define CELLS 512
typedef struct { clk_t k[4][NT]; uint32_t pc[4][NT]; uint8_t m[4][NT]; } cell_t;  // kinds: 0 read 1 write 2 atomic read 3 atomic write
typedef struct page_t { uint64_t base; struct page_t *next; cell_t c[CELLS]; } page_t;
#define NPG (1 << 14)
static page_t *pages[NPG], *last;
static char *arena, *arena_end;
static void *grab(size_t n) {
    if (arena + n > arena_end) { size_t z = 64 << 20; arena = mmap(NULL, z, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); arena_end = arena + z; }
    void *p = arena; arena += n; return p;
}
static page_t *page(uint64_t a, int make) {
    uint64_t b = a >> 12;
    if (last && last->base == b) return last;
    page_t **h = &pages[(b * 0x9E3779B97F4A7C15ull >> 40) & (NPG - 1)], *p;
    for (p = *h; p; p = p->next) if (p->base == b) return last = p;
    if (!make) return NULL;
    p = grab(sizeof *p); p->base = b; p->next = *h; *h = p;
    return last = p;
}
// memory given by or back to the system: nothing is known about it
static void forget(void *a, size_t n) {
    uint64_t b = (uint64_t)a >> 12, e = ((uint64_t)a + n + 4095) >> 12;
    if (e - b > 4096) { for (int i = 0; i < NPG; i++) for (page_t *p = pages[i]; p; p = p->next) if (p->base >= b && p->base < e) memset(p->c, 0, sizeof p->c); return; }
    for (; b < e; b++) { page_t *p = page(b << 12, 0); if (p) memset(p->c, 0, sizeof p->c); }
}
static uint64_t codebase;
extern char __executable_start;
static uint32_t pcof(void *pc) { return (uint32_t)((uint64_t)pc - codebase); }
static const char *kn[] = {"read", "write", "atomic read", "atomic write"};
static void race(uint64_t a, int k, uint32_t pc, int k2, int t2, uint32_t pc2) {
    static uint64_t done[64]; static int nd;
    uint64_t key = (uint64_t)pc << 32 | pc2;
    for (int i = 0; i < nd; i++) if (done[i] == key) return;
    if (nd < 64) done[nd++] = key;
    __atomic_fetch_add(&G->races, 1, __ATOMIC_RELAXED);
    note("race: %s at 0x%x with %s at 0x%x | address %p threads %d and %d", kn[k], pc, kn[k2], pc2, (void *)a, cur, t2);
}
static int multi;
static inline void access1(uint64_t a, uint8_t mask, int kind, uint32_t pc) {
    page_t *p = page(a, 1);
    cell_t *c = &p->c[(a & 4095) >> 3];
    thr_t *x = &T[cur];
    if (multi)
        for (int k = 0; k < 4; k++) {
            if (!(kind & 1) && !(k & 1)) continue;          // two reads
            if (kind >= 2 && k >= 2) continue;              // two atomic accesses
            for (int t = 0; t < nthr; t++)
                if (t != cur && (c->m[k][t] & mask) && c->k[k][t] > x->vc[t]) race(a, kind, pc, k, t, c->pc[k][t]);
        }
    c->k[kind][cur] = x->vc[cur]; c->m[kind][cur] = mask; c->pc[kind][cur] = pc;
}
static void acc(void *ptr, size_t n, int kind, void *pcp) {
    if (!on || (uint64_t)ptr - (uint64_t)&__VM + 128 < 256) return;   // thread local
    uint64_t a = (uint64_t)ptr, e = a + n;
    uint32_t pc = pcof(pcp);
    while (a < e) {
        uint64_t g = a & ~7ull, ge = g + 8;
        uint8_t m = 0xff << (a - g);
        if (e < ge) m &= 0xff >> (ge - e);
        access1(g, m, kind, pc);
        a = ge;
    }
}
typedef struct sync_t { uint64_t a; struct sync_t *next; clk_t vc[NT]; int owner; uint8_t users; } sync_t;
static sync_t *syncs[4096];
static sync_t *sync_of(void *p) {
    uint64_t a = (uint64_t)p;
    sync_t **h = &syncs[(a * 0x9E3779B97F4A7C15ull >> 40) & 4095], *s;
    for (s = *h; s; s = s->next) if (s->a == a) return s;
    s = grab(sizeof *s); s->a = a; s->next = *h; s->owner = -1; *h = s;
    return s;
}
static void join_vc(clk_t *d, clk_t *s) { for (int i = 0; i < NT; i++) if (s[i] > d[i]) d[i] = s[i]; }
static void tick(void) { T[cur].vc[cur]++; }
int sched_mutex_free(void *m) { return sync_of(m)->owner < 0; }

// ---------------------------------------------------------------- threads, mutexes, conditions
static void start(void) {
    thr_t *x = &T[cur];
    x->ret = x->fn(x->arg);
    x->done = 1;
    progress();
    point(1, "end of thread");
    abort();
}
int __wrap_pthread_create(pthread_t *h, void *attr, void *(*fn)(void *), void *arg) {
    if (!on) return EAGAIN;
    if (nthr == NT) sched_fail("harness: too many threads");
    int t = nthr++;
    thr_t *x = &T[t];
    memset(x, 0, sizeof *x);
    x->stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&x->uc);
    x->uc.uc_stack.ss_sp = x->stack; x->uc.uc_stack.ss_size = STACK; x->uc.uc_link = NULL;
    makecontext(&x->uc, start, 0);
    x->fn = fn; x->arg = arg; x->live = 1;
    memcpy(x->vc, T[cur].vc, sizeof x->vc);
    x->vc[t] = 1;
    tick();
    multi = 1;
    *h = (pthread_t)(t + 1);
    return 0;
}
pthread_t __wrap_pthread_self(void) { return (pthread_t)(cur + 1); }
int __wrap_pthread_join(pthread_t h, void **r) {
    int t = (int)h - 1;
    if (!on) return 0;
    if (t < 0 || t >= nthr) sched_fail("join of an unknown thread");
    T[cur].joined = t;
    T[cur].block = 3;
    point(!T[t].done, "join");
    T[cur].block = 0;
    join_vc(T[cur].vc, T[t].vc);
    if (r) *r = T[t].ret;
    return 0;
}
int __wrap_pthread_setaffinity_np(void) { return 0; }
int __wrap_pthread_getaffinity_np(void) { return 0; }
static void maybe_point(void *a, void *pc, const char *why);
static void acquire(void *m) {
    sync_t *s = sync_of(m);
    thr_t *x = &T[cur];
    if (s->owner == cur) sched_fail("deadlock: thread %d locks a mutex it holds", cur);
    while (s->owner >= 0) { x->block = 1; x->on = m; point(1, "mutex held"); }
    x->block = 0;
    s->owner = cur;
    join_vc(x->vc, s->vc);
}
static void release(void *m) {
    progress();
    sync_t *s = sync_of(m);
    if (s->owner != cur) sched_fail("thread %d unlocks a mutex it does not hold", cur);
    s->owner = -1;
    memcpy(s->vc, T[cur].vc, sizeof s->vc);
    tick();
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { if (on && sync_of(m)->owner >= 0) sched_fail("a locked mutex is destroyed"); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!on) return 0; point(0, "lock"); acquire(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!on) return 0; release(m); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
    if (on) for (int t = 0; t < nthr; t++) if (T[t].live && !T[t].done && T[t].block == 2 && T[t].on == c) sched_fail("a condition is destroyed while thread %d waits", t);
    return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!on) return 0;
    thr_t *x = &T[cur];
    release(m);
    x->block = 2; x->on = c; x->mx = m;
    point(1, "wait");
    x->block = 0;
    acquire(m);
    return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return __wrap_pthread_cond_wait(c, m); }
static void wake(int t) { T[t].block = 1; T[t].on = T[t].mx; }
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    if (!on) return 0;
    int w[NT], n = 0;
    for (int t = 0; t < nthr; t++) if (T[t].live && !T[t].done && T[t].block == 2 && T[t].on == c) w[n++] = t;
    if (n) wake(w[quiet ? 0 : choose(n, "which waiter")]);
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
    if (!on) return 0;
    for (int t = 0; t < nthr; t++) if (T[t].live && !T[t].done && T[t].block == 2 && T[t].on == c) wake(t);
    return 0;
}
// a thread that spins runs again when another one has changed something (or none else can run)
void __wrap_backoff_spin(int64_t *rounds) {
    (void)rounds;
    if (!on) return;
    T[cur].yielded = 1;
    point(1, "spin");
}
void __real_exit(int c);
void __wrap_exit(int c) { if (on) sched_fail("exit(%d)", c); __real_exit(c); }
void __wrap_abort(void) { if (on) sched_fail("abort"); _exit(9); }
void *__real_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off);
void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) {
    if (fl & MAP_ANONYMOUS) fl = MAP_ANONYMOUS | MAP_PRIVATE | MAP_NORESERVE;
    void *p = __real_mmap(a, n, prot, fl, fd, off);
    if (on && p != MAP_FAILED) forget(p, n);
    return p;
}

// ---------------------------------------------------------------- hooks of the instrumentation
#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
#define RW(n) \
    void __tsan_read##n(void *a) { acc(a, n, 0, PC); } \
    void __tsan_write##n(void *a) { acc(a, n, 1, PC); } \
    void __tsan_unaligned_read##n(void *a) { acc(a, n, 0, PC); } \
    void __tsan_unaligned_write##n(void *a) { acc(a, n, 1, PC); } \
    void __tsan_volatile_read##n(void *a) { acc(a, n, 0, PC); } \
    void __tsan_volatile_write##n(void *a) { acc(a, n, 1, PC); } \
    void __tsan_unaligned_volatile_read##n(void *a) { acc(a, n, 0, PC); } \
    void __tsan_unaligned_volatile_write##n(void *a) { acc(a, n, 1, PC); } \
    void __tsan_read_write##n(void *a) { acc(a, n, 0, PC); acc(a, n, 1, PC); } \
    void __tsan_unaligned_read_write##n(void *a) { acc(a, n, 0, PC); acc(a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { acc(a, n, 0, PC); }
void __tsan_write_range(void *a, size_t n) { acc(a, n, 1, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n < (1 << 20)) { acc((void *)s, n, 0, PC); acc(d, n, 1, PC); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n < (1 << 20)) { acc((void *)s, n, 0, PC); acc(d, n, 1, PC); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n < (1 << 20)) acc(d, n, 1, PC); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// an atomic operation: a scheduling point if another thread uses the place too
// a preemption is tried at the first VISITS visits of a place in the code for an address (by each thread)
static int visits = 1 << 30;
typedef struct visit_t { uint64_t k; int n; struct visit_t *next; } visit_t;
static visit_t *seen[4096];
static void maybe_point(void *a, void *pc, const char *why) {
    if (quiet || visits >= 1 << 30) { point(0, why); return; }
    uint64_t k = ((uint64_t)a * 0x9E3779B97F4A7C15ull) ^ (uint64_t)pc ^ ((uint64_t)cur << 56);
    visit_t **h = &seen[(k ^ k >> 24) & 4095], *v;
    for (v = *h; v; v = v->next) if (v->k == k) break;
    if (!v) { v = grab(sizeof *v); v->k = k; v->next = *h; *h = v; }
    if (v->n < visits) { v->n++; point(0, why); }
    else { int q = quiet; quiet = 1; point(0, why); quiet = q; }
}
static void at_point(void *a, const char *why, void *pc) {
    if (on && multi && set_has(G->shared, NSHARED, (uint64_t)a)) maybe_point(a, pc, why);
}
static sync_t *at_access(void *a, size_t n, int kind, void *pc) {
    if (!on) return NULL;
    sync_t *s = sync_of(a);
    if (!(s->users & (1 << cur))) {
        if (multi && s->users && set_add(G->shared, NSHARED, (uint64_t)a)) G->newshared = 1;
        s->users |= 1 << cur;
    }
    acc(a, n, kind, pc);
    return s;
}
static sync_t *atom(void *a, size_t n, int kind, void *pc, const char *why) {
    at_point(a, why, pc);
    return at_access(a, n, kind, pc);
}
#define ACQ(mo) ((mo) == __ATOMIC_ACQUIRE || (mo) == __ATOMIC_CONSUME || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
#define REL(mo) ((mo) == __ATOMIC_RELEASE || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
static void rmw_sync(sync_t *s, int mo) {
    progress();
    if (!s) return;
    if (ACQ(mo)) join_vc(T[cur].vc, s->vc);
    if (REL(mo)) { join_vc(s->vc, T[cur].vc); tick(); }
}
#define AT(bits, ty) \
    ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { sync_t *s = atom((void *)a, sizeof *a, 2, PC, "atomic load"); if (s && ACQ(mo)) join_vc(T[cur].vc, s->vc); return *a; } \
    void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { sync_t *s = atom((void *)a, sizeof *a, 3, PC, "atomic store"); *a = v; progress(); if (s) { if (REL(mo)) { memcpy(s->vc, T[cur].vc, sizeof s->vc); tick(); } else memset(s->vc, 0, sizeof s->vc); } } \
    ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { sync_t *s = atom((void *)a, sizeof *a, 3, PC, "exchange"); ty o = *a; *a = v; rmw_sync(s, mo); return o; } \
    ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { sync_t *s = atom((void *)a, sizeof *a, 3, PC, "fetch_add"); ty o = *a; *a = o + v; rmw_sync(s, mo); return o; } \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { sync_t *s = atom((void *)a, sizeof *a, 3, PC, "fetch_sub"); ty o = *a; *a = o - v; rmw_sync(s, mo); return o; } \
    ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { sync_t *s = atom((void *)a, sizeof *a, 3, PC, "fetch_and"); ty o = *a; *a = o & v; rmw_sync(s, mo); return o; } \
    ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { sync_t *s = atom((void *)a, sizeof *a, 3, PC, "fetch_or"); ty o = *a; *a = o | v; rmw_sync(s, mo); return o; } \
    ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { sync_t *s = atom((void *)a, sizeof *a, 3, PC, "fetch_xor"); ty o = *a; *a = o ^ v; rmw_sync(s, mo); return o; } \
    static inline int cas##bits(volatile ty *a, ty *e, ty v, int mo, int fmo, void *pc) { \
        at_point((void *)a, "compare_exchange", pc); \
        int ok = *a == *e; \
        sync_t *s = at_access((void *)a, sizeof *a, ok ? 3 : 2, pc); \
        if (ok) { *a = v; rmw_sync(s, mo); return 1; } \
        *e = *a; if (s && ACQ(fmo)) join_vc(T[cur].vc, s->vc); return 0; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int mo, int fmo) { return cas##bits(a, e, v, mo, fmo, PC); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int mo, int fmo) { return cas##bits(a, e, v, mo, fmo, PC); } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty e, ty v, int mo, int fmo) { cas##bits(a, &e, v, mo, fmo, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ---------------------------------------------------------------- exploration
static void segv(int s) { (void)s; if (on) sched_fail("crash (signal %d) in thread %d", s, cur); _exit(11); }
void sched_explore(void (*body)(void), int b, long ms, long mr, int np, const char *rp) {
    G = __real_mmap(NULL, sizeof *G, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    codebase = (uint64_t)&__executable_start;
    replay = rp; verbose = rp != NULL && getenv("SCHED_VERBOSE");
    deadline = time(NULL) + (getenv("SCHED_SECONDS") ? atol(getenv("SCHED_SECONDS")) : 600);
    maxruns = mr; nproc = np;
    if (getenv("SCHED_VISITS")) visits = atoi(getenv("SCHED_VISITS")); maxsteps = ms;
    stack_t ss = {.ss_sp = malloc(1 << 16), .ss_size = 1 << 16};
    sigaltstack(&ss, NULL);
    struct sigaction sa = {.sa_handler = segv, .sa_flags = SA_ONSTACK | SA_NODEFER};
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL);
    int pass = 0;
    for (; pass < 12; pass++) {
        // the first pass only learns which places are shared
        G->newshared = 0; G->runs = G->steps = G->choices = G->truncated = 0; G->active = 1; G->nstates = 0; memset(G->states, 0, sizeof G->states);
        pid_t k = fork();
        if (k == 0) {
            nthr = 1; cur = 0; T[0].live = 1; T[0].vc[0] = 1;
            bound = budget = pass == 0 ? (b > 1 ? 1 : b) : b; on = 1;
            body();
            on = 0;
            __atomic_fetch_add(&G->runs, 1, __ATOMIC_RELAXED);
            finish();
        }
        int st; waitpid(k, &st, 0);
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) { glock(); if (G->nfail < NFAIL) snprintf(G->fail[G->nfail++].what, 200, "the explorer died: %x", st); gunlock(); break; }
        if (G->stop) break;
        if (rp) break;
        if (!G->newshared && pass > 0) break;
    }
    for (int i = 0; i < G->nfail; i++) printf("BAD%s | %s\n", G->fail[i].path, G->fail[i].what);
    printf("DONE runs=%ld steps=%ld choices=%ld states=%ld outcomes=%ld passes=%d truncated=%ld fails=%d\n", G->runs, G->steps, G->choices, G->nstates, G->nouts, pass + 1, G->truncated, G->nfail);
    fflush(stdout);
}
