// Explicit-state exploration of the real allocator (core/heap.c): breadth first over every sequence of operations
// of the main heap and of the worker heaps, states identified up to a canonical form; every transition replays its
// history on fresh heaps and checks the whole state.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <setjmp.h>
#include <signal.h>
#include "core/heap.h"
#include "core/eval.h"

#define MAXW 3
#define MAXPOOL 64
#define MAXLIVE 400
#define MAXPATH 64

typedef struct { char *addr; int64_t size; int alive, file; } pool_rec;
static pool_rec pools[MAXPOOL];
static int npools, tracking, fail_mmap, ofd, cfd, dfd;
static vm_p vms[MAXW + 1];
static int workers = 1, parallel;
typedef struct { char *p; int64_t size; unsigned char pat; } live_rec;
static live_rec live[MAXLIVE];
static int nlive;
static char problem[600];
static void bad(const char *f, ...) {
    if (problem[0]) return;
    va_list a; va_start(a, f); vsnprintf(problem, sizeof problem, f, a); va_end(a);
}

static raw_p map_pool(int64_t size, int file) {
    if (npools == MAXPOOL) { bad("harness: too many pools"); return NULL; }
    char *p = mmap(NULL, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) abort();
    pools[npools++] = (pool_rec){p, size, 1, file};
    return p;
}
raw_p __wrap_mmap_alloc(int64_t size) {
    if (!tracking) return calloc(1, size);
    if (fail_mmap) return NULL;
    return map_pool(size, 0);
}
raw_p __wrap_mmap_file_shared(int64_t fd, raw_p a, int64_t size, int64_t off) { (void)fd; (void)a; (void)off; return map_pool(size, 1); }
int64_t __wrap_fs_fopen(const char *p, int64_t attrs) { (void)p; (void)attrs; ofd++; return 1000 + ofd; }
int64_t __wrap_fs_fclose(int64_t fd) { if (fd <= 1000 || fd > 1000 + ofd) bad("closes descriptor %ld", (long)fd); cfd++; return 0; }
int64_t __wrap_fs_fdelete(const char *p) { (void)p; dfd++; return 0; }
int64_t __wrap_fs_file_extend(int64_t fd, int64_t size) { (void)fd; (void)size; return 0; }
int64_t __wrap_fs_get_fname_by_fd(int64_t fd, char *buf, int64_t len) { snprintf(buf, len, "f%ld", (long)fd); return 0; }
int64_t __wrap_mmap_free(raw_p addr, int64_t size) {
    if (!tracking) { free(addr); return 0; }
    for (int i = 0; i < npools; i++)
        if (pools[i].alive && pools[i].addr == (char *)addr) {
            if (pools[i].size != size) bad("pool of %ld unmapped as %ld", (long)pools[i].size, (long)size);
            for (int k = 0; k < nlive; k++)
                if (live[k].p >= pools[i].addr && live[k].p < pools[i].addr + pools[i].size) bad("pool unmapped while a block in it is in use");
            pools[i].alive = 0;
            munmap(addr, pools[i].size);
            return 0;
        }
    bad("unmaps an unknown address");
    return -1;
}

// copies of megabytes move their ends only
void *__real_memcpy(void *d, const void *s, size_t n);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    if (n < 16384) return __real_memcpy(d, s, n);
    __real_memcpy(d, s, 4096);
    __real_memcpy((char *)d + n - 4096, (const char *)s + n - 4096, 4096);
    return d;
}

// ------------------------------------------------------------------ operations
enum { ALLOC, FREE, REALLOC, PREPARE, MERGE, GC, FALLOC, FILL, DRAINSMALL };
typedef struct { uint8_t op, h, i, s; } op_t;
static int64_t sizes[8];
static int nsizes, faults, bulk;

static int cmplive(const void *a, const void *b) { const char *x = ((live_rec *)a)->p, *y = ((live_rec *)b)->p;
    // by pool of creation, then address
    int px = 0, py = 0;
    for (int i = 0; i < npools; i++) { if (pools[i].alive && x >= pools[i].addr && x < pools[i].addr + pools[i].size) px = i; if (pools[i].alive && y >= pools[i].addr && y < pools[i].addr + pools[i].size) py = i; }
    return px != py ? px - py : x < y ? -1 : x > y; }
static void sortlive(void) { qsort(live, nlive, sizeof *live, cmplive); }

static void paint(live_rec *l) {
    int64_t n = l->size, e = n < 64 ? n : 64;
    memset(l->p, l->pat, e);
    if (n > e) memset(l->p + n - e, l->pat, e);
}
static void check_paint(live_rec *l, int64_t upto) {
    int64_t n = l->size, e = n < 64 ? n : 64, i;
    for (i = 0; i < e && i < upto; i++) if ((unsigned char)l->p[i] != l->pat) { bad("contents of a block in use changed at byte %ld of %ld", (long)i, (long)n); return; }
    for (i = n - e; i < n && i < upto; i++) if ((unsigned char)l->p[i] != l->pat) { bad("contents of a block in use changed at byte %ld of %ld", (long)i, (long)n); return; }
}
static unsigned char patc;
static void add_live(char *p, int64_t size) {
    if (nlive == MAXLIVE) { bad("harness: too many blocks"); return; }
    if ((uintptr_t)p & 15) bad("block not aligned");
    int ok = 0;
    for (int i = 0; i < npools; i++) if (pools[i].alive && p >= pools[i].addr && p + size <= pools[i].addr + pools[i].size) ok = 1;
    if (!ok) { bad("block of %ld outside of the mapped memory", (long)size); return; }
    for (int k = 0; k < nlive; k++) if (p < live[k].p + live[k].size && live[k].p < p + size) { bad("block of %ld handed out overlaps a block of %ld in use", (long)size, (long)live[k].size); return; }
    live[nlive] = (live_rec){p, size, ++patc ? patc : ++patc};
    paint(&live[nlive++]);
}
static void do_alloc(int h, int64_t size, int fail) {
    __VM = vms[h];
    fail_mmap = fail;
    char *p = heap_alloc(size);
    fail_mmap = 0;
    if (!p) { bad("allocation of %ld failed", (long)size); return; }
    add_live(p, size);
}
static void do_free(int h, int k) {
    __VM = vms[h];
    live_rec l = live[k];
    check_paint(&l, l.size);
    live[k] = live[--nlive];
    sortlive();
    heap_free(l.p);
}
static int enabled(op_t o) {
    if (o.h && !parallel) return 0;
    switch (o.op) {
        case FREE: return o.i < nlive;
        case REALLOC: return o.i < nlive && live[o.i].size != sizes[o.s];
        case PREPARE: return !parallel;
        case MERGE: return parallel;
        case GC: return !parallel;
        case FILL: return nlive < 60;
        case DRAINSMALL: { int n = 0; for (int i = 0; i < nlive; i++) n += live[i].size == 16; return n > 20; }
        default: return 1;
    }
}
static int quiet;  // prefixes were checked as transitions of their own
static struct heap_t before[MAXW + 1];
static void check(void);
static void apply(op_t o) {
    for (int w = 0; w <= workers; w++) before[w] = *vms[w]->heap;
    switch (o.op) {
        case ALLOC: do_alloc(o.h, sizes[o.s], 0); break;
        case FALLOC: do_alloc(o.h, sizes[o.s], 1); break;
        case FREE: do_free(o.h, o.i); break;
        case REALLOC: {
            __VM = vms[o.h];
            live_rec l = live[o.i];
            check_paint(&l, l.size);
            live[o.i] = live[--nlive];
            sortlive();
            char *p = heap_realloc(l.p, sizes[o.s]);
            if (!p) { bad("reallocation to %ld failed", (long)sizes[o.s]); break; }
            int64_t keep = l.size < sizes[o.s] ? l.size : sizes[o.s];
            live_rec m = l; m.p = p;
            int ok = 0;
            for (int i = 0; i < npools; i++) if (pools[i].alive && p >= pools[i].addr && p + keep <= pools[i].addr + pools[i].size) ok = 1;
            if (ok) check_paint(&m, keep);
            add_live(p, sizes[o.s]);
            break;
        }
        case PREPARE: __VM = vms[0]; for (int w = 1; w <= workers; w++) heap_borrow(vms[w]->heap); parallel = 1; break;
        case MERGE: __VM = vms[0]; for (int w = 1; w <= workers; w++) heap_merge(vms[w]->heap); parallel = 0; break;
        case GC: __VM = vms[0]; heap_gc(); break;
        case FILL: for (int i = 0; i < 66; i++) do_alloc(o.h, 16, 0); break;
        case DRAINSMALL: for (int i = nlive - 1; i >= 0; i--) if (i < nlive && live[i].size == 16) do_free(o.h, i); break;
    }
    sortlive();
    if (quiet) return;
    if (parallel && o.op != PREPARE)
        for (int w = 0; w <= workers; w++)
            if (w != o.h && memcmp(&before[w], vms[w]->heap, sizeof(struct heap_t))) bad("an operation of heap %d changed heap %d while they run in parallel", o.h, w);
    check();
}

// ------------------------------------------------------------------ the whole state
typedef struct { block_p b; int64_t size; int where; } item;
static item items[4000];
static int nitems;
static uint64_t h1, h2;
static void mix(uint64_t v) { h1 = (h1 ^ v) * 0x9E3779B97F4A7C15ull; h1 ^= h1 >> 29; h2 = (h2 + v) * 0xC2B2AE3D27D4EB4Full; h2 ^= h2 >> 31; }
static uint64_t name(void *p) {
    int k = 0;
    for (int i = 0; i < npools; i++) {
        if (!pools[i].alive) continue;
        if ((char *)p >= pools[i].addr && (char *)p < pools[i].addr + pools[i].size) return ((uint64_t)(k + 1) << 48) + (((char *)p - pools[i].addr) >> 4);
        k++;
    }
    bad("a free block is outside of the mapped memory");
    return 0;
}
static void item_add(block_p b, int64_t size, int where) {
    if (problem[0]) return;
    if (nitems == 4000) { bad("a list of free blocks does not end"); return; }
    if (!name(b)) return;
    items[nitems++] = (item){b, size, where};
    mix(name(b)); mix(b->order | b->used << 8 | b->pool_order << 16 | (b->heap_id << 24) | (uint64_t)b->backed << 40);
}
static int cmpitem(const void *a, const void *b) { block_p x = ((item *)a)->b, y = ((item *)b)->b; return x < y ? -1 : x > y; }
static void check(void) {
    int64_t mapped = 0, total = 0;
    if (problem[0]) return;
    h1 = 1; h2 = 2; nitems = 0;
    mix(parallel);
    for (int w = 0; w <= workers; w++) {
        heap_p h = vms[w]->heap;
        for (int o = 0; o <= MAX_POOL_ORDER && !problem[0]; o++) {
            block_p prev = NULL;
            mix(1000 + o);
            if ((h->freelist[o] != NULL) != ((h->avail >> o) & 1)) bad("heap %d: available orders do not match the free lists (order %d)", w, o);
            for (block_p b = h->freelist[o]; b; prev = b, b = b->next) {
                item_add(b, 1ll << o, 1 + w);
                if (problem[0]) return;
                if (b->prev != prev) { bad("heap %d: free list %d has wrong links", w, o); return; }
                if (b->order != o) { bad("heap %d: block of order %d in free list %d", w, b->order, o); return; }
                if (b->used) { bad("heap %d: block in use in free list %d", w, o); return; }
            }
        }
        for (int s = 0; s < SLAB_ORDERS; s++) {
            mix(2000 + s);
            if (h->slabs[s].count < 0 || h->slabs[s].count > SLAB_CACHE_SIZE) { bad("heap %d: slab cache %d holds %ld", w, s, (long)h->slabs[s].count); return; }
            for (int i = 0; i < h->slabs[s].count; i++) {
                item_add(h->slabs[s].stack[i], 1ll << (MIN_BLOCK_ORDER + s), 10 + w);
                if (problem[0]) return;
                if (h->slabs[s].stack[i]->order != MIN_BLOCK_ORDER + s) { bad("heap %d: block of order %d in slab cache %d", w, h->slabs[s].stack[i]->order, s); return; }
            }
        }
        mix(3000);
        for (block_p b = h->foreign_blocks; b; b = b->next) {
            item_add(b, 1ll << b->order, 20 + w);
            if (problem[0]) return;
            if (!parallel) bad("heap %d holds blocks of other heaps after the merge", w);
        }
        if (!parallel && w) {
            if (h->avail) bad("heap %d holds free blocks after the merge", w);
            for (int s = 0; s < SLAB_ORDERS; s++) if (h->slabs[s].count) bad("heap %d holds cached blocks after the merge", w);
        }
    }
    mix(4000);
    for (int k = 0; k < nlive && !problem[0]; k++) {
        block_p b = (block_p)(live[k].p - sizeof(struct obj_t));
        if (b->order < MIN_BLOCK_ORDER || b->order > MAX_POOL_ORDER || (1ll << b->order) < live[k].size + (int64_t)sizeof(struct obj_t)) { bad("block of %ld has order %d", (long)live[k].size, b->order); return; }
        item_add(b, 1ll << b->order, 0);
        mix(live[k].size);
        check_paint(&live[k], live[k].size);
    }
    if (problem[0]) return;
    qsort(items, nitems, sizeof *items, cmpitem);
    static const char *wh[] = {"a block in use", "a free block"};
    for (int i = 0; i + 1 < nitems; i++)
        if ((char *)items[i].b + items[i].size > (char *)items[i + 1].b) {
            bad("%s (%d) of %ld overlaps %s (%d) of %ld", wh[items[i].where > 0], items[i].where, (long)items[i].size, wh[items[i + 1].where > 0], items[i + 1].where, (long)items[i + 1].size);
            return;
        }
    for (int i = 0; i < nitems; i++) total += items[i].size;
    for (int i = 0; i < npools; i++) if (pools[i].alive) { mapped += pools[i].size; mix(5000 + pools[i].file); mix(pools[i].size); }
    if (total != mapped) bad("%ld bytes mapped, %ld bytes in use or free", (long)mapped, (long)total);
    int64_t stat = 0;
    for (int w = 0; w <= workers; w++) stat += vms[w]->heap->memstat.heap;
    if (stat != mapped) bad("statistics say %ld bytes of heap, %ld are mapped", (long)stat, (long)mapped);
    stat = 0;
    for (int w = 0; w <= workers; w++) stat += vms[w]->heap->memstat.system;
    if (stat != mapped) bad("statistics say %ld bytes of system memory, %ld are mapped", (long)stat, (long)mapped);
}

static void reset(void) {
    tracking = 0;
    for (int w = 0; w <= workers; w++) {
        if (!vms[w]) vms[w] = calloc(1, sizeof(struct vm_t));
        vms[w]->id = w;
        __VM = vms[w];
        if (vms[w]->heap) free(vms[w]->heap);
        vms[w]->heap = heap_create(w);
    }
    for (int i = 0; i < npools; i++) if (pools[i].alive) munmap(pools[i].addr, pools[i].size);
    npools = nlive = parallel = 0; patc = 0; problem[0] = 0; ofd = cfd = dfd = 0;
    tracking = 1;
}
// everything given back: nothing may stay mapped
static void drain(void) {
    op_t m = {MERGE, 0, 0, 0}, g = {GC, 0, 0, 0};
    if (parallel) apply(m);
    while (nlive && !problem[0]) { do_free(0, nlive - 1); sortlive(); check(); }
    if (!problem[0]) apply(g);
    if (problem[0]) return;
    for (int i = 0; i < npools; i++) if (pools[i].alive) { bad("memory of order %d stays mapped after everything is freed and collected", 63 - __builtin_clzll(pools[i].size)); return; }
    if (ofd != cfd) bad("%d files opened, %d closed", ofd, cfd);
    if (ofd != dfd) bad("%d files opened, %d deleted", ofd, dfd);
}

// ------------------------------------------------------------------ search
typedef struct { int parent; op_t op; } node;
static node *nodes; static int nnodes, capnodes;
static uint64_t (*seen)[2]; static uint64_t nseen, capseen;
static int visit(void) {
    uint64_t a = h1 ? h1 : 1, b = h2;
    if (nseen * 2 >= capseen) {
        uint64_t oc = capseen, (*o)[2] = seen;
        capseen = capseen ? capseen * 2 : 1 << 16;
        seen = calloc(capseen, 16);
        for (uint64_t i = 0; i < oc; i++) if (o[i][0]) { uint64_t j = o[i][0] & (capseen - 1); while (seen[j][0]) j = (j + 1) & (capseen - 1); seen[j][0] = o[i][0]; seen[j][1] = o[i][1]; }
        free(o);
    }
    uint64_t j = a & (capseen - 1);
    for (; seen[j][0]; j = (j + 1) & (capseen - 1)) if (seen[j][0] == a && seen[j][1] == b) return 0;
    seen[j][0] = a; seen[j][1] = b; nseen++;
    return 1;
}
static op_t start[64]; static int nstart;
static int path(int n, op_t *out) { int k = 0; op_t t[MAXPATH]; while (n > 0) { t[k++] = nodes[n].op; n = nodes[n].parent; } for (int i = 0; i < k; i++) out[i] = t[k - 1 - i]; return k; }
static const char *opn[] = {"alloc", "free", "realloc", "prepare", "merge", "gc", "alloc-file", "fill", "free-small"};
static void show(op_t *p, int n, char *buf, int len) {
    int o = 0;
    for (int i = 0; i < nstart + n && o < len - 40; i++) {
        op_t x = i < nstart ? start[i] : p[i - nstart];
        o += snprintf(buf + o, len - o, "%s%s", i ? " " : "", opn[x.op]);
        if (x.op <= REALLOC || x.op >= FALLOC) o += snprintf(buf + o, len - o, "@%d", x.h);
        if (x.op == FREE || x.op == REALLOC) o += snprintf(buf + o, len - o, "#%d", x.i);
        if (x.op == ALLOC || x.op == REALLOC || x.op == FALLOC) o += snprintf(buf + o, len - o, ":%ld", (long)sizes[x.s]);
    }
}
static sigjmp_buf jb;
static void segv(int s) { (void)s; siglongjmp(jb, 1); }
static long transitions, violations;
static int replay(op_t *p, int n) {
    reset();
    for (int i = 0; i < nstart && !problem[0]; i++) { quiet = n != 0; apply(start[i]); }
    for (int i = 0; i < n && !problem[0]; i++) { quiet = i + 1 < n; apply(p[i]); }
    quiet = 0;
    return !problem[0];
}
static void report(op_t *p, int n) {
    static char sig[64][600]; static int nsig;
    char key[600]; int o = 0;
    for (char *c = problem; *c && o < 590; c++) if (*c < '0' || *c > '9') key[o++] = *c;
    key[o] = 0;
    violations++;
    for (int i = 0; i < nsig; i++) if (!strcmp(sig[i], key)) return;
    if (nsig < 64) strcpy(sig[nsig++], key);
    char b[4000]; show(p, n, b, sizeof b);
    printf("BAD %s | %s\n", b, problem);
    fflush(stdout);
}
static op_t parse(char *t) {  // op@h#i:size
    op_t r = {0, 0, 0, 0}; char nm[32]; int k = 0; char *q = t;
    while (*q && *q != '@' && *q != '#' && *q != ':') nm[k++] = *q++;
    nm[k] = 0;
    for (int i = 0; i < 9; i++) if (!strcmp(nm, opn[i])) r.op = i;
    while (*q) { char c = *q++; long v = strtol(q, &q, 10); if (c == '@') r.h = v; if (c == '#') r.i = v; if (c == ':') for (int i = 0; i < nsizes; i++) if (sizes[i] == v) r.s = i; }
    return r;
}
// heapx WORKERS DEPTH MAXLIVE MAXSTATES FAULTS BULK SIZES(comma) [start ops...]
int main(int argc, char **argv) {
    workers = atoi(argv[1]);
    int depth = atoi(argv[2]), maxlive = atoi(argv[3]); long maxstates = atol(argv[4]);
    faults = atoi(argv[5]); bulk = atoi(argv[6]);
    for (char *t = strtok(argv[7], ","); t; t = strtok(NULL, ",")) sizes[nsizes++] = atol(t);
    for (int i = 8; i < argc; i++) start[nstart++] = parse(argv[i]);
    stack_t ss = {.ss_sp = malloc(65536), .ss_size = 65536};
    sigaltstack(&ss, NULL);
    struct sigaction sa = {.sa_handler = segv, .sa_flags = SA_ONSTACK | SA_NODEFER};
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGABRT, &sa, NULL);
    capnodes = 1 << 16; nodes = malloc(capnodes * sizeof *nodes);
    nodes[0] = (node){-1, {0}}; nnodes = 1;
    op_t p[MAXPATH];
    if (sigsetjmp(jb, 1)) bad("crash"); else { replay(p, 0); }
    if (problem[0]) { report(p, 0); printf("DONE states=1 transitions=1 depth=0 complete=1 violations=1\n"); return 0; }
    visit();
    int first = 0, complete = 1, d;
    for (d = 0; d < depth; d++) {
        int last = nnodes;
        if (first == last) break;
        for (int n = first; n < last; n++) {
            int len = path(n, p);
            op_t cand[400]; int nc = 0;
            if (!replay(p, len)) { bad("not reproducible"); report(p, len); continue; }
            for (int h = 0; h <= workers; h++) {
                for (int s = 0; s < nsizes; s++) { cand[nc++] = (op_t){ALLOC, h, 0, s}; if (faults) cand[nc++] = (op_t){FALLOC, h, 0, s}; }
                for (int i = 0; i < nlive && nc < 300; i++) {
                    if (nlive > maxlive && live[i].size == 16 && i > 3 && i < nlive - 3) continue;
                    cand[nc++] = (op_t){FREE, h, i, 0};
                    for (int s = 0; s < nsizes; s++) cand[nc++] = (op_t){REALLOC, h, i, s};
                }
                if (bulk) { cand[nc++] = (op_t){FILL, h, 0, 0}; cand[nc++] = (op_t){DRAINSMALL, h, 0, 0}; }
            }
            cand[nc++] = (op_t){PREPARE, 0, 0, 0}; cand[nc++] = (op_t){MERGE, 0, 0, 0}; cand[nc++] = (op_t){GC, 0, 0, 0};
            int m = 0;
            for (int c = 0; c < nc; c++) if (enabled(cand[c]) && !((cand[c].op == ALLOC || cand[c].op == FALLOC) && nlive >= maxlive && !bulk)) cand[m++] = cand[c];
            for (int c = 0; c < m; c++) {
                volatile int fresh = 0;
                transitions++;
                p[len] = cand[c];
                if (sigsetjmp(jb, 1)) { tracking = 1; bad("crash"); }
                else {
                    replay(p, len + 1);
                    if (!problem[0] && visit()) { fresh = 1; drain(); }
                }
                if (problem[0]) { report(p, len + 1); if (violations > 2000) goto out; }
                else if (fresh) {
                    if ((long)nseen >= maxstates) { complete = 0; goto out; }
                    if (nnodes == capnodes) { capnodes *= 2; nodes = realloc(nodes, capnodes * sizeof *nodes); }
                    nodes[nnodes++] = (node){n, cand[c]};
                }
            }
        }
        first = last;
    }
out:
    printf("DONE states=%ld transitions=%ld depth=%d complete=%d violations=%ld\n", (long)nseen, transitions, d, complete, violations);
    return 0;
}
