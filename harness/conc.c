// Scenarios run by the controlled scheduler (sched.c) on the real code.
#include "canon.h"
#include "vsched.h"
#include "core/pool.h"
#include "core/symbols.h"
#include "core/runtime.h"
#include "core/error.h"
#include "core/heap.h"
#include "core/parse.h"
#include "core/eval.h"
#include "core/atomic.h"
#undef poll
#ifdef VT_QUEUE
mpmc_p mpmc_create(i64_t size);
i64_t mpmc_push(mpmc_p queue, task_data_t data);
task_data_t mpmc_pop(mpmc_p queue);
i64_t mpmc_count(mpmc_p queue);
#endif

static char cores[8] = "2";
static const char *scen, *a1 = "", *a2 = "", *a3 = "";
static int n1, n2, n3;
static uint64_t hash(const char *s, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)s[i]) * 1099511628211ull; return h; }
static void runtime(void) {
    char *av[] = {"vt", "-c", cores, NULL};
    sched_quiet(1);
    if (!runtime_create(3, av)) sched_fail("runtime_create failed");
}
static obj_p task_square(i64_t x) { return i64(x * x); }
static obj_p task_list(obj_p shared, i64_t x) {
    obj_p r = LIST(3);
    AS_LIST(r)[0] = clone_obj(shared);
    AS_LIST(r)[1] = i64(x);
    AS_LIST(r)[2] = I64(40);
    memset(AS_I64(AS_LIST(r)[2]), (int)x, 40 * sizeof(i64_t));
    return r;
}
// the reference belongs to the task
static obj_p task_own(obj_p shared, i64_t x) {
    i64_t t = 0;
    for (i64_t i = 0; i < shared->len; i++) { obj_p e = at_idx(shared, i); t += e->i64; drop_obj(e); }
    drop_obj(shared);
    return i64(t + x);
}
static obj_p task_fail(i64_t x) { return x == 1 ? err_domain(3, 7) : x == 2 ? err_user("two") : i64(x); }
static int quiet_from, quiet_to;
static obj_p task_count(i64_t x) { sched_quiet(x >= quiet_from && x < quiet_to); return i64(x + 1); }

// rounds of tasks: every task runs exactly once, its result is at its place
static void pool_rounds(void) {
    runtime();
    pool_p pool = pool_get();
    obj_p shared = I64(3); for (int i = 0; i < 3; i++) AS_I64(shared)[i] = 70 + i;
    sched_quiet(0);
    int rounds = n1, tasks = n2;
    for (int r = 0; r < rounds; r++) {
        int k = n3 ? tasks + (r % 2) * n3 : tasks;
        obj_p own = NULL;
        if (a1[0] == 'o') { own = LIST(3); for (int i = 0; i < 3; i++) AS_LIST(own)[i] = i64(100 * i); for (int i = 1; i < k; i++) clone_obj(own); }
        pool_prepare(pool);
        for (int i = 0; i < k; i++) {
            if (a1[0] == 'o') pool_add_task(pool, (raw_p)task_own, 2, own, (i64_t)i);
            else if (a1[0] == 's') pool_add_task(pool, (raw_p)task_square, 1, (i64_t)(r * 10 + i));
            else if (a1[0] == 'e') pool_add_task(pool, (raw_p)task_fail, 1, (i64_t)(i));
            else pool_add_task(pool, (raw_p)task_list, 2, shared, (i64_t)(r * 10 + i));
        }
        obj_p res = pool_run(pool);
        if (a1[0] == 'e') {
            if (!IS_ERR(res)) sched_fail("tasks failed, the result is no error");
            vt_buf b = {0}; vt_canon(&b, res);
            sched_outcome(hash(b.p, b.n));
            int want = k > 1 ? EC_DOMAIN : 0;
            if (k > 1 && (err_code(res) != want)) sched_fail("the error of task 1 is reported with code %d instead of %d", (int)err_code(res), want);
            drop_obj(res);
            continue;
        }
        if (IS_ERR(res) || res->type != TYPE_LIST || res->len != k) sched_fail("round %d: result is not a list of %d", r, k);
        for (int i = 0; i < k; i++) {
            obj_p x = AS_LIST(res)[i];
            if (a1[0] == 'o') { if (x->type != -TYPE_I64 || x->i64 != 300 + i) sched_fail("round %d: wrong result of task %d", r, i); }
            else if (a1[0] == 's') { if (x->type != -TYPE_I64 || x->i64 != (r * 10 + i) * (r * 10 + i)) sched_fail("round %d: wrong result of task %d", r, i); }
            else {
                if (x->type != TYPE_LIST || x->len != 3 || AS_LIST(x)[0] != shared || AS_LIST(x)[1]->i64 != r * 10 + i) sched_fail("round %d: wrong result of task %d", r, i);
                for (int j = 0; j < 40; j++) if ((AS_I64(AS_LIST(x)[2])[j] & 255) != r * 10 + i) sched_fail("round %d: contents of the result of task %d", r, i);
            }
        }
        drop_obj(res);
    }
    sched_quiet(1);
    if (rc_obj(shared) != 1) sched_fail("reference count of a shared value is %u after all its users are gone", rc_obj(shared));
    drop_obj(shared);
    if (a2[0]) { sched_quiet(0); drop_obj(NULL_OBJ); runtime_destroy(); }
}
// more tasks than the queue has cells
static void pool_grow(void) {
    runtime();
    pool_p pool = pool_get();
    for (int r = 0; r < 2; r++) {
        int k = r ? 3 : n1;
        pool_prepare(pool);
        quiet_from = 2; quiet_to = k - 2;
        sched_quiet(0);
        for (int i = 0; i < k; i++) { sched_quiet(i > 1 && i < 2044); pool_add_task(pool, (raw_p)task_count, 1, (i64_t)i); }
        sched_quiet(0);
        obj_p res = pool_run(pool);
        sched_quiet(1);
        if (IS_ERR(res) || res->type != TYPE_LIST || res->len != k) sched_fail("result is not a list of %d", k);
        for (int i = 0; i < k; i++) if (AS_LIST(res)[i]->i64 != i + 1) sched_fail("wrong result of task %d", i);
        drop_obj(res);
    }
}
static void lifecycle(void) {
    char *av[] = {"vt", "-c", cores, NULL};
    if (!runtime_create(3, av)) sched_fail("runtime_create failed");
    drop_obj(NULL_OBJ);
    runtime_destroy();
}
// an expression gives the value it gives without parallelism
static void expr(void) {
    runtime();
    obj_p r = eval_str(a1);
    if (IS_ERR(r)) sched_fail("set-up fails");
    drop_obj(r);
    for (int k = 0; k < (n3 ? n3 : 1); k++) {
        vt_buf b = {0};
        sched_quiet(0);
        r = eval_str(a2);
        sched_quiet(1);
        vt_canon(&b, r);
        drop_obj(r);
        sched_outcome(hash(b.p, b.n));
        if (a3[0] && (b.n != strlen(a3) || memcmp(b.p, a3, b.n))) sched_fail("value %.300s instead of %.300s", b.p, a3);
        if (getenv("SCHED_VALUE")) { printf("VALUE %.*s\n", (int)b.n, (char *)b.p); fflush(stdout); }
    }
}
// names hashed to one bucket, interned by several threads
static char names[8][16];
static i64_t ids[4][8];
static void collide(void) {
    u64_t size = runtime_get()->symbols->size, h = str_hash("q0", 2) % size;
    strcpy(names[0], "q0");
    int k = 1;
    if (a1[0] == 'c')
        for (long i = 1; k < 3 && i < 300000000; i++) { char t[16]; int l = snprintf(t, 16, "q%ld", i); if (str_hash(t, l) % size == h) strcpy(names[k++], t); }
    for (; k < 8; k++) snprintf(names[k], 16, "w%d", k);
}
static obj_p task_intern(i64_t t) {
    for (int i = 0; i < n2; i++) { int j = t % 2 ? n2 - 1 - i : i; ids[t][j] = symbols_intern(names[j], strlen(names[j])); }
    return i64(t);
}
static void intern(void) {
    runtime();
    collide();
    pool_p pool = pool_get();
    // the string pool is left with room for the number of bytes asked for
    if (n3) {
        symbols_p s = runtime_get()->symbols;
        while ((s->string_node - s->string_curr) > 64 + n3) { char t[40]; int l = snprintf(t, 40, "filler%ld", (long)s->string_curr); symbols_intern(t, l); }
        int left = s->string_node - s->string_curr - n3 - 5; char t[100]; memset(t, 'z', sizeof t);
        if (left > 0) symbols_intern(t, left);
    }
    pool_prepare(pool);
    sched_quiet(0);
    for (int i = 0; i < n1; i++) pool_add_task(pool, (raw_p)task_intern, 1, (i64_t)i);
    obj_p res = pool_run(pool);
    sched_quiet(1);
    drop_obj(res);
    for (int i = 0; i < n1; i++)
        for (int j = 0; j < n2; j++) {
            if (ids[i][j] != ids[0][j]) sched_fail("one name got the identities %ld and %ld", (long)ids[0][j], (long)ids[i][j]);
            if (strcmp(str_from_symbol(ids[i][j]), names[j])) sched_fail("symbol %s reads %s", names[j], str_from_symbol(ids[i][j]));
            for (int k = 0; k < j; k++) if (ids[i][j] == ids[i][k]) sched_fail("%s and %s share an identity", names[j], names[k]);
            if (symbols_intern(names[j], strlen(names[j])) != ids[i][j]) sched_fail("a later lookup of %s gives another identity", names[j]);
        }
}
#ifdef VT_QUEUE
// the queue alone: producers and consumers
static mpmc_p Q;
static int got[4][16], ngot[4], turns;
static void *producer(void *p) { long t = (long)p; for (int i = 0; i < n2; i++) { task_data_t d = {.id = t * 10 + i, .argc = i, .fn = (raw_p)p}; while (mpmc_push(Q, d) == -1) { int64_t r = 0; backoff_spin(&r); } } return NULL; }
static void *consumer(void *p) {
    long t = (long)p;
    int n = t == 3 ? n3 : 2 * n2 - n3;
    while (ngot[t] < n) {
        task_data_t d = mpmc_pop(Q);
        if (d.id == -1) { int64_t r = 0; backoff_spin(&r); continue; }
        if (d.id % 10 != d.argc || (long)d.fn != d.id / 10) sched_fail("torn task %ld", (long)d.id);
        got[t][ngot[t]++] = d.id;
    }
    return NULL;
}
static void queue(void) {
    sched_quiet(1);
    vm_p vm = vm_create(0, NULL); (void)vm;
    Q = mpmc_create(n1);
    ray_thread_t h[4];
    sched_quiet(0);
    h[0] = ray_thread_create(producer, (raw_p)0); h[1] = ray_thread_create(producer, (raw_p)1);
    h[2] = ray_thread_create(consumer, (raw_p)2); if (n3) h[3] = ray_thread_create(consumer, (raw_p)3);
    for (int i = 0; i < (n3 ? 4 : 3); i++) thread_join(h[i]);
    int seen[40] = {0};
    for (int t = 2; t < 4; t++) {
        int last[2] = {-1, -1};
        for (int i = 0; i < ngot[t]; i++) {
            int v = got[t][i];
            if (seen[v]++) sched_fail("task %d popped twice", v);
            if (v % 10 < last[v / 10]) sched_fail("tasks of one producer popped out of order");
            last[v / 10] = v % 10;
        }
    }
    for (int p = 0; p < 2; p++) for (int i = 0; i < n2; i++) if (!seen[p * 10 + i]) sched_fail("task %d lost", p * 10 + i);
    if (mpmc_count(Q) != 0) sched_fail("queue not empty");
}
#endif
// conc SCENARIO CORES BOUND MAXSTEPS MAXRUNS NPROC REPLAY n1 n2 n3 a1 a2 a3
int main(int argc, char **argv) {
    scen = argv[1];
    snprintf(cores, sizeof cores, "%s", argv[2]);
    const char *replay = argc > 7 && argv[7][0] ? argv[7] : NULL;
    n1 = argc > 8 ? atoi(argv[8]) : 0; n2 = argc > 9 ? atoi(argv[9]) : 0; n3 = argc > 10 ? atoi(argv[10]) : 0;
    if (argc > 11) a1 = argv[11];
    if (argc > 12) a2 = argv[12];
    if (argc > 13) a3 = argv[13];
    sched_spurious(getenv("SCHED_NOSPURIOUS") == NULL);
    void (*f)(void) = !strcmp(scen, "pool") ? pool_rounds : !strcmp(scen, "grow") ? pool_grow : !strcmp(scen, "life") ? lifecycle : !strcmp(scen, "expr") ? expr
        : !strcmp(scen, "intern") ? intern :
#ifdef VT_QUEUE
        !strcmp(scen, "queue") ? queue :
#endif
        NULL;
    if (!f) return 2;
    sched_explore(f, atoi(argv[3]), atol(argv[4]), atol(argv[5]), atoi(argv[6]), replay);
    return 0;
}
