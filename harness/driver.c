// Line driver: reads commands from stdin, evaluates them with the real interpreter, writes one
// canonical JSON line per command.
//   E expr   evaluate, dump            F expr   evaluate, dump formatted text
//   Q expr   evaluate, print only ["OK"] or ["ERR",code]
//   S expr   dump + VM stack registers after  G   gc + heap statistics
// 0x1f in a command stands for a newline.
#define _GNU_SOURCE
#include "canon.h"
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include "core/serde.h"

void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) {
    if (fl & MAP_HUGETLB) return MAP_FAILED;
    if (fl & MAP_ANONYMOUS) {
        fl &= ~(MAP_POPULATE);
        if (fl & MAP_SHARED) fl = (fl & ~MAP_SHARED) | MAP_PRIVATE;
        fl |= MAP_NORESERVE;
    }
    return __real_mmap(a, n, prot, fl, fd, off);
}
// executors are pinned to fixed cores by the runtime; the explorer runs many processes side by side
int __wrap_pthread_setaffinity_np(void) { return 0; }
static FILE *out;
// live heap blocks (malloc behind heap_alloc in the sanitizer flavor)
static long vt_live;
static void on_m(const volatile void *p, size_t n) { (void)n; if (p) vt_live++; }
static void on_f(const volatile void *p) { if (p) vt_live--; }
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
#define VT_DROP_TRACE() do { if (VM->trace != NULL_OBJ) { drop_obj(VM->trace); VM->trace = NULL_OBJ; } } while (0)
static void on_alarm(int s) { (void)s; static const char m[] = "\nVT-TIMEOUT\n"; write(2, m, sizeof m - 1); _exit(97); }

static vt_buf b;
static int lim;
static char run_line(char *line, ssize_t n) {
    char c = line[0]; const char *e = n > 2 ? line + 2 : "";
    b.n = 0; vt_puts(&b, ""); b.n = 0;
    alarm(lim);
    obj_p r;
    switch (c) {
        case 'E': r = eval_str(e); vt_canon(&b, r); drop_obj(r); break;
        case 'Q': r = eval_str(e); if (IS_ERR(r)) vt_canon(&b, r); else vt_puts(&b, "[\"OK\"]"); drop_obj(r); break;
        case 'F': { r = eval_str(e); if (IS_ERR(r)) { vt_canon(&b, r); } else { obj_p f = obj_fmt(r, B8_TRUE); vt_canon(&b, f); drop_obj(f); } drop_obj(r); break; }
        case 'S': {
            i32_t sp = VM->sp, fp = VM->fp, rp = VM->rp; obj_p fn = VM->fn; void *qc = VM->query_ctx;
            r = eval_str(e); vt_puts(&b, "["); vt_canon(&b, r);
            vt_pf(&b, ",%d,%d,%d,%d,%d]", VM->sp - sp, VM->fp - fp, VM->rp - rp, VM->fn != fn, VM->query_ctx != qc);
            drop_obj(r); break; }
        case 'L': {  // evaluate repeatedly: registers restored, and no block more after the third round than after the second
            i32_t sp = VM->sp, fp = VM->fp, rp = VM->rp; obj_p fn = VM->fn; void *qc = VM->query_ctx; long l2 = 0, l3 = 0; int bad = 0;
            for (int k = 0; k < 3; k++) {
                r = eval_str(e);
                if (k == 2) { vt_puts(&b, "["); vt_canon(&b, r); }
                drop_obj(r);
                if (VM->sp != sp || VM->fp != fp || VM->rp != rp || VM->fn != fn || VM->query_ctx != qc) { bad |= (VM->sp != sp) | (VM->fp != fp) << 1 | (VM->rp != rp) << 2 | (VM->fn != fn) << 3 | (VM->query_ctx != qc) << 4; while (VM->sp > sp) drop_obj(VM->ps[--VM->sp]); VM->sp = sp; VM->fp = fp; VM->rp = rp; VM->fn = fn; VM->query_ctx = qc; }
                VT_DROP_TRACE();
                l2 = l3; l3 = vt_live;
            }
            vt_pf(&b, ",%d,%ld]", bad, l3 - l2);
            break; }
        case 'P': { r = parse_str(e); vt_canon(&b, r); drop_obj(r); break; }
        case 'G': { heap_gc(); memstat_t m = heap_memstat(); vt_pf(&b, "[%lld,%lld,%lld]", (long long)m.system, (long long)m.heap, (long long)m.free); break; }
        case 'X': fflush(out); _exit(0);
        default: vt_puts(&b, "[\"BADCMD\"]");
    }
    alarm(0);
    return c;
}
// results survive a crash: a child evaluates, the parent collects, reports the crash and forks again after the offending line
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
void *__real_mmap(void *, size_t, int, int, int, off_t);
struct shared { size_t len; long next; };
#define SHCAP ((size_t)1 << 34)
static void run_forked(char **lines, ssize_t *lens, long from, long cnt) {
    struct shared *sh = __real_mmap(NULL, SHCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    char *buf = (char *)(sh + 1);
    char tmpl[] = "/tmp/vt_errXXXXXX"; int ef = mkstemp(tmpl); unlink(tmpl);
    sh->next = from;
    while (sh->next < cnt) {
        ftruncate(ef, 0); sh->len = 0;
        fflush(out);
        pid_t p = fork();
        if (p == 0) {
            lseek(ef, 0, SEEK_SET); fcntl(ef, F_SETFL, O_APPEND);
            dup2(ef, 2); dup2(ef, 1);
            while (sh->next < cnt && sh->len < SHCAP / 2) {
                run_line(lines[sh->next], lens[sh->next]);
                memcpy(buf + sh->len, b.p, b.n); buf[sh->len + b.n] = '\n';
                sh->len += b.n + 1; sh->next++;
                if ((sh->next & 1023) == 0) ftruncate(ef, 0);
            }
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        fwrite(buf, 1, sh->len, out);
        if (st == 0) continue;
        off_t z = lseek(ef, 0, SEEK_END); if (z > 200000) z = 200000;
        char *er = malloc(z + 1); z = pread(ef, er, z, 0); er[z < 0 ? 0 : z] = 0;
        char *q = strstr(er, "ERROR: Addr"); if (!q) q = z > 2000 ? er + z - 2000 : er;
        fprintf(out, "{\"crash\": %d, \"err\": \"", WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st));
        for (int k = 0; q[k] && k < 4000; k++) { unsigned char ch = q[k]; if (ch == '"' || ch == '\\') fputc(' ', out); else if (ch == '\n') fputs("\\n", out); else fputc(ch < 32 || ch > 126 ? '?' : ch, out); }
        fputs("\"}\n", out);
        free(er); sh->next++;
    }
}
int main(int argc, char **argv) {
    setvbuf(stdin, NULL, _IOFBF, 1 << 20);
    int fd = dup(1); out = fdopen(fd, "w"); setvbuf(out, NULL, _IOFBF, 1 << 20);
    dup2(2, 1);  // anything the code prints goes to stderr
    const char *cores = getenv("VT_CORES"); if (!cores) cores = "1";
    char *av[] = {"vt", "-c", (char *)cores, NULL};
    if (!runtime_create(3, av)) return 98;
    signal(SIGALRM, on_alarm);
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_m, on_f);
    lim = getenv("VT_ALARM") ? atoi(getenv("VT_ALARM")) : 20;
    char *line = NULL; size_t cap = 0; ssize_t n;
    int fk = getenv("VT_FORK") ? atoi(getenv("VT_FORK")) : -1;
    char **lines = NULL; ssize_t *lens = NULL; long cnt = 0, lcap = 0;
    while ((n = getline(&line, &cap, stdin)) > 0) {
        while (n && (line[n - 1] == '\n')) line[--n] = 0;
        if (n < 1) continue;
        for (ssize_t i = 0; i < n; i++) if (line[i] == 0x1f) line[i] = '\n';
        if (fk >= 0) {
            if (cnt == lcap) { lcap = lcap ? 2 * lcap : 1024; lines = realloc(lines, lcap * sizeof *lines); lens = realloc(lens, lcap * sizeof *lens); }
            lines[cnt] = strdup(line); lens[cnt++] = n; continue;
        }
        char c = run_line(line, n);
        fwrite(b.p, 1, b.n, out); fputc('\n', out);
        if (c == 'W') fflush(out);
        if (getenv("VT_FLUSH")) fflush(out);
    }
    if (fk >= 0) {
        for (long i = 0; i < fk && i < cnt; i++) { run_line(lines[i], lens[i]); fwrite(b.p, 1, b.n, out); fputc('\n', out); }
        run_forked(lines, lens, fk, cnt);
    }
    fflush(out);
    if (getenv("VT_CLEAN")) { drop_obj(NULL_OBJ); runtime_destroy(); }
    fflush(out);
    _exit(0);
}
