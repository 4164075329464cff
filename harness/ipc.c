// Stateless model checking of the event loop and IPC on a simulated kernel.
// The real core (poll/epoll/ipc/sock/serde/eval) runs unmodified; the socket and epoll calls are
// link-wrapped.  Every kernel/peer decision is a choice point: choice 0 is the default, and every
// execution with at most D deviations from the defaults is run (DFS by re-execution).
// usage: ipc PROGRESS scenario D part nparts [dev pos:choice ...]
#define _GNU_SOURCE
#include "canon.h"
#include <errno.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/mman.h>
#include <netinet/in.h>
#include "core/poll.h"
#include "core/ipc.h"
#include "core/serde.h"
#include "core/runtime.h"
#undef poll

// ---------------------------------------------------------------- progress shared with the driver
#define MAXDEV 4
static struct prog {
    long runs, steps, states, maxpos; int ndev; int pos[MAXDEV], ch[MAXDEV]; char what[512]; char sample[256]; long truncated; long outcomes;
} *P;
static int shown;
static void bad(const char *f, ...) {
    va_list a; va_start(a, f);
    vsnprintf(P->what, sizeof P->what, f, a); va_end(a);
    abort();
}
// ---------------------------------------------------------------- choice points
static int achunk, schunk, closing, single;  // single: no choice points, bytes arrive/leave in pieces of achunk/schunk, peers close in order `closing`
static int rot;
#define MAXPOS 20000
static int npos, verbose;
static short ns[MAXPOS];
static int ndev, dpos[MAXDEV], dch[MAXDEV];
static uint64_t kstate(void);
static uint64_t *seen; static long seen_cap = 1 << 22, seen_n;
static void mark(uint64_t h) {
    h |= 1; long i = h & (seen_cap - 1);
    while (seen[i] && seen[i] != h) i = (i + 1) & (seen_cap - 1);
    if (!seen[i] && seen_n < seen_cap / 2) { seen[i] = h; seen_n++; P->states = seen_n; }
}
static int choose(int n, const char *why) {
    if (n <= 1 || single) return 0;
    if (npos >= MAXPOS) bad("no progress: the event loop does not come to rest");
    int p = npos++, c = 0;
    ns[p] = n; P->steps++;
    mark(kstate());
    for (int i = 0; i < ndev; i++) if (dpos[i] == p) c = dch[i];
    if (c >= n) bad("harness: replay diverged at %d (%s)", p, why);
    if (verbose) fprintf(stderr, "choice %d %s -> %d/%d\n", p, why, c, n);
    return c;
}
// ---------------------------------------------------------------- simulated kernel
#ifndef NC
#define NC 3
#define INSZ 4096
#define OUTSZ (1 << 14)
#define NMSG 16
#endif
#define NGATE 16
#define FD0 600
#define LFD 590
#define EPFD 580
#define EVFD 581
typedef struct { int off, need; } gate;
typedef struct { int end; char log; int id; int out_end; int closes; } emsg;  // closes: 1 own handle closed here
typedef struct conn {
    int state;  // 0 unused 1 in backlog 2 open 3 closed by the application 4 waits for connect
    int after;  // connects once conn[after-1] is closed
    unsigned char in[INSZ]; int inlen, arrived, rd, fin, hold;
    gate g[NGATE]; int ng;
    unsigned char out[OUTSZ]; int outlen; int blocked, stay, wasblocked;
    int reg, edge; unsigned interest; void *ptr;
    // expectations
    emsg m[NMSG]; int nm; unsigned char exp[OUTSZ]; int explen;
    int hs;         // end of the handshake
    int anyprefix;  // may be closed at any moment by someone else
    int noout;      // peer output not compared
    int finafter;
} conn;
static conn C[NC];
static int nconn, lreg, lfd_open; static unsigned lint; static void *lptr;
static int timeouts;
static int ep_steps, client, fail_add, regfail[NC], oddaccept;
static poll_p PL;

static uint64_t H(uint64_t h, const void *p, size_t n) { const unsigned char *c = p; while (n--) h = (h ^ *c++) * 1099511628211ull; return h; }
static uint64_t kstate(void) {
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < nconn; i++) {
        conn *c = &C[i];
        int v[11] = {c->state, c->arrived, c->rd, c->fin, c->blocked, c->stay, c->outlen, c->reg, c->edge, c->hold, (int)c->interest};
        h = H(h, v, sizeof v);
        if (c->reg && c->ptr) { selector_p s = c->ptr; long w[4] = {s->id, s->rx.buf ? s->rx.buf->offset : -1, s->rx.buf ? s->rx.buf->size : -1, s->tx.buf ? s->tx.buf->size - s->tx.buf->offset : -1}; h = H(h, w, sizeof w); }
    }
    return h;
}
static int arrivable(conn *c) {
    int lim = c->inlen;
    if (c->fin || c->state != 2) return 0;
    for (int i = 0; i < c->ng; i++) if (c->outlen < c->g[i].need && c->g[i].off < lim) lim = c->g[i].off;
    return lim - c->arrived;
}
static conn *byfd(int fd) { int i = fd - FD0; if (i < 0 || i >= nconn) bad("socket call on unknown fd %d", fd); if (C[i].state != 2) bad("socket call on closed fd %d", fd); return &C[i]; }
// the environment acts; returns whether something happened
static int env_step(void) {
    int did = 0, open = 0;
    for (int i = 0; i < nconn; i++) open += C[i].state == 2;
    for (int i = 0; i < nconn; i++) {
        conn *c = &C[i];
        if (c->state == 4 && (!c->after || C[c->after - 1].state == 3)) { c->state = 1; did = 1; }
        if (c->state != 2) continue;
        if (c->blocked) {
            if (c->stay || !choose(2, "peer drains output")) { c->blocked = 0; c->stay = 0; c->edge = 1; did = 1; }
            else c->stay = 1, did = 1;
        }
        int r = arrivable(c);
        if (r > 0) {
            int last = c->arrived + r == c->inlen;
            int k = choose(r + 4 + (open > 1 && !c->hold), "bytes arrive");
            c->hold = 0;
            if (k == 0) c->arrived += achunk && achunk < r ? achunk : r;
            else if (k < r) c->arrived += k;
            else if (k == r) c->fin = 1;
            else if (k == r + 1) c->fin = 2;
            else if (k == r + 2) c->arrived += r, c->fin = 1;
            else if (k == r + 3) c->arrived += r, c->fin = 2;
            else { c->hold = 1; did = 1; continue; }
            (void)last;
            c->edge = 1; did = 1;
        }
    }
    return did;
}
static unsigned mask(conn *c) {
    unsigned m = 0;
    if (c->rd < c->arrived || c->fin) m |= EPOLLIN;
    if (!c->blocked || c->fin == 2) m |= EPOLLOUT;
    if (c->fin) m |= EPOLLRDHUP;
    if (c->fin == 2) m |= EPOLLERR | EPOLLHUP;
    return m;
}
int __wrap_epoll_create1(int f) { (void)f; return EPFD; }
int __wrap_eventfd(unsigned a, int b) { (void)a; (void)b; return EVFD; }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    (void)ep;
    if (fd == EVFD) return 0;
    if (fd == LFD) { lreg = op != EPOLL_CTL_DEL; if (lreg) { lint = ev->events; lptr = ev->data.ptr; } return 0; }
    if (fd - FD0 >= 0 && fd - FD0 < nconn && C[fd - FD0].state == 3 && op == EPOLL_CTL_DEL) { errno = EBADF; return -1; }
    conn *c = byfd(fd);
    if (op == EPOLL_CTL_DEL) { c->reg = 0; return 0; }
    if (op == EPOLL_CTL_ADD && c->reg) bad("fd registered twice");
    if (op == EPOLL_CTL_ADD && choose(2, "epoll_ctl fails")) { errno = ENOSPC; regfail[c - C] = 1; return -1; }
    c->reg = 1; c->interest = ev->events; c->ptr = ev->data.ptr; c->edge = 1;
    return 0;
}
int __wrap_epoll_wait(int ep, struct epoll_event *evs, int max, int tmo) {
    (void)ep; (void)max; (void)tmo;
    for (;;) {
        if (++ep_steps > (single ? 3000000 : 3000)) bad("no progress: the event loop spins");
        int did = env_step(), n = 0;
        struct epoll_event r[NC + 1];
        int first = single && nconn ? rot++ % nconn : 0;
        if (lreg) for (int i = 0; i < nconn; i++) if (C[i].state == 1) { r[n].events = EPOLLIN; r[n].data.ptr = lptr; n++; break; }
        for (int q = 0; q < nconn; q++) {
            conn *c = &C[(q + first) % nconn];
            if (c->state != 2 || !c->reg) continue;
            unsigned m = mask(c) & (c->interest | EPOLLERR | EPOLLHUP);
            if (!m || ((c->interest & EPOLLET) && !c->edge)) continue;
            r[n].events = m; r[n].data.ptr = c->ptr; n++;
        }
        if (n == 0 && did) continue;
        if (n == 0) {
            // quiescent: peers close (or the process is asked to stop)
            int open = 0;
            for (int i = 0; i < nconn; i++) if (C[i].state == 2 && !C[i].fin) open++;
            if (open && !choose(2, "shutdown with open connections")) {
                for (int q = 0; q < nconn; q++) { int i = closing == 1 ? nconn - 1 - q : closing >= 2 && nconn % closing ? (int)((long)q * closing % nconn) : q; if (C[i].state == 2 && !C[i].fin) { C[i].finafter = 1; C[i].fin = 1; C[i].edge = 1; break; } }
                continue;
            }
            PL->code = 0;
            return 0;
        }
        if (n > max) n = max;
        if (choose(2, "epoll_wait EINTR")) { errno = EINTR; return -1; }
        int order = n >= 2 ? choose(n == 2 ? 4 : 6, "event order") : 0;
        if (order == 1) { struct epoll_event t = r[0]; r[0] = r[n - 1]; r[n - 1] = t; }
        if (order == 2) n = 1;
        if (order == 3) { r[0] = r[n - 1]; n = 1; }
        if (order == 4) { struct epoll_event t = r[0]; r[0] = r[1]; r[1] = r[2]; r[2] = t; }
        if (order == 5) { struct epoll_event t = r[1]; r[1] = r[2]; r[2] = t; }
        for (int i = 0; i < n; i++) { evs[i] = r[i]; for (int j = 0; j < nconn; j++) if (C[j].reg && C[j].ptr == r[i].data.ptr) C[j].edge = 0; }
        return n;
    }
}
static int wait_on(int fd, int *in, int *out) {
    conn *c = byfd(fd);
    int a = choose(3, "blocking wait");
    if (a == 1) { timeouts++; return 0; }
    if (a == 2) { timeouts++; errno = EINTR; return -1; }
    for (int k = 0; k < 1000; k++) {
        int did = env_step(), n = 0;
        unsigned m = mask(c);
        int i_ = *in && (m & EPOLLIN), o_ = *out && (m & EPOLLOUT);
        n = i_ + o_;
        if (n) { *in = i_; *out = o_; return n; }
        if (!did) { timeouts++; return 0; }
    }
    bad("no progress in a blocking wait");
    return 0;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int tmo) {
    (void)tmo; if (n != 1) bad("harness: poll with several fds");
    int i = (p->events & POLLIN) != 0, o = (p->events & POLLOUT) != 0, r = wait_on(p->fd, &i, &o);
    p->revents = 0;
    if (r > 0) { conn *c = byfd(p->fd); p->revents = (i ? POLLIN : 0) | (o ? POLLOUT : 0) | (c->fin == 2 ? POLLERR | POLLHUP : 0); }
    return r;
}
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *s) { (void)t; (void)s; return __wrap_poll(p, n, 0); }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
    (void)t; int fd = n - 1, i = r && FD_ISSET(fd, r), o = w && FD_ISSET(fd, w), k = wait_on(fd, &i, &o);
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
    if (k > 0) { if (i) FD_SET(fd, r); if (o) FD_SET(fd, w); }
    return k;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) {
    (void)fl;
    conn *c = byfd(fd);
    if (client && !c->reg) {  // blocking client socket before registration
        while (c->rd == c->arrived && !c->fin) if (!env_step()) { c->fin = 1; }
    }
    int av = c->arrived - c->rd;
    if (n == 0) return 0;
    if (av == 0) {
        if (c->fin == 1) return 0;
        errno = c->fin == 2 ? ECONNRESET : EAGAIN; return -1;
    }
    size_t k = av < (int)n ? (size_t)av : n;
    int a = choose(k > 2 ? 4 : k > 1 ? 3 : 2, "recv");
    if (a == 1) { errno = EINTR; return -1; }
    if (a == 2) k = 1;
    if (a == 3) k--;
    memcpy(b, c->in + c->rd, k); c->rd += k;
    return k;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) {
    if (!(fl & MSG_NOSIGNAL)) bad("send without MSG_NOSIGNAL");
    conn *c = byfd(fd);
    if (c->fin == 2) { errno = ECONNRESET; return -1; }
    if (c->blocked) { errno = EAGAIN; return -1; }
    if (n == 0) return 0;
    int a = choose(n > 2 ? 7 : n > 1 ? 5 : 3, "send");
    size_t k = n;
    if (a == 1) { errno = EINTR; return -1; }
    if (a == 2) { c->blocked = c->wasblocked = 1; errno = EAGAIN; return -1; }
    if (a == 3) { k = 1; c->blocked = c->wasblocked = 1; }
    if (a == 4) k = 1;
    if (a == 5) { k = n - 1; c->blocked = c->wasblocked = 1; }
    if (a == 6) { k = n / 2; c->blocked = c->wasblocked = 1; }
    if (schunk && (size_t)schunk < n) { k = schunk; c->blocked = c->wasblocked = 1; }
    if (c->outlen + k > sizeof c->out) bad("too much output");
    memcpy(c->out + c->outlen, b, k); c->outlen += k;
    return k;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) {
    (void)l; if (fd != LFD) bad("accept on a wrong fd");
    memset(a, 0, sizeof(struct sockaddr_in)); ((struct sockaddr_in *)a)->sin_family = AF_INET;
    for (int i = 0; i < nconn; i++) if (C[i].state == 1) {
        if (choose(2, "accept fails")) { errno = EMFILE; return -1; }
        C[i].state = 2; return FD0 + i;
    }
    errno = EAGAIN; return -1;
}
int __real_close(int);
int __wrap_close(int fd) {
    if (fd == EPFD || fd == EVFD) return 0;
    if (fd == LFD) { if (!lfd_open) bad("listener closed twice"); lfd_open = lreg = 0; return 0; }
    if (fd < FD0 || fd >= FD0 + NC) return __real_close(fd);
    conn *c = byfd(fd);
    c->state = 3; c->reg = 0;
    return 0;
}
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { (void)f; return __wrap_accept(fd, a, l); }
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
#define SIM(fd) ((fd) >= FD0 && (fd) < FD0 + NC)
ssize_t __wrap_read(int fd, void *b, size_t n) { return SIM(fd) ? __wrap_recv(fd, b, n, 0) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return SIM(fd) ? __wrap_send(fd, b, n, 0) : __real_write(fd, b, n); }
int __wrap_shutdown(int fd, int how) { (void)how; byfd(fd); return 0; }
int __wrap_epoll_pwait(int ep, struct epoll_event *e, int n, int t, const sigset_t *s) { (void)s; return __wrap_epoll_wait(ep, e, n, t); }
int __wrap_fcntl(int fd, int cmd, ...) { (void)fd; (void)cmd; return 0; }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { (void)fd; (void)l; (void)o; (void)v; (void)n; return 0; }
int __wrap_socket(int d, int t, int p) {
    (void)t; (void)p; (void)d;
    if (!client) { lfd_open = 1; return LFD; }
    for (int i = 0; i < nconn; i++) if (C[i].state == 4) { C[i].state = 2; return FD0 + i; }
    errno = EMFILE; return -1;
}
int __wrap_bind(int f, const struct sockaddr *a, socklen_t l) { (void)f; (void)a; (void)l; return 0; }
int __wrap_listen(int f, int b) { (void)f; (void)b; return 0; }
int __wrap_connect(int f, const struct sockaddr *a, socklen_t l) { (void)a; (void)l; if (choose(2, "connect fails")) { errno = ECONNREFUSED; return -1; } byfd(f); return 0; }
static struct addrinfo AI;
int __wrap_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r) { (void)n; (void)s; (void)h; AI.ai_family = AF_INET; *r = &AI; return 0; }
void __wrap_freeaddrinfo(struct addrinfo *a) { (void)a; }
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) {
    if (fl & MAP_HUGETLB) return MAP_FAILED;
    if (fl & MAP_ANONYMOUS) { fl &= ~(MAP_POPULATE); if (fl & MAP_SHARED) fl = (fl & ~MAP_SHARED) | MAP_PRIVATE; fl |= MAP_NORESERVE; }
    return __real_mmap(a, n, prot, fl, fd, off);
}
int __wrap_pthread_setaffinity_np(void) { return 0; }
// ---------------------------------------------------------------- live blocks
static long live;
static void on_m(const volatile void *p, size_t n) { (void)n; if (p) live++; }
static void on_f(const volatile void *p) { if (p) live--; }
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
// ---------------------------------------------------------------- scenarios
static obj_p ev(const char *s) { obj_p q = cstring_from_str((str_p)s, strlen(s)), r = ray_eval_str(q, NULL); drop_obj(q); return r; }
static void evd(const char *s) { obj_p r = ev(s); if (IS_ERR(r)) { obj_p f = obj_fmt(r, B8_TRUE); fprintf(stderr, "setup error: %s: %.*s\n", s, (int)f->len, AS_C8(f)); exit(3); } drop_obj(r); }
static void put(conn *c, const void *b, int n) { memcpy(c->in + c->inlen, b, n); c->inlen += n; }
static int frame(unsigned char *b, obj_p o, int type) {
    int n = size_obj(o);
    unsigned char h[16] = {0, 0, 0, 0, RAYFORCE_VERSION, 0, 0, (unsigned char)type};
    unsigned pf = SERDE_PREFIX; memcpy(h, &pf, 4); long sz = n; memcpy(h + 8, &sz, 8);
    memcpy(b, h, 16); ser_raw(b + 16, o);
    return 16 + n;
}
static obj_p str(const char *s) { return string_from_str((str_p)s, strlen(s)); }
// peer sends a message; when it is processed, `id` is appended to the log `log`; resp: expression whose value is the answer
static void msg(int ci, obj_p o, int type, char log, int id, const char *resp) {
    conn *c = &C[ci]; static unsigned char b[INSZ];
    int n = frame(b, o, type); drop_obj(o); put(c, b, n);
    if (resp) { obj_p r = ev(resp); c->explen += frame(c->exp + c->explen, r, MSG_TYPE_RESP); drop_obj(r); }
    c->m[c->nm++] = (emsg){c->inlen, log, id, c->explen, 0};
}
static void expo(int ci, const char *e, int type) { conn *c = &C[ci]; obj_p r = ev(e); c->explen += frame(c->exp + c->explen, r, type); drop_obj(r); }
static void handshake(int ci, const char *h, int n) { conn *c = &C[ci]; put(c, h, n); c->hs = c->inlen; c->exp[c->explen++] = RAYFORCE_VERSION; }
static void gate_at(int ci) { conn *c = &C[ci]; c->g[c->ng++] = (gate){c->inlen, c->explen}; }
static int scen;
static char *LG(char l, int id, const char *v) { static char b[8][200]; static int k; k = (k + 1) & 7; snprintf(b[k], 200, "(do (set lg%c (concat lg%c %d)) %s)", l, l, id, v); return b[k]; }
enum { S_BASIC, S_TWO, S_SELFCLOSE, S_CROSSCLOSE, S_NESTED, S_CALLBACK, S_BADHDR, S_LONGHS, S_QUEUE, S_RECONN, S_PO, S_PC, S_OBJ, S_CLIENT, C_SIMPLE, C_MIXED, C_IDLE, C_BIG, S_REQFLOOD, S_ACROSS, S_MANY, S_SIZE, S_PIPE, S_DEEP, S_LAST };
static const char *po_def = "(set .z.po (fn [h] (set po (concat po h))))", *pc_def = "(set .z.pc (fn [h] (set pc (concat pc h))))";
static int sub;  // sub-scenario
static void build(void) {
    memset(C, 0, sizeof C); nconn = 0; lreg = lfd_open = 0; client = 0; ep_steps = 0; timeouts = 0; memset(regfail, 0, sizeof regfail);
    evd("(set lga [])"); evd("(set lgb [])"); evd("(set po [])"); evd("(set pc [])"); evd("(set wz [])"); evd(po_def); evd(pc_def); evd("(set hh 0)");
    evd("(set res 0)"); achunk = schunk = closing = rot = 0; single = scen >= S_MANY;
    switch (scen) {
        case S_BASIC:
            nconn = 1; handshake(0, "\x01", 1 + 1);
            msg(0, str(LG('a', 1, "[1 2 3]")), MSG_TYPE_SYNC, 'a', 1, "[1 2 3]");
            msg(0, str(LG('a', 2, "7")), MSG_TYPE_ASYN, 'a', 2, NULL);
            msg(0, str(LG('a', 3, "(set wz (concat wz .z.w))")), MSG_TYPE_SYNC, 'a', 3, "[4]");
            break;
        case S_TWO:
            nconn = 2;
            for (int i = 0; i < 2; i++) {
                handshake(i, "\x01", 2);
                msg(i, str(LG("ab"[i], 1, "'ok")), MSG_TYPE_SYNC, "ab"[i], 1, "'ok");
                msg(i, str(LG("ab"[i], 2, "'nx")), MSG_TYPE_SYNC, "ab"[i], 2, "'nx");
            }
            break;
        case S_SELFCLOSE:
            nconn = 1; handshake(0, "\x01", 2);
            msg(0, str(LG('a', 1, "1")), MSG_TYPE_SYNC, 'a', 1, "1");
            msg(0, str(LG('a', 2, "(hclose .z.w)")), MSG_TYPE_SYNC, 'a', 2, NULL);
            C[0].m[1].closes = 1;
            msg(0, str(LG('a', 3, "2")), MSG_TYPE_SYNC, 'a', 3, NULL);
            break;
        case S_CROSSCLOSE:
            nconn = 2;
            handshake(0, "\x01", 2); handshake(1, "\x01", 2);
            msg(0, str(LG('a', 1, "(do (hclose (if (== .z.w 4) 5 4)) 5)")), MSG_TYPE_SYNC, 'a', 1, "5");
            msg(1, str(LG('b', 1, "1")), MSG_TYPE_SYNC, 'b', 1, "1");
            msg(1, str(LG('b', 2, "2")), MSG_TYPE_SYNC, 'b', 2, "2");
            C[1].anyprefix = 1;
            break;
        case S_NESTED:  // the handler sends an asynchronous message back before answering
            nconn = 1; handshake(0, "\x01", 2);
            expo(0, "[9 9]", MSG_TYPE_ASYN);
            msg(0, str(LG('a', 1, "(do (write (neg .z.w) [9 9]) 1)")), MSG_TYPE_SYNC, 'a', 1, "1");
            expo(0, "[8 8]", MSG_TYPE_ASYN);
            msg(0, str(LG('a', 2, "(do (write (neg .z.w) [8 8]) 2)")), MSG_TYPE_SYNC, 'a', 2, "2");
            break;
        case S_CALLBACK: {  // the handler asks the peer a question; the answer comes after another asynchronous message
            nconn = 1; handshake(0, "\x01", 2);
            conn *c = &C[0]; unsigned char b[512];
            obj_p o = str("(do (set lga (concat lga 1)) (set res (write .z.w \"q\")) 4)");
            int n = frame(b, o, MSG_TYPE_SYNC); drop_obj(o); put(c, b, n);
            c->m[c->nm++] = (emsg){c->inlen, 'a', 1, c->explen, 0};
            expo(0, "\"q\"", MSG_TYPE_SYNC);
            gate_at(0);
            msg(0, str(LG('a', 2, "0")), MSG_TYPE_ASYN, 'a', 2, NULL);
            o = str("x"); drop_obj(o); o = ev("[5 6]"); n = frame(b, o, MSG_TYPE_RESP); drop_obj(o); put(c, b, n);
            expo(0, "4", MSG_TYPE_RESP);
            c->m[c->nm++] = (emsg){c->inlen, 0, 0, c->explen, 0};
            msg(0, str(LG('a', 3, "res")), MSG_TYPE_SYNC, 'a', 3, "[5 6]");
            break;
        }
        case S_BADHDR: {
            nconn = 1; handshake(0, "\x01", 2);
            msg(0, str(LG('a', 1, "1")), MSG_TYPE_SYNC, 'a', 1, "1");
            unsigned char b[2048]; obj_p o = str(LG('a', 2, "2")); int n = frame(b, o, MSG_TYPE_SYNC); drop_obj(o);
            static const long sizes[] = {0, -1, -16, -17, (long)0x8000000000000000ul, 0x7fffffffffffffffl, 1l << 62, 0x7fffffffffffffd0l};
            int ok = 0;
            if (sub < 8) memcpy(b + 8, &sizes[sub], 8);
            else if (sub < 12) b[sub - 8] ^= 0xff;  // prefix
            else if (sub == 12) { b[16] = 0xee; ok = 1; }   // unknown type inside a well-formed frame
            else if (sub == 13) { long z = n - 16 - 3; memcpy(b + 8, &z, 8); n -= 3; ok = 1; }  // truncated payload
                put(&C[0], b, n);
            if (!ok) C[0].m[C[0].nm++] = (emsg){C[0].inlen - (n - 16), 0, 0, C[0].explen, 1};
            else { C[0].noout = 1; C[0].m[C[0].nm++] = (emsg){C[0].inlen, 0, 2, C[0].explen, 0}; }
            msg(0, str(LG('a', 3, "3")), MSG_TYPE_SYNC, 'a', 3, "3");
            break;
        }
        case S_LONGHS:
            nconn = 1; handshake(0, "user:pw\x01", 9);
            msg(0, str(LG('a', 1, "1")), MSG_TYPE_SYNC, 'a', 1, "1");
            break;
        case S_QUEUE:
            nconn = 1; handshake(0, "\x01", 2);
            for (int i = 1; i <= 4; i++) { char v[8]; snprintf(v, 8, "%d", 10 * i); msg(0, str(LG('a', i, v)), MSG_TYPE_SYNC, 'a', i, v); }
            break;
        case S_RECONN:
            nconn = 3;
            for (int i = 0; i < 3; i++) { handshake(i, "\x01", 2); msg(i, str(LG("aba"[i], i, ".z.w")), MSG_TYPE_SYNC, "aba"[i], i, "3"); C[i].noout = 1; }
            C[1].after = 0; C[2].after = 1;
            break;
        case S_PO:  // .z.po closes the connection
            evd("(set .z.po (fn [h] (do (set po (concat po h)) (hclose h))))");
            nconn = 1; handshake(0, "\x01", 2); C[0].m[C[0].nm++] = (emsg){C[0].inlen, 0, 0, C[0].explen, 1};
            msg(0, str(LG('a', 1, "1")), MSG_TYPE_SYNC, 'a', 1, NULL);
            break;
        case S_PC:  // .z.pc closes the handle again, tries to write to it, and the next connection comes
            evd("(set .z.pc (fn [h] (do (set pc (concat pc h)) (hclose h) (try (write (neg h) 1) 0) (hclose h))))");
            nconn = 3;
            for (int i = 0; i < 3; i++) { handshake(i, "\x01", 2); msg(i, str(LG("aba"[i], i, "1")), MSG_TYPE_SYNC, "aba"[i], i, "1"); }
            C[1].after = 1; C[2].after = 1;
            break;
        case S_OBJ: {  // messages that are values, failing requests
            nconn = 1; handshake(0, "\x01", 2);
            msg(0, ev("(list + 1 [10 20])"), MSG_TYPE_SYNC, 0, 0, "[11 21]");
            C[0].noout = 1;
            msg(0, str("(+ 1 'a)"), MSG_TYPE_SYNC, 0, 0, "0");
            msg(0, str("((("), MSG_TYPE_SYNC, 0, 0, "0");
            msg(0, str("(raise \"boom\")"), MSG_TYPE_ASYN, 0, 0, NULL);
            msg(0, str(""), MSG_TYPE_SYNC, 0, 0, "0");
            msg(0, str(LG('a', 1, "1")), MSG_TYPE_SYNC, 'a', 1, "0");
            break;
        }
        case S_REQFLOOD:  // unsolicited and late responses are not executed
            nconn = 1; handshake(0, "\x01", 2);
            msg(0, str(LG('a', 9, "1")), MSG_TYPE_RESP, 0, 0, NULL);
            msg(0, str(LG('a', 1, "1")), MSG_TYPE_SYNC, 'a', 1, "1");
            break;
        case S_ACROSS:  // a handler of one connection uses the other one, which may be gone
            nconn = 2; handshake(0, "\x01", 2); handshake(1, "\x01", 2);
            msg(0, str(LG('a', 1, "(do (try (write -5 [7]) 0) (try (write -4 [7]) 0) 1)")), MSG_TYPE_SYNC, 'a', 1, "1");
            msg(1, str(LG('b', 1, "1")), MSG_TYPE_SYNC, 'b', 1, "1");
            C[0].noout = C[1].noout = 1;
            break;
#if NC > 100
        case S_MANY: {  // sub: number of connections, closing order, when the next wave connects
            static const int ks[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 138};
            int k = ks[sub % 22], mode = sub / 22 % 2; closing = sub / 44;  // 0 oldest first, 1 newest first, 2.. stride
            if (closing >= 2) closing = closing == 2 ? 7 : 101;
            evd("(set .z.po (fn [h] (set po (concat po h))))");
            evd("(set .z.pc (fn [h] (set po (concat po (neg h)))))");
            nconn = 3 * k;
            for (int i = 0; i < nconn; i++) {
                char q[200];
                handshake(i, "\x01", 2);
                snprintf(q, 200, "%d", i); expo(i, q, MSG_TYPE_ASYN);
                snprintf(q, 200, "(do (write (neg .z.w) %d) (set po (concat po (+ %d .z.w))) %d)", i, 1000000 + 1000 * i, -i);
                char rs[16]; snprintf(rs, 16, "%d", -i);
                msg(i, str(q), MSG_TYPE_SYNC, 0, i, rs);
                if (i >= k) C[i].after = mode ? i - k + 1 : (i / k) * k;
            }
            break;
        }
#endif
#if NC <= 100 && INSZ > 100000
        case S_SIZE: {  // one request and one answer of every size around the powers of two, then small ones
            int k = sub % 10 + 5, d = sub / 10 % 54 - 42, way = sub / 540;  // way: 0 at once, 1 in pieces of 1000, 2 pieces of 16 in, 37 out
            if (sub >= 2160) { static const int ds[] = {-26, -18, -17, -16, -10, -2, -1, 0}; k = (sub - 2160) / 8 % 3 + 15; d = ds[(sub - 2160) % 8]; way = (sub - 2160) / 24; }
            int len = (1 << k) + d; if (len < 8) len = 8;
            static char q[INSZ]; 
            if (way == 1) achunk = schunk = 1000;
            if (way == 2) { achunk = len > 20000 ? 4096 : 16; schunk = len > 20000 ? 4095 : 37; }
            if (way == 3) { achunk = len / 2 + 13; schunk = len / 2 + 1; }
            nconn = 1; handshake(0, "\x01", 2);
            for (int j = 0; j < 2; j++) {  // a text value of that length there and back (the request is a symbol list: identity)
                memset(q, 'a' + j, len); for (int i = 0; i < len; i++) q[i] = 'a' + (i * 7 + j + i / 26) % 26;
                q[0] = q[len - 1] = '"'; q[len] = 0;
                msg(0, str(q), MSG_TYPE_SYNC, 0, 0, q);
                msg(0, str("(+ 1 2)"), MSG_TYPE_SYNC, 0, 0, "3");
            }
            break;
        }
        case S_PIPE: {  // sub requests one after another while the peer reads slowly
            int m = sub % 100 + 1, way = sub / 100;
            achunk = way == 1 ? 7 : 0; schunk = way == 0 ? 1 : way == 1 ? 3 : 19;
            nconn = 1; handshake(0, "\x01", 2);
            for (int i = 1; i <= m; i++) { char v[24]; snprintf(v, 24, "[%d %d]", i, -i); if (i % 3 == 0) expo(0, v, MSG_TYPE_ASYN); char q[64]; if (i % 3) snprintf(q, 64, "%s", v); else snprintf(q, 64, "(do (write (neg .z.w) %s) %s)", v, v); msg(0, str(LG('a', i, q)), MSG_TYPE_SYNC, 'a', i, v); }
            break;
        }
        case S_DEEP: {  // requests inside requests: the handler asks back, and the peer asks again before it answers
            int m = sub + 1; nconn = 1; handshake(0, "\x01", 2);
            conn *c = &C[0]; unsigned char b[512]; obj_p o; int n;
            for (int i = 1; i <= m; i++) {
                char q[100]; snprintf(q, 100, "(do (set lga (concat lga %d)) (write .z.w \"q%d\"))", i, i);
                o = str(q); n = frame(b, o, MSG_TYPE_SYNC); drop_obj(o); put(c, b, n);
                c->m[c->nm++] = (emsg){c->inlen, 'a', i, c->explen, 0};
                snprintf(q, 100, "\"q%d\"", i); expo(0, q, MSG_TYPE_SYNC);
                gate_at(0);
            }
            for (int i = m; i >= 1; i--) {
                char q[100]; snprintf(q, 100, "[%d %d]", i, i);
                o = ev(q); n = frame(b, o, MSG_TYPE_RESP); drop_obj(o); put(c, b, n);
                expo(0, q, MSG_TYPE_RESP);
                c->m[c->nm++] = (emsg){c->inlen, 0, 0, c->explen, 0};
            }
            break;
        }
#endif
        // ---- client side
        case C_SIMPLE: case C_MIXED: case C_IDLE: case C_BIG: {
            client = 1; nconn = 1; conn *c = &C[0]; unsigned char b[2048]; int n; obj_p o;
            C[0].state = 4;
            c->explen = 2; c->exp[0] = RAYFORCE_VERSION; c->exp[1] = 0;
            c->g[c->ng++] = (gate){0, 2};
            put(c, "\x01", 1); c->hs = 1;
            for (int q = 1; q <= 2; q++) {
                char qs[1200], rs[32];
                if (scen == C_BIG) { memset(qs, 'x', 1000); qs[0] = qs[999] = '"'; qs[1000] = 0; } else snprintf(qs, 64, "\"q%d\"", q);
                expo(0, qs, MSG_TYPE_SYNC); gate_at(0);
                if (scen == C_MIXED) { msg(0, str(LG('a', 2 * q, "0")), MSG_TYPE_ASYN, 'a', 2 * q, NULL); msg(0, str(LG('a', 2 * q + 1, "'r")), MSG_TYPE_SYNC, 'a', 2 * q + 1, "'r"); gate_at(0); }
                snprintf(rs, 32, "[%d %d]", q, q); o = ev(rs); n = frame(b, o, MSG_TYPE_RESP); drop_obj(o); put(c, b, n);
                c->m[c->nm++] = (emsg){c->inlen, 0, 0, c->explen, 0};
            }
            if (scen == C_IDLE) { msg(0, str(LG('a', 7, "0")), MSG_TYPE_ASYN, 'a', 7, NULL); msg(0, str(LG('a', 8, "'k")), MSG_TYPE_SYNC, 'a', 8, "'k"); msg(0, str(LG('a', 9, "'k")), MSG_TYPE_SYNC, 'a', 9, "'k"); }
            break;
        }
    }
    for (int i = 0; i < nconn; i++) if (!C[i].state) C[i].state = 4;
}
static int vecis(const char *name, const int *v, int n, int prefix_ok) {
    obj_p r = ev(name); int ok = 1, k = r->type == TYPE_I64 ? (int)r->len : 0;
    if (k > n || (k != n && !prefix_ok)) ok = 0;
    for (int i = 0; ok && i < k; i++) ok = AS_I64(r)[i] == v[i];
    if (!ok) { obj_p f = obj_fmt(r, B8_TRUE); P->what[0] = 0; snprintf(P->what + 256, 200, "%.*s", (int)f->len, AS_C8(f)); drop_obj(f); }
    drop_obj(r);
    return ok;
}
static const char *lst(const int *v, int n) { static char b[256]; int k = 0; b[0] = 0; for (int i = 0; i < n && k < 200; i++) k += snprintf(b + k, 256 - k, "%d ", v[i]); return b; }
static uint64_t outcomes[1 << 16]; static long nout;
static int client_h, r1ok, r2ok;
// after a blocking wait timed out the late answer is dropped and the next steps may be reordered:
// what was sent is still a sequence of whole frames, at most one answer per complete request
static void frames(conn *c, int i) {
    int p = client ? 2 : 1, resp = 0, req = 0;
    while (c->outlen - p >= 16) {
        unsigned pf; long sz; memcpy(&pf, c->out + p, 4); memcpy(&sz, c->out + p + 8, 8);
        if (pf != SERDE_PREFIX || c->out[p + 4] != RAYFORCE_VERSION || c->out[p + 7] > 2 || sz < 1 || sz > 4096) bad("connection %d: malformed frame sent at byte %d", i, p);
        if (c->outlen - p < 16 + sz) break;
        resp += c->out[p + 7] == MSG_TYPE_RESP;
        p += 16 + sz;
    }
    for (int j = 0; j < c->nm; j++) if (c->m[j].end <= c->arrived) req++;
    if (resp > req) bad("connection %d: %d answers to %d requests", i, resp, req);
    if (p < c->outlen && !c->fin && !c->blocked && c->state == 2) bad("connection %d: truncated frame", i);
}
static void check(void) {
    for (int l = 0; l < 2; l++) {
        int v[NC * NMSG + 1], n = 0, any = 0;
        char L = "ab"[l], nm[4] = {'l', 'g', L, 0};
        for (int i = 0; i < nconn; i++) {
            conn *c = &C[i];
            if (c->anyprefix || client) any = any || c->m[0].log == L || client;
            if (regfail[i]) continue;
            for (int j = 0; j < c->nm; j++) {
                if (c->m[j].end > c->arrived) break;
                if (c->m[j].log == L) v[n++] = c->m[j].id;
                if (c->m[j].closes) break;
            }
        }
        if (!vecis(nm, v, n, any)) { char got[200]; strcpy(got, P->what + 256); bad("messages processed on %c: %s, complete messages received: [%s]", L, got, lst(v, n)); }
    }
    for (int i = 0; i < nconn; i++) {
        conn *c = &C[i];
        if (c->state == 2) bad("connection %d is still open after the loop was destroyed (descriptor leak)", i);
        if (c->state == 1 && !client) continue;
        if (timeouts) { frames(c, i); continue; }
        if (c->noout) continue;
        int lim = c->explen, k = 0;
        (void)k;
        if (c->outlen > lim || memcmp(c->out, c->exp, c->outlen)) { char h[200]; int q = 0; for (int j = 0; j < c->outlen && q < 190; j++) q += snprintf(h + q, 200 - q, "%02x", c->out[j]); bad("connection %d: bytes sent differ from the expected answers: %s", i, h); }
        if (client || c->anyprefix) continue;
        // everything owed must have been sent unless the peer stopped reading or reset the connection
        if (c->fin != 2 && !c->blocked && !regfail[i] && !(c->fin && !c->finafter && c->wasblocked)) {
            int owed = c->arrived >= c->hs && c->hs ? 1 : 0;
            for (int j = 0; j < c->nm; j++) { if (c->m[j].end > c->arrived) break; owed = c->m[j].out_end; if (c->m[j].closes) { if (c->wasblocked) owed = 0; break; } }
            if (c->outlen < owed) bad("connection %d: %d of %d owed bytes sent", i, c->outlen, owed);
        }
    }
    if (lfd_open) bad("listener descriptor leak");
    // callbacks: .z.po for every completed handshake, .z.pc for every registered connection, same handles, once
    if (scen == S_MANY) {  // one log: h opened, -h closed, 1000000 + 1000 * i + h request of connection i
        obj_p a = ev("po"); int n = a->type == TYPE_I64 ? (int)a->len : 0; i64_t *p = AS_I64(a); static char live_[4096]; memset(live_, 0, sizeof live_);
        int op = 0, cl = 0, rq = 0;
        for (int i = 0; i < n; i++) {
            i64_t h = p[i] >= 1000000 ? p[i] % 1000 : p[i] < 0 ? -p[i] : p[i];
            if (h < 3 || h > 4000) bad("handle %ld", (long)h);
            if (p[i] >= 1000000) { rq++; if (!live_[h]) bad("request %d of connection %ld runs with .z.w %ld, which is not open", rq, (long)(p[i] / 1000 - 1000), (long)h); if (live_[h] == 2) bad("two connections run with .z.w %ld", (long)h); live_[h] = 2; }
            else if (p[i] > 0) { op++; if (live_[h]) bad("handle %ld given to a second connection while it is open", (long)h); live_[h] = 1; }
            else { cl++; if (live_[h] != 2) bad("handle %ld closed while it is not open", (long)h); live_[h] = 0; }
        }
        if (op != nconn || cl != nconn || rq != nconn) bad("%d connections: %d opened, %d requests, %d closed", nconn, op, rq, cl);
        drop_obj(a);
    } else if (!client) {
        obj_p a = ev("po"), b = ev("pc");
        int npo = 0, nreg = 0;
        for (int i = 0; i < nconn; i++) { if (C[i].state == 3 && !regfail[i]) nreg++; if (C[i].state == 3 && !regfail[i] && C[i].arrived >= C[i].hs) npo++; }
        int anyp = 0; for (int i = 0; i < nconn; i++) anyp |= C[i].anyprefix;
        if (a->len != npo && !(anyp && a->len <= npo)) bad(".z.po called %d times for %d opened connections", (int)a->len, npo);
        if (b->len != nreg) bad(".z.pc called %d times for %d closed connections", (int)b->len, nreg);
        for (int i = 0; i < a->len; i++) {  // handles are reused
            int f = 0, o = 0;
            for (int j = 0; j < b->len; j++) f += AS_I64(b)[j] == AS_I64(a)[i];
            for (int j = 0; j < a->len; j++) o += AS_I64(a)[j] == AS_I64(a)[i];
            if (f < o) bad("handle %ld opened %d times, closed %d times", (long)AS_I64(a)[i], o, f);
        }
        drop_obj(a); drop_obj(b);
        obj_p w = ev("wz");
        for (int i = 0; i < w->len; i++) if (AS_I64(w)[i] != 4 && !regfail[0]) bad(".z.w is %ld inside the handler", (long)AS_I64(w)[i]);
        drop_obj(w);
    }
    uint64_t h = 14695981039346656037ull;
    for (int i = 0; i < nconn; i++) { h = H(h, C[i].out, C[i].outlen); h = H(h, &C[i].arrived, 4); h = H(h, &C[i].fin, 4); }
    h |= 1; long i = h & 65535; int probes = 0;
    while (outcomes[i] && outcomes[i] != h && probes++ < 64) i = (i + 1) & 65535;
    if (!outcomes[i]) { outcomes[i] = h; P->outcomes = ++nout; }
}
static void client_script(void) {
    conn *c = &C[0];
    obj_p r = ev("(set hh (hopen \"1.2.3.4:5000\"))");
    client_h = !IS_ERR(r); drop_obj(r);
    if (!client_h) {
        if (c->state == 2) bad("hopen failed and left the descriptor open");
        return;
    }
    int prevdone = 1;
    for (int q = 1; q <= 2; q++) {
        char s[1200], x[1100];
        if (scen == C_BIG) { memset(x, 'x', 1000); x[0] = x[999] = '"'; x[1000] = 0; } else snprintf(x, 64, "\"q%d\"", q);
        snprintf(s, sizeof s, "(write hh %s)", x);
        r = ev(s);
        if (!IS_ERR(r)) {
            if (r->type != TYPE_I64 || r->len != 2 || AS_I64(r)[0] != q || AS_I64(r)[1] != q) { obj_p f = obj_fmt(r, B8_TRUE); bad("request %d answered by %.*s", q, (int)f->len, AS_C8(f)); }
        } else {
            prevdone = 0;
            // an answer that arrived completely, with no fault on the way, is not lost
            if (ndev == 0) { obj_p f = obj_fmt(r, B8_TRUE); bad("request %d failed without a fault: %.*s", q, (int)f->len, AS_C8(f)); }
        }
        drop_obj(r);
        (void)prevdone;
    }
    poll_run(PL);
    // whatever was left unread is processed by the loop: every complete message arrived and not lost to a closed connection
}
static long base_live = -1;
static void execute(void) {
    npos = 0;
    build();
    PL = runtime_get()->poll = poll_create();
    alarm(20);
    if (client) client_script();
    else {
        if (ipc_listen(PL, 5000) == -1) bad("listen failed");
        poll_run(PL);
    }
    alarm(0);
    poll_destroy(PL);
    runtime_get()->poll = NULL;
    check();
    evd("(set lga [])"); evd("(set lgb [])"); evd("(set po [])"); evd("(set pc [])"); evd("(set wz [])"); evd("(set hh 0)"); evd("(set res 0)"); evd("(set .z.po 0)"); evd("(set .z.pc 0)");
    P->runs++;
    if (npos > P->maxpos) P->maxpos = npos;
    if (single) { return; }
    if (base_live == -2) base_live = live;
    else if (base_live >= 0 && live != base_live) bad("memory is not reclaimed: %ld blocks more than after a clean run", live - base_live);
}
static long top;
static int part, nparts, D;
static void explore(int from) {
    P->ndev = ndev; for (int i = 0; i < ndev; i++) P->pos[i] = dpos[i], P->ch[i] = dch[i];
    execute();
    if (ndev == D) return;
    int np = npos; short *my = malloc(np * sizeof *my); memcpy(my, ns, np * sizeof *my);
    live--;  // harness memory
    for (int p = from; p < np; p++)
        for (int c = 1; c < my[p]; c++) {
            if (ndev == 0 && top++ % nparts != part) continue;
            dpos[ndev] = p; dch[ndev] = c; ndev++;
            explore(p + 1);
            ndev--;
        }
    live++;
    free(my);
}
static void onalarm(int s) { (void)s; bad("the event loop hangs"); }
int main(int argc, char **argv) {
    int fd = open(argv[1], O_RDWR | O_CREAT, 0600); ftruncate(fd, 65536);
    P = __real_mmap(NULL, 65536, 3, MAP_SHARED, fd, 0);
    memset(P, 0, sizeof *P);
    scen = atoi(argv[2]); sub = scen / 100; scen %= 100; D = atoi(argv[3]); part = atoi(argv[4]); nparts = atoi(argv[5]);
    seen = calloc(seen_cap, sizeof *seen);
    if (D > MAXDEV) D = MAXDEV;
    runtime_create(0, NULL);
    if (runtime_get()->poll) { nconn = 0; poll_destroy(runtime_get()->poll); }
    signal(SIGALRM, onalarm);
    freopen("/dev/null", "w", stdout);
    verbose = getenv("VT_V") != NULL;
    for (int i = 6; i < argc; i++) { sscanf(argv[i], "%d:%d", &dpos[ndev], &dch[ndev]); ndev++; }
    if (ndev) { execute(); return 0; }
    if (D < 0) {  // every sub-scenario part, part + nparts, ... below -D
        P->ndev = 0;
        for (sub = part; sub < -D; sub += nparts) {
            P->pos[0] = sub; P->ndev = 1; P->ch[0] = 0;
            if (sub == part) { execute(); execute(); __sanitizer_install_malloc_and_free_hooks(on_m, on_f); }
            live = 0; execute();
            if (getenv("VT_V")) fprintf(stderr, "sub %d live %ld out %d\n", sub, live, C[0].outlen);
            if (live > 0) { execute(); live = 0; execute(); if (live > 0) bad("memory is not reclaimed: %ld blocks more after every run", live); }
        }
        P->ndev = -1;
        return 0;
    }
    execute(); execute();  // warm up
    __sanitizer_install_malloc_and_free_hooks(on_m, on_f);
    live = 0; base_live = -1; execute(); live = 0; execute(); base_live = live;
    P->runs = P->steps = 0;
    explore(0);
    P->ndev = -1;
    return 0;
}
