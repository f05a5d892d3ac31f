#include "simos.h"
#include "rt.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <uv.h>

extern "C" void __tsan_read_range(void *, size_t);
extern "C" void __tsan_write_range(void *, size_t);

namespace simos {
enum { FDBASE = 64, MAXFD = 1024, MAXSOCK = 1024, MAXEV = 512, MAXH = 2048, MAXL = 24 };
static const size_t BUFSZ = 1 << 20;

enum Kind { K_NONE, K_EVENT, K_SOCK };
struct Fd { int kind; int obj; int flags; };
struct EvFd { uint64_t cnt; bool open; int fd; };
enum SState { S_NEW, S_BOUND, S_LISTEN, S_CONNECTING, S_ESTAB, S_CLOSED };
struct Sock {
    int st; bool raw; bool open; int fd; int peer; // peer socket index
    bool fin_rcvd, fin_sent, reset, dead; int err;
    uint16_t lport, rport; uint32_t laddr, raddr;
    uint8_t *buf; size_t head, len;    // receive buffer (linear ring)
    int aq[32]; int naq; int backlog;
    bool refused; bool hold;
    size_t total_in;
};
enum HType { H_NONE, H_POLL, H_TIMER, H_SIGNAL, H_CHECK, H_ASYNC, H_PREPARE, H_IDLE };
struct Loop;
struct Handle {
    HType type; uv_handle_t *ptr; int loop; bool active, closing, closed, unref; uv_close_cb close_cb;
    int fd; int events; uv_poll_cb pcb; uint64_t gen;
    uint64_t due, repeat, sid; uv_timer_cb tcb; bool ready;
    int signum; bool oneshot; int sigpend; uv_signal_cb scb;
    uv_check_cb ccb; uv_async_cb acb; bool pend; uv_prepare_cb prcb; uv_idle_cb icb;
};
struct Loop { uv_loop_t *ptr; bool used; int runner; bool stop; uint64_t time; int closing[MAXH]; int nclosing; int objid; };
struct World {
    Cfg cfg;
    Fd fd[MAXFD]; int maxfd;
    EvFd ev[MAXEV]; int nev;
    Sock s[MAXSOCK]; int ns;
    Handle h[MAXH]; int nh;
    Loop l[MAXL]; int nl;
    uint16_t eph; uint64_t timerid, gen;
    uint16_t black[8]; int nblack; bool part;
    uint8_t *pool; size_t poolused;
    long sys[8];
    uint32_t rnd;
    int nfail; int nenv;
    void (*closecb)(int, int); void (*sendcb)(int, const void *, size_t);
    int (*randhook)(void);
};
static World *W;
Cfg &cfg() { return W->cfg; }

void reset_world() {
    if (!W) {
        W = (World *)mmap(0, sizeof(World), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        uint8_t *p = (uint8_t *)mmap(0, BUFSZ * MAXSOCK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        W->pool = p;
    }
    uint8_t *pool = W->pool;
    memset(W->fd, 0, sizeof(Fd) * (W->maxfd + 1));
    memset(W->ev, 0, sizeof(EvFd) * (W->nev));
    memset(W->s, 0, sizeof(Sock) * (W->ns));
    memset(W->h, 0, sizeof(Handle) * (W->nh));
    for (int i = 0; i < W->nl; i++) { W->l[i].ptr = 0; W->l[i].used = false; W->l[i].nclosing = 0; W->l[i].stop = false; }
    W->maxfd = W->nev = W->ns = W->nh = W->nl = 0;
    W->cfg = Cfg();
    W->eph = 40000; W->timerid = 0; W->gen = 0; W->nblack = 0; W->part = false; W->pool = pool; W->poolused = 0;
    memset(W->sys, 0, sizeof W->sys);
    W->rnd = 12345; W->nfail = 0; W->nenv = 0; W->closecb = 0; W->sendcb = 0; W->randhook = 0;
}
uint64_t now_ms() { return mc::now(); }
static inline bool on() { return mc::active(); }
#define ENTER() mc::enter()
#define LEAVE() mc::leave()

static int env(int n, const char *label) {
    mc::touch(&W->nenv, true);
    if (W->nenv >= W->cfg.max_env) return 0;
    int a = mc::choose(n, label, 1);
    if (a) W->nenv++;
    return a;
}

// ---------------------------------------------------------------- descriptors
static int alloc_fd(int kind, int obj) {
    mc::touch(W->fd, true);
    for (int i = 0; i < MAXFD; i++) if (W->fd[i].kind == K_NONE) {
        W->fd[i].kind = kind; W->fd[i].obj = obj; W->fd[i].flags = 0;
        if (i >= W->maxfd) W->maxfd = i + 1;
        return FDBASE + i;
    }
    errno = EMFILE; return -1;
}
static bool sim_fd(int fd) { return fd >= FDBASE && fd < FDBASE + MAXFD; }
static Fd *getfd(int fd) { if (!sim_fd(fd)) return 0; Fd *f = &W->fd[fd - FDBASE]; return f->kind ? f : 0; }
static int new_sock(bool raw) {
    if (W->ns >= MAXSOCK) mc::fail("simulated kernel: too many sockets");
    mc::touch(&W->ns, true);
    int i = W->ns++;
    Sock *s = &W->s[i];
    memset(s, 0, sizeof *s);
    s->raw = raw; s->open = true; s->fd = -1; s->peer = -1; s->st = S_NEW;
    s->buf = W->pool + BUFSZ * i;
    return i;
}
static void put(Sock *s, const uint8_t *p, size_t n) {
    if (s->head + s->len + n > BUFSZ) { memmove(s->buf, s->buf + s->head, s->len); s->head = 0; }
    if (s->len + n > BUFSZ) mc::fail("simulated kernel: socket buffer overflow");
    memcpy(s->buf + s->head + s->len, p, n);
    s->len += n; s->total_in += n;
}
static size_t take(Sock *s, uint8_t *p, size_t n) {
    if (n > s->len) n = s->len;
    memcpy(p, s->buf + s->head, n);
    s->head += n; s->len -= n;
    if (!s->len) s->head = 0;
    return n;
}
static size_t space(Sock *s) { return s->len >= W->cfg.sockbuf ? 0 : W->cfg.sockbuf - s->len; }

static int sock_mask(Sock *s) {
    int m = 0;
    if (s->hold) { Sock *p = s->peer >= 0 ? &W->s[s->peer] : 0; return !p || space(p) > 0 ? POLLOUT : 0; }
    if (s->st == S_LISTEN) return s->naq ? POLLIN : 0;
    if (s->err) m |= POLLERR | POLLIN | POLLOUT;
    if (s->reset || s->refused || s->dead) m |= POLLHUP | POLLIN | POLLOUT;
    if (s->st == S_CONNECTING) return m;
    if (s->st == S_NEW || s->st == S_BOUND) return m | POLLOUT | POLLHUP;
    if (s->len || s->fin_rcvd) m |= POLLIN;
    if (s->fin_rcvd && s->fin_sent) m |= POLLHUP;
    if (s->st == S_ESTAB && !s->reset) {
        Sock *p = s->peer >= 0 ? &W->s[s->peer] : 0;
        if (!p || !p->open || space(p) > 0) m |= POLLOUT;
    }
    return m;
}
static int fdmask_of(int fd) {
    Fd *f = getfd(fd);
    if (!f) return 0;
    if (f->kind == K_EVENT) return (W->ev[f->obj].cnt ? POLLIN : 0) | POLLOUT;
    return sock_mask(&W->s[f->obj]);
}
static void *objkey(int fd) {
    Fd *f = getfd(fd);
    if (!f) return (void *)W;
    return f->kind == K_EVENT ? (void *)&W->ev[f->obj] : (void *)&W->s[f->obj];
}

static void deliver_rst(Sock *p, int e) {
    if (!p->open || p->reset) return;
    p->reset = true; W->sys[5]++;
    p->err = e;
    mc::touch(p, true);
}
static void close_sock(int i, bool abortive) {
    Sock *s = &W->s[i];
    if (!s->open) return;
    s->open = false;
    mc::touch(&W->eph, true);
    if (s->st == S_LISTEN) {
        mc::touch(&W->nblack, true);
        for (int k = 0; k < s->naq; k++) { // never accepted: reset
            Sock *q = &W->s[s->aq[k]];
            if (q->peer >= 0) deliver_rst(&W->s[q->peer], ECONNRESET);
            q->open = false; q->st = S_CLOSED;
        }
    } else if (s->peer >= 0) {
        Sock *p = &W->s[s->peer];
        if (p->open && !s->reset) {
            if (abortive || s->len) deliver_rst(p, ECONNRESET);
            else { p->fin_rcvd = true; }
            mc::touch(p, true);
        }
    }
    s->st = S_CLOSED;
    mc::touch(s, true);
}
static int find_listener(uint16_t port) { // port in network order
    mc::touch(&W->nblack, false);
    for (int i = 0; i < W->ns; i++) if (W->s[i].open && W->s[i].st == S_LISTEN && W->s[i].lport == port) return i;
    return -1;
}
static bool is_black(uint16_t port) { for (int i = 0; i < W->nblack; i++) if (W->black[i] == port) return true; return false; }

static uint16_t eph_port() {
    mc::touch(&W->eph, true);
    if (W->cfg.reuse_ports)
        for (uint16_t p = 40000; p < W->eph; p++) {
            bool used = false;
            for (int i = 0; i < W->ns && !used; i++) used = W->s[i].open && W->s[i].lport == htons(p);
            if (!used) return p;
        }
    return W->eph++;
}
// establish c -> listener l; returns the accepted socket
static int establish(int c, int l) {
    Sock *ls = &W->s[l];
    if (ls->naq >= 32) return -1;
    int a = new_sock(ls->raw);
    Sock *as = &W->s[a], *cs = &W->s[c];
    as->st = S_ESTAB; as->peer = c; as->lport = ls->lport; as->rport = cs->lport; as->laddr = cs->raddr; as->raddr = cs->laddr;
    cs->st = S_ESTAB; cs->peer = a;
    W->s[l].aq[W->s[l].naq++] = a;
    mc::touch(&W->s[l], true);
    return a;
}

// ---------------------------------------------------------------- raw peers
int raw_connect(int port, int lport) {
    mc::point("raw connect");
    ENTER();
    int l = find_listener(htons(port));
    if (l < 0) { LEAVE(); return -1; }
    int c = new_sock(true);
    Sock *s = &W->s[c];
    s->laddr = htonl(INADDR_LOOPBACK); s->lport = htons(lport ? lport : eph_port()); s->raddr = htonl(INADDR_LOOPBACK); s->rport = htons(port);
    establish(c, l);
    LEAVE();
    return c;
}
int raw_listen(int port) {
    int i = new_sock(true);
    Sock *s = &W->s[i];
    s->st = S_LISTEN; s->lport = htons(port); s->backlog = 32;
    mc::touch(&W->nblack, true);
    return i;
}
bool raw_pending(int l) { mc::touch(&W->s[l], false); return W->s[l].naq > 0; }
int raw_accept(int l) {
    Sock *s = &W->s[l];
    mc::touch(s, true);
    if (!s->naq) return -1;
    int a = s->aq[0];
    memmove(s->aq, s->aq + 1, sizeof(int) * --s->naq);
    return a;
}
size_t raw_space(int i) { Sock *s = &W->s[i]; if (s->peer < 0) return 0; Sock *p = &W->s[s->peer]; return p->open ? space(p) : 0; }
size_t raw_send(int i, const void *d, size_t n) {
    mc::point("raw send");
    ENTER();
    Sock *s = &W->s[i];
    size_t k = 0;
    if (s->open && !s->reset && s->peer >= 0) {
        Sock *p = &W->s[s->peer];
        if (p->open) { k = space(p); if (k > n) k = n; put(p, (const uint8_t *)d, k); mc::sync_release(p); mc::touch(p, true); }
        else { s->reset = true; }
    }
    LEAVE();
    return k;
}
size_t raw_avail(int i) { mc::touch(&W->s[i], false); return W->s[i].len; }
size_t raw_recv(int i, void *d, size_t n) {
    ENTER();
    Sock *s = &W->s[i];
    size_t k = take(s, (uint8_t *)d, n);
    mc::touch(s, true);
    if (s->peer >= 0) mc::touch(&W->s[s->peer], true);
    LEAVE();
    return k;
}
bool raw_eof(int i) { mc::touch(&W->s[i], false); return W->s[i].fin_rcvd || W->s[i].reset; }
bool raw_reset(int i) { mc::touch(&W->s[i], false); return W->s[i].reset; }
bool raw_open(int i) { return W->s[i].open; }
void raw_close(int i) { mc::point("raw close"); ENTER(); close_sock(i, false); LEAVE(); }
void raw_rst(int i) { mc::point("raw reset"); ENTER(); close_sock(i, true); LEAVE(); }
void blackhole(int port) { W->black[W->nblack++] = htons(port); }
int nsock_open() { int n = 0; for (int i = 0; i < W->ns; i++) n += W->s[i].open && !W->s[i].raw && W->s[i].fd >= 0; return n; }
int nfd_open() { int n = 0; for (int i = 0; i < W->maxfd; i++) n += W->fd[i].kind != K_NONE; return n; }
int nsocks() { return W->ns; }
bool is_open(int i) { return W->s[i].open; }
int backlog(int port) { for (int i = 0; i < W->ns; i++) if (W->s[i].st == S_LISTEN && W->s[i].open && ntohs(W->s[i].lport) == port) return W->s[i].backlog; return -1; }
int local_port(int i) { return ntohs(W->s[i].lport); }
int remote_port(int i) { return ntohs(W->s[i].rport); }
void rst_pair(int i) {
    mc::point("network reset");
    ENTER();
    Sock *s = &W->s[i];
    deliver_rst(s, ECONNRESET);
    if (s->peer >= 0) deliver_rst(&W->s[s->peer], ECONNRESET);
    LEAVE();
}
void rst_half(int i, bool other) {
    mc::point("network reset");
    ENTER();
    Sock *s = &W->s[i];
    if (other && s->peer >= 0) s = &W->s[s->peer];
    deliver_rst(s, ECONNRESET);
    LEAVE();
}
void partition(bool on) {
    mc::point("partition");
    ENTER();
    W->part = on; mc::touch(&W->nblack, true);
    for (int i = 0; i < W->ns; i++) if (W->s[i].st == S_ESTAB && W->s[i].hold != on) { W->s[i].hold = on; mc::touch(&W->s[i], true); }
    LEAVE();
}
static bool is_client_estab(Sock *s) { return s->open && s->st == S_ESTAB && !s->reset && s->peer >= 0 && ntohs(s->lport) >= 40000; }
int find_estab(int n) { for (int i = 0; i < W->ns; i++) if (is_client_estab(&W->s[i]) && n-- == 0) return i; return -1; }
int estab_count() { int n = 0; for (int i = 0; i < W->ns; i++) n += is_client_estab(&W->s[i]); return n; }
long nsys(int w) { return W->sys[w]; }
void set_rand(uint64_t seed) { W->rnd = (uint32_t)seed; }
void on_rand(int (*f)(void)) { W->randhook = f; }
void on_close(void (*f)(int, int)) { W->closecb = f; }
void on_send(void (*f)(int, const void *, size_t)) { W->sendcb = f; }
void raise_signal(int sig) {
    mc::point("raise");
    ENTER();
    for (int i = 0; i < W->nh; i++) { Handle *h = &W->h[i]; if (h->type == H_SIGNAL && h->active && h->signum == sig) { h->sigpend++; mc::touch(&W->l[h->loop], true); } }
    LEAVE();
}
void dump_state(FILE *) {}

static bool inject(const char *what) {
    if (!W->cfg.fail_calls) return false;
    mc::touch(&W->nenv, true);
    if (W->nfail >= W->cfg.fail_calls) return false;
    if (mc::choose(2, what, 1)) { W->nfail++; return true; }
    return false;
}
} // namespace simos
using namespace simos;

// ---------------------------------------------------------------- system calls
extern "C" {
int eventfd(unsigned int init, int flags) {
    if (!on()) return (int)syscall(SYS_eventfd2, init, flags);
    ENTER();
    if (W->nev >= MAXEV) {
        // reuse a closed slot
        int k = -1;
        for (int i = 0; i < W->nev; i++) if (!W->ev[i].open) { k = i; break; }
        if (k < 0) mc::fail("simulated kernel: too many eventfds");
        W->ev[k].cnt = init; W->ev[k].open = true;
        int fd = alloc_fd(K_EVENT, k); W->ev[k].fd = fd; LEAVE(); return fd;
    }
    int i = W->nev++;
    W->ev[i].cnt = init; W->ev[i].open = true;
    int fd = alloc_fd(K_EVENT, i);
    W->ev[i].fd = fd;
    LEAVE();
    return fd;
}
static ssize_t sock_recv(int fd, Fd *f, void *buf, size_t n, int flags) {
    Sock *s = &W->s[f->obj];
    if (W->cfg.sock_points) mc::point("recv");
    ENTER();
    W->sys[1]++;
    mc::touch(s, true); if (s->peer >= 0) mc::touch(&W->s[s->peer], true);
    if (n == 0) { LEAVE(); return 0; }
    if (s->hold) { errno = EAGAIN; LEAVE(); return -1; }
    if (s->len) {
        size_t k = n < s->len ? n : s->len;
        if (k > 1 && W->cfg.short_read) {
            int a = env(1 + W->cfg.short_read, "short read");
            if (a == 1) k = 1;
            else if (a == 2) k = k / 2 ? k / 2 : 1;
            else if (a == 3) { errno = EAGAIN; LEAVE(); return -1; }
        }
        size_t r = take(s, (uint8_t *)buf, k);
        mc::sync_acquire(s);
        mc::note("recv(%d) -> %zu bytes", fd, r);
        LEAVE();
        __tsan_write_range(buf, r);
        return (ssize_t)r;
    }
    if (s->err && !s->fin_rcvd) { errno = s->err; s->err = 0; mc::note("recv(%d) -> errno %d", fd, errno); LEAVE(); return -1; }
    if (s->fin_rcvd || s->reset || s->refused) { mc::note("recv(%d) -> EOF", fd); LEAVE(); return 0; }
    if (s->st != S_ESTAB) { errno = s->st == S_CONNECTING ? EAGAIN : ENOTCONN; LEAVE(); return -1; }
    errno = EAGAIN;
    mc::note("recv(%d) -> EAGAIN", fd);
    LEAVE();
    return -1;
}
static ssize_t sock_send(int fd, Fd *f, const void *buf, size_t n, int flags) {
    Sock *s = &W->s[f->obj];
    if (n) __tsan_read_range((void *)buf, n);
    if (W->cfg.sock_points) mc::point("send");
    ENTER();
    W->sys[0]++;
    mc::touch(s, true); if (s->peer >= 0) mc::touch(&W->s[s->peer], true);
    if (s->hold && (!W->s[s->peer].open || s->reset)) { mc::note("send(%d) is lost", fd); LEAVE(); return (ssize_t)n; }
    if (s->err) { errno = s->err; s->err = 0; mc::note("send(%d) -> errno %d", fd, errno); LEAVE(); return -1; }
    if (s->reset || s->dead || s->refused) {
        if (!(flags & MSG_NOSIGNAL) && !mc::sigpipe_blocked()) { LEAVE(); mc::fail("SIGPIPE: a write to a broken connection kills the process (signal not blocked in this thread)"); }
        errno = EPIPE; mc::note("send(%d) -> EPIPE", fd); LEAVE(); return -1;
    }
    if (s->st == S_CONNECTING) { errno = EAGAIN; LEAVE(); return -1; }
    if (s->st != S_ESTAB) { errno = EPIPE; LEAVE(); return -1; }
    if (n == 0) { LEAVE(); return 0; }
    Sock *p = &W->s[s->peer];
    if (!p->open || (p->reset && !p->hold)) { // data to a closed socket: accepted, then reset
        s->reset = true; s->err = s->fin_rcvd ? EPIPE : ECONNRESET; W->sys[5]++;
        mc::note("send(%d) to a closed peer", fd);
        LEAVE();
        if (W->sendcb) { mc::Quiet q; W->sendcb(f->obj, buf, n); }
        return (ssize_t)n;
    }
    size_t k = space(p);
    if (k > n) k = n;
    if (W->cfg.chunk_cap && k > W->cfg.chunk_cap) k = W->cfg.chunk_cap;
    if (k && W->cfg.short_write) {
        int a = env(1 + W->cfg.short_write, "short write");
        if (a == 1) k = 1;
        else if (a == 2) k = k / 2 ? k / 2 : 1;
        else if (a == 3) k = 0;
    }
    if (!k) { errno = EAGAIN; mc::note("send(%d) -> EAGAIN", fd); LEAVE(); return -1; }
    put(p, (const uint8_t *)buf, k);
    mc::sync_release(p);
    mc::touch(p, true);
    mc::note("send(%d) -> %zu of %zu bytes", fd, k, n);
    LEAVE();
    if (W->sendcb) { mc::Quiet q; W->sendcb(f->obj, buf, k); }
    return (ssize_t)k;
}
ssize_t read(int fd, void *buf, size_t n) {
    if (!on() || !sim_fd(fd)) return syscall(SYS_read, fd, buf, n);
    Fd *f = getfd(fd);
    if (!f) { mc::fail("read on a closed descriptor"); }
    if (f->kind == K_SOCK) return sock_recv(fd, f, buf, n, 0);
    if (W->cfg.eventfd_points) mc::point("eventfd read");
    ENTER();
    EvFd *e = &W->ev[f->obj];
    mc::touch(e, true);
    if (!e->cnt) { errno = EAGAIN; mc::note("eventfd(%d) read -> EAGAIN", fd); LEAVE(); return -1; }
    uint64_t v = e->cnt; e->cnt = 0;
    mc::sync_acquire(e);
    memcpy(buf, &v, 8);
    mc::note("eventfd(%d) read -> %llu", fd, (unsigned long long)v);
    LEAVE();
    __tsan_write_range(buf, 8);
    return 8;
}
ssize_t write(int fd, const void *buf, size_t n) {
    if ((fd == 1 || fd == 2) && mc::active()) return (ssize_t)n; // log output
    if (!on() || !sim_fd(fd)) return syscall(SYS_write, fd, buf, n);
    Fd *f = getfd(fd);
    if (!f) { mc::fail("write on a closed descriptor"); }
    if (f->kind == K_SOCK) return sock_send(fd, f, buf, n, 0);
    __tsan_read_range((void *)buf, n);
    if (W->cfg.eventfd_points) mc::point("eventfd write");
    ENTER();
    if (getfd(fd) != f) mc::fail("eventfd closed while being written");
    EvFd *e = &W->ev[f->obj];
    uint64_t v; memcpy(&v, buf, 8);
    e->cnt += v;
    mc::sync_release(e);
    mc::touch(e, true);
    mc::note("eventfd(%d) write", fd);
    LEAVE();
    return 8;
}
ssize_t recv(int fd, void *buf, size_t n, int flags) {
    if (!on() || !sim_fd(fd)) return syscall(SYS_recvfrom, fd, buf, n, flags, 0, 0);
    Fd *f = getfd(fd);
    if (!f || f->kind != K_SOCK) mc::fail("recv on a closed descriptor");
    return sock_recv(fd, f, buf, n, flags);
}
ssize_t send(int fd, const void *buf, size_t n, int flags) {
    if (!on() || !sim_fd(fd)) return syscall(SYS_sendto, fd, buf, n, flags, 0, 0);
    Fd *f = getfd(fd);
    if (!f || f->kind != K_SOCK) mc::fail("send on a closed descriptor");
    return sock_send(fd, f, buf, n, flags);
}
int close(int fd) {
    if (!on() || !sim_fd(fd)) return (int)syscall(SYS_close, fd);
    mc::point("close");
    ENTER();
    W->sys[2]++;
    Fd *f = getfd(fd);
    if (!f) mc::fail("close of a descriptor that is not open (double close)");
    for (int i = 0; i < W->nh; i++) {
        Handle *h = &W->h[i];
        if (h->type == H_POLL && h->active && !h->closing && h->fd == fd && W->l[h->loop].runner >= 0)
            mc::fail("descriptor closed while a running event loop still polls it");
    }
    if (W->closecb) W->closecb(fd, f->kind == K_SOCK ? f->obj : -1);
    if (f->kind == K_SOCK) { W->s[f->obj].fd = -1; close_sock(f->obj, false); }
    else { W->ev[f->obj].open = false; mc::touch(&W->ev[f->obj], true); }
    mc::touch(W->fd, true);
    f->kind = K_NONE;
    mc::note("close(%d)", fd);
    LEAVE();
    return 0;
}
int socket(int d, int t, int p) {
    if (!on()) return (int)syscall(SYS_socket, d, t, p);
    ENTER();
    if (inject("socket() fails")) { errno = EMFILE; LEAVE(); return -1; }
    int i = new_sock(false);
    int fd = alloc_fd(K_SOCK, i);
    W->s[i].fd = fd;
    mc::note("socket -> %d", fd);
    LEAVE();
    return fd;
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) {
    if (!on() || !sim_fd(fd)) return (int)syscall(SYS_setsockopt, fd, l, o, v, n);
    if (!getfd(fd)) mc::fail("setsockopt on a closed descriptor");
    if (inject("setsockopt() fails")) { errno = ENOBUFS; return -1; }
    return 0;
}
int getsockopt(int fd, int l, int o, void *v, socklen_t *n) {
    if (!on() || !sim_fd(fd)) return (int)syscall(SYS_getsockopt, fd, l, o, v, n);
    Fd *f = getfd(fd);
    if (!f || f->kind != K_SOCK) mc::fail("getsockopt on a closed descriptor");
    int e = 0;
    if (o == SO_ERROR) { e = W->s[f->obj].err; W->s[f->obj].err = 0; }
    *(int *)v = e; *n = sizeof(int);
    return 0;
}
static int do_fcntl(int fd, int cmd, long arg) {
    if (!getfd(fd)) mc::fail("fcntl on a closed descriptor");
    if (cmd == F_SETFL) { if (inject("fcntl() fails")) { errno = EINVAL; return -1; } getfd(fd)->flags = (int)arg; return 0; }
    if (cmd == F_GETFL) return getfd(fd)->flags;
    return 0;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!on() || !sim_fd(fd)) return (int)syscall(SYS_fcntl, fd, cmd, arg);
    return do_fcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!on() || !sim_fd(fd)) return (int)syscall(SYS_fcntl, fd, cmd, arg);
    return do_fcntl(fd, cmd, arg);
}
int bind(int fd, const struct sockaddr *a, socklen_t n) {
    if (!on() || !sim_fd(fd)) return (int)syscall(SYS_bind, fd, a, n);
    ENTER();
    Fd *f = getfd(fd);
    if (!f) mc::fail("bind on a closed descriptor");
    const struct sockaddr_in *in = (const struct sockaddr_in *)a;
    Sock *s = &W->s[f->obj];
    for (int i = 0; i < W->ns; i++) if (W->s[i].open && W->s[i].st == S_LISTEN && W->s[i].lport == in->sin_port) { errno = EADDRINUSE; LEAVE(); return -1; }
    if (inject("bind() fails")) { errno = EACCES; LEAVE(); return -1; }
    s->lport = in->sin_port; s->laddr = in->sin_addr.s_addr; s->st = S_BOUND;
    LEAVE();
    return 0;
}
int listen(int fd, int backlog) {
    if (!on() || !sim_fd(fd)) return (int)syscall(SYS_listen, fd, backlog);
    mc::point("listen");
    ENTER();
    Fd *f = getfd(fd);
    if (!f) mc::fail("listen on a closed descriptor");
    if (inject("listen() fails")) { errno = EADDRINUSE; LEAVE(); return -1; }
    mc::touch(&W->nblack, true);
    W->s[f->obj].st = S_LISTEN; W->s[f->obj].backlog = backlog;
    mc::note("listen(%d) port %d", fd, ntohs(W->s[f->obj].lport));
    LEAVE();
    return 0;
}
int accept(int fd, struct sockaddr *a, socklen_t *n) {
    if (!on() || !sim_fd(fd)) return (int)syscall(SYS_accept, fd, a, n);
    mc::point("accept");
    ENTER();
    W->sys[4]++;
    Fd *f = getfd(fd);
    if (!f) mc::fail("accept on a closed descriptor");
    Sock *s = &W->s[f->obj];
    mc::touch(s, true);
    if (!s->naq) { errno = EAGAIN; LEAVE(); return -1; }
    if (inject("accept() fails")) { errno = EMFILE; LEAVE(); return -1; }
    int i = s->aq[0];
    memmove(s->aq, s->aq + 1, sizeof(int) * --s->naq);
    int nfd = alloc_fd(K_SOCK, i);
    W->s[i].fd = nfd; W->s[i].raw = false;
    struct sockaddr_in in; memset(&in, 0, sizeof in);
    in.sin_family = AF_INET; in.sin_port = W->s[i].rport; in.sin_addr.s_addr = W->s[i].raddr;
    if (a && n) { memcpy(a, &in, *n < sizeof in ? *n : sizeof in); *n = sizeof in; }
    mc::note("accept(%d) -> %d", fd, nfd);
    LEAVE();
    return nfd;
}
int accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) { return accept(fd, a, n); }
int connect(int fd, const struct sockaddr *a, socklen_t n) {
    if (!on() || !sim_fd(fd)) return (int)syscall(SYS_connect, fd, a, n);
    mc::point("connect");
    ENTER();
    W->sys[3]++;
    Fd *f = getfd(fd);
    if (!f) mc::fail("connect on a closed descriptor");
    Sock *s = &W->s[f->obj];
    const struct sockaddr_in *in = (const struct sockaddr_in *)a;
    if (inject("connect() fails")) { errno = ENETUNREACH; LEAVE(); return -1; }
    s->rport = in->sin_port; s->raddr = in->sin_addr.s_addr;
    s->laddr = htonl(INADDR_LOOPBACK); s->lport = htons(eph_port());
    s->st = S_CONNECTING;
    int i = f->obj;
    int l = find_listener(in->sin_port);
    mc::touch(s, true);
    if (is_black(in->sin_port) || W->part) { mc::note("connect(%d): no answer", fd); }
    else if (l < 0) { s->refused = true; s->err = ECONNREFUSED; mc::note("connect(%d) port %d: refused", fd, ntohs(in->sin_port)); }
    else { establish(i, l); mc::note("connect(%d) port %d", fd, ntohs(in->sin_port)); }
    errno = EINPROGRESS;
    LEAVE();
    return -1;
}
int shutdown(int fd, int how) {
    if (!on() || !sim_fd(fd)) return (int)syscall(SYS_shutdown, fd, how);
    mc::point("shutdown");
    ENTER();
    Fd *f = getfd(fd);
    if (!f || f->kind != K_SOCK) { errno = EBADF; LEAVE(); return -1; }
    Sock *s = &W->s[f->obj];
    if (how != SHUT_RD && s->peer >= 0 && W->s[s->peer].open) { W->s[s->peer].fin_rcvd = true; s->fin_sent = true; mc::touch(&W->s[s->peer], true); }
    LEAVE();
    return 0;
}
// randomness is an environment answer: deterministic bytes, or the harness' hook for 16-bit draws
int RAND_bytes(unsigned char *p, int n) {
    if (!mc::active()) { static uint64_t z = 88172645463325252ull; for (int i = 0; i < n; i++) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; p[i] = (unsigned char)(z >> 24); } return 1; }
    if (n == 2 && W->randhook) { uint16_t v = (uint16_t)W->randhook(); memcpy(p, &v, 2); __tsan_write_range(p, 2); return 1; }
    mc::touch(&W->rnd, true);
    for (int i = 0; i < n; i++) { W->rnd = W->rnd * 1664525u + 1013904223u; p[i] = (unsigned char)(W->rnd >> 24); }
    return 1;
}
int rand(void) {
    if (!on()) return (int)(random() & 0x7fffffff);
    return 0; // jitter is an environment answer: the harness decides through simos::set_rand()
}

// ---------------------------------------------------------------- libuv
static Loop *LP(uv_loop_t *l) {
    if (!l) mc::fail("libuv call on a null loop");
    for (int i = 0; i < W->nl; i++) if (W->l[i].used && W->l[i].ptr == l) return &W->l[i];
    mc::fail("libuv call on a loop that is closed or was never initialised");
}
static Handle *HP(const void *p, HType t) {
    if (!p) mc::fail("libuv call on a null handle");
    uv_handle_t *u = (uv_handle_t *)p;
    if (!mc::heap_ok(u, sizeof(uv_handle_t))) mc::fail("libuv call on a freed handle");
    uintptr_t i = (uintptr_t)u->u.reserved[3];
    if (i == 0 || i > (uintptr_t)W->nh || W->h[i - 1].ptr != u) mc::fail("libuv call on a handle that is closed or was never initialised");
    Handle *h = &W->h[i - 1];
    if (t != H_NONE && h->type != t) mc::fail("libuv call on a handle of another type");
    return h;
}
static void affinity(Loop *l, const char *what) {
    if (l->runner >= 0 && l->runner != mc::self()) mc::fail("%s: event loop of T%d touched from T%d", what, l->runner, mc::self());
}
static int new_handle(uv_loop_t *lp, void *p, HType t) {
    Loop *l = LP(lp);
    affinity(l, "handle init");
    int k = -1;
    if (W->nh >= MAXH) { for (int i = 0; i < W->nh; i++) if (W->h[i].type == H_NONE) { k = i; break; } if (k < 0) mc::fail("simulated libuv: too many handles"); }
    else k = W->nh++;
    Handle *h = &W->h[k];
    memset(h, 0, sizeof *h);
    h->type = t; h->ptr = (uv_handle_t *)p; h->loop = (int)(l - W->l); h->fd = -1;
    h->ptr->loop = lp; h->ptr->u.reserved[3] = (void *)(uintptr_t)(k + 1);
    return k;
}
int uv_loop_init(uv_loop_t *lp) {
    ENTER();
    int k = -1;
    for (int i = 0; i < W->nl; i++) if (!W->l[i].used) { k = i; break; }
    if (k < 0) { if (W->nl >= MAXL) mc::fail("simulated libuv: too many loops"); k = W->nl++; }
    Loop *l = &W->l[k];
    l->ptr = lp; l->used = true; l->runner = -1; l->stop = false; l->time = mc::now(); l->nclosing = 0;
    lp->data = 0;
    LEAVE();
    return 0;
}
int uv_loop_close(uv_loop_t *lp) {
    ENTER();
    Loop *l = LP(lp);
    affinity(l, "uv_loop_close");
    if (l->runner >= 0) mc::fail("uv_loop_close on a running loop");
    for (int i = 0; i < W->nh; i++) if (W->h[i].type != H_NONE && W->h[i].loop == l - W->l) { LEAVE(); return UV_EBUSY; }
    l->used = false; l->ptr = 0;
    LEAVE();
    return 0;
}
void uv_stop(uv_loop_t *lp) { ENTER(); LP(lp)->stop = true; mc::touch(LP(lp), true); LEAVE(); }
void uv_update_time(uv_loop_t *lp) { LP(lp)->time = mc::now(); }
uint64_t uv_now(const uv_loop_t *lp) { return LP((uv_loop_t *)lp)->time; }
uint64_t uv_hrtime(void) { return mc::now() * 1000000ull; }
int uv_is_closing(const uv_handle_t *p) { return HP(p, H_NONE)->closing; }
int uv_is_active(const uv_handle_t *p) { return HP(p, H_NONE)->active && !HP(p, H_NONE)->closing; }
void uv_ref(uv_handle_t *p) { HP(p, H_NONE)->unref = false; }
void uv_unref(uv_handle_t *p) { HP(p, H_NONE)->unref = true; }
int uv_has_ref(const uv_handle_t *p) { return !HP(p, H_NONE)->unref; }
const char *uv_strerror(int) { return "simulated libuv error"; }
const char *uv_err_name(int) { return "UV_E"; }
void uv_walk(uv_loop_t *lp, uv_walk_cb cb, void *arg) {
    Loop *l = LP(lp);
    affinity(l, "uv_walk");
    int n = W->nh;
    for (int i = 0; i < n; i++) if (W->h[i].type != H_NONE && W->h[i].loop == l - W->l && W->h[i].ptr) cb(W->h[i].ptr, arg);
}
void uv_close(uv_handle_t *p, uv_close_cb cb) {
    ENTER();
    Handle *h = HP(p, H_NONE);
    Loop *l = &W->l[h->loop];
    affinity(l, "uv_close");
    if (h->closing) mc::fail("uv_close on a handle that is already closing");
    h->closing = true; h->active = h->ready = false; h->close_cb = cb; h->gen = ++W->gen;
    l->closing[l->nclosing++] = (int)(h - W->h);
    LEAVE();
}
int uv_poll_init(uv_loop_t *lp, uv_poll_t *p, int fd) {
    ENTER();
    if (!getfd(fd)) { LEAVE(); return UV_EBADF; }
    Loop *l = LP(lp);
    for (int i = 0; i < W->nh; i++) if (W->h[i].type == H_POLL && W->h[i].loop == l - W->l && W->h[i].active && W->h[i].fd == fd) { LEAVE(); return UV_EEXIST; }
    int k = new_handle(lp, p, H_POLL);
    W->h[k].fd = fd;
    LEAVE();
    return 0;
}
int uv_poll_init_socket(uv_loop_t *lp, uv_poll_t *p, uv_os_sock_t fd) { return uv_poll_init(lp, p, fd); }
int uv_poll_start(uv_poll_t *p, int ev, uv_poll_cb cb) {
    ENTER();
    Handle *h = HP(p, H_POLL);
    Loop *l = &W->l[h->loop];
    affinity(l, "uv_poll_start");
    if (h->closing) mc::fail("uv_poll_start on a closing handle");
    for (int i = 0; i < W->nh; i++) if (&W->h[i] != h && W->h[i].type == H_POLL && W->h[i].loop == h->loop && W->h[i].active && W->h[i].fd == h->fd) { LEAVE(); return UV_EEXIST; }
    h->active = false; h->gen = ++W->gen;
    if (ev == 0) { LEAVE(); return 0; }
    if (!getfd(h->fd)) mc::fail("uv_poll_start on a descriptor that was closed");
    h->active = true; h->events = ev; h->pcb = cb;
    mc::touch(l, true);
    LEAVE();
    return 0;
}
int uv_poll_stop(uv_poll_t *p) {
    ENTER();
    Handle *h = HP(p, H_POLL);
    affinity(&W->l[h->loop], "uv_poll_stop");
    h->active = false; h->gen = ++W->gen;
    LEAVE();
    return 0;
}
int uv_timer_init(uv_loop_t *lp, uv_timer_t *p) { ENTER(); new_handle(lp, p, H_TIMER); LEAVE(); return 0; }
int uv_timer_start(uv_timer_t *p, uv_timer_cb cb, uint64_t timeout, uint64_t repeat) {
    ENTER();
    Handle *h = HP(p, H_TIMER);
    Loop *l = &W->l[h->loop];
    affinity(l, "uv_timer_start");
    if (h->closing || !cb) { LEAVE(); return UV_EINVAL; }
    h->active = true; h->ready = false; h->tcb = cb; h->due = l->time + timeout; if (h->due < timeout) h->due = ~0ull; h->repeat = repeat; h->sid = ++W->timerid;
    LEAVE();
    return 0;
}
int uv_timer_stop(uv_timer_t *p) { ENTER(); Handle *h = HP(p, H_TIMER); affinity(&W->l[h->loop], "uv_timer_stop"); h->active = h->ready = false; LEAVE(); return 0; }
int uv_timer_again(uv_timer_t *p) { Handle *h = HP(p, H_TIMER); if (!h->tcb) return UV_EINVAL; if (h->repeat) uv_timer_start(p, h->tcb, h->repeat, h->repeat); return 0; }
void uv_timer_set_repeat(uv_timer_t *p, uint64_t r) { HP(p, H_TIMER)->repeat = r; }
uint64_t uv_timer_get_repeat(const uv_timer_t *p) { return HP(p, H_TIMER)->repeat; }
int uv_signal_init(uv_loop_t *lp, uv_signal_t *p) { ENTER(); new_handle(lp, p, H_SIGNAL); LEAVE(); return 0; }
static int sig_start(uv_signal_t *p, uv_signal_cb cb, int sig, bool once) {
    ENTER();
    Handle *h = HP(p, H_SIGNAL);
    affinity(&W->l[h->loop], "uv_signal_start");
    if (sig == 0) { LEAVE(); return UV_EINVAL; }
    h->active = true; h->signum = sig; h->oneshot = once; h->scb = cb; h->sigpend = 0;
    LEAVE();
    return 0;
}
int uv_signal_start(uv_signal_t *p, uv_signal_cb cb, int sig) { return sig_start(p, cb, sig, false); }
int uv_signal_start_oneshot(uv_signal_t *p, uv_signal_cb cb, int sig) { return sig_start(p, cb, sig, true); }
int uv_signal_stop(uv_signal_t *p) { ENTER(); Handle *h = HP(p, H_SIGNAL); affinity(&W->l[h->loop], "uv_signal_stop"); h->active = false; h->sigpend = 0; LEAVE(); return 0; }
int uv_check_init(uv_loop_t *lp, uv_check_t *p) { ENTER(); new_handle(lp, p, H_CHECK); LEAVE(); return 0; }
int uv_check_start(uv_check_t *p, uv_check_cb cb) { ENTER(); Handle *h = HP(p, H_CHECK); affinity(&W->l[h->loop], "uv_check_start"); if (!h->active) { h->active = true; h->ccb = cb; } LEAVE(); return 0; }
int uv_check_stop(uv_check_t *p) { ENTER(); HP(p, H_CHECK)->active = false; LEAVE(); return 0; }
int uv_prepare_init(uv_loop_t *lp, uv_prepare_t *p) { ENTER(); new_handle(lp, p, H_PREPARE); LEAVE(); return 0; }
int uv_prepare_start(uv_prepare_t *p, uv_prepare_cb cb) { Handle *h = HP(p, H_PREPARE); if (!h->active) { h->active = true; h->prcb = cb; } return 0; }
int uv_prepare_stop(uv_prepare_t *p) { HP(p, H_PREPARE)->active = false; return 0; }
int uv_idle_init(uv_loop_t *lp, uv_idle_t *p) { ENTER(); new_handle(lp, p, H_IDLE); LEAVE(); return 0; }
int uv_idle_start(uv_idle_t *p, uv_idle_cb cb) { Handle *h = HP(p, H_IDLE); if (!h->active) { h->active = true; h->icb = cb; } return 0; }
int uv_idle_stop(uv_idle_t *p) { HP(p, H_IDLE)->active = false; return 0; }
int uv_async_init(uv_loop_t *lp, uv_async_t *p, uv_async_cb cb) { ENTER(); int k = new_handle(lp, p, H_ASYNC); W->h[k].active = true; W->h[k].acb = cb; LEAVE(); return 0; }
int uv_async_send(uv_async_t *p) {
    mc::point("uv_async_send");
    ENTER(); Handle *h = HP(p, H_ASYNC); h->pend = true; mc::sync_release(h); mc::touch(&W->l[h->loop], true); LEAVE(); return 0;
}
static bool loop_alive(Loop *l) {
    if (l->nclosing) return true;
    for (int i = 0; i < W->nh; i++) if (W->h[i].type != H_NONE && W->h[i].loop == l - W->l && W->h[i].active && !W->h[i].unref) return true;
    return false;
}
int uv_loop_alive(const uv_loop_t *lp) { return loop_alive(LP((uv_loop_t *)lp)); }
static bool loop_ready(void *a) {
    Loop *l = (Loop *)a;
    int li = (int)(l - W->l);
    for (int i = 0; i < W->nh; i++) {
        Handle *h = &W->h[i];
        if (h->type == H_NONE || h->loop != li || !h->active) continue;
        if (h->type == H_POLL) {
            int m = fdmask_of(h->fd);
            int want = ((h->events & UV_READABLE) ? POLLIN : 0) | ((h->events & UV_WRITABLE) ? POLLOUT : 0) | POLLERR | POLLHUP;
            if (m & want) return true;
        } else if (h->type == H_SIGNAL) { if (h->sigpend) return true; }
        else if (h->type == H_ASYNC) { if (h->pend) return true; }
        else if (h->type == H_IDLE) return true;
    }
    return l->stop;
}
static int next_timer(Loop *l, bool ready = false) {
    int best = -1, li = (int)(l - W->l);
    for (int i = 0; i < W->nh; i++) {
        Handle *h = &W->h[i];
        if (h->type == H_TIMER && h->loop == li && (ready ? h->ready : h->active))
            if (best < 0 || h->due < W->h[best].due || (h->due == W->h[best].due && h->sid < W->h[best].sid)) best = i;
    }
    return best;
}
static void run_timers(Loop *l) {
    // as libuv (since 1.46): the timers that are due are collected first, those started by a callback run in a later pass
    for (;;) {
        int i = next_timer(l);
        if (i < 0 || W->h[i].due > l->time) break;
        W->h[i].active = false; W->h[i].ready = true;
    }
    for (;;) {
        int i = next_timer(l, true);
        if (i < 0) break;
        Handle *h = &W->h[i];
        h->ready = false;
        if (h->repeat) { h->active = true; h->due = l->time + h->repeat; h->sid = ++W->timerid; }
        if (!mc::heap_ok(h->ptr, sizeof(uv_timer_t))) mc::fail("timer handle freed while active");
        if (W->cfg.loop_points) mc::point("timer callback");
        mc::note("timer fires");
        h->tcb((uv_timer_t *)h->ptr);
    }
}
int uv_run(uv_loop_t *lp, uv_run_mode mode) {
    Loop *l = LP(lp);
    int li = (int)(l - W->l);
    if (l->runner >= 0) mc::fail("uv_run: the loop is already running (T%d)", l->runner);
    l->runner = mc::self();
    bool alive = loop_alive(l);
    if (!alive) l->time = mc::now();
    if (mode == UV_RUN_DEFAULT && alive && !l->stop) { l->time = mc::now(); run_timers(l); }
    while (alive && !l->stop) {
        for (int i = 0; i < W->nh; i++) if (W->h[i].type == H_IDLE && W->h[i].loop == li && W->h[i].active) W->h[i].icb((uv_idle_t *)W->h[i].ptr);
        for (int i = 0; i < W->nh; i++) if (W->h[i].type == H_PREPARE && W->h[i].loop == li && W->h[i].active) W->h[i].prcb((uv_prepare_t *)W->h[i].ptr);
        // --- poll
        uint64_t dl = ~0ull;
        bool zero = mode == UV_RUN_NOWAIT || l->stop || l->nclosing || !loop_alive(l);
        if (zero) dl = mc::now();
        else { int t = next_timer(l); if (t >= 0) dl = W->h[t].due; }
        if (W->cfg.early_timers && dl != ~0ull && dl > mc::now() && dl - mc::now() <= W->cfg.early_ms) {
            if (env(2, "timer expires before other work")) mc::advance_to(dl);
        }
        if (dl <= mc::now()) { mc::point("loop poll"); }
        else mc::block(loop_ready, l, dl, "loop poll");
        // the loop time advances when poll returns
        l->time = mc::now();
        ENTER();
        struct { int h; uint64_t gen; int m; } batch[256]; int nb = 0;
        for (int i = 0; i < W->nh && nb < 256; i++) {
            Handle *h = &W->h[i];
            if (h->type != H_POLL || h->loop != li || !h->active) continue;
            mc::touch(objkey(h->fd), false);
            int m = fdmask_of(h->fd);
            int want = ((h->events & UV_READABLE) ? POLLIN : 0) | ((h->events & UV_WRITABLE) ? POLLOUT : 0) | POLLERR | POLLHUP;
            m &= want;
            if (m) { batch[nb].h = i; batch[nb].gen = h->gen; batch[nb].m = m; nb++; }
        }
        mc::touch(l, true);
        LEAVE();
        while (nb) {
            int k = 0;
            if (nb > 1 && W->cfg.epoll_order) k = env(nb, "epoll order");
            int hi = batch[k].h; uint64_t gen = batch[k].gen; int m = batch[k].m;
            for (int q = k; q + 1 < nb; q++) batch[q] = batch[q + 1];
            nb--;
            Handle *h = &W->h[hi];
            if (h->type != H_POLL || h->gen != gen || !h->active) continue; // invalidated by a callback of this iteration
            if (!mc::heap_ok(h->ptr, sizeof(uv_poll_t))) mc::fail("poll handle freed while active");
            int want = ((h->events & UV_READABLE) ? POLLIN : 0) | ((h->events & UV_WRITABLE) ? POLLOUT : 0);
            m &= want | POLLERR | POLLHUP;
            if (m == POLLERR || m == POLLHUP) m |= want;
            if (!m) continue;
            if (W->cfg.loop_points) mc::point("fd callback");
            if (h->type != H_POLL || h->gen != gen || !h->active) continue;
            if (m & POLLERR) {
                h->active = false; h->gen = ++W->gen;
                mc::note("fd %d: error event", h->fd);
                h->pcb((uv_poll_t *)h->ptr, UV_EBADF, 0);
                continue;
            }
            int pe = ((m & POLLIN) ? UV_READABLE : 0) | ((m & POLLOUT) ? UV_WRITABLE : 0);
            mc::note("fd %d: ready %s%s", h->fd, pe & UV_READABLE ? "R" : "", pe & UV_WRITABLE ? "W" : "");
            h->pcb((uv_poll_t *)h->ptr, 0, pe);
        }
        for (int i = 0; i < W->nh; i++) {
            Handle *h = &W->h[i];
            if (h->loop != li) continue;
            if (h->type == H_ASYNC && h->active && h->pend) { h->pend = false; mc::sync_acquire(h); h->acb((uv_async_t *)h->ptr); }
            if (h->type == H_SIGNAL && h->active && h->sigpend) {
                while (h->active && h->sigpend) { h->sigpend--; if (h->oneshot) { h->active = false; h->sigpend = 0; } h->scb((uv_signal_t *)h->ptr, h->signum); }
            }
        }
        for (int i = 0; i < W->nh; i++) if (W->h[i].type == H_CHECK && W->h[i].loop == li && W->h[i].active) W->h[i].ccb((uv_check_t *)W->h[i].ptr);
        // closing handles
        int n = l->nclosing; int cl[MAXH];
        memcpy(cl, l->closing, sizeof(int) * n); l->nclosing = 0;
        for (int q = n - 1; q >= 0; q--) {
            Handle *h = &W->h[cl[q]];
            uv_handle_t *p = h->ptr; uv_close_cb cb = h->close_cb;
            if (!mc::heap_ok(p, sizeof(uv_handle_t))) mc::fail("handle freed before its close callback");
            h->type = H_NONE; h->ptr = 0; h->active = false;
            p->u.reserved[3] = 0;
            if (cb) cb(p);
        }
        l->time = mc::now();
        run_timers(l);
        alive = loop_alive(l);
        if (mode != UV_RUN_DEFAULT) break;
    }
    l->stop = false;
    l->runner = -1;
    return alive;
}
} // extern "C"
