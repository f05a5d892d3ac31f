// Conformance of the simulated environment (mc/simos.cpp) with the real kernel and the real libuv: every script of
// system calls and loop operations up to a length is run on both, and must give the same results.
// Built twice (tools/conform.sh): with CONF_REAL it writes the results of all scripts, under mc it compares with them.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
#include <functional>
#include <uv.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <sys/socket.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <sys/epoll.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#ifndef CONF_REAL
#include "rt.h"
#include "simos.h"
#endif
namespace {
typedef std::function<int(int)> Pick;
const char *en(int e) { switch (e) { case EAGAIN: return "AGAIN"; case EINPROGRESS: return "INPROGRESS"; case ECONNREFUSED: return "REFUSED"; case EPIPE: return "PIPE"; case ECONNRESET: return "RESET"; case ENOTCONN: return "NOTCONN"; case EADDRINUSE: return "INUSE"; } static char b[16]; sprintf(b, "E%d", e); return b; }
struct Ev { std::string *log; char name; };
void on_poll(uv_poll_t *h, int st, int ev) { Ev *e = (Ev *)h->data; char b[32]; sprintf(b, "%c%s%s%s,", e->name, st ? "!" : "", ev & UV_READABLE ? "R" : "", ev & UV_WRITABLE ? "W" : ""); *e->log += b; }
void on_closed(uv_handle_t *h) { free(h); }
// one pass of the loop with fresh polls on the given descriptors
void poll_once(uv_loop_t *lp, std::vector<std::pair<char, int>> fds, int mask, std::string &log) {
    std::vector<uv_poll_t *> hs; std::vector<std::string> part(fds.size()); std::vector<Ev> ev(fds.size());
    for (size_t i = 0; i < fds.size(); i++) { auto h = (uv_poll_t *)malloc(sizeof(uv_poll_t)); if (uv_poll_init(lp, h, fds[i].second)) abort(); ev[i] = Ev{&part[i], fds[i].first}; h->data = &ev[i]; uv_poll_start(h, mask, on_poll); hs.push_back(h); }
    uv_run(lp, UV_RUN_NOWAIT);
    for (auto h: hs) { uv_poll_stop(h); uv_close((uv_handle_t *)h, on_closed); }
    uv_run(lp, UV_RUN_NOWAIT);
    for (auto &p: part) log += p; // the order of descriptors is not compared
}
int g_port = 0;
void sockets(const Pick &pick, int depth, std::string &log, std::string &key) {
    uv_loop_t lp; uv_loop_init(&lp); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(g_port);
    int l = socket(AF_INET, SOCK_STREAM, 0), c = -1, s = -1, one = 1; setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); fcntl(l, F_SETFL, O_NONBLOCK);
    if (bind(l, (struct sockaddr *)&a, sizeof a) || listen(l, 8)) abort();
#ifdef CONF_REAL
    socklen_t al = sizeof a; getsockname(l, (struct sockaddr *)&a, &al);
#endif
    auto snd = [&](int fd) { if (fd < 0) { log += "-"; return; } ssize_t r = send(fd, "abc", 3, MSG_NOSIGNAL); log += r < 0 ? en(errno) : std::to_string(r); };
    auto rcv = [&](int fd, size_t n) { if (fd < 0) { log += "-"; return; } char b[16]; ssize_t r = recv(fd, b, n, 0); log += r < 0 ? en(errno) : std::to_string(r); };
    for (int d = 0; d < depth; d++) {
        int op = pick(13); key += char('a' + op); log += ' ';
        switch (op) {
        case 0: if (c >= 0) break; c = socket(AF_INET, SOCK_STREAM, 0); fcntl(c, F_SETFL, O_NONBLOCK); log += connect(c, (struct sockaddr *)&a, sizeof a) ? en(errno) : "ok"; break;
        case 1: if (s >= 0 || l < 0) break; s = accept(l, nullptr, nullptr); log += s < 0 ? en(errno) : "ok"; if (s >= 0) fcntl(s, F_SETFL, O_NONBLOCK); break;
        case 2: snd(c); break; case 3: snd(s); break; case 4: rcv(c, 16); break; case 5: rcv(s, 16); break; case 6: rcv(s, 2); break;
        case 7: if (c >= 0) close(c); c = -1; break; case 8: if (s >= 0) close(s); s = -1; break; case 9: if (l >= 0) close(l); l = -1; break;
        case 10: { std::vector<std::pair<char, int>> f; if (c >= 0) f.push_back({'c', c}); if (s >= 0) f.push_back({'s', s}); if (l >= 0) f.push_back({'l', l}); poll_once(&lp, f, UV_READABLE | UV_WRITABLE, log); break; }
        case 11: { std::vector<std::pair<char, int>> f; if (c >= 0) f.push_back({'c', c}); if (s >= 0) f.push_back({'s', s}); poll_once(&lp, f, UV_WRITABLE, log); poll_once(&lp, f, UV_READABLE, log); break; }
        default: if (c >= 0) { int e = 0; socklen_t n = sizeof e; getsockopt(c, SOL_SOCKET, SO_ERROR, &e, &n); log += e ? en(e) : "0"; }
        }
    }
    for (int f: {c, s, l}) if (f >= 0) close(f);
    uv_run(&lp, UV_RUN_NOWAIT); uv_loop_close(&lp);
}
// the loop: two timers, two eventfd polls, a check and the callbacks stopping, restarting or closing each other
struct LoopT { uv_loop_t lp; uv_timer_t *t[2]; uv_poll_t *p[2]; uv_check_t *c; int fd[2]; uint64_t t0; int react, left; std::string *log; bool gone[5]; };
LoopT *L;
void fire(int who) {
    char b[32]; sprintf(b, "%c@%d,", "uvpqk"[who], (int)(uv_now(&L->lp) - L->t0)); *L->log += b;
    if (who == 2 || who == 3) { uint64_t x; if (L->react != 5 && read(L->fd[who - 2], &x, 8) != 8) *L->log += "?"; }
    if (L->left-- <= 0) { if (who < 2) uv_timer_stop(L->t[who]); else uv_poll_stop(L->p[who - 2]); return; }
    int other = who < 2 ? 1 - who : 5 - who;
    if (who < 2) switch (L->react) { case 1: uv_timer_stop(L->t[other]); break; case 2: uv_timer_start(L->t[other], [](uv_timer_t *h) { fire(h == L->t[0] ? 0 : 1); }, 3, 0); break; case 3: if (L->fd[0] >= 0) { uint64_t x = 1; if (write(L->fd[0], &x, 8) != 8) abort(); } break; case 4: uv_stop(&L->lp); break; case 5: break; case 6: case 7: uv_timer_start(L->t[L->react == 6 ? who : other], [](uv_timer_t *h) { fire(h == L->t[0] ? 0 : 1); }, 0, L->react == 6 ? 0 : 1); break; }
    else if (who < 4) switch (L->react) { case 1: uv_poll_stop(L->p[other - 2]); break; case 2: uv_poll_start(L->p[who - 2], UV_WRITABLE, [](uv_poll_t *h, int, int) { *L->log += "w"; uv_poll_stop(h); }); break; case 3: uv_timer_start(L->t[0], [](uv_timer_t *) { fire(0); }, 0, 0); break; case 4: uv_stop(&L->lp); break; case 5: uv_poll_stop(L->p[who - 2]); break; case 6: uv_timer_start(L->t[1], [](uv_timer_t *) { fire(1); }, 0, 0); break; case 7: uv_timer_stop(L->t[0]); break; }
}
void loops(const Pick &pick, int depth, std::string &log, std::string &key) {
    LoopT x; L = &x; x.log = &log; uv_loop_init(&x.lp); x.react = pick(8); x.left = 6; key += char('0' + x.react);
    for (int i = 0; i < 2; i++) { x.t[i] = (uv_timer_t *)malloc(sizeof(uv_timer_t)); uv_timer_init(&x.lp, x.t[i]); x.fd[i] = eventfd(0, EFD_NONBLOCK); x.p[i] = (uv_poll_t *)malloc(sizeof(uv_poll_t)); uv_poll_init(&x.lp, x.p[i], x.fd[i]); }
    x.c = (uv_check_t *)malloc(sizeof(uv_check_t)); uv_check_init(&x.lp, x.c);
    uv_timer_t *stopper = (uv_timer_t *)malloc(sizeof(uv_timer_t)); uv_timer_init(&x.lp, stopper); uv_update_time(&x.lp); x.t0 = uv_now(&x.lp);
    auto tcb = [](uv_timer_t *h) { fire(h == L->t[0] ? 0 : 1); }; auto pcb = [](uv_poll_t *h, int, int) { fire(h == L->p[0] ? 2 : 3); };
    uint64_t one = 1;
    for (int d = 0; d < depth; d++) {
        int op = pick(12); key += char('a' + op); log += ' ';
        switch (op) {
        case 0: uv_timer_start(x.t[0], tcb, 5, 0); break; case 1: uv_timer_start(x.t[1], tcb, 5, 0); break; case 2: uv_timer_start(x.t[1], tcb, 2, 4); break;
        case 3: uv_timer_start(x.t[0], tcb, 0, 0); break; case 4: uv_timer_stop(x.t[0]); break;
        case 5: uv_poll_start(x.p[0], UV_READABLE, pcb); break; case 6: uv_poll_start(x.p[1], UV_READABLE, pcb); break; case 7: uv_poll_stop(x.p[0]); break;
        case 8: if (write(x.fd[0], &one, 8) != 8) abort(); break; case 9: if (write(x.fd[1], &one, 8) != 8) abort(); break;
        case 10: uv_timer_start(stopper, [](uv_timer_t *h) { uv_stop(h->loop); }, 7, 0); log += uv_run(&x.lp, UV_RUN_DEFAULT) ? "alive" : "idle"; uv_timer_stop(stopper); break;
        default: uv_run(&x.lp, UV_RUN_NOWAIT); }
        log += std::to_string(uv_is_active((uv_handle_t *)x.t[0])) + std::to_string(uv_is_active((uv_handle_t *)x.t[1])) + std::to_string(uv_is_active((uv_handle_t *)x.p[0])) + std::to_string(uv_is_active((uv_handle_t *)x.p[1]));
    }
    for (int i = 0; i < 2; i++) { uv_poll_stop(x.p[i]); uv_close((uv_handle_t *)x.t[i], on_closed); uv_close((uv_handle_t *)x.p[i], on_closed); }
    uv_close((uv_handle_t *)x.c, on_closed); uv_close((uv_handle_t *)stopper, on_closed); uv_run(&x.lp, UV_RUN_NOWAIT); uv_run(&x.lp, UV_RUN_NOWAIT);
    if (uv_loop_close(&x.lp)) log += " busy"; for (int f: x.fd) close(f);
}
struct Grp { const char *name; void (*fn)(const Pick &, int, std::string &, std::string &); int depth; } grps[] = {{"sockets", sockets, 5}, {"loops", loops, 4}};
}
#ifdef CONF_REAL
static int64_t g_ns = 1000000000000ll; static bool g_virt;
extern "C" int clock_gettime(clockid_t c, struct timespec *t) { if (!g_virt) return (int)syscall(SYS_clock_gettime, c, t); t->tv_sec = g_ns / 1000000000; t->tv_nsec = g_ns % 1000000000; return 0; }
extern "C" int epoll_pwait(int e, struct epoll_event *ev, int n, int tmo, const sigset_t *s) { int r = (int)syscall(SYS_epoll_pwait, e, ev, n, g_virt ? 0 : tmo, s, 8); if (g_virt && r == 0 && tmo > 0) g_ns += (int64_t)tmo * 1000000; if (g_virt && r == 0 && tmo < 0) abort(); return r; }
extern "C" int epoll_wait(int e, struct epoll_event *ev, int n, int tmo) { return epoll_pwait(e, ev, n, tmo, nullptr); }
int main(int argc, char **argv) {
    setenv("UV_USE_IO_URING", "0", 1); g_virt = true; int dd = argc > 1 ? atoi(argv[1]) : 0;
    for (auto &g: grps) {
        std::vector<int> path, arity; long n = 0;
        for (;;) {
            size_t pos = 0; std::string log, key;
            g.fn([&](int k) { if (pos == path.size()) { path.push_back(0); arity.push_back(k); } return path[pos++]; }, g.depth + dd, log, key);
            printf("%s %s\t%s\n", g.name, key.c_str(), log.c_str()); n++;
            while (!path.empty() && ++path.back() == arity.back()) { path.pop_back(); arity.pop_back(); }
            if (path.empty()) break;
        }
        fprintf(stderr, "%s: %ld scripts\n", g.name, n);
    }
}
#else
static std::map<std::string, std::string> *table; static int g_extra;
static void scen(long a) {
    std::string log, key; const Grp &g = grps[a]; g_port = 7000;
    { g.fn([](int k) { return mc::choose(k, "op", 0); }, g.depth + g_extra, log, key); }
    mc::Quiet q; auto it = table->find(std::string(g.name) + " " + key);
    if (it == table->end()) mc::fail("script %s was not run on the real system", key.c_str());
    if (it->second != log && getenv("CONF_ALL")) { int f = (int)syscall(SYS_open, getenv("CONF_ALL"), O_WRONLY | O_APPEND | O_CREAT, 0600); std::string m = std::string(g.name) + " " + key + "\t" + log + "\t" + it->second + "\n"; syscall(SYS_write, f, m.data(), m.size()); syscall(SYS_close, f); return; }
    if (it->second != log) mc::fail("script %s: simulated [%s], real [%s]", key.c_str(), log.c_str(), it->second.c_str());
}
static struct Init { Init() {
    g_extra = getenv("CONF_EXTRA") ? atoi(getenv("CONF_EXTRA")) : 0; table = new std::map<std::string, std::string>;
    if (FILE *f = fopen(getenv("CONF_FILE") ? getenv("CONF_FILE") : "/dev/null", "r")) { char b[4096]; while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; char *t = strchr(b, '\t'); if (t) { *t = 0; (*table)[b] = t + 1; } } fclose(f); }
    mc::Opts o; o.bound_quick = o.bound_thorough = 0; o.atomic_points = false; o.cache = false; for (int i = 0; i < 2; i++) mc::scenario("CONF", grps[i].name, scen, i, o);
} } init;
#endif
