// C31: timer, descriptor, signal and check events fire exactly when armed: all short sequences of calls on two
// event objects, on the real libuv with a virtual clock, against a reference model.
#include "seq.h"
#include <vector>
#include <tuple>
#include <algorithm>
#include <memory>
#include <thread>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/epoll.h>
#include "salticidae/event.h"
using namespace salticidae;

// the virtual clock: time passes only while a loop waits for it
static bool g_virt; static int64_t g_ns; static int g_tick, g_waits;
extern "C" int clock_gettime(clockid_t c, struct timespec *t) {
    if (!g_virt) return (int)syscall(SYS_clock_gettime, c, t);
    t->tv_sec = g_ns / 1000000000; t->tv_nsec = g_ns % 1000000000; return 0;
}
extern "C" int epoll_pwait(int e, struct epoll_event *ev, int n, int tmo, const sigset_t *s) {
    if (!g_virt) return (int)syscall(SYS_epoll_pwait, e, ev, n, tmo, s, 8);
    int r = (int)syscall(SYS_epoll_pwait, e, ev, n, 0, s, 8);
    if (++g_waits > 10000) { g_virt = false; seq::fail("the loop does not come to rest"); }
    if (r == 0 && tmo < 0) { g_virt = false; seq::fail("the loop waits for ever"); }
    if (r == 0 && tmo > 0) g_ns += (int64_t)tmo * 1000000; else if (r > 0 && tmo != 0) g_ns += (int64_t)g_tick * 1000000;
    return r;
}
extern "C" int epoll_wait(int e, struct epoll_event *ev, int n, int tmo) { return epoll_pwait(e, ev, n, tmo, nullptr); }
namespace {
struct Virt { Virt(int tick) { g_ns = 1000000000000ll; g_tick = tick; g_waits = 0; g_virt = true; } ~Virt() { g_virt = false; } };
int64_t now() { return g_ns / 1000000; }
void warm() { static bool w; if (!w) { w = true; EventContext ec; } } // libuv keeps a process-wide pipe
int nfd() { warm(); int f = dup(0); if (f >= 0) close(f); return f; } // the lowest free descriptor
void run(const EventContext &ec, int ms) { TimerEvent st(ec, [&](TimerEvent &) { ec.stop(); }); g_waits = 0; st.add(ms / 1000.0); ec.dispatch(); }
const char *OPN[] = {"add0a", "add0b", "add1", "del0", "clear0", "0=1", "1=0", "swap", "cb0", "new1", "run5", "run20", "x0", "x1", "x2", "x3"};

// ---- timers
struct TM { bool obj = false, armed = false; int cb = 0; int64_t due = 0; int ord = 0; };
void timers(long depth) {
    int react = seq::pick(6); int fd0 = nfd();
    {
    Virt v(0); EventContext ec; TimerEvent s[2]; TM m[2]; int nid = 0, ord = 0, left = 0, bad = 0;
    std::vector<std::pair<int, int64_t>> log, want; int64_t vnow = now();
    auto mk = [&](int id) { return TimerEvent::callback_t([&, id](TimerEvent &self) {
        log.push_back({id, now()}); int k = &self == &s[0] ? 0 : &self == &s[1] ? 1 : -1; if (k < 0) { bad++; return; }
        if (left-- <= 0) return; TimerEvent &o = s[1 - k];
        switch (react) { case 1: self.add(0.005); break; case 2: o.del(); break; case 3: if (o) o.add(0.010); break; case 4: o.clear(); break; case 5: self.set_callback(nullptr); self.clear(); break; } }); };
    auto fresh = [&](int i) { int id = nid++; s[i] = TimerEvent(ec, react == 5 ? TimerEvent::callback_t([&, id, f = std::make_shared<TimerEvent::callback_t>(mk(id))](TimerEvent &self) { auto g = f; (*g)(self); }) : mk(id)); m[i] = TM(); m[i].obj = true; m[i].cb = id; };
    if (react == 5) { g_virt = false; return; } // an event must not destroy itself in its own callback
    fresh(0); fresh(1);
    for (int d = 0; d < depth; d++) {
        int op = seq::pick(12); seq::note("%s", OPN[op]); auto arm = [&](int i, int t) { if (!m[i].obj) return; s[i].add(t / 1000.0); m[i].armed = true; m[i].due = vnow + t; m[i].ord = ord++; };
        switch (op) {
        case 0: arm(0, 5); break; case 1: arm(0, 10); break; case 2: arm(1, 5); break;
        case 3: s[0].del(); m[0].armed = false; break;
        case 4: s[0].clear(); m[0] = TM(); break;
        case 5: s[0] = std::move(s[1]); m[0] = m[1]; m[1] = TM(); break;
        case 6: { TimerEvent t(std::move(s[0])); s[1] = std::move(t); m[1] = m[0]; m[0] = TM(); break; }
        case 7: s[0].swap(s[1]); std::swap(m[0], m[1]); break;
        case 8: if (m[0].obj) { int id = nid++; s[0].set_callback(mk(id)); m[0].cb = id; } break;
        case 9: fresh(1); break;
        default: {
            int64_t end = vnow + (op == 10 ? 5 : 20); left = 3; int l = 3;
            for (;;) { int b = -1; for (int i = 0; i < 2; i++) if (m[i].armed && m[i].due <= end && (b < 0 || std::make_pair(m[i].due, m[i].ord) < std::make_pair(m[b].due, m[b].ord))) b = i;
                if (b < 0) break; TM &x = m[b], &o = m[1 - b]; vnow = std::max(vnow, x.due); x.armed = false; want.push_back({x.cb, vnow});
                if (l-- > 0) switch (react) { case 1: x.armed = true; x.due = vnow + 5; x.ord = ord++; break; case 2: o.armed = false; break; case 3: if (o.obj) { o.armed = true; o.due = vnow + 10; o.ord = ord++; } break; case 4: o = TM(); break; } }
            vnow = end; run(ec, op == 10 ? 5 : 20);
            SEQ_ASSERT(!bad, "the callback got another event object"); SEQ_ASSERT(log.size() == want.size(), "%zu timers fired, expected %zu", log.size(), want.size());
            for (size_t i = 0; i < log.size(); i++) SEQ_ASSERT(log[i] == want[i], "firing %zu: callback %d at %ld, expected %d at %ld", i, log[i].first, (long)log[i].second, want[i].first, (long)want[i].second);
        } }
        for (int i = 0; i < 2; i++) SEQ_ASSERT((bool)s[i] == m[i].obj, "operator bool of event %d", i);
        seq::step(); seq::state(uint64_t(m[0].obj) | m[0].armed << 1 | m[1].obj << 2 | m[1].armed << 3 | uint64_t(m[0].armed ? m[0].due - vnow : 0) << 8 | uint64_t(m[1].armed ? m[1].due - vnow : 0) << 16 | uint64_t(m[0].cb) << 24);
    }
    }
    int n = nfd(); SEQ_ASSERT(n == fd0, "%d descriptors left open", n - fd0);
}

// ---- descriptors
struct FM { bool obj = false; int mask = 0, cb = 0, fd = 0; };
void fds(long depth) {
    int react = seq::pick(3); int fd0 = nfd();
    {
    Virt v(1); EventContext ec; int p[2][2]; bool data[2] = {}, eof[2] = {}; for (auto &q: p) { if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, q)) seq::fail("socketpair"); }
    { FdEvent s[2]; FM m[2]; int nid = 0; std::vector<std::tuple<int, int, int>> log; std::vector<FdEvent *> dummy;
    auto mk = [&](int id) { return FdEvent::callback_t([&, id](int fd, int ev) { log.push_back(std::make_tuple(id, fd, ev)); char b[16];
        if (react == 1) { for (int i = 0; i < 2; i++) if (m[i].obj && m[i].cb == id) s[i].del(); } else if (react == 2) { if (ev & FdEvent::READ) while (read(fd, b, 16) > 0); } }); };
    auto fresh = [&](int i) { int id = nid++, k = 0; // the descriptor no event uses
        for (int j = 0; j < 2; j++) if (j != i && m[j].obj && m[j].fd == p[0][0]) k = 1;
        s[i].clear(); s[i] = FdEvent(ec, p[k][0], mk(id)); m[i] = FM(); m[i].obj = true; m[i].cb = id; m[i].fd = p[k][0]; };
    fresh(0); fresh(1);
    for (int d = 0; d < depth; d++) {
        int op = seq::pick(14); seq::note("%d", op);
        switch (op) {
        case 0: if (m[0].obj) { s[0].add(FdEvent::READ); m[0].mask = 1; } break; case 1: if (m[0].obj) { s[0].add(FdEvent::WRITE); m[0].mask = 2; } break;
        case 2: if (m[0].obj) { s[0].add(FdEvent::READ | FdEvent::WRITE); m[0].mask = 3; } break; case 3: if (m[1].obj) { s[1].add(FdEvent::READ); m[1].mask = 1; } break;
        case 4: s[0].del(); m[0].mask = 0; break;
        case 5: s[0].clear(); m[0] = FM(); break;
        case 6: s[0] = std::move(s[1]); m[0] = m[1]; m[1] = FM(); break;
        case 7: { FdEvent t(std::move(s[0])); s[1] = std::move(t); m[1] = m[0]; m[0] = FM(); break; }
        case 8: s[0].swap(s[1]); std::swap(m[0], m[1]); break;
        case 9: if (m[0].obj) { int id = nid++; s[0].set_callback(mk(id)); m[0].cb = id; } break;
        case 10: if (write(p[0][1], "x", 1) == 1) data[0] = true; break;
        case 11: if (write(p[1][1], "x", 1) == 1) data[1] = true; break;
        case 12: fresh(0); break;
        default: {
            log.clear(); run(ec, 3);
            for (int i = 0; i < 2; i++) { int k = m[i].fd == p[1][0], ready = m[i].obj ? m[i].mask & (2 | (data[k] ? 1 : 0)) : 0, n = 0;
                for (auto &l: log) if (m[i].obj && std::get<0>(l) == m[i].cb) { n++; SEQ_ASSERT(std::get<1>(l) == m[i].fd, "descriptor %d reported instead of %d", std::get<1>(l), m[i].fd);
                    int ev = std::get<2>(l), e = ready; if (react == 2 && n > 1) e &= ~1; SEQ_ASSERT(ev == e, "events %x reported instead of %x", ev, e); }
                SEQ_ASSERT((n > 0) == (ready != 0), "event %d with mask %x fired %d times, ready %x", i, m[i].mask, n, ready);
                if (ready && react == 1) { SEQ_ASSERT(n == 1, "an event fired %d times after it was removed", n - 1); m[i].mask = 0; }
                if (react == 2 && (ready & 1)) { if (!(m[i].mask & 2)) SEQ_ASSERT(n == 1, "fired %d times", n); data[k] = false; } }
            for (auto &l: log) { bool known = false; for (auto &x: m) known |= x.obj && x.cb == std::get<0>(l); SEQ_ASSERT(known, "a removed event fired"); }
        } }
        for (int i = 0; i < 2; i++) SEQ_ASSERT((bool)s[i] == m[i].obj, "operator bool of event %d", i);
        seq::step(); seq::state(uint64_t(m[0].mask) | m[1].mask << 2 | data[0] << 4 | data[1] << 5 | m[0].obj << 6 | m[1].obj << 7 | uint64_t(m[0].fd == p[0][0]) << 8 | uint64_t(m[0].cb) << 16);
    }
    }
    for (auto &q: p) { close(q[0]); close(q[1]); } (void)eof;
    }
    int n = nfd(); SEQ_ASSERT(n == fd0, "%d descriptors left open", n - fd0);
}

// ---- descriptors with a timeout
struct XM { bool obj = false, armed = false; int cb = 0, fd = 0, tmo = 0; int64_t due = 0; int ord = 0; };
void timedfds(long depth) {
    int react = seq::pick(4); int fd0 = nfd();
    {
    Virt v(0); EventContext ec; int p[2][2]; bool data[2] = {}; for (auto &q: p) if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, q)) seq::fail("socketpair");
    { TimedFdEvent s[2]; XM m[2]; int nid = 0, ord = 0, left = 0; int64_t vnow = now(); typedef std::tuple<int, int, int, int64_t> L; std::vector<L> log, want;
    auto mk = [&](int id) { return FdEvent::callback_t([&, id](int fd, int ev) { log.push_back(L(id, fd, ev, now())); char b[16]; if (ev & FdEvent::READ) while (read(fd, b, 16) > 0);
        if (left-- <= 0) return; int k = -1; for (int i = 0; i < 2; i++) if (m[i].obj && m[i].cb == id) k = i; if (k < 0) return;
        switch (react) { case 1: s[k].del(); break; case 2: s[k].add(FdEvent::READ, 0.010); break; case 3: s[k].del(); s[k].add(FdEvent::READ, 0.005); break; } }); };
    auto fresh = [&](int i) { int id = nid++, k = 0; for (int j = 0; j < 2; j++) if (j != i && m[j].obj && m[j].fd == p[0][0]) k = 1;
        s[i].clear(); s[i] = TimedFdEvent(ec, p[k][0], mk(id)); m[i] = XM(); m[i].obj = true; m[i].cb = id; m[i].fd = p[k][0]; };
    auto arm = [&](int i, int t) { m[i].armed = true; m[i].tmo = t; m[i].due = vnow + t; m[i].ord = ord++; };
    fresh(0); fresh(1);
    for (int d = 0; d < depth; d++) {
        int op = seq::pick(14); seq::note("%d", op);
        switch (op) {
        case 0: if (m[0].obj) { s[0].add(FdEvent::READ, 0.005); arm(0, 5); } break; case 1: if (m[0].obj) { s[0].add(FdEvent::READ, 0.010); arm(0, 10); } break;
        case 2: if (m[1].obj) { s[1].add(FdEvent::READ, 0.007); arm(1, 7); } break;
        case 3: s[0].del(); m[0].armed = false; break;
        case 4: s[0].clear(); m[0] = XM(); break;
        case 5: s[0] = std::move(s[1]); m[0] = m[1]; m[1] = XM(); break;
        case 6: { TimedFdEvent t(std::move(s[0])); s[1] = std::move(t); m[1] = m[0]; m[0] = XM(); break; }
        case 7: s[0].swap(s[1]); std::swap(m[0], m[1]); break;
        case 8: if (m[0].obj) { int id = nid++; s[0].set_callback(mk(id)); m[0].cb = id; } break;
        case 9: if (write(p[0][1], "x", 1) == 1) data[0] = true; break;
        case 10: if (write(p[1][1], "x", 1) == 1) data[1] = true; break;
        case 11: fresh(0); break;
        default: {
            int dur = op == 12 ? 5 : 22; int64_t end = vnow + dur; left = 100; log.clear(); want.clear();
            auto reactm = [&](XM &x) { switch (react) { case 1: x.armed = false; break; case 2: x.armed = true; x.tmo = 10; x.due = vnow + 10; x.ord = ord++; break; case 3: x.armed = true; x.tmo = 5; x.due = vnow + 5; x.ord = ord++; break; } };
            for (int i = 0; i < 2; i++) { int k = m[i].fd == p[1][0]; if (m[i].armed && data[k]) { want.push_back(L(m[i].cb, m[i].fd, FdEvent::READ, vnow)); data[k] = false; m[i].due = vnow + m[i].tmo; m[i].ord = ord++; reactm(m[i]); } }
            for (;;) { int b = -1; for (int i = 0; i < 2; i++) if (m[i].armed && m[i].due <= end && (b < 0 || m[i].due < m[b].due)) b = i;
                if (b < 0) break; XM &x = m[b]; vnow = std::max(vnow, x.due); x.armed = false; want.push_back(L(x.cb, x.fd, TimedFdEvent::TIMEOUT, vnow)); reactm(x); }
            vnow = end; run(ec, dur);
            auto key = [](const L &a, const L &b) { return std::make_tuple(std::get<3>(a), std::get<0>(a), std::get<2>(a)) < std::make_tuple(std::get<3>(b), std::get<0>(b), std::get<2>(b)); };
            std::sort(log.begin(), log.end(), key); std::sort(want.begin(), want.end(), key);
            SEQ_ASSERT(log.size() == want.size(), "%zu events fired, expected %zu", log.size(), want.size());
            for (size_t i = 0; i < log.size(); i++) SEQ_ASSERT(log[i] == want[i], "firing %zu: callback %d, descriptor %d, events %x at %ld; expected %d, %d, %x at %ld", i, std::get<0>(log[i]), std::get<1>(log[i]), std::get<2>(log[i]), (long)std::get<3>(log[i]), std::get<0>(want[i]), std::get<1>(want[i]), std::get<2>(want[i]), (long)std::get<3>(want[i]));
        } }
        for (int i = 0; i < 2; i++) SEQ_ASSERT((bool)s[i] == m[i].obj, "operator bool of event %d", i);
        seq::step(); seq::state(uint64_t(m[0].armed) | m[1].armed << 2 | data[0] << 4 | data[1] << 5 | m[0].obj << 6 | m[1].obj << 7 | uint64_t(m[0].fd == p[0][0]) << 8 | uint64_t(m[0].cb) << 16 | uint64_t(m[0].armed ? m[0].due - vnow : 0) << 32);
    }
    }
    for (auto &q: p) { close(q[0]); close(q[1]); }
    }
    int n = nfd(); SEQ_ASSERT(n == fd0, "%d descriptors left open", n - fd0);
}

// ---- a descriptor in an error state is reported as such, once, also with a timeout
void fderrs(long depth) {
    int timed = seq::pick(2), react = seq::pick(3); int fd0 = nfd();
    {
    Virt v(0); EventContext ec; int p[2]; if (pipe2(p, O_NONBLOCK)) seq::fail("pipe2"); char b[4096]; while (write(p[1], b, sizeof b) > 0); // full: not writable
    { typedef std::pair<int, int64_t> L; std::vector<L> log, want; FdEvent f; TimedFdEvent t; bool armed = false, tarm = false, closed = false; int64_t due = 0;
    auto cb = [&](int fd, int ev) { log.push_back(L(fd == p[1] ? ev : -1, now())); if (react == 1) { if (timed) t.del(); else f.del(); } else if (react == 2) { if (timed) t.clear(); else f.clear(); } };
    auto mk = [&] { if (timed) t = TimedFdEvent(ec, p[1], cb); else f = FdEvent(ec, p[1], cb); armed = tarm = false; };
    mk();
    auto fire = [&](int ev, int64_t at) { want.push_back(L(ev, at)); armed = false; tarm = ev == FdEvent::ERROR && timed && react == 0; due = at + 5; };
    for (int d = 0; d < depth; d++) {
        int op = seq::pick(7); seq::note("%d", op); bool obj = timed ? (bool)t : (bool)f;
        switch (op) {
        case 0: if (!obj) break; if (timed) { t.add(FdEvent::WRITE, 0.005); tarm = true; due = now() + 5; } else f.add(FdEvent::WRITE); armed = true; break;
        case 1: if (timed) t.del(); else f.del(); armed = tarm = false; break;
        case 2: if (timed) t.clear(); else f.clear(); armed = tarm = false; break;
        case 3: if (!closed) close(p[0]); closed = true; break;
        case 4: if (timed) t.clear(); else f.clear(); mk(); break;
        case 5: if (timed) { TimedFdEvent u(std::move(t)); t = std::move(u); } else { FdEvent u(std::move(f)); f = std::move(u); } break;
        default: { log.clear(); want.clear(); int64_t from = now(), end = from + 12; if (armed && closed) fire(FdEvent::ERROR, from); if (tarm && due <= end) fire(TimedFdEvent::TIMEOUT, due);
            run(ec, 12); SEQ_ASSERT(log.size() == want.size(), "%zu events fired, expected %zu", log.size(), want.size());
            for (size_t i = 0; i < log.size(); i++) SEQ_ASSERT(log[i] == want[i], "event %x at +%ld, expected %x at +%ld", log[i].first, long(log[i].second - from), want[i].first, long(want[i].second - from)); }
        }
        seq::step(); seq::state(uint64_t(armed) | tarm << 1 | closed << 2 | timed << 3 | uint64_t(timed ? (bool)t : (bool)f) << 4 | uint64_t(tarm ? due - now() : 0) << 8);
    }
    if (!closed) close(p[0]); }
    close(p[1]);
    }
    int n = nfd(); SEQ_ASSERT(n == fd0, "%d descriptors left open", n - fd0);
}

// ---- signals and check events
struct SM { bool obj = false; int sig = 0, cb = 0; bool once = false; }; // in libuv a handle started once as one-shot stays one-shot
void signals(long depth) {
    int fd0 = -1; // libuv keeps a process-wide pipe
    for (int round = 0; round < 2; round++) {
    if (round) fd0 = nfd(); else { Virt v(0); EventContext ec; SigEvent e(ec, [](int) {}); e.add(SIGUSR1); run(ec, 1); continue; }
    Virt v(0); EventContext ec; SigEvent s[2]; SM m[2]; int nid = 0; std::vector<std::pair<int, int>> log;
    auto mk = [&](int id) { return SigEvent::callback_t([&, id](int g) { log.push_back({id, g}); }); };
    auto fresh = [&](int i) { int id = nid++; s[i] = SigEvent(ec, mk(id)); m[i] = SM(); m[i].obj = true; m[i].cb = id; };
    fresh(0); fresh(1);
    for (int d = 0; d < depth; d++) {
        int op = seq::pick(13); seq::note("%d", op);
        switch (op) {
        case 0: if (m[0].obj && (!m[0].sig || m[0].sig == SIGUSR2)) { s[0].add(SIGUSR1); m[0].sig = SIGUSR1; } break;
        case 1: if (m[0].obj && (!m[0].sig || m[0].sig == SIGUSR1)) { s[0].add(SIGUSR2); m[0].sig = SIGUSR2; } break;
        case 2: if (m[0].obj && (!m[0].sig || m[0].sig == SIGUSR2)) { s[0].add_once(SIGUSR1); m[0].sig = SIGUSR1; m[0].once = true; } break;
        case 3: if (m[1].obj && !m[1].sig) { s[1].add(SIGUSR1); m[1].sig = SIGUSR1; } break;
        case 4: s[0].del(); m[0].sig = 0; break;
        case 5: s[0].clear(); m[0] = SM(); break;
        case 6: s[0] = std::move(s[1]); m[0] = m[1]; m[1] = SM(); break;
        case 7: { SigEvent t(std::move(s[0])); s[1] = std::move(t); m[1] = m[0]; m[0] = SM(); break; }
        case 8: s[0].swap(s[1]); std::swap(m[0], m[1]); break;
        case 9: if (m[0].obj) { int id = nid++; s[0].set_callback(mk(id)); m[0].cb = id; } break;
        case 10: fresh(1); break;
        default: { int g = op == 11 ? SIGUSR1 : SIGUSR2; std::vector<std::pair<int, int>> want; for (auto &x: m) if (x.obj && x.sig == g) { want.push_back({x.cb, g}); if (x.once) x.sig = 0; }
            if (want.empty()) break; struct sigaction sa; sigaction(g, nullptr, &sa); SEQ_ASSERT(sa.sa_handler != SIG_DFL, "no handler is installed for signal %d", g);
            log.clear(); raise(g); run(ec, 1); std::sort(log.begin(), log.end()); std::sort(want.begin(), want.end());
            SEQ_ASSERT(log == want, "%zu signal callbacks, expected %zu", log.size(), want.size()); break; }
        }
        int want[2] = {0, 0}; for (auto &x: m) if (x.obj && x.sig) want[x.sig == SIGUSR2] = 1;
        for (int k = 0; k < 2; k++) { struct sigaction sa; sigaction(k ? SIGUSR2 : SIGUSR1, nullptr, &sa); SEQ_ASSERT((sa.sa_handler != SIG_DFL) == (want[k] != 0), "a signal is %s", want[k] ? "not caught any more" : "still caught"); }
        for (int i = 0; i < 2; i++) SEQ_ASSERT((bool)s[i] == m[i].obj, "operator bool of event %d", i);
        seq::step(); seq::state(uint64_t(m[0].sig) | m[1].sig << 6 | m[0].once << 12 | m[1].once << 13 | m[0].obj << 14 | m[1].obj << 15 | uint64_t(m[0].cb) << 16);
    }
    }
    int n = nfd(); SEQ_ASSERT(n == fd0, "%d descriptors left open", n - fd0);
}
void checks(long depth) {
    Virt v(0); EventContext ec; struct CM { bool obj, armed; int cb; } m[2] = {}; CheckEvent s[2]; int nid = 0; std::vector<int> log;
    auto mk = [&](int id) { return CheckEvent::callback_t([&, id] { log.push_back(id); }); };
    auto fresh = [&](int i) { int id = nid++; s[i] = CheckEvent(ec, mk(id)); m[i] = {true, false, id}; };
    fresh(0); fresh(1);
    for (int d = 0; d < depth; d++) {
        int op = seq::pick(10); seq::note("%d", op);
        switch (op) {
        case 0: if (m[0].obj) { s[0].add(); m[0].armed = true; } break; case 1: if (m[1].obj) { s[1].add(); m[1].armed = true; } break;
        case 2: s[0].del(); m[0].armed = false; break; case 3: s[0].clear(); m[0] = {}; break;
        case 4: s[0] = std::move(s[1]); m[0] = m[1]; m[1] = {}; break;
        case 5: { CheckEvent t(std::move(s[0])); s[1] = std::move(t); m[1] = m[0]; m[0] = {}; break; }
        case 6: s[0].swap(s[1]); std::swap(m[0], m[1]); break;
        case 7: if (m[0].obj) { int id = nid++; s[0].set_callback(mk(id)); m[0].cb = id; } break;
        case 8: fresh(1); break;
        default: log.clear(); run(ec, 1); for (auto &x: m) { auto n = std::count(log.begin(), log.end(), x.cb); if (x.obj) SEQ_ASSERT((n > 0) == x.armed, "a check event fired %ld times", (long)n); }
            for (int l: log) SEQ_ASSERT((m[0].obj && m[0].cb == l) || (m[1].obj && m[1].cb == l), "a removed event fired");
        }
        for (int i = 0; i < 2; i++) SEQ_ASSERT((bool)s[i] == m[i].obj, "operator bool of event %d", i);
        seq::step(); seq::state(uint64_t(m[0].obj) | m[0].armed << 1 | m[1].obj << 2 | m[1].armed << 3 | uint64_t(m[0].cb) << 8);
    }
}
// ---- the C bindings
struct CU { std::vector<int> *log; int id; };
void ctimer_cb(timerev_t *, void *u) { auto x = (CU *)u; x->log->push_back(x->id); }
bool cq_cb(mpscqueue_t *q, void *u) { auto x = (std::vector<long> *)u; void *e; if (mpscqueue_try_dequeue(q, &e)) { x->push_back((long)e); return true; } return false; }
void ccall_cb(threadcall_handle_t *, void *u) { auto x = (CU *)u; x->log->push_back(x->id); }
void cbind(long depth) {
    int fd0 = nfd();
    {
    Virt v(0); eventcontext_t *ec = eventcontext_new(); std::vector<int> log, want; CU a{&log, 1}, b{&log, 2}, c{&log, 3}; std::vector<long> qlog, qwant; long qid = 1;
    timerev_t *t = timerev_new(ec, ctimer_cb, &a); threadcall_t *tc = threadcall_new(ec); mpscqueue_t *q = mpscqueue_new(); bool reg = false, armed = false, gone = false; int cb = 1; int64_t due = 0; int calls = 0; std::vector<long> pend;
    SEQ_ASSERT(timerev_get_ec(t)->get() == ec->get() && threadcall_get_ec(tc)->get() == ec->get(), "another event context");
    for (int d = 0; d < depth; d++) {
        int op = seq::pick(10); seq::note("%d", op);
        switch (op) {
        case 0: if (!gone) { timerev_add(t, 0.005); armed = true; due = now() + 5; } break;
        case 1: timerev_del(t); armed = false; break;
        case 2: timerev_clear(t); armed = false; gone = true; break;
        case 3: if (!gone) { timerev_set_callback(t, ctimer_cb, &b); cb = 2; } break;
        case 4: threadcall_async_call(tc, ccall_cb, &c); calls++; break;
        case 5: SEQ_ASSERT(mpscqueue_enqueue(q, (void *)qid, true), "enqueue refused"); pend.push_back(qid++); break;
        case 6: if (!reg) { mpscqueue_reg_handler(q, ec, cq_cb, &qlog); reg = true; } break;
        case 7: mpscqueue_unreg_handler(q); reg = false; break;
        case 8: if (!reg) { void *e = nullptr; bool ok = mpscqueue_try_dequeue(q, &e); SEQ_ASSERT(ok == !pend.empty() && (!ok || (long)e == pend[0]), "try_dequeue"); if (ok) pend.erase(pend.begin()); } break;
        default: { log.clear(); want.clear(); for (; calls; calls--) want.push_back(3); if (armed && due <= now() + 5) { want.push_back(cb); armed = false; }
            if (reg) { qwant.insert(qwant.end(), pend.begin(), pend.end()); pend.clear(); }
            run(*ec, 5); SEQ_ASSERT(log == want, "%zu callbacks, expected %zu", log.size(), want.size()); SEQ_ASSERT(qlog == qwant, "%zu items handled, expected %zu", qlog.size(), qwant.size()); }
        }
        seq::step(); seq::state(uint64_t(armed) | gone << 1 | reg << 2 | calls << 3 | uint64_t(pend.size()) << 8 | uint64_t(cb) << 12);
    }
    timerev_free(t); threadcall_free(tc); mpscqueue_free(q); eventcontext_free(ec);
    }
    int n = nfd(); SEQ_ASSERT(n == fd0, "%d descriptors left open", n - fd0);
}
struct Reg { Reg() {
    setenv("UV_USE_IO_URING", "0", 1); // an io_uring per loop takes seconds of kernel time to free
    seq::Opts o, t; o.sd = 3; o.leaks = true; t = o; t.thorough_only = true;
    seq::group("C31", "timers", timers, 4, o); seq::group("C31", "timers-deep", timers, 6, t);
    seq::group("C31", "fds", fds, 4, o); seq::group("C31", "fds-deep", fds, 5, t);
    seq::group("C31", "timedfds", timedfds, 4, o); seq::group("C31", "timedfds-deep", timedfds, 5, t);
    seq::group("C31", "fderrs", fderrs, 5, o); seq::group("C31", "fderrs-deep", fderrs, 7, t);
    seq::group("C31", "signals", signals, 4, o); seq::group("C31", "signals-deep", signals, 5, t);
    seq::group("C31", "checks", checks, 4, o); seq::group("C31", "checks-deep", checks, 6, t);
    seq::group("C31", "cbind", cbind, 4, o); seq::group("C31", "cbind-deep", cbind, 6, t);
} } reg;
}
