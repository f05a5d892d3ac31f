// C04: event-driven queues (no lost wake-up), C05: cross-thread calls.
#include "rt.h"
#include "simos.h"
#include <thread>
#include <vector>
#include <string>
#include "salticidae/event.h"
#include "salticidae/util.h"
#include <sys/eventfd.h>
#include <unistd.h>
using namespace salticidae;

namespace {
struct Obj { int prod, seq; };
// an eventfd of the harness
struct Efd {
    int fd;
    Efd(): fd(eventfd(0, EFD_NONBLOCK)) {}
    ~Efd() { close(fd); }
    int read_fd() { return fd; }
    void reset() { uint64_t x; if (read(fd, &x, 8) != 8) {} }
    void notify() { uint64_t x = 1; if (write(fd, &x, 8) != 8) {} }
};

// P producers x K items over nc loops; burst: items taken per wake-up (the rest is asked for by
// returning true).  mode bit0: rewind the first item of the first wake-up and ask for another turn.
// bit1: items are enqueued before the handler is registered; bit2: bounded enqueue
template<typename Q, bool MPSC> struct Run {
    static void rewind(MPSCQueueEventDriven<Obj *> &q, Obj *o) { q.rewind(o); }
    static void rewind(MPMCQueueEventDriven<Obj *> &, Obj *) {}
    static void body(long a) {
        int np = a & 15, k = a >> 4 & 15, nc = a >> 8 & 15, burst = a >> 12 & 15, mode = a >> 16;
        int total = np * k;
        int last[2][4]; unsigned mask[2][4]; for (auto &r: last) for (auto &x: r) x = -1; for (auto &r: mask) for (auto &x: r) x = 0;
        std::string log[2];
        {
        Q q;
        if (mode & 4) q.set_capacity(SALTICIDAE_VERIF_MPMCQ_SIZE);
        if (mode & 2) { for (int i = 0; i < 2; i++) { Obj *o = new Obj{3, i}; q.enqueue(o); } total += 2; }
        std::vector<EventContext> ec(nc);
        Efd stopfd[2]; FdEvent stopev[2];
        bool rew = mode & 1;
        for (int c = 0; c < nc; c++) {
            q.reg_handler(ec[c], [&, c](Q &q) {
                int cnt = 0; Obj *o;
                while (q.try_dequeue(o)) {
                    if (MPSC && rew) { rew = false; rewind(q, o); return true; }
                    if (nc == 1) MC_ASSERT(o->seq > last[c][o->prod], "per-producer order broken");
                    MC_ASSERT(!(mask[c][o->prod] >> o->seq & 1), "item delivered twice");
                    last[c][o->prod] = o->seq; mask[c][o->prod] |= 1u << o->seq;
                    log[c] += char('a' + o->prod); mc::rec(1);
                    delete o;
                    if (++cnt == burst) return true;
                }
                return false;
            });
            stopev[c] = FdEvent(ec[c], stopfd[c].read_fd(), [&, c](int, int) { stopfd[c].reset(); ec[c].stop(); });
            stopev[c].add(FdEvent::READ);
        }
        std::vector<std::thread> th, ct;
        for (int c = 0; c < nc; c++) ct.emplace_back([&, c] { ec[c].dispatch(); });
        for (int p = 0; p < np; p++) th.emplace_back([&q, p, k, mode] {
            for (int i = 0; i < k; i++) {
                Obj *o = new Obj{p, i};
                if (mode & 4) while (!q.enqueue(o, false)) std::this_thread::yield();
                else q.enqueue(o);
            }
        });
        for (auto &t: th) t.join();
        mc::quiesce();     // every loop sleeps now
        MC_ASSERT(mc::nrec() == total, "lost wake-up: all loops sleep with %d of %d items delivered", mc::nrec(), total);
        for (int c = 0; c < nc; c++) stopfd[c].notify();
        for (auto &t: ct) t.join();
        for (int p = 0; p < np; p++) {
            unsigned m = mask[0][p] | mask[1][p];
            MC_ASSERT(m == (1u << k) - 1 && !(mask[0][p] & mask[1][p]), "items of producer %d lost or duplicated", p);
        }
        for (int c = 0; c < nc; c++) { mc::outcome("%s|", log[c].c_str()); }
        for (int c = 0; c < nc; c++) stopev[c].clear();
        }
    }
};

// ---------------------------------------------------------------- ThreadCall
struct Boom: public std::exception { const char *what() const noexcept override { return "boom"; } };

// callers x ops over one target loop.  op codes (base 8, least significant first):
// 1 async, 2 call with result, 3 call that throws, 4 async that calls back asynchronously, 5 call from
// within (nested async then call), 6 call returning a heap-owning result that is dropped
void tcall(long a) {
    int n = a & 15; long ops[3] = {a >> 4 & 511, a >> 13 & 511, a >> 22 & 511}; int burst = a >> 40 & 7, mode = a >> 44;
    int ran[3][4]; for (auto &r: ran) for (auto &x: r) x = 0;
    int order[3] = {0, 0, 0};
    std::string log;
    {
    EventContext ec;
    ThreadCall *tc = new ThreadCall(ec, burst ? burst : 128);
    int target = -1; bool quit = false;
    std::thread loop([&] { target = mc::self(); ec.dispatch(); });
    std::vector<std::thread> th;
    for (int i = 0; i < n; i++) th.emplace_back([&, i] {
        int k = 0;
        for (long o = ops[i]; o; o >>= 3, k++) {
            auto ran_here = [&, i, k] {
                MC_ASSERT(mc::self() == target, "callback runs on the wrong thread");
                MC_ASSERT(ran[i][k] == 0, "callback runs twice");
                MC_ASSERT(order[i] == k, "calls of one thread run out of order (%d before %d)", k, order[i]);
                ran[i][k]++; order[i]++;
                log += char('a' + i);
            };
            switch (o & 7) {
                case 1: tc->async_call([ran_here](ThreadCall::Handle &) { ran_here(); }); break;
                case 2: {
                    auto r = tc->call([ran_here, i, k](ThreadCall::Handle &h) { ran_here(); h.set_result(i * 10 + k); });
                    MC_ASSERT(*static_cast<int *>(r.get()) == i * 10 + k, "call returns a wrong result");
                    MC_ASSERT(ran[i][k] == 1, "call returns before its callback ran");
                } break;
                case 3: {
                    bool caught = false;
                    auto r = tc->call([ran_here](ThreadCall::Handle &) { ran_here(); throw Boom(); });
                    try { r.get(); } catch (Boom &) { caught = true; }
                    MC_ASSERT(caught, "the exception of the callback does not reach the caller");
                } break;
                case 4: tc->async_call([&, ran_here, i](ThreadCall::Handle &) { ran_here(); tc->async_call([&, i](ThreadCall::Handle &) { log += char('A' + i); }); }); break;
                case 5: {
                    auto r = tc->call([ran_here](ThreadCall::Handle &h) { ran_here(); h.set_result(std::string(64, 'x')); h.set_result(std::string(64, 'y')); });
                    MC_ASSERT(*static_cast<std::string *>(r.get()) == std::string(64, 'y'), "call returns a wrong result");
                } break;
                case 6: { auto r = tc->call([ran_here](ThreadCall::Handle &h) { ran_here(); h.set_result(std::string(64, 'x')); }); } break;
                case 7: { auto r = tc->call([ran_here](ThreadCall::Handle &) { ran_here(); }); MC_ASSERT(r.get() == nullptr, "call without a result returns one"); } break;
            }
        }
    });
    for (auto &t: th) t.join();
    mc::quiesce();
    for (int i = 0; i < n; i++) { int k = 0; for (long o = ops[i]; o; o >>= 3, k++) MC_ASSERT(ran[i][k] == 1, "callback never ran although the loop is idle"); }
    tc->async_call([&](ThreadCall::Handle &) { quit = true; ec.stop(); });
    loop.join();
    if (mode & 2) for (int i = 0; i < 3; i++) tc->async_call([](ThreadCall::Handle &) { mc::fail("callback runs although the loop has ended"); });
    delete tc;
    ec = EventContext(nullptr);
    }
    mc::outcome("%s", log.c_str());
}

// a target that is stopped while calls are in flight: every call either runs or reports
// SALTI_ERROR_NOT_AVAIL, none hangs and none runs after the stop
void tcstop(long a) {
    int n = a & 15, k = a >> 4 & 15;
    std::string log;
    {
    EventContext ec; ThreadCall tc(ec);
    bool stopped = false;
    Efd sfd; FdEvent sev(ec, sfd.read_fd(), [&](int, int) { sfd.reset(); ec.stop(); });
    sev.add(FdEvent::READ);
    std::thread loop([&] { ec.dispatch(); });
    std::vector<std::thread> th; std::string res[3];
    for (int i = 0; i < n; i++) th.emplace_back([&, i] {
        bool refused = false;
        for (int j = 0; j < k; j++) {
            bool ran = false;
            auto r = tc.call([&](ThreadCall::Handle &h) { MC_ASSERT(!stopped, "a callback runs on a stopped target"); ran = true; h.set_result(j); });
            try {
                int v = *static_cast<int *>(r.get());
                MC_ASSERT(ran && v == j, "call returns a wrong result");
                MC_ASSERT(!refused, "a call succeeds on a stopped target");
                res[i] += 'y';
            } catch (SalticidaeError &e) {
                MC_ASSERT(e.get_code() == SALTI_ERROR_NOT_AVAIL, "wrong error from a stopped target");
                MC_ASSERT(!ran, "call reports an error although its callback ran");
                refused = true; res[i] += 'n';
            }
        }
    });
    tc.async_call([&](ThreadCall::Handle &) { tc.stop(); stopped = true; });
    for (auto &t: th) t.join();
    sfd.notify();
    loop.join();
    sev.clear();
    for (int i = 0; i < n; i++) mc::outcome("%s|", res[i].c_str());
    }
}

struct Reg { Reg() {
    auto add = [](const char *prop, std::string nm, mc::body_t f, long a, int bq, int bt, bool tonly = false) {
        mc::Opts o; o.bound_quick = bq; o.bound_thorough = bt; o.thorough_only = tonly; mc::scenario(prop, nm.c_str(), f, a, o);
    };
    using MS = Run<MPSCQueueEventDriven<Obj *>, true>; using MM = Run<MPMCQueueEventDriven<Obj *>, false>;
    for (int mode = 0; mode < 8; mode++) for (int burst = 1; burst <= 3; burst++) {
        if (burst == 3 && mode) continue;
        std::string s = "-b" + std::to_string(burst) + "-m" + std::to_string(mode);
        add("C04", "evmpsc-1x2" + s, MS::body, 1 | 2 << 4 | 1 << 8 | burst << 12 | mode << 16, 3, 4);
        add("C04", "evmpsc-2x1" + s, MS::body, 2 | 1 << 4 | 1 << 8 | burst << 12 | mode << 16, mode > 5 ? 1 : 2, 3);
        add("C04", "evmpsc-2x2" + s, MS::body, 2 | 2 << 4 | 1 << 8 | burst << 12 | mode << 16, 1, 2, mode > 5 && burst == 1);
        if (mode & 1) continue;
        add("C04", "evmpmc-1x2-1" + s, MM::body, 1 | 2 << 4 | 1 << 8 | burst << 12 | mode << 16, 2, 3);
        add("C04", "evmpmc-1x2-2" + s, MM::body, 1 | 2 << 4 | 2 << 8 | burst << 12 | mode << 16, 1, 2);
        add("C04", "evmpmc-2x1-2" + s, MM::body, 2 | 1 << 4 | 2 << 8 | burst << 12 | mode << 16, 1, 2, mode > 2 || (burst > 1 && mode));
    }
    auto tc = [&](std::string nm, int n, long o0, long o1, long burst, long mode, int bq, int bt, bool t = false) {
        add("C05", "tcall-" + nm, tcall, n | o0 << 4 | o1 << 13 | burst << 40 | mode << 44, bq, bt, t);
    };
    for (int x = 1; x < 8; x++) for (int y = x; y < 8; y++) tc("2-" + std::to_string(x) + std::to_string(y), 2, x, y, 0, 0, 2, 3);
    for (int x = 1; x < 8; x++) for (int y = 1; y < 8; y++) tc("1-" + std::to_string(x) + std::to_string(y), 1, x | y << 3, 0, 0, 0, 2, 4);
    tc("burst1", 2, 1 | 2 << 3, 1 | 1 << 3, 1, 0, 1, 2);
    tc("burst2", 2, 1 | 1 << 3, 1 | 3 << 3, 2, 0, 1, 2);
    add("C05", "tcstop-1x1", tcstop, 1 | 1 << 4, 2, 5);
    add("C05", "tcstop-1x2", tcstop, 1 | 2 << 4, 2, 4);
    add("C05", "tcstop-2x1", tcstop, 2 | 1 << 4, 2, 3);
    add("C05", "tcstop-2x2", tcstop, 2 | 2 << 4, 1, 2);
    tc("late", 1, 1 | 2 << 3, 0, 0, 2, 2, 3);
} } reg;
}
