// C01/C02/C03: the lock-free queues, every atomic access a scheduling point.
#include "rt.h"
#include <thread>
#include <vector>
#include <string>
#include "salticidae/queue.h"
using namespace salticidae;

namespace {
const int BLK = SALTICIDAE_VERIF_MPMCQ_SIZE;

struct Obj { int prod, seq, check; };
Obj *mk(int p, int s) { auto o = new Obj; o->prod = p; o->seq = s; o->check = p * 1000 + s; return o; }

// Observed by one consumer, in its own order.
struct Seen {
    int last[8]; int n; unsigned mask[8]; char log[128]; int nl;
    Seen(): n(0), nl(0) { for (int i = 0; i < 8; i++) last[i] = -1, mask[i] = 0; log[0] = 0; }
    void got(Obj *o, bool fifo = true) {
        MC_ASSERT(o->check == o->prod * 1000 + o->seq, "dequeued element has corrupt content");
        if (fifo) MC_ASSERT(o->seq > last[o->prod], "per-producer order broken: item %d of producer %d arrives after item %d", o->seq, o->prod, last[o->prod]);
        MC_ASSERT(!(mask[o->prod] >> o->seq & 1), "item %d of producer %d delivered twice", o->seq, o->prod);
        last[o->prod] = o->seq; mask[o->prod] |= 1u << o->seq; n++;
        if (nl < 100) { log[nl++] = 'a' + o->prod; log[nl++] = '0' + o->seq; log[nl] = 0; }
        delete o;
    }
};
void check_all(const Seen *s, int ns, int np, int nops) {
    for (int p = 0; p < np; p++) {
        unsigned m = 0;
        for (int i = 0; i < ns; i++) {
            MC_ASSERT(!(m & s[i].mask[p]), "an item of producer %d was delivered to two consumers", p);
            m |= s[i].mask[p];
        }
        MC_ASSERT(m == (1u << nops) - 1, "items of producer %d lost: delivered set %x, expected %x", p, m, (1u << nops) - 1);
    }
    for (int i = 0; i < ns; i++) mc::outcome("%s|", s[i].log);
}

// nprod producers x nops items, one consumer polling; mode bit0: rewind the first item once,
// bit1: bounded enqueue (retry), bit2: pre-filled so that blocks are recycled
void mpsc(long a) {
    int np = a & 15, nops = a >> 4 & 15, mode = a >> 8;
    {
    MPSCQueue<Obj *> q;
    if (mode & 2) q.set_capacity(BLK);
    if (mode & 4) { // leave one recycled block in the free list
        for (int i = 0; i < BLK + 1; i++) q.enqueue(mk(7, i));
        Obj *o; for (int i = 0; i < BLK + 1; i++) { MC_ASSERT(q.try_dequeue(o), "a completed enqueue is not visible"); MC_ASSERT(o->seq == i, "order"); delete o; }
    }
    Seen seen;
    std::vector<std::thread> th;
    for (int p = 0; p < np; p++) th.emplace_back([&q, p, nops, mode] {
        for (int i = 0; i < nops; i++) {
            Obj *o = mk(p, i);
            if (mode & 2) { while (!q.try_enqueue(o)) std::this_thread::yield(); }
            else MC_ASSERT(q.enqueue(o), "unbounded enqueue refused");
        }
    });
    int total = np * nops; bool rew = mode & 1;
    while (seen.n < total) {
        Obj *o;
        if (!q.try_dequeue(o)) { std::this_thread::yield(); continue; }
        if (rew) {
            rew = false;
            MC_ASSERT(q.rewind(o), "rewind refused");
            Obj *o2 = nullptr;
            MC_ASSERT(q.try_dequeue(o2), "queue empty right after rewind");
            MC_ASSERT(o2 == o, "the rewound item is not the next one");
        }
        seen.got(o);
    }
    for (auto &t: th) t.join();
    Obj *o;
    MC_ASSERT(!q.try_dequeue(o), "an extra item is delivered");
    check_all(&seen, 1, np, nops);
    }
}

void mpmc(long a) {
    int np = a & 15, nops = a >> 4 & 15, nc = a >> 8 & 15, mode = a >> 12;
    {
    MPMCQueue<Obj *> q;
    if (mode & 2) q.set_capacity(BLK);
    int pre = (mode & 4) ? BLK + 1 : 0;
    for (int i = 0; i < pre; i++) q.enqueue(mk(7, i));
    for (int i = 0; i < pre; i++) { Obj *o; MC_ASSERT(q.try_dequeue(o), "a completed enqueue is not visible"); MC_ASSERT(o->seq == i, "order"); delete o; }
    Seen *seen = new Seen[nc + 1];
    std::vector<std::thread> th;
    for (int p = 0; p < np; p++) th.emplace_back([&q, p, nops, mode] {
        for (int i = 0; i < nops; i++) {
            Obj *o = mk(p, i);
            if (mode & 2) { while (!q.try_enqueue(o)) std::this_thread::yield(); }
            else MC_ASSERT(q.enqueue(o), "unbounded enqueue refused");
        }
    });
    int total = np * nops;
    std::vector<std::thread> ct;
    for (int c = 0; c < nc; c++) ct.emplace_back([&q, c, seen, total, nc] {
        for (int k = 0; k < (total + nc - 1) / nc + 1; k++) { // bounded number of attempts
            Obj *o;
            if (q.try_dequeue(o)) seen[c].got(o);
        }
    });
    for (auto &t: ct) t.join();
    if (!(mode & 2)) for (auto &t: th) t.join();
    int got = 0; for (int i = 0; i < nc; i++) got += seen[i].n;
    while (got < total) { // all enqueues completed, nobody else consumes
        Obj *o;
        if ((mode & 2) && !q.try_dequeue(o)) { std::this_thread::yield(); continue; }
        if (!(mode & 2)) MC_ASSERT(q.try_dequeue(o), "a completed enqueue is not visible: %d of %d items delivered", got, total);
        seen[nc].got(o); got++;
    }
    if (mode & 2) for (auto &t: th) t.join();
    Obj *o;
    MC_ASSERT(!q.try_dequeue(o), "an extra item is delivered");
    check_all(seen, nc + 1, np, nops);
    delete[] seen;
    }
}

// Blocks are used up, recycled and refilled while several consumers are inside try_dequeue: the queue
// holds `pre` items at first, every consumer makes `tries` attempts, one producer adds nops more.
void mpmc_recycle(long a) {
    int np = a & 15, nops = a >> 4 & 15, nc = a >> 8 & 15, pre = a >> 12 & 15, tries = a >> 16 & 15;
    {
    MPMCQueue<Obj *> q;
    for (int i = 0; i < pre; i++) q.enqueue(mk(7, i));
    Seen *seen = new Seen[nc + 1];
    std::vector<std::thread> th;
    for (int c = 0; c < nc; c++) th.emplace_back([&q, c, seen, tries] {
        for (int k = 0; k < tries; k++) { Obj *o; if (q.try_dequeue(o)) seen[c].got(o); }
    });
    for (int p = 0; p < np; p++) th.emplace_back([&q, p, nops] {
        for (int i = 0; i < nops; i++) MC_ASSERT(q.enqueue(mk(p, i)), "unbounded enqueue refused");
    });
    for (auto &t: th) t.join();
    Obj *o;
    while (q.try_dequeue(o)) seen[nc].got(o);
    unsigned m = 0;
    for (int i = 0; i <= nc; i++) { MC_ASSERT(!(m & seen[i].mask[7]), "an item was delivered to two consumers"); m |= seen[i].mask[7]; }
    MC_ASSERT(m == (1u << pre) - 1, "items lost: delivered set %x, expected %x", m, (1u << pre) - 1);
    check_all(seen, nc + 1, np, nops);
    delete[] seen;
    }
}

// C02: bounded enqueues race with dequeues; afterwards, with nobody else around, the queue still has
// exactly its configured room, refused nothing it had room for, and allocated nothing.
template<typename Q> void bounded(long a) {
    int np = a & 15, nops = a >> 4 & 15, nc = a >> 8 & 15, cap = a >> 12 & 15, warm = a >> 16;
    {
    Q q; q.set_capacity(cap);
    int k = cap / BLK > 1 ? cap / BLK : 1;
    size_t live0 = mc::live_blocks();
    for (int i = 0; i < warm; i++) { Obj *o = mk(7, i % 8), *r; MC_ASSERT(q.enqueue(o, false), "bounded enqueue into an empty queue refused"); MC_ASSERT(q.try_dequeue(r) && r == o, "order"); delete r; }
    unsigned okmask[8] = {0};
    Seen *seen = new Seen[nc + 1];
    {
    std::vector<std::thread> th;
    for (int p = 0; p < np; p++) th.emplace_back([&q, p, nops, &okmask] {
        for (int i = 0; i < nops; i++) { Obj *o = mk(p, i); if (q.enqueue(o, false)) okmask[p] |= 1u << i; else delete o; }
    });
    for (int c = 0; c < nc; c++) th.emplace_back([&q, c, seen, np, nops] { for (int i = 0; i < np * nops - 1; i++) { Obj *o; if (q.try_dequeue(o)) seen[c].got(o); } });
    for (auto &t: th) t.join();
    }
    unsigned ok = 0; for (int p = 0; p < np; p++) ok += __builtin_popcount(okmask[p]);
    Obj *o; while (q.try_dequeue(o)) seen[nc].got(o);
    for (int p = 0; p < np; p++) { unsigned m = 0; for (int c = 0; c <= nc; c++) { MC_ASSERT(!(m & seen[c].mask[p]), "duplicate"); m |= seen[c].mask[p]; } MC_ASSERT(m == okmask[p], "accepted items %x of producer %d, delivered %x", okmask[p], p, m); }
    // (a bounded enqueue may be refused while another operation holds a block in transit)
    delete[] seen;
    for (int round = 0; round < 2; round++) {
        int n = 0; while (n <= (k + 1) * BLK + 1) { o = mk(6, n); if (!q.enqueue(o, false)) { delete o; break; } n++; }
        MC_ASSERT(n >= k * BLK && n <= (k + 1) * BLK, "an empty queue of capacity %d accepts %d items", cap, n);
        for (int i = 0; i < n; i++) { MC_ASSERT(q.try_dequeue(o) && o->seq == i, "order"); delete o; }
        MC_ASSERT(!q.try_dequeue(o), "extra item");
    }
    MC_ASSERT(mc::live_blocks() == live0, "a bounded queue allocated memory");
    mc::outcome("%u ", ok); for (int p = 0; p < np; p++) mc::outcome("%x ", okmask[p]);
    }
}

// An operation is caught in the middle while blocks are used up and recycled around it, then meets two others. The thread A (a: 0 producer, 1 consumer of an MPMC queue)
// is started first; meanwhile the main thread adds n items and takes m; then two further threads (each one item or one attempt: bits of two) race with it.
template<typename Q> void aba(long x) {
    int akind = x & 1, pre = x >> 1 & 3, n = x >> 3 & 7, m = x >> 6 & 7, two = x >> 9 & 3, nops = x >> 11 & 3;
    {
    Q q; Seen *seen = new Seen[4];
    int np = 0;
    for (int i = 0; i < pre; i++) q.enqueue(mk(7, np++));
    auto prod = [&q](int p, int k) { for (int i = 0; i < k; i++) MC_ASSERT(q.enqueue(mk(p, i)), "unbounded enqueue refused"); };
    auto cons = [&q, seen](int c) { Obj *o; if (q.try_dequeue(o)) seen[c].got(o); };
    std::thread A([&] { if (akind) cons(0); else prod(0, 1); });
    std::thread([] {}).join();
    for (int i = 0; i < n; i++) q.enqueue(mk(7, np++));
    for (int i = 0; i < m; i++) { Obj *o; if (q.try_dequeue(o)) seen[3].got(o); }
    std::thread B([&] { if (two & 1) cons(1); else prod(1, nops); }), C([&] { if (two & 2) cons(2); else prod(2, nops); });
    A.join(); B.join(); C.join();
    Obj *o; while (q.try_dequeue(o)) seen[3].got(o);
    unsigned all[8] = {0}; int want[8] = {0}; want[7] = np; want[0] = !akind; want[1] = two & 1 ? 0 : nops; want[2] = two & 2 ? 0 : nops;
    for (int i = 0; i < 4; i++) for (int p = 0; p < 8; p++) { MC_ASSERT(!(all[p] & seen[i].mask[p]), "an item was delivered twice"); all[p] |= seen[i].mask[p]; }
    for (int p = 0; p < 8; p++) MC_ASSERT(all[p] == (1u << want[p]) - 1, "items of producer %d lost: delivered set %x, expected %d", p, all[p], want[p]);
    for (int i = 0; i < 4; i++) mc::outcome("%s|", seen[i].log);
    delete[] seen;
    }
}
struct Reg { Reg() {
    auto add = [](const char *prop, std::string nm, mc::body_t f, long a, int bq, int bt, bool tonly = false) {
        mc::Opts o; o.bound_quick = bq; o.bound_thorough = bt; o.thorough_only = tonly; mc::scenario(prop, nm.c_str(), f, a, o);
    };
    for (int mode = 0; mode < 8; mode++) {
        std::string s = std::to_string(mode);
        const char *pr = mode & 1 ? "C01,C03" : "C01"; add(pr, "mpsc-1x3-m" + s, mpsc, 1 | 3 << 4 | mode << 8, 3, 5);
        add(pr, "mpsc-2x2-m" + s, mpsc, 2 | 2 << 4 | mode << 8, 2, 3);
        add(pr, "mpsc-2x3-m" + s, mpsc, 2 | 3 << 4 | mode << 8, 1, 3);
    }
    for (int mode = 0; mode < 8; mode += 2) {
        std::string s = std::to_string(mode);
        add("C01", "mpmc-1x3-1-m" + s, mpmc, 1 | 3 << 4 | 1 << 8 | mode << 12, 2, 4);
        add("C01", "mpmc-1x3-2-m" + s, mpmc, 1 | 3 << 4 | 2 << 8 | mode << 12, 2, 3);
        add("C01", "mpmc-2x2-1-m" + s, mpmc, 2 | 2 << 4 | 1 << 8 | mode << 12, 1, 3);
        add("C01", "mpmc-2x2-2-m" + s, mpmc, 2 | 2 << 4 | 2 << 8 | mode << 12, 1, 2);
    }
    auto rec = [&](int np, int nops, int nc, int pre, int tries, int bq, int bt) {
        char nm[64]; snprintf(nm, sizeof nm, "mpmc-rec-%dx%d-%dx%d-p%d", np, nops, nc, tries, pre);
        add("C01", nm, mpmc_recycle, np | nops << 4 | nc << 8 | pre << 12 | (long)tries << 16, bq, bt);
    };
    rec(1, 3, 2, 3, 3, 2, 3); rec(1, 4, 2, 3, 2, 2, 3); rec(1, 4, 2, 2, 3, 1, 2); rec(1, 5, 2, 3, 3, 1, 2); rec(2, 2, 2, 3, 3, 1, 2); rec(1, 3, 3, 3, 2, 1, 2);
    for (int mp: {0, 1}) for (int ak = 0; ak <= mp; ak++) for (int two = 0; two <= 3 * mp; two++) for (int pre: {0, 1, 2}) for (int n: {1, 2, 3, 4}) for (int m: {2, 3}) {
        if (two == 2 || pre + n < m || pre + n - m > 2) continue;
        if (pre + n < BLK || (ak && !two && pre != 1)) continue;
        char nm[64]; snprintf(nm, sizeof nm, "aba-%s-a%d-t%d-p%d-n%d-m%d", mp ? "mpmc" : "mpsc", ak, two, pre, n, m);
        long x = ak | pre << 1 | n << 3 | m << 6 | two << 9 | 1 << 11;
        add("C01", nm, mp ? aba<MPMCQueue<Obj *>> : aba<MPSCQueue<Obj *>>, x, 2, 3, mp && (pre == 2 || n == 4));
    }
    for (int cap = BLK; cap <= 2 * BLK; cap += BLK) for (int warm = 0; warm < 2 * BLK; warm++) {
        std::string s = "-c" + std::to_string(cap) + "-w" + std::to_string(warm); long x = (long)cap << 12 | (long)warm << 16;
        bool w0 = warm == 0 || warm == 2;
        add("C02", "bmpsc-2x3-1" + s, bounded<MPSCQueue<Obj *>>, 2 | 3 << 4 | 1 << 8 | x, w0 ? 2 : 1, 3);
        add("C02", "bmpsc-1x5-1" + s, bounded<MPSCQueue<Obj *>>, 1 | 5 << 4 | 1 << 8 | x, 2, 3);
        add("C02", "bmpmc-2x3-1" + s, bounded<MPMCQueue<Obj *>>, 2 | 3 << 4 | 1 << 8 | x, 1, 2);
        add("C02", "bmpmc-1x4-2" + s, bounded<MPMCQueue<Obj *>>, 1 | 4 << 4 | 2 << 8 | x, 1, 2);
        add("C02", "bmpmc-3x2-0" + s, bounded<MPMCQueue<Obj *>>, 3 | 2 << 4 | 0 << 8 | x, warm == 0 ? 2 : 1, 2);
    }
} } reg;
}
