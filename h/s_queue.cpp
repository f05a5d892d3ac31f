// C03 (and the sequential side of C01/C02): all operation sequences of one thread on the queues
// against a deque, with small blocks.
#include "seq.h"
#include <deque>
#include <memory>
#include "salticidae/queue.h"
using namespace salticidae;
namespace {
const int B = SALTICIDAE_VERIF_MPMCQ_SIZE;

// ops: 0 enqueue 1 dequeue 2 rewind (put back what was dequeued last, or a new item at the front)
// 3 bounded enqueue
template<typename Q, bool MPSC> void seqs(long a) {
    int depth = a & 255, cap = a >> 8 & 255;
    Q q; std::deque<int> m; int next = 1; int last = 0;
    int k = cap ? (cap / B > 1 ? cap / B : 1) : 0;
    if (cap) q.set_capacity(cap);
    int pre = a >> 16 & 255; for (int i = 0; i < pre; i++) { q.enqueue(next); m.push_back(next++); int e; q.try_dequeue(e); m.pop_front(); }
    bool fresh = true;   // the number of blocks is only known while nothing was allocated beyond the capacity
    for (int i = 0; i < depth; i++) {
        switch (seq::pick(MPSC ? 4 : 3)) {
            case 0: seq::note("E"); SEQ_ASSERT(q.enqueue(next), "unbounded enqueue refused"); m.push_back(next++); fresh = fresh && (int)m.size() < B; break;
            case 1: {
                int e = -1; seq::note("D"); bool ok = q.try_dequeue(e);
                SEQ_ASSERT(ok == !m.empty(), "try_dequeue says %d with %zu items pending", ok, m.size());
                if (ok) { SEQ_ASSERT(e == m.front(), "dequeued %d, expected %d", e, m.front()); last = e; m.pop_front(); }
            } break;
            case 2: {
                seq::note("b"); size_t pend = m.size(); bool ok = q.enqueue(next, false);
                if (ok) m.push_back(next++);
                if (k && !ok) SEQ_ASSERT((int)pend >= k * B, "bounded enqueue refused with %zu of %d items pending", pend, k * B);
            } break;
            case 3: { seq::note("R"); int v = last ? last : next++; last = 0; SEQ_ASSERT(q.rewind(v), "rewind refused"); m.push_front(v); } break;
        }
        seq::step();
        uint64_t h = m.size(); for (int x: m) h = h * 31 + x; seq::state(h);
    }
    while (!m.empty()) { int e = -1; SEQ_ASSERT(q.try_dequeue(e), "item lost"); SEQ_ASSERT(e == m.front(), "dequeued %d, expected %d", e, m.front()); m.pop_front(); }
    int e; SEQ_ASSERT(!q.try_dequeue(e), "extra item");
}
template<typename Q> int dummy(Q &) { return 0; }
// MPMC has no rewind: hide the call
struct MPMCW: public MPMCQueue<int> { bool rewind(int) { return true; } };

// C02: bounded queues, only bounded enqueues: exact limits and no allocation
template<typename Q> void bounded(long a) {
    int depth = a & 255, cap = a >> 8 & 255;
    int k = cap / B > 1 ? cap / B : 1;
    Q q; q.set_capacity(cap); std::deque<int> m; int next = 1;
    for (int i = 0; i < depth; i++) {
        if (seq::pick(2) == 0) {
            seq::note("b"); bool ok = q.enqueue(next, false);
            if (!ok) SEQ_ASSERT((int)m.size() >= k * B, "bounded enqueue refused with only %zu of %d items pending", m.size(), k * B);
            else { m.push_back(next++); SEQ_ASSERT((int)m.size() <= (k + 1) * B, "bounded queue holds %zu items, limit %d", m.size(), (k + 1) * B); }
        } else {
            seq::note("D"); int e = -1; bool ok = q.try_dequeue(e);
            SEQ_ASSERT(ok == !m.empty(), "try_dequeue says %d with %zu items pending", ok, m.size());
            if (ok) { SEQ_ASSERT(e == m.front(), "dequeued %d, expected %d", e, m.front()); m.pop_front(); }
        }
        seq::step(); seq::state(m.size() * 1000 + next % 1000);
    }
}
struct Reg { Reg() {
    seq::Opts t; t.thorough_only = true;
    for (int pre = 0; pre <= 3; pre++) for (int cap = 0; cap <= 2 * B; cap += B) {
        std::string s = "-c" + std::to_string(cap) + "-p" + std::to_string(pre);
        seq::group("C03", ("mpsc-ops" + s).c_str(), seqs<MPSCQueue<int>, true>, 9 | cap << 8 | pre << 16);
        seq::group("C03", ("mpsc-ops-deep" + s).c_str(), seqs<MPSCQueue<int>, true>, 11 | cap << 8 | pre << 16, t);
        seq::group("C01", ("mpmc-ops" + s).c_str(), seqs<MPMCW, false>, 10 | cap << 8 | pre << 16);
        seq::group("C01", ("mpmc-ops-deep" + s).c_str(), seqs<MPMCW, false>, 13 | cap << 8 | pre << 16, t);
    }
    for (int cap = 1; cap <= 3 * B + 1; cap++) {
        seq::group("C02", ("mpsc-bounded-c" + std::to_string(cap)).c_str(), bounded<MPSCQueue<int>>, 16 | cap << 8);
        seq::group("C02", ("mpmc-bounded-c" + std::to_string(cap)).c_str(), bounded<MPMCQueue<int>>, 16 | cap << 8);
        seq::group("C02", ("mpsc-bounded-deep-c" + std::to_string(cap)).c_str(), bounded<MPSCQueue<int>>, 21 | cap << 8, t);
        seq::group("C02", ("mpmc-bounded-deep-c" + std::to_string(cap)).c_str(), bounded<MPMCQueue<int>>, 21 | cap << 8, t);
    }
} } reg;
}
