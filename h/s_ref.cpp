// C07: all operation sequences on Box / Rc / Weak (and Arc / Aweak, single-threaded) handles against
// an explicit ownership model.
#include "seq.h"
#include <set>
#include <cstring>
#include "salticidae/ref.h"
using namespace salticidae;
namespace {
std::set<int> alive, twice;
int nextid;
struct Base { int id; Base(): id(++nextid) { alive.insert(id); } virtual ~Base() { if (!alive.erase(id)) twice.insert(id); id = -1; } };
struct Derived: Base { char pad[24]; };
enum { NR = 3, NW = 2 };

template<template<typename, typename> class RC, template<typename> class WK>
struct World {
    typedef RC<Base, default_delete<Base>> R; typedef RC<Derived, default_delete<Derived>> RD; typedef WK<Base> W;
    R r[NR]; W w[NW]; BoxObj<Base> b[2];
    int mr[NR] = {}, mw[NW] = {}, mb[2] = {};     // 0 null, -1 moved-from (owns nothing)
    bool live(int id) { if (id <= 0) return false; for (int x: mr) if (x == id) return true; for (int x: mb) if (x == id) return true; return false; }
    size_t cnt(int id) { size_t n = 0; for (int x: mr) n += x == id; return n; }
    void check() {
        SEQ_ASSERT(twice.empty(), "object %d destroyed twice", *twice.begin());
        for (int i = 0; i < NR; i++) {
            if (mr[i] > 0) {
                SEQ_ASSERT(r[i].get() != nullptr, "handle %d is null", i);
                SEQ_ASSERT(r[i] != nullptr && (bool)r[i], "handle %d compares as null", i);
                SEQ_ASSERT(alive.count(mr[i]), "object %d destroyed while handle %d refers to it", mr[i], i);
                SEQ_ASSERT(r[i]->id == mr[i] && (*r[i]).id == mr[i], "handle %d refers to the wrong object", i);
                SEQ_ASSERT(r[i].get_cnt() == cnt(mr[i]), "reference count of object %d is %zu, expected %zu", mr[i], r[i].get_cnt(), cnt(mr[i]));
                for (int j = 0; j < i; j++) if (mr[j] > 0) SEQ_ASSERT((r[i] == r[j]) == (mr[i] == mr[j]) && (r[i] != r[j]) == (mr[i] != mr[j]), "comparison of handles %d and %d", i, j);
            } else if (mr[i] == 0) { SEQ_ASSERT(r[i] == nullptr && !r[i] && r[i].get() == nullptr, "empty handle %d is not null", i); SEQ_ASSERT(r[i].get_cnt() == 0, "empty handle has a count"); }
            else SEQ_ASSERT(r[i].get_cnt() == 0, "moved-from handle %d still owns", i);
        }
        for (int i = 0; i < 2; i++) {
            if (mb[i] > 0) { SEQ_ASSERT(alive.count(mb[i]), "boxed object %d destroyed", mb[i]); SEQ_ASSERT(b[i] && b[i] != nullptr && b[i].get() && b[i]->id == mb[i], "box %d", i); }
            else SEQ_ASSERT(b[i] == nullptr && !b[i], "empty box is not null");
        }
        for (int id: alive) SEQ_ASSERT(live(id), "object %d is not destroyed although no handle refers to it", id);
        // upgrading is observed without disturbing the state: a temporary strong handle
        for (int i = 0; i < NW; i++) {
            R t(w[i]); bool l = live(mw[i]);
            SEQ_ASSERT((t != nullptr) == l, "upgrade of weak handle %d gives %s for object %d", i, t != nullptr ? "an object" : "null", mw[i]);
            if (l) SEQ_ASSERT(t->id == mw[i] && t.get_cnt() == cnt(mw[i]) + 1, "upgraded handle is wrong");
        }
        uint64_t h = 0; int base = nextid; for (int x: mr) h = h * 64 + (x > 0 ? base - x + 2 : x + 1); for (int x: mw) h = h * 64 + (x > 0 ? base - x + 2 : x + 1); for (int x: mb) h = h * 64 + (x > 0 ? base - x + 2 : x + 1);
        seq::state(h);
    }
    void op() {
        enum { NEW, NEWD, COPY, MOVE, CCONS, RESET, WFROM, UPG, WCOPY, WMOVE, WRESET, BOXNEW, BOX2RC, BOXMOVE, BOXRESET, BOXCAST, CAST, CASTMOVE, SWAP, UNWRAP, SELF, NOPS };
        int o = seq::pick(NOPS);
        auto pr = [&] { return seq::pick(NR); };
        seq::step();
        switch (o) {
            case NEW: { int i = pr(); seq::note("r%d=new;", i); r[i] = R(new Base()); mr[i] = nextid; } break;
            case NEWD: { int i = pr(); seq::note("r%d=newd;", i); RD d(new Derived()); mr[i] = 0; r[i] = d; mr[i] = nextid; } break;
            case COPY: { int i = pr(), j = pr(); if (mr[j] < 0) break; seq::note("r%d=r%d;", i, j); r[i] = r[j]; mr[i] = mr[j]; } break;
            case MOVE: { int i = pr(), j = pr(); if (mr[j] < 0) break; seq::note("r%d<-r%d;", i, j); r[i] = std::move(r[j]); if (i != j) { mr[i] = mr[j]; mr[j] = -1; } } break;
            case CCONS: { int i = pr(), j = pr(); if (mr[j] < 0) break; seq::note("swapcopy r%d r%d;", i, j); R t(r[j]); R u(std::move(t)); r[i].swap(u); mr[i] = mr[j]; } break;
            case RESET: { int i = pr(); seq::note("r%d=0;", i); r[i] = R(); mr[i] = 0; } break;
            case WFROM: { int i = pr(), k = seq::pick(NW); if (mr[i] < 0) break; seq::note("w%d=r%d;", k, i); w[k] = W(r[i]); mw[k] = mr[i]; } break;
            case UPG: { int i = pr(), k = seq::pick(NW); seq::note("r%d=w%d;", i, k); int id = live(mw[k]) ? mw[k] : 0; r[i] = R(w[k]); mr[i] = id; } break;
            case WCOPY: { int k = seq::pick(NW); seq::note("w%d=w%d;", k, 1 - k); w[k] = w[1 - k]; mw[k] = mw[1 - k]; } break;
            case WMOVE: { int k = seq::pick(NW); seq::note("w%d<-w%d;", k, 1 - k); w[k] = std::move(w[1 - k]); mw[k] = mw[1 - k]; mw[1 - k] = 0; w[1 - k] = W(); } break;
            case WRESET: { int k = seq::pick(NW); seq::note("w%d=0;", k); w[k] = W(); mw[k] = 0; } break;
            case BOXNEW: { int k = seq::pick(2); seq::note("b%d=new;", k); b[k] = BoxObj<Base>(k ? new Base() : (Base *)new Derived()); mb[k] = nextid; } break;
            case BOX2RC: { int i = pr(), k = seq::pick(2); if (!mb[k]) break; seq::note("r%d<-b%d;", i, k); r[i] = R(std::move(b[k])); mr[i] = mb[k]; mb[k] = 0; } break;
            case BOXMOVE: { int k = seq::pick(2); seq::note("b%d<-b%d;", k, 1 - k); b[k] = std::move(b[1 - k]); mb[k] = mb[1 - k]; mb[1 - k] = 0; } break;
            case BOXRESET: { int k = seq::pick(2); seq::note("b%d=0;", k); b[k] = nullptr; mb[k] = 0; } break;
            case BOXCAST: { if (!mb[0] || mb[0] <= 0) break; seq::note("cast b0;"); BoxObj<Base> c = static_pointer_cast<Base>(std::move(b[0])); SEQ_ASSERT(c.get() && c->id == mb[0], "cast box"); int id = mb[0]; mb[0] = 0; SEQ_ASSERT(b[0] == nullptr, "the box is still an owner after static_pointer_cast moved it"); b[0] = std::move(c); mb[0] = id; } break;
            case CAST: { int i = pr(), j = pr(); if (mr[j] <= 0) break; seq::note("r%d=cast r%d;", i, j); RC<Base, default_delete<Base>> c = static_pointer_cast<Base>(r[j]); r[i] = c; mr[i] = mr[j]; } break;
            case CASTMOVE: { int i = pr(), j = pr(); if (mr[j] <= 0 || i == j) break; seq::note("r%d<-cast r%d;", i, j); r[i] = static_pointer_cast<Base>(std::move(r[j])); mr[i] = mr[j]; mr[j] = -1; } break;
            case SWAP: { int i = pr(), j = pr(); if (i >= j) break; seq::note("swap r%d r%d;", i, j); r[i].swap(r[j]); std::swap(mr[i], mr[j]); } break;
            case UNWRAP: { int k = seq::pick(2); if (!mb[k]) break; seq::note("unwrap b%d;", k); Base *p = b[k].unwrap(); SEQ_ASSERT(p && p->id == mb[k], "unwrap"); SEQ_ASSERT(b[k] == nullptr, "unwrapped box is not empty"); delete p; mb[k] = 0; } break;
            case SELF: { int i = pr(); seq::note("self r%d;", i); R &x = r[i]; r[i] = x; W &y = w[i & 1]; w[i & 1] = y; } break;
        }
    }
};
template<template<typename, typename> class RC, template<typename> class WK> void run(long a) {
    int depth = a & 255, pre = a >> 8;
    alive.clear(); twice.clear(); nextid = 0;
    {
        World<RC, WK> w;
        typedef typename World<RC, WK>::R R; typedef typename World<RC, WK>::W W;
        if (pre >= 1) { w.r[0] = R(new Base()); w.mr[0] = nextid; w.w[0] = W(w.r[0]); w.mw[0] = nextid; }
        if (pre == 2) { w.r[1] = w.r[0]; w.mr[1] = w.mr[0]; w.w[1] = w.w[0]; w.mw[1] = w.mw[0]; }
        if (pre == 3) { w.r[0] = R(); w.mr[0] = 0; w.b[0] = BoxObj<Base>(new Base()); w.mb[0] = nextid; }
        for (int i = 0; i < depth; i++) { w.op(); w.check(); }
    }
    SEQ_ASSERT(twice.empty(), "object destroyed twice");
    SEQ_ASSERT(alive.empty(), "object %d outlives all handles", *alive.begin());
    alive.clear(); twice.clear();
}
// an object graph that releases weak and strong handles from its destructor
template<template<typename, typename> class RC, template<typename> class WK> void graph(long) {
    struct Node { RC<Node, default_delete<Node>> next; WK<Node> self, other; int id; Node() { id = ++nextid; alive.insert(id); } ~Node() { if (!alive.erase(id)) twice.insert(id); } };
    typedef RC<Node, default_delete<Node>> R; typedef WK<Node> W;
    alive.clear(); twice.clear(); nextid = 0;
    {
        const int n = 3; R v[n]; W o[n];
        for (int i = 0; i < n; i++) v[i] = R(new Node());
        for (int i = 0; i < n; i++) { int nx = seq::pick(n + 1); if (nx > i && nx < n) v[i]->next = v[nx]; if (seq::pick(2)) v[i]->self = W(v[i]); int ot = seq::pick(n + 1); if (ot < n) v[i]->other = W(v[ot]); if (seq::pick(2)) o[i] = W(v[i]); }
        int first = seq::pick(n); v[first] = R(); v[(first + 1) % n] = R();
        for (int i = 0; i < n; i++) { R t(o[i]); seq::step(); SEQ_ASSERT(!t || alive.count(t->id), "weak handle upgraded to a destroyed object"); }
        v[(first + 2) % n] = R();
        SEQ_ASSERT(alive.empty(), "object leaked"); SEQ_ASSERT(twice.empty(), "object destroyed twice");
        for (int i = 0; i < n; i++) { R t(o[i]); SEQ_ASSERT(!t, "upgrade after destruction"); }
    }
}
template<typename T, typename D> using rc_t = RcObj<T, D>; template<typename T, typename D> using arc_t = ArcObj<T, D>;
struct Reg { Reg() {
    seq::Opts t; t.thorough_only = true;
    for (int pre = 0; pre < 4; pre++) {
        seq::group("C07", ("rc-ops-p" + std::to_string(pre)).c_str(), run<rc_t, WeakObj>, 3 | pre << 8);
        seq::group("C07", ("arc-ops-p" + std::to_string(pre)).c_str(), run<arc_t, AweakObj>, 3 | pre << 8);
    }
    seq::group("C07", "rc-ops-deep", run<rc_t, WeakObj>, 4, t);
    seq::group("C07", "arc-ops-deep", run<arc_t, AweakObj>, 4, t);
    seq::group("C07", "rc-graph", graph<rc_t, WeakObj>, 0);
    seq::group("C07", "arc-graph", graph<arc_t, AweakObj>, 0);
} } reg;
}
