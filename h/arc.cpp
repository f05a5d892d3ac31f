// C06: ArcObj / AweakObj shared between threads.
#include "rt.h"
#include <thread>
#include <vector>
#include <string>
#include "salticidae/ref.h"
using namespace salticidae;

namespace {
struct Node {
    int val; bool *dead;
    Node(bool *d): val(42), dead(d) {}
    virtual ~Node() { MC_ASSERT(val == 42, "object destroyed twice"); val = -1; mc::rec(1); }
};
struct Derived: public Node { int more; Derived(bool *d): Node(d), more(7) {} ~Derived() { more = 0; } };
using arc = ArcObj<Node>;
using weak = AweakObj<Node>;

void use(const arc &a) { MC_ASSERT(a->val == 42, "a strong handle leads to a destroyed object"); }

// one thread's program over its own strong handle s and weak handle w
int prog(int code, arc s, weak w) {
    int seen = 0;
    auto up = [&](bool must) {
        arc u(w);
        if (u) { use(u); seen = seen * 3 + 2; MC_ASSERT(u.get_cnt() >= 1, "live handle reports count 0"); }
        else { MC_ASSERT(!must, "weak handle is empty while a strong handle exists"); seen = seen * 3 + 1; }
    };
    switch (code) {
        case 0: use(s); break;                                          // drop both
        case 1: { arc c(s); use(c); s = arc(); use(c); } break;         // copy, drop the first
        case 2: s = arc(); up(false); break;                            // drop, upgrade
        case 3: { w = weak(s); s = arc(); up(false); w = weak(); } break;
        case 4: up(true); s = arc(); up(false); up(false); break;
        case 5: { weak w2(w); w = weak(); s = arc(); arc u(w2); if (u) use(u); } break;
        case 6: { arc m(std::move(s)); use(m); weak w3(m); m = arc(); } break;
        case 7: { w = weak(); s = arc(); } break;
        case 8: { s = arc(); arc u(w); w = weak(); if (u) { weak again(u); u = arc(); arc v(again); if (v) use(v); } } break;
        case 9: { auto d = static_pointer_cast<Derived>(s); s = arc(); MC_ASSERT(d->more == 7, "cast handle leads to a destroyed object"); arc b(std::move(d)); use(b); } break;
    }
    return seen;
}
enum { NPROG = 10 };

void arcs(long a) {
    int n = a & 15, kind = a >> 4 & 15; int code[3] = {int(a >> 8 & 15), int(a >> 12 & 15), int(a >> 16 & 15)};
    int res[3] = {0, 0, 0};
    {
        arc s(kind ? static_cast<Node *>(new Derived(nullptr)) : new Derived(nullptr));
        weak w(s);
        std::vector<std::thread> th;
        for (int i = 0; i < n; i++) {
            // handles are made by the owner and handed to the thread
            arc *ps = new arc(s); weak *pw = new weak(w);
            th.emplace_back([ps, pw, i, &code, &res] {
                arc si(std::move(*ps)); weak wi(std::move(*pw)); delete ps; delete pw;
                res[i] = prog(code[i], std::move(si), std::move(wi));
            });
        }
        if (kind == 0) { s = arc(); w = weak(); }
        else if (kind == 1) w = weak();
        else s = arc();
        for (auto &t: th) t.join();
        int dead = mc::nrec();
        if (kind == 1) MC_ASSERT(dead == 0, "object destroyed while a strong handle exists");
        else MC_ASSERT(dead == 1, "object destroyed %d times after the last strong handle is gone", dead);
        if (kind == 2) { arc u(w); MC_ASSERT(!u, "a weak handle revives a destroyed object"); }
    }
    MC_ASSERT(mc::nrec() == 1, "object destroyed %d times", mc::nrec());
    mc::outcome("%d %d %d", res[0], res[1], res[2]);
}
struct Reg { Reg() {
    mc::Opts o; o.bound_quick = 7; o.bound_thorough = 7;
    for (int kind = 0; kind < 3; kind++)
        for (int x = 0; x < NPROG; x++) for (int y = x; y < NPROG; y++) {
            std::string s = "arc2-k" + std::to_string(kind) + "-p" + std::to_string(x) + "-" + std::to_string(y);
            o.bound_quick = 3; o.bound_thorough = 7; o.thorough_only = false;
            mc::scenario("C06", s.c_str(), arcs, 2 | kind << 4 | x << 8 | y << 12, o);
        }
    for (int kind = 0; kind < 2; kind += 1)
        for (int x = 0; x < NPROG; x++) for (int y = x; y < NPROG; y++) for (int z = y; z < NPROG; z++) {
            std::string s = "arc3-k" + std::to_string(kind) + "-p" + std::to_string(x) + "-" + std::to_string(y) + "-" + std::to_string(z);
            o.bound_quick = 1; o.bound_thorough = 2;
            o.thorough_only = kind == 1;
            mc::scenario("C06", s.c_str(), arcs, 3 | kind << 4 | x << 8 | y << 12 | z << 16, o);
        }
} } reg;
}
