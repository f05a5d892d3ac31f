// mcrt implementation.  C-style on purpose: no STL templates here, so that no weak symbol of the
// instrumented program is ever merged with an uninstrumented copy from this file (and vice versa).
#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <link.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <new>

extern "C" char __data_start[], _edata[], __bss_start[], _end[];

namespace simos { void reset_world(); void dump_state(FILE *); }

namespace mc {

enum { MAXT = 16, MAXPTS = 60000, MAXDEV = 36, NLEVEL = 8, MAXSCEN = 1024, MAXREC = 20000 };
static const size_t STACK_SZ = 256 << 10;
static const size_t ARENA_SZ = 48 << 20;
static const uintptr_t REGION = 0x200000000000ull;
static const size_t SLOT_SZ = 64 << 20;              // stack + arena of one fiber
static const size_t REGION_SZ = SLOT_SZ * MAXT;
static const uintptr_t SHADOW_V = 0x210000000000ull; // validity: 1 byte / 8 bytes
static const uintptr_t SHADOW_R = 0x220000000000ull; // race cells: 32 bytes / 8 bytes
static const uintptr_t GSHADOW_R = 0x230000000000ull;

typedef uint32_t clk_t;
struct VC { clk_t c[MAXT]; };
static inline void vjoin(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Sync {
    uintptr_t addr;
    uint32_t gen;
    int rel_owner;
    VC rel;
    uint64_t hw, hr;
};
enum { NSYNC = 1 << 15 };

enum TState { T_FREE, T_RUN, T_BLOCK, T_QUIESCE, T_ANYWHEN, T_DONE };
struct Thr {
    int state;
    void *sp;
    pred_t pred; void *parg; uint64_t deadline; bool pred_ok;
    const char *label;
    bool yielded; int nyield;
    uint64_t offer, until;
    VC vc, frel, facq; bool has_frel;
    uint64_t H;
    void *eh[2]; int err;
    void *(*fn)(void *); void *arg; void *ret;
    uintptr_t cond; bool signaled;
    uintptr_t bump; uintptr_t stk_lo;
    uint32_t nsig; uint64_t sig[64];
    char tls[512];
    bool detached;
    bool sigpipe_blocked;
    void *spec[64]; int nspec;
};
struct Pt { uint8_t n, cost, alt, prunedhere; uint16_t cum; uint16_t tid; uint32_t hash; };
struct Dev { uint16_t idx; uint8_t alt; } __attribute__((packed));
struct Entry { uint16_t scen; uint8_t nd; uint8_t cost; uint32_t hash; uint32_t next; Dev d[MAXDEV]; };

struct Blk { uint64_t magic; uint64_t size; uint64_t kind; uint64_t pad; };
static const uint64_t MAGIC_LIVE = 0x11fe0b10c4aa55ull, MAGIC_DEAD = 0xdeadb10cdeadull;

struct SStat {
    uint64_t execs, pruned, points, states, outcomes, capped, cap_level, known, maxpts, steps, switches;
    uint64_t level_execs[NLEVEL];
    char sample[3][400]; int nsample;
};
struct Viol { int set; Entry e; char msg[2000]; };
struct Slot { volatile int busy; Entry e; volatile int crashed; char msg[2000]; volatile uint64_t beat; pid_t pid; };
enum { MAXW = 16 };
static size_t VIS_N = 1u << 26;
static const size_t OUT_N = 1u << 18;
static const size_t POOL_N = 1u << 25;   // pending executions
struct Ctl {
    pthread_mutex_t dummy;
    volatile int lock;
    volatile int stop, active, infra; char infra_msg[1000];
    uint32_t head[NLEVEL][MAXSCEN], used, freel, npend[NLEVEL]; // pending executions: one stack per level and scenario
    Viol viol;
    Slot slot[MAXW];
    SStat st[MAXSCEN];
    double deadline;
    uint64_t tot_states;
};
struct KnownF { char scen[128]; char msg[256]; };

struct Scen { const char *prop; char name[120]; body_t fn; long arg; Opts o; };

struct RT {
    bool on;          // an execution is running
    int inrt;         // inside the runtime (or muted)
    int quiet;
    int cur;
    Thr t[MAXT];
    int nt;
    void *engine_sp;
    uint64_t now;
    uint64_t steps, nswitch;
    const Entry *pre; int prepos;
    Pt pts[MAXPTS]; int npt; int cost; uint32_t rhash;
    bool pruned; bool failed; char msg[2000]; bool finished;
    bool overflow;
    Opts o; int bound; int scen;
    Sync sync[NSYNC]; uint32_t gen; int nsync;
    uintptr_t g_lo, g_hi; // dirty global shadow
    Rec recs[MAXREC]; int nrec;
    char outc[4000]; int noutc;
    FILE *trace; bool verbose;
    size_t live, livebytes;
    bool races;
    uint64_t nexec;
    uint64_t yield_epoch;
    // engine
    char *snap; size_t snaplen;
    char tls_init[512]; char *tls_addr; size_t tls_sz;
    Scen scen_tab[MAXSCEN]; int nscen;
    int wslot;
    KnownF known[64]; int nknown;
    int level_max;
    Slot *myslot_; int lock_me_;
    void (*spec_dtor_[64])(void *);
};
static RT *g;
static Ctl *ctl; static Entry *pool; static uint64_t *vis; static uint64_t *outt;
bool thorough = false;

static void rt_init() {
    if (g) return;
    g = (RT *)mmap(0, sizeof(RT), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g == MAP_FAILED) { perror("mmap"); _exit(3); }
}

static inline uint64_t mix(uint64_t a, uint64_t b) {
    a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
    a ^= a >> 30; a *= 0xbf58476d1ce4e5b9ull; a ^= a >> 27; a *= 0x94d049bb133111ebull; a ^= a >> 31;
    return a;
}
static uint64_t hstr(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }

// ------------------------------------------------------------------ context switch
extern "C" void mc_switch(void **save, void *load);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch, .-mc_switch
)");

static void save_ctx(Thr *t) {
    void **eh = (void **)__cxxabiv1::__cxa_get_globals();
    t->eh[0] = eh[0]; t->eh[1] = eh[1]; t->err = errno;
    if (g->tls_sz) memcpy(t->tls, g->tls_addr, g->tls_sz);
}
static void load_ctx(Thr *t) {
    void **eh = (void **)__cxxabiv1::__cxa_get_globals();
    eh[0] = t->eh[0]; eh[1] = t->eh[1]; errno = t->err;
    if (g->tls_sz) memcpy(g->tls_addr, t->tls, g->tls_sz);
}
static void switch_to(int n) {
    int c = g->cur;
    if (n == c) return;
    g->nswitch++;
    save_ctx(&g->t[c]);
    g->cur = n;
    g->t[n].nsig = 0;
    load_ctx(&g->t[n]);
    int sv = g->inrt, sq = g->quiet;   // per-fiber nesting depths
    mc_switch(&g->t[c].sp, g->t[n].sp);
    g->inrt = sv; g->quiet = sq;
}
[[noreturn]] static void to_engine() {
    void *junk;
    g->on = false;
    mc_switch(&junk, g->engine_sp);
    abort();
}

bool active() { return g && g->on && !g->inrt; }
int self() { return g->cur; }
bool replaying() { return g->verbose; }
bool sigpipe_blocked() { return g->t[g->cur].sigpipe_blocked; }
void set_sigpipe_ignored() { for (int i = 0; i < MAXT; i++) g->t[i].sigpipe_blocked = true; }
void advance_to(uint64_t t) { if (t > g->now) g->now = t; }
void enter() { g->inrt++; }
void leave() { g->inrt--; }
uint64_t now() { return g->now; }

static void vtrace(const char *fmt, va_list ap) {
    if (!g->verbose || !g->trace) return;
    fprintf(g->trace, "  [T%d @%llums] ", g->cur, (unsigned long long)g->now);
    vfprintf(g->trace, fmt, ap);
    fputc('\n', g->trace);
}
void note(const char *fmt, ...) {
    if (!g->verbose) return;
    g->inrt++;
    va_list ap; va_start(ap, fmt); vtrace(fmt, ap); va_end(ap);
    g->inrt--;
}
static void trace(const char *fmt, ...) {
    if (!g->verbose) return;
    va_list ap; va_start(ap, fmt); vtrace(fmt, ap); va_end(ap);
}

void fail(const char *fmt, ...) {
    if (!g || !g->on) {
        va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap);
        fprintf(stderr, "\n(outside an execution)\n");
        _exit(3);
    }
    g->inrt++;
    va_list ap; va_start(ap, fmt); vsnprintf(g->msg, sizeof g->msg, fmt, ap); va_end(ap);
    g->failed = true;
    if (g->verbose && g->trace) {
        fprintf(g->trace, "  [T%d @%llums] VIOLATION: %s\n", g->cur, (unsigned long long)g->now, g->msg);
        for (int i = 0; i < g->nt; i++)
            fprintf(g->trace, "      thread %d: %s %s\n", i,
                g->t[i].state == T_RUN ? "runnable" : g->t[i].state == T_DONE ? "finished" : "blocked",
                g->t[i].label ? g->t[i].label : "");
        void *bt[40]; int n = backtrace(bt, 40);
        fflush(g->trace);
        backtrace_symbols_fd(bt, n, fileno(g->trace));
    }
    to_engine();
}

// ------------------------------------------------------------------ choices
static uint64_t state_key() {
    uint64_t h = 0x1234567;
    for (int i = 0; i < g->nt; i++) {
        h = mix(h, g->t[i].H);
        h = mix(h, (uint64_t)g->t[i].yielded | (uint64_t)g->t[i].state << 1);
    }
    h = mix(h, g->cur); h = mix(h, g->scen); h = mix(h, g->now);
    return h;
}
static bool vis_lookup(uint64_t k) {
    if (!k) k = 1;
    size_t i = k & (VIS_N - 1);
    for (int n = 0; n < 64; n++, i = (i + 1) & (VIS_N - 1)) {
        uint64_t v = __atomic_load_n(&vis[i], __ATOMIC_RELAXED);
        if (v == k) return true;
        if (!v) return false;
    }
    return false;
}
static bool vis_insert(uint64_t k) { // true if new
    if (!k) k = 1;
    size_t i = k & (VIS_N - 1);
    for (int n = 0; n < 64; n++, i = (i + 1) & (VIS_N - 1)) {
        uint64_t v = __atomic_load_n(&vis[i], __ATOMIC_RELAXED);
        if (v == k) return false;
        if (!v) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&vis[i], &z, k, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true;
            if (z == k) return false;
        }
    }
    return true;
}

static int take(int n, int cost, uint32_t labelhash) {
    if (g->npt >= MAXPTS) { g->overflow = true; fail("horizon: more than %d choice points", (int)MAXPTS); }
    int idx = g->npt;
    int alt = 0;
    bool inprefix = false;
    if (g->pre && g->prepos < g->pre->nd) {
        inprefix = true;
        if (g->pre->d[g->prepos].idx == idx) {
            if (g->prepos == g->pre->nd - 1 && g->pre->hash != g->rhash && !g->verbose) {
                ctl->infra = 1;
                snprintf(ctl->infra_msg, sizeof ctl->infra_msg, "replay divergence in scenario %s at point %d", g->scen_tab[g->scen].name, idx);
                g->failed = false; g->pruned = true;
                to_engine();
            }
            alt = g->pre->d[g->prepos].alt;
            g->prepos++;
            if (alt >= n) {
                ctl->infra = 1;
                snprintf(ctl->infra_msg, sizeof ctl->infra_msg, "replay divergence (alternative %d of %d) in scenario %s at point %d", alt, n, g->scen_tab[g->scen].name, idx);
                g->pruned = true;
                to_engine();
            }
        }
    }
    if (!inprefix && g->o.cache && !g->verbose) {
        uint64_t k = state_key();
        k = mix(k, labelhash);
        for (int c = 0; c < g->cost; c++)
            if (vis_lookup(mix(k, c))) { g->pruned = true; to_engine(); }
        if (!vis_insert(mix(k, g->cost))) { g->pruned = true; to_engine(); }
        __atomic_fetch_add(&ctl->st[g->scen].states, 1, __ATOMIC_RELAXED);
    }
    Pt &p = g->pts[idx];
    p.n = n; p.cost = cost; p.alt = alt; p.cum = g->cost; p.hash = g->rhash; p.tid = g->cur;
    g->npt++;
    if (alt) g->cost += cost;
    g->rhash = (uint32_t)mix(mix(g->rhash, labelhash), (uint64_t)n << 32 | (uint64_t)alt << 16 | (uint64_t)g->cur);
    return alt;
}

int choose(int n, const char *label, int cost) {
    if (!g->on) return 0;
    if (n <= 1) return 0;
    g->inrt++;
    int a = take(n, cost, (uint32_t)hstr(label));
    g->t[g->cur].H = mix(g->t[g->cur].H, 0x77000 + a);
    if (g->verbose && a) trace("environment: %s -> alternative %d of %d", label, a, n);
    g->inrt--;
    return a;
}

static bool is_enabled(Thr *t) {
    if (t->state == T_RUN) return true;
    if (t->state == T_BLOCK) {
        if (t->pred && t->pred(t->parg)) { return true; }
        if (t->deadline <= g->now) { return true; }
    }
    return false;
}

// choose the next thread.  cur_ok: the current thread could simply go on.
static void reschedule(bool cur_ok, bool yielding, const char *label) {
    for (;;) {
        int list[MAXT], n = 0;
        int c = g->cur;
        if (cur_ok && !yielding) list[n++] = c;
        for (int k = 1; k <= g->nt; k++) {
            int i = (c + k) % g->nt;
            if (i == c) { continue; }
            if (g->t[i].state != T_RUN && g->t[i].state != T_BLOCK) continue;
            if (!is_enabled(&g->t[i])) continue;
            if (g->t[i].yielded) continue;
            list[n++] = i;
        }
        // the current thread is blocked: it may have become ready itself
        if (!cur_ok && g->t[c].state == T_BLOCK && is_enabled(&g->t[c])) { list[n++] = c; }
        if (n == 0) {
            // only yielded threads (or nobody) left
            bool any = false;
            for (int i = 0; i < g->nt; i++) if (g->t[i].yielded && is_enabled(&g->t[i])) { any = true; }
            if (any) {
                for (int i = 0; i < g->nt; i++) g->t[i].yielded = false;
                int pick = -1;
                for (int k = 1; k <= g->nt; k++) { int i = (c + k) % g->nt; if (is_enabled(&g->t[i])) { pick = i; break; } }
                if (pick < 0) continue;
                list[n++] = pick;
            }
        }
        if (n == 0 && cur_ok) { g->t[c].yielded = false; list[n++] = c; }
        bool quiet = false;
        if (n == 0) for (int i = 0; i < g->nt; i++) quiet |= g->t[i].state == T_ANYWHEN && g->t[i].until <= g->now;
        if (n == 0 && !quiet) {
            bool cut = false;
            for (int i = 0; i < g->nt && !cut; i++) if (g->t[i].state == T_ANYWHEN) { // may also cut in while nothing happens, now or later
                uint64_t key = state_key();
                if (key == g->t[i].offer) continue;
                g->t[i].offer = key;
                if (take(2, 0, (uint32_t)hstr("cut in") + i)) {
                    if (g->verbose) trace("T%d cuts in (while idle)", i);
                    g->t[i].H = mix(g->t[i].H, 0xc071); g->t[i].state = T_RUN;
                    if (i != c) switch_to(i);
                    cut = true;
                }
            }
            if (cut) return;
            // quiescent: wake a quiesce() waiter, else advance virtual time
            for (int i = 0; i < g->nt && !n; i++) if (g->t[i].state == T_QUIESCE) { g->t[i].state = T_RUN; list[n++] = i; }
            if (!n) {
                uint64_t m = ~0ull;
                for (int i = 0; i < g->nt; i++) { Thr &x = g->t[i]; if (x.state == T_BLOCK && x.deadline < m) m = x.deadline; if (x.state == T_ANYWHEN && x.until < m) m = x.until; }
                if (m == ~0ull) {
                    char buf[1500]; int o = 0;
                    for (int i = 0; i < g->nt; i++) if (g->t[i].state != T_DONE && g->t[i].state != T_FREE)
                        o += snprintf(buf + o, sizeof buf - o, " T%d:%s", i, g->t[i].label ? g->t[i].label : "?");
                    fail("deadlock: no thread can run:%s", buf);
                }
                g->now = m;
                continue;
            }
        }
        // fibers in anywhen(): may cut in at any point, at no cost
        for (int i = 0; i < g->nt; i++) if (g->t[i].state == T_ANYWHEN && (!quiet || g->t[i].until <= g->now)) {
            // nothing happened since the last offer: cutting in here is the same as cutting in there
            uint64_t key = quiet ? 0 : state_key();
            if (!quiet && key == g->t[i].offer) continue;
            g->t[i].offer = key;
            if (quiet || take(2, 0, (uint32_t)hstr("cut in") + i)) {
                if (g->verbose) trace("T%d cuts in%s (at %s)", i, quiet ? " last" : "", label);
                g->t[i].H = mix(g->t[i].H, 0xc071);
                g->t[i].state = T_RUN;
                if (i != c) switch_to(i);
                return;
            }
        }
        int a = 0;
        if (n > 1) {
            int cost = 1;
            if (!(cur_ok && !yielding) && g->o.free_switch) {
                cost = 0;
                if (yielding && g->t[c].nyield > 2) cost = 1;
            }
            a = take(n, cost, (uint32_t)hstr(label));
        }
        int nx = list[a];
        if (g->verbose && nx != c) trace("switch T%d -> T%d (at %s%s)", c, nx, label, a ? ", deviation" : "");
        Thr *t = &g->t[nx];
        if (t->state == T_BLOCK) {
            t->pred_ok = t->pred && t->pred(t->parg);
            t->state = T_RUN;
        }
        t->yielded = false;
        if (nx != c) switch_to(nx);
        return;
    }
}

static void tick() {
    if (++g->steps > g->o.horizon) {
        char buf[1500]; int o = 0; buf[0] = 0;
        for (int i = 0; i < g->nt; i++) if (g->t[i].state != T_DONE && g->t[i].state != T_FREE)
            o += snprintf(buf + o, sizeof buf - o, " T%d:%s", i, g->t[i].label ? g->t[i].label : "?");
        fail("no progress: execution exceeds %u steps (livelock):%s", g->o.horizon, buf);
    }
}

void point(const char *label) {
    if (!g->on || g->inrt) return;
    g->inrt++;
    tick();
    g->t[g->cur].label = label;
    g->t[g->cur].H = mix(g->t[g->cur].H, 0x9017);
    reschedule(true, false, label);
    g->inrt--;
}
void yield() {
    if (!g->on) return;
    g->inrt++;
    tick();
    Thr *t = &g->t[g->cur];
    t->label = "yield";
    t->yielded = true; t->nyield++;
    t->H = mix(t->H, 0x71e1d);
    reschedule(true, true, "yield");
    t->yielded = false;
    g->inrt--;
}
static void progress() { // a state-changing step: spinners may look again
    for (int i = 0; i < g->nt; i++) if (i != g->cur) g->t[i].yielded = false;
}
bool block(pred_t pred, void *arg, uint64_t deadline, const char *label) {
    g->inrt++;
    Thr *t = &g->t[g->cur];
    tick();
    t->label = label;
    t->pred = pred; t->parg = arg; t->deadline = deadline; t->pred_ok = false;
    t->state = T_BLOCK;
    reschedule(false, false, label);
    bool ok = t->pred_ok;
    t->pred = 0; t->deadline = ~0ull;
    g->inrt--;
    return ok;
}
static bool never(void *) { return false; }
void sleep_ms(uint64_t ms) { block(never, 0, g->now + ms, "sleep"); }
void quiesce() {
    g->inrt++;
    Thr *t = &g->t[g->cur];
    t->label = "quiesce"; t->state = T_QUIESCE;
    reschedule(false, false, "quiesce");
    g->inrt--;
}

void anywhen(uint64_t ms) {
    g->inrt++;
    Thr *t = &g->t[g->cur];
    t->label = "anywhen"; t->state = T_ANYWHEN; t->offer = 0; t->until = ms ? g->now + ms : 0; t->H = mix(t->H, t->until);
    reschedule(false, false, "anywhen");
    g->inrt--;
}

// ------------------------------------------------------------------ vector clocks
static Sync *getsync(uintptr_t a) {
    size_t i = (a >> 3) * 0x9e3779b97f4a7c15ull >> 49; // 15 bits
    for (;; i = (i + 1) & (NSYNC - 1)) {
        Sync *s = &g->sync[i];
        if (s->gen != g->gen) {
            if (++g->nsync > NSYNC / 2) { g->overflow = true; fail("too many synchronisation objects"); }
            memset(s, 0, sizeof *s); s->gen = g->gen; s->addr = a; s->rel_owner = -1; return s;
        }
        if (s->addr == a) return s;
    }
}
static inline void tickclk() { Thr *t = &g->t[g->cur]; t->vc.c[g->cur]++; }
static void hb_event(Sync *s, bool write, uint64_t op) {
    Thr *t = &g->t[g->cur];
    if (write) {
        uint64_t h = mix(mix(mix(t->H, op), s->hw), s->hr);
        s->hw = h; s->hr = 0; t->H = h;
    } else {
        uint64_t h = mix(mix(t->H, op), s->hw);
        s->hr += h; t->H = h;
    }
}
void touch(const void *addr, bool write) {
    if (!g->on) return;
    hb_event(getsync((uintptr_t)addr ^ 0x5a5a000000000000ull), write, write ? 31 : 32);
    if (write) progress();
}
void sync_acquire(const void *addr) {
    if (!g->on) return;
    Sync *s = getsync((uintptr_t)addr ^ 0x5b5b000000000000ull);
    vjoin(g->t[g->cur].vc, s->rel);
}
void sync_release(const void *addr) {
    if (!g->on) return;
    Sync *s = getsync((uintptr_t)addr ^ 0x5b5b000000000000ull);
    vjoin(s->rel, g->t[g->cur].vc);
    tickclk();
}

// ------------------------------------------------------------------ heap and race checker
static inline bool in_region(uintptr_t a) { return a - REGION < REGION_SZ; }
static inline bool in_stack(uintptr_t a) { return ((a - REGION) & (SLOT_SZ - 1)) < STACK_SZ; }
static inline bool in_globals(uintptr_t a) { return a >= (uintptr_t)__data_start && a < (uintptr_t)_end; }
static inline uint8_t *vshadow(uintptr_t a) { return (uint8_t *)(SHADOW_V + ((a - REGION) >> 3)); }
struct Cell { uint64_t e[4]; };
// entry: clk:32 | tid:8 | mask:8 | flags:8 (1 used,2 write,4 atomic)
static inline Cell *cell(uintptr_t a) {
    if (in_region(a)) return (Cell *)(SHADOW_R + ((a - REGION) >> 3) * sizeof(Cell));
    if (in_globals(a)) {
        if (a < g->g_lo) g->g_lo = a;
        if (a > g->g_hi) g->g_hi = a;
        return (Cell *)(GSHADOW_R + ((a >> 3) - ((uintptr_t)__data_start >> 3)) * sizeof(Cell));
    }
    return 0;
}
static const char *where(uintptr_t a, char *buf, size_t n) {
    if (in_region(a)) {
        int slot = (a - REGION) / SLOT_SZ;
        if (in_stack(a)) { snprintf(buf, n, "stack of T%d", slot); return buf; }
        // find the block by walking the arena
        uintptr_t p = REGION + slot * SLOT_SZ + STACK_SZ;
        while (p < g->t[slot].bump) {
            Blk *b = (Blk *)p;
            uintptr_t s = p + sizeof(Blk);
            uintptr_t nx = s + ((b->size + 16 + 15) & ~(size_t)15);
            if (a < nx) {
                snprintf(buf, n, "%s heap block of %zu bytes, offset %ld", b->magic == MAGIC_LIVE ? "live" : "freed", (size_t)b->size, (long)(a - s));
                return buf;
            }
            p = nx;
        }
        snprintf(buf, n, "unallocated heap"); return buf;
    }
    if (in_globals(a)) {
        Dl_info di; if (dladdr((void *)a, &di) && di.dli_sname) snprintf(buf, n, "global %s", di.dli_sname); else snprintf(buf, n, "global");
        return buf;
    }
    snprintf(buf, n, "memory"); return buf;
}
static void bad_access(uintptr_t a, size_t sz, bool write, uint8_t v) {
    char b[200];
    fail("invalid heap %s of %zu bytes (%s)", write ? "write" : "read", sz, where(a, b, sizeof b));
}
static void race_granule(uintptr_t ga, uint8_t mask, bool write, bool atomic) {
    Cell *c = cell(ga);
    if (!c) return;
    int me = g->cur;
    Thr *t = &g->t[me];
    uint64_t ne = (uint64_t)t->vc.c[me] << 32 | (uint64_t)me << 24 | (uint64_t)mask << 16 | 1 | (write ? 2 : 0) | (atomic ? 4 : 0);
    int slot = -1;
    for (int i = 0; i < 4; i++) {
        uint64_t e = c->e[i];
        if (!(e & 1)) { if (slot < 0) slot = i; continue; }
        int et = (e >> 24) & 255; uint8_t em = (e >> 16) & 255; bool ew = e & 2, ea = e & 4; clk_t ec = e >> 32;
        if (et == me) {
            if (em == mask && ea == atomic && (ew == write || write)) slot = i;
            else if (em == mask && ew && !write && ea == atomic && ec == t->vc.c[me]) return;
            continue;
        }
        if (!(em & mask)) continue;
        if (!(ew || write)) { continue; }
        if (ea && atomic) continue;
        if (t->vc.c[et] >= ec) {
            if ((em & ~mask) == 0 && write && slot < 0) slot = i; // superseded
            continue;
        }
        if (g->races) {
            char b[200];
            fail("data race: %s%s by T%d conflicts with unordered %s%s by T%d (%s)", atomic ? "atomic " : "", write ? "write" : "read", me,
                ea ? "atomic " : "", ew ? "write" : "read", et, where(ga, b, sizeof b));
        }
    }
    if (slot < 0) slot = (g->steps + (ga >> 3)) & 3;
    c->e[slot] = ne;
}
static inline void access(uintptr_t a, size_t sz, bool write, bool atomic = false) {
    if (!g || !g->on || g->inrt || g->quiet) return;
    g->inrt++;
    if (in_region(a)) {
        if (in_stack(a)) {
            int slot = (a - REGION) / SLOT_SZ;
            if (a < g->t[slot].stk_lo) g->t[slot].stk_lo = a & ~(uintptr_t)7;
        } else {
            uintptr_t x = a, e = a + sz;
            while (x < e) {
                uint8_t v = *vshadow(x);
                size_t off = x & 7, m = 8 - off; if (m > e - x) m = e - x;
                if (v > 8 || off + m > v) bad_access(x, sz, write, v);
                x += m;
            }
        }
    } else if (!in_globals(a)) { g->inrt--; return; }
    uintptr_t x = a, e = a + sz;
    while (x < e) {
        size_t off = x & 7, m = 8 - off; if (m > e - x) m = e - x;
        uint8_t mask = (uint8_t)(((1u << m) - 1) << off);
        race_granule(x & ~(uintptr_t)7, mask, write, atomic);
        x += m;
    }
    g->inrt--;
}
bool heap_ok(const void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (!in_region(a) || in_stack(a)) return true;
    for (uintptr_t x = a; x < a + n; x++) { uint8_t v = *vshadow(x); if (v > 8 || (x & 7) + 1 > v) return false; }
    return true;
}

static void *rt_new(size_t n, uint64_t kind, size_t align = 16) {
    if (!g || !g->on || g->inrt > 0) {
        void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
        if (!p) abort();
        return p;
    }
    g->inrt++;
    Thr *t = &g->t[g->cur];
    uintptr_t end = REGION + (g->cur + 1) * SLOT_SZ - (1 << 20);
    uintptr_t p = t->bump;
    size_t tot = sizeof(Blk) + ((n + 16 + 15) & ~(size_t)15);
    if (n > ARENA_SZ || p + tot > end) {
        if (n > ((size_t)1 << 40)) { g->inrt--; throw std::bad_alloc(); }
        g->overflow = true;
        fail("memory: allocation of %zu bytes exceeds the arena of T%d", n, g->cur);
    }
    t->bump = p + tot;
    Blk *b = (Blk *)p;
    b->magic = MAGIC_LIVE; b->size = n; b->kind = kind; b->pad = g->steps;
    uintptr_t u = p + sizeof(Blk);
    size_t full = n / 8;
    memset(vshadow(u), 8, full);
    if (n & 7) *vshadow(u + full * 8) = n & 7;
    memset((void *)u, 0xA5, n < 4096 ? n : 4096);
    g->live++; g->livebytes += n;
    g->inrt--;
    return (void *)u;
}
static void rt_delete(void *q, uint64_t kind) {
    if (!q) return;
    uintptr_t u = (uintptr_t)q;
    if (!in_region(u)) { free(q); return; }
    if (!g->on) return;
    if (g->inrt > 0 && 0) return;
    int save = g->inrt;
    g->inrt++;
    Blk *b = (Blk *)(u - sizeof(Blk));
    if (b->magic == MAGIC_DEAD) { fail("double delete of a heap block of %zu bytes", (size_t)b->size); }
    if (b->magic != MAGIC_LIVE) { fail("delete of a pointer that is not a heap block"); }
    if (b->kind != kind) fail("mismatched new/delete (array vs scalar) on a block of %zu bytes", (size_t)b->size);
    // deletion counts as a write to the whole block
    size_t n = b->size;
    if (save == 0 && !g->quiet && g->races && n <= (1 << 20))
        for (size_t i = 0; i < n; i += 8) {
            size_t m = n - i < 8 ? n - i : 8;
            race_granule(u + i, (uint8_t)((1u << m) - 1), true, false);
        }
    b->magic = MAGIC_DEAD;
    memset(vshadow(u), 0xFE, (n + 7) / 8);
    if (n <= 4096) memset(q, 0xDD, n);
    g->live--; g->livebytes -= n;
    g->inrt = save;
}
size_t live_blocks() { return g->live; }
size_t live_bytes() { return g->livebytes; }
Quiet::Quiet() { g->quiet++; }
Quiet::~Quiet() { g->quiet--; }
void set_races(bool on) { g->races = on && g->o.races; }

void rec(long a, long b, long c) {
    touch(&g->nrec, true);
    if (g->nrec >= MAXREC) { fail("too many records"); }
    Rec &r = g->recs[g->nrec++];
    r.tid = g->cur; r.a = a; r.b = b; r.c = c;
    if (g->verbose) trace("record %ld %ld %ld", a, b, c);
}
int nrec() { return g->nrec; }
const Rec &getrec(int i) { return g->recs[i]; }
int count_threads() { int n = 0; for (int i = 0; i < g->nt; i++) n += g->t[i].state != T_DONE && g->t[i].state != T_FREE; return n; }
void outcome(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(g->outc + g->noutc, sizeof g->outc - g->noutc, fmt, ap);
    va_end(ap);
    if (k > 0) { g->noutc += k; if (g->noutc > (int)sizeof g->outc - 1) g->noutc = sizeof g->outc - 1; }
}

// ------------------------------------------------------------------ fibers
#define spec_dtor (g->spec_dtor_)
static void fiber_main() {
    Thr *t = &g->t[g->cur];
    g->inrt = 0; g->quiet = 0;
    try {
        t->ret = t->fn(t->arg);
    } catch (std::exception &e) {
        fail("uncaught exception escapes thread T%d: %s", g->cur, e.what());
    } catch (...) {
        fail("uncaught exception escapes thread T%d", g->cur);
    }
    g->inrt++;
    t = &g->t[g->cur];
    for (int round = 0; round < 4 && t->nspec; round++)
        for (int k = 0; k < 64; k++) if (t->spec[k]) { void *v = t->spec[k]; t->spec[k] = 0; if (spec_dtor[k]) spec_dtor[k](v); }
    tick();
    t->state = T_DONE;
    t->label = "done";
    hb_event(getsync((uintptr_t)t), true, 41);
    progress();
    if (g->cur == 0) {
        int live = 0;
        for (int i = 1; i < g->nt; i++) if (g->t[i].state != T_DONE && !g->t[i].detached) live++;
        if (live) fail("%d thread(s) still running when the scenario ends", live);
        if (g->o.leaks && g->live) {
            char b[300]; int o = 0; b[0] = 0; int k = 0;
            for (int i = 0; i < g->nt && k < 4; i++)
                for (uintptr_t p = REGION + i * SLOT_SZ + STACK_SZ; p < g->t[i].bump && k < 4;) {
                    Blk *bl = (Blk *)p;
                    if (bl->magic == MAGIC_LIVE) { o += snprintf(b + o, sizeof b - o, " %zu", (size_t)bl->size); k++; }
                    p += sizeof(Blk) + ((bl->size + 16 + 15) & ~(size_t)15);
                }
            fail("memory leak: %zu heap block(s) never freed (sizes:%s)", g->live, b);
        }
        g->finished = true;
        to_engine();
    }
    reschedule(false, false, "exit");
    abort();
}
static int new_fiber(void *(*fn)(void *), void *arg) {
    if (g->nt >= MAXT) fail("too many threads");
    int i = g->nt++;
    Thr *t = &g->t[i];
    memset(t, 0, sizeof *t);
    t->state = T_RUN; t->fn = fn; t->arg = arg; t->deadline = ~0ull;
    t->H = mix(0xf1be5, i);
    uintptr_t base = REGION + i * SLOT_SZ;
    uintptr_t top = base + STACK_SZ - 64;
    t->stk_lo = top & ~(uintptr_t)7;
    t->bump = base + STACK_SZ;
    void **sp = (void **)(top & ~(uintptr_t)15);
    *--sp = 0;                       // fake return address, keeps rsp%16==8 at entry
    *--sp = (void *)fiber_main;
    for (int k = 0; k < 6; k++) *--sp = 0;
    t->sp = sp;
    if (g->tls_sz) memcpy(t->tls, g->tls_init, g->tls_sz);
    t->vc.c[i] = 1;
    if (i) {
        t->vc = g->t[g->cur].vc; t->vc.c[i] = 1;
        tickclk();
        Thr *p = &g->t[g->cur];
        p->H = mix(p->H, 51); t->H = mix(t->H, p->H);
    }
    return i;
}

static void *main_body(void *) {
    Scen *s = &g->scen_tab[g->scen];
    s->fn(s->arg);
    return 0;
}

static size_t page_up(size_t n) { return (n + 4095) & ~(size_t)4095; }

static void clear_exec() {
    for (int i = 0; i < MAXT; i++) {
        Thr *t = &g->t[i];
        if (!t->bump) continue;
        uintptr_t base = REGION + i * SLOT_SZ;
        uintptr_t ab = base + STACK_SZ;
        size_t used = t->bump - ab;
        memset(vshadow(ab), 0, used / 8 + 16);
        size_t cl = (used / 8 + 2) * sizeof(Cell);
        if (cl > (4 << 20)) madvise((void *)(SHADOW_R + ((ab - REGION) >> 3) * sizeof(Cell)), page_up(cl), MADV_DONTNEED);
        else memset((void *)(SHADOW_R + ((ab - REGION) >> 3) * sizeof(Cell)), 0, cl);
        uintptr_t lo = t->stk_lo, hi = base + STACK_SZ;
        memset((void *)(SHADOW_R + ((lo - REGION) >> 3) * sizeof(Cell)), 0, ((hi - lo) / 8) * sizeof(Cell));
        t->bump = 0;
    }
    if (g->g_hi >= g->g_lo && g->g_hi) {
        uintptr_t lo = (g->g_lo >> 3) - ((uintptr_t)__data_start >> 3), hi = (g->g_hi >> 3) - ((uintptr_t)__data_start >> 3);
        memset((void *)(GSHADOW_R + lo * sizeof(Cell)), 0, (hi - lo + 1) * sizeof(Cell));
    }
    g->g_lo = ~(uintptr_t)0; g->g_hi = 0;
}

// run one execution
static void run_exec(const Entry *e) {
    // restore the program's globals
    size_t n = _end - __data_start;
    memcpy(__data_start, g->snap, n);
    clear_exec();
    g->scen = e->scen; g->o = g->scen_tab[e->scen].o;
    g->bound = thorough ? g->o.bound_thorough : g->o.bound_quick;
    g->pre = e; g->prepos = 0; g->npt = 0; g->cost = 0; g->rhash = 17;
    g->steps = 0; g->nswitch = 0; g->now = 1000; g->pruned = g->failed = g->finished = g->overflow = false;
    g->msg[0] = 0; g->nt = 0; g->nrec = 0; g->noutc = 0; g->outc[0] = 0;
    g->live = g->livebytes = 0; g->quiet = 0; g->races = g->o.races;
    if (++g->gen == 0) { memset(g->sync, 0, sizeof g->sync); g->gen = 1; }
    g->nsync = 0;
    g->nexec++;
    simos::reset_world();
    g->cur = 0;
    new_fiber(main_body, 0);
    g->cur = 0;
    Thr eng; memset(&eng, 0, sizeof eng);
    save_ctx(&eng);
    load_ctx(&g->t[0]);
    g->inrt = 0;
    g->on = true;
    mc_switch(&g->engine_sp, g->t[0].sp);
    g->on = false; g->inrt = 0;
    load_ctx(&eng);
    if (!g->failed && !g->pruned && e->nd && g->prepos < e->nd) {
        ctl->infra = 1;
        snprintf(ctl->infra_msg, sizeof ctl->infra_msg, "replay divergence in scenario %s: execution ended before its prefix", g->scen_tab[g->scen].name);
    }
}

// ------------------------------------------------------------------ explorer
#define lock_me (g->lock_me_) // the lock holds its owner's pid, so that the master can release it for a dead worker
static void lk() { int z; while (z = 0, !__atomic_compare_exchange_n(&ctl->lock, &z, lock_me, false, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED)) { for (int i = 0; i < 50; i++) __builtin_ia32_pause(); sched_yield(); } }
static void ulk() { __atomic_store_n(&ctl->lock, 0, __ATOMIC_RELEASE); }
static double wall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static bool known_match(const char *scen, const char *msg) {
    for (int i = 0; i < g->nknown; i++)
        if (strstr(scen, g->known[i].scen) && strstr(msg, g->known[i].msg)) return true;
    return false;
}

static void record_violation(const Entry *e, const char *msg) {
    // lock held by caller
    if (known_match(g->scen_tab[e->scen].name, msg)) {
        SStat &s = ctl->st[e->scen];
        s.known++;
        return;
    }
    if (!ctl->viol.set || e->cost < ctl->viol.e.cost) {
        ctl->viol.set = 1; ctl->viol.e = *e;
        snprintf(ctl->viol.msg, sizeof ctl->viol.msg, "%s", msg);
    }
    ctl->stop = 1;
}

// (locked) a new pending execution at level c, a copy of `from`
static Entry *push_entry(int c, int scen, const Entry *from) {
    uint32_t k = ctl->freel;
    if (k) ctl->freel = pool[k].next;
    else if (ctl->used < POOL_N) k = ctl->used++;
    else return nullptr;
    Entry *x = &pool[k];
    if (from) *x = *from; else memset(x, 0, sizeof *x);
    x->scen = scen; x->cost = c; x->next = ctl->head[c][scen];
    ctl->head[c][scen] = k; ctl->npend[c]++;
    return x;
}
static void finish_exec(const Entry *e) {
    SStat &s = ctl->st[e->scen];
    __atomic_fetch_add(&s.execs, 1, __ATOMIC_RELAXED);
    __atomic_fetch_add(&s.level_execs[e->cost], 1, __ATOMIC_RELAXED);
    if (g->pruned) __atomic_fetch_add(&s.pruned, 1, __ATOMIC_RELAXED);
    int first = e->nd ? e->d[e->nd - 1].idx + 1 : 0;
    __atomic_fetch_add(&s.points, g->npt - first > 0 ? g->npt - first : 0, __ATOMIC_RELAXED);
    __atomic_fetch_add(&s.steps, g->steps, __ATOMIC_RELAXED);
    if ((uint64_t)g->npt > s.maxpts) s.maxpts = g->npt;
    if (!g->o.cache) __atomic_fetch_add(&s.states, g->npt - first > 0 ? g->npt - first : 0, __ATOMIC_RELAXED);
    if (g->finished && g->noutc) {
        uint64_t h = mix(hstr(g->outc), e->scen + 77); if (!h) h = 1;
        size_t i = h & (OUT_N - 1);
        for (int k = 0; k < 256; k++, i = (i + 1) & (OUT_N - 1)) {
            uint64_t z = 0;
            if (outt[i] == h) break;
            if (__atomic_compare_exchange_n(&outt[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_fetch_add(&s.outcomes, 1, __ATOMIC_RELAXED);
                if (s.nsample < 3) {
                    lk();
                    if (s.nsample < 3) {
                        int o = 0; char *b = s.sample[s.nsample];
                        o += snprintf(b + o, 400 - o, "devs=[");
                        for (int q = 0; q < e->nd && o < 200; q++) o += snprintf(b + o, 400 - o, "%s%d:%d", q ? " " : "", e->d[q].idx, e->d[q].alt);
                        snprintf(b + o, 400 - o, "] points=%d outcome=%.150s", g->npt, g->outc);
                        s.nsample++;
                    }
                    ulk();
                }
                break;
            }
            if (z == h) break;
        }
    }
    if (g->failed) {
        lk(); record_violation(e, g->msg); ulk();
        // a failed execution still has alternatives, but only explore on when it is a known finding
        if (ctl->stop) return;
    }
    if (ctl->infra) { ctl->stop = 1; return; }
    // children
    lk();
    for (int i = first; i < g->npt; i++) {
        Pt &p = g->pts[i];
        int c = p.cum + p.cost;
        if (c > g->bound || c >= NLEVEL) continue;
        if (e->nd >= MAXDEV) { s.capped = 1; continue; }
        for (int a = p.n - 1; a >= 1; a--) {
            Entry *x = push_entry(c, e->scen, e);
            if (!x) { s.capped = 1; if (!s.cap_level || (int)s.cap_level > c + 1) s.cap_level = c + 1; continue; }
            x->nd = e->nd + 1; x->d[e->nd].idx = i; x->d[e->nd].alt = a; x->hash = p.hash;
        }
    }
    ulk();
}

#define myslot (g->myslot_)
static void on_signal(int sig, siginfo_t *si, void *) {
    if (myslot && g->on) {
        snprintf((char *)myslot->msg, sizeof myslot->msg, "crash: signal %d (%s)%s%s", sig,
            sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGPIPE ? "SIGPIPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "?",
            g->msg[0] ? ": " : "", g->msg);
        myslot->crashed = 1;
        if (g->verbose && g->trace) {
            fprintf(g->trace, "  [T%d] %s\n", g->cur, myslot->msg);
            void *bt[40]; int n = backtrace(bt, 40);
            fflush(g->trace);
            backtrace_symbols_fd(bt, n, fileno(g->trace));
        }
        _exit(99);
    }
    void *bt[40]; int n = backtrace(bt, 40);
    backtrace_symbols_fd(bt, n, 2);
    _exit(98);
}
static void install_signals() {
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 65536;
    sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPIPE};
    for (int s : sigs) sigaction(s, &sa, 0);
}

static void worker(int w) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    install_signals();
    lock_me = getpid();
    myslot = &ctl->slot[w];
    uint64_t runs = 0;
    for (;;) {
        if (ctl->stop) _exit(0);
        if (wall() > ctl->deadline) _exit(0);
        bool got = false;
        lk();
        for (int l = 0; l < NLEVEL && !got; l++) {
            if (ctl->npend[l]) { // the scenario with the least work done at this level: all of them advance evenly
                int b = -1;
                for (int i = 0; i < g->nscen; i++) if (ctl->head[l][i] && (b < 0 || ctl->st[i].level_execs[l] < ctl->st[b].level_execs[l])) b = i;
                uint32_t k = ctl->head[l][b];
                myslot->e = pool[k];
                ctl->head[l][b] = pool[k].next; ctl->npend[l]--;
                pool[k].next = ctl->freel; ctl->freel = k;
                got = true;
                ctl->active++;
                myslot->busy = 1;
            }
        }
        bool done = !got && ctl->active == 0;
        ulk();
        if (done) _exit(0);
        if (!got) { usleep(200); continue; }
        run_exec(&myslot->e);
        finish_exec(&myslot->e);
        myslot->beat++;
        lk(); ctl->active--; myslot->busy = 0; ulk();
        if (++runs % 500 == 0) { // recycle: start from a fresh image
            long pages = 0; FILE *f = fopen("/proc/self/statm", "r");
            if (f) { long a; if (fscanf(f, "%ld %ld", &a, &pages) != 2) pages = 0; fclose(f); }
            if (pages > (1500l << 20) / 4096) _exit(42);
        }
        if (runs >= 30000) _exit(42); // recycle: start from a fresh image
    }
}

static void json_str(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        if (*s == '"' || *s == '\\') { fputc('\\', f); fputc(*s, f); }
        else if ((unsigned char)*s < 32) fprintf(f, "\\u%04x", *s);
        else fputc(*s, f);
    }
    fputc('"', f);
}

static void write_replay(const char *path, const Entry *e, const char *msg) {
    FILE *f = fopen(path, "w");
    if (!f) return;
    fprintf(f, "scenario %s\n", g->scen_tab[e->scen].name);
    fprintf(f, "devs");
    for (int i = 0; i < e->nd; i++) fprintf(f, " %d:%d", e->d[i].idx, e->d[i].alt);
    fprintf(f, "\ncost %d\nmessage %s\ntrace\n", e->cost, msg);
    fclose(f);
}

// fork that survives a moment without memory
static pid_t fork_retry() {
    for (int i = 0; i < 600; i++) {
        fflush(0);
        pid_t p = fork();
        if (p >= 0) return p;
        usleep(100000);
    }
    fprintf(stderr, "mcrt: fork failed: %s\n", strerror(errno));
    ctl->stop = 1;
    exit(3); // the workers die with their parent
}

// replays e in a fresh process; returns 1 when a violation is reproduced (msg filled)
static int replay_once(const Entry *e, char *msg, const char *tracefile, int limit_s) {
    Slot *s = &ctl->slot[MAXW - 1];
    memset((void *)s, 0, sizeof *s);
    pid_t p = fork_retry();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        install_signals();
        myslot = s; s->e = *e;
        if (tracefile) { g->trace = fopen(tracefile, "a"); g->verbose = true; if (g->trace) setvbuf(g->trace, 0, _IOLBF, 1 << 16); }
        else { g->verbose = true; g->trace = 0; } // no pruning while replaying
        run_exec(&s->e);
        if (g->failed) { snprintf((char *)s->msg, sizeof s->msg, "%s", g->msg); _exit(97); }
        if (g->trace) { fprintf(g->trace, "outcome: %s\n", g->outc); fclose(g->trace); }
        _exit(0);
    }
    double t0 = wall(); int st;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (wall() - t0 > limit_s) { kill(p, SIGKILL); waitpid(p, &st, 0); snprintf(msg, 2000, "hang: one execution runs for more than %d s without reaching a scheduling point", limit_s); return 2; }
        usleep(2000);
    }
    snprintf(msg, 2000, "%s", s->msg);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 99)) return 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    snprintf(msg, 2000, "crash: process ended with status 0x%x", st);
    return 1;
}

// compare messages, ignoring digits (addresses, counters)
static bool same_msg(const char *a, const char *b) { return strcmp(a, b) == 0; }

static int cmd_explore(const char *prop, const char *pat, int jobs, double cap, const char *out, const char *replay_dir) {
    double t0 = wall();
    ctl->deadline = t0 + cap;
    lock_me = getpid();
    int nsel = 0;
    for (int i = 0; i < g->nscen; i++) {
        Scen *s = &g->scen_tab[i];
        if (prop && !strstr(s->prop, prop)) continue;
        if (pat && (pat[0] == '=' ? strcmp(s->name, pat + 1) != 0 : !strstr(s->name, pat))) continue;
        if (s->o.thorough_only && !thorough) continue;
        nsel++;
        push_entry(0, i, nullptr);
    }
    if (!nsel) { fprintf(stderr, "no scenario selected\n"); return 3; }
    // determinism: the default schedule of every scenario, twice, in fresh processes
    // (done inside the workers' first executions for the rest: divergence is a hard error)
    pid_t pid[MAXW]; int alive = 0;
    if (jobs > MAXW - 1) jobs = MAXW - 1;
    for (int w = 0; w < jobs; w++) {
        pid[w] = fork_retry();
        if (pid[w] == 0) worker(w);
        alive++;
    }
    uint64_t lastbeat[MAXW] = {0}; double beatt[MAXW]; for (int i = 0; i < MAXW; i++) beatt[i] = wall();
    int killed = 0; Entry hang_e;
    while (alive) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            int w = -1; for (int i = 0; i < jobs; i++) if (pid[i] == p) w = i;
            if (w < 0) continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; pid[w] = 0; continue; }
            Slot *s = &ctl->slot[w];
            if (s->busy && !s->crashed && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && killed++ < 40) {
                // ended from outside (memory ran out): nothing of this execution has been recorded, so it is run again
                if (ctl->lock == p) ctl->lock = 0;
                lk();
                SStat &ss = ctl->st[s->e.scen];
                push_entry(s->e.cost, s->e.scen, &s->e);
                // (states it had recorded may prune the repetition: this level is not claimed as complete)
                ss.capped = 1; if (!ss.cap_level || (int)ss.cap_level > s->e.cost + 1) ss.cap_level = s->e.cost + 1;
                ctl->active--; s->busy = 0;
                ulk();
                usleep(500000);
            } else if (s->busy) {
                // the worker died inside an execution
                if (ctl->lock == p) ctl->lock = 0;
                lk();
                const char *m = s->crashed ? (const char *)s->msg : "crash: worker process died";
                SStat &ss = ctl->st[s->e.scen]; ss.execs++;
                record_violation(&s->e, m);
                ctl->active--; s->busy = 0; s->crashed = 0;
                ulk();
            } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 42)) {
                fprintf(stderr, "mcrt: worker ended unexpectedly (status %x)\n", st);
                ctl->infra = 1; snprintf(ctl->infra_msg, sizeof ctl->infra_msg, "worker ended unexpectedly");
                ctl->stop = 1;
            }
            pid[w] = fork_retry();
            if (pid[w] == 0) worker(w);
            beatt[w] = wall();
            continue;
        }
        double now_ = wall();
        for (int w = 0; w < jobs; w++) if (pid[w]) {
            if (ctl->slot[w].beat != lastbeat[w] || !ctl->slot[w].busy) { lastbeat[w] = ctl->slot[w].beat; beatt[w] = now_; }
            else if (now_ - beatt[w] > 40) {
                kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
                pid_t p = pid[w];
                hang_e = ctl->slot[w].e;
                pid[w] = 0; alive--;
                ctl->stop = 1;
                ctl->slot[w].busy = 0;
                if (ctl->lock == p) ctl->lock = 0;
                lk();
                record_violation(&hang_e, "hang: one execution runs for more than 40 s without reaching a scheduling point");
                ctl->active--;
                ulk();
            }
        }
        usleep(1000);
    }
    // leftovers (time cap)
    bool capped = false;
    for (int l = 0; l < NLEVEL; l++) for (int k = 0; k < g->nscen; k++) if (ctl->head[l][k]) {
        SStat &s = ctl->st[k];
        if (!s.capped || (int)s.cap_level > l + 1) { s.capped = 1; s.cap_level = l + 1; }
    }
    int rc = 0;
    char rpath[1000] = "";
    char vmsg[2000] = "";
    if (ctl->infra) { fprintf(stderr, "mcrt: %s\n", ctl->infra_msg); rc = 3; }
    if (ctl->viol.set && !ctl->infra) {
        Entry e = ctl->viol.e;
        char m1[2000], m2[2000];
        int a = replay_once(&e, m1, 0, 90), b = replay_once(&e, m2, 0, 90);
        snprintf(vmsg, sizeof vmsg, "%s", m1);
        if (!a || !b || !same_msg(m1, m2)) {
            fprintf(stderr, "mcrt: violation did not replay (scenario %s): first \"%s\", replays \"%s\" / \"%s\"\n", g->scen_tab[e.scen].name, ctl->viol.msg, m1, m2);
            rc = 3;
        } else {
            snprintf(rpath, sizeof rpath, "%s/%s-%s.replay", replay_dir, prop ? prop : "X", g->scen_tab[e.scen].name);
            for (char *c = rpath + strlen(replay_dir) + 1; *c; c++) if (*c == '/' || *c == ' ') *c = '_';
            write_replay(rpath, &e, m1);
            char m3[2000];
            replay_once(&e, m3, rpath, 90);
            rc = 1;
        }
    }
    FILE *f = out ? fopen(out, "w") : stdout;
    uint64_t ex = 0, stt = 0, tr = 0, oc = 0, pr = 0;
    fprintf(f, "{\"scenarios\": [");
    bool firsts = true;
    for (int i = 0; i < g->nscen; i++) {
        SStat &s = ctl->st[i];
        if (!s.execs) continue;
        ex += s.execs; stt += s.states; tr += s.steps; oc += s.outcomes; pr += s.pruned;
        if (s.capped) capped = true;
        fprintf(f, "%s\n {\"name\": ", firsts ? "" : ","); firsts = false;
        json_str(f, g->scen_tab[i].name);
        int b = thorough ? g->scen_tab[i].o.bound_thorough : g->scen_tab[i].o.bound_quick;
        fprintf(f, ", \"bound\": %d, \"completed_bound\": %d, \"executions\": %llu, \"pruned\": %llu, \"states\": %llu, \"choice_points\": %llu, \"steps\": %llu, \"outcomes\": %llu, \"max_points\": %llu, \"capped\": %s, \"known\": %llu, \"by_cost\": [",
            b, s.capped ? (int)(s.cap_level ? s.cap_level : 1) - 2 : b, (unsigned long long)s.execs, (unsigned long long)s.pruned, (unsigned long long)s.states,
            (unsigned long long)s.points, (unsigned long long)s.steps, (unsigned long long)s.outcomes, (unsigned long long)s.maxpts, s.capped ? "true" : "false", (unsigned long long)s.known);
        for (int l = 0; l <= b && l < NLEVEL; l++) fprintf(f, "%s%llu", l ? ", " : "", (unsigned long long)s.level_execs[l]);
        fprintf(f, "], \"samples\": [");
        for (int k = 0; k < s.nsample; k++) { if (k) fprintf(f, ", "); json_str(f, s.sample[k]); }
        fprintf(f, "]}");
    }
    fprintf(f, "\n], \"executions\": %llu, \"pruned\": %llu, \"states\": %llu, \"transitions\": %llu, \"outcomes\": %llu, \"capped\": %s, \"wall_s\": %.2f, \"rc\": %d, \"violation\": ",
        (unsigned long long)ex, (unsigned long long)pr, (unsigned long long)stt, (unsigned long long)tr, (unsigned long long)oc, capped ? "true" : "false", wall() - t0, rc);
    if (rc == 1) {
        fprintf(f, "{\"scenario\": "); json_str(f, g->scen_tab[ctl->viol.e.scen].name);
        fprintf(f, ", \"cost\": %d, \"message\": ", ctl->viol.e.cost); json_str(f, vmsg);
        fprintf(f, ", \"replay\": "); json_str(f, rpath); fprintf(f, "}");
    } else fprintf(f, "null");
    fprintf(f, "}\n");
    if (out) fclose(f);
    if (rc == 1) printf("violation in %s: %s\n", g->scen_tab[ctl->viol.e.scen].name, vmsg);
    return rc;
}

static int cmd_replay(const char *path) {
    FILE *f = fopen(path, "r");
    if (!f) { perror(path); return 3; }
    static char line[8192]; Entry e; memset(&e, 0, sizeof e); int sc = -1;
    while (fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        if (!strncmp(line, "scenario ", 9)) { for (int i = 0; i < g->nscen; i++) if (!strcmp(g->scen_tab[i].name, line + 9)) sc = i; }
        else if (!strncmp(line, "devs", 4)) {
            char *p = line + 4; int a, b, n;
            while (sscanf(p, " %d:%d%n", &a, &b, &n) == 2) { if (e.nd >= MAXDEV) break; e.d[e.nd].idx = a; e.d[e.nd].alt = b; e.nd++; p += n; }
        } else if (!strncmp(line, "trace", 5)) break;
    }
    fclose(f);
    if (sc < 0) { fprintf(stderr, "unknown scenario\n"); return 3; }
    e.scen = sc;
    char msg[2000];
    int r = replay_once(&e, msg, "/dev/stdout", 120);
    if (r) { printf("reproduced: %s\n", msg); return 1; }
    printf("no violation\n");
    return 0;
}

void scenario(const char *prop, const char *name, body_t fn, long arg, const Opts &o) {
    rt_init();
    if (g->nscen >= MAXSCEN) { fprintf(stderr, "too many scenarios\n"); _exit(3); }
    Scen *s = &g->scen_tab[g->nscen++];
    s->prop = prop; snprintf(s->name, sizeof s->name, "%s", name); s->fn = fn; s->arg = arg; s->o = o;
}

static void *xmap(uintptr_t at, size_t n, bool shared) {
    void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED) { perror("mcrt mmap"); _exit(3); }
    return p;
}
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
            g->tls_sz = i->dlpi_phdr[k].p_memsz; g->tls_addr = (char *)i->dlpi_tls_data;
            if (g->tls_sz > sizeof g->tls_init) { fprintf(stderr, "thread-local storage too large\n"); _exit(3); }
            memcpy(g->tls_init, g->tls_addr, g->tls_sz);
        }
    return 1; // main program only
}

int main(int argc, char **argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("MCRT_REEXEC")) {
        setenv("MCRT_REEXEC", "1", 1);
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    rt_init();
    const char *prop = 0, *pat = 0, *out = 0, *rep = 0, *rdir = "/tmp", *known = 0; int jobs = 8; double cap = 600; bool list = false;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--prop")) prop = argv[++i];
        else if (!strcmp(argv[i], "--scen")) pat = argv[++i];
        else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--cap")) cap = atof(argv[++i]);
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--thorough")) thorough = true;
        else if (!strcmp(argv[i], "--replay")) rep = argv[++i];
        else if (!strcmp(argv[i], "--replay-dir")) rdir = argv[++i];
        else if (!strcmp(argv[i], "--known")) known = argv[++i];
        else if (!strcmp(argv[i], "--list")) list = true;
        else { fprintf(stderr, "unknown option %s\n", argv[i]); return 3; }
    }
    if (list) { for (int i = 0; i < g->nscen; i++) printf("%s %s\n", g->scen_tab[i].prop, g->scen_tab[i].name); return 0; }
    if (known) {
        FILE *f = fopen(known, "r"); char line[600];
        while (f && fgets(line, sizeof line, f)) {
            line[strcspn(line, "\n")] = 0; char *tab = strchr(line, '\t'); if (!tab || g->nknown >= 64) continue; *tab = 0;
            snprintf(g->known[g->nknown].scen, 128, "%s", line); snprintf(g->known[g->nknown].msg, 256, "%s", tab + 1); g->nknown++;
        }
        if (f) fclose(f);
    }
    void *bt[4]; backtrace(bt, 4); // load libgcc now
    ctl = (Ctl *)xmap(0, sizeof(Ctl), true);
    pool = (Entry *)xmap(0, POOL_N * sizeof(Entry), true); ctl->used = 1;
    if (thorough) VIS_N = (size_t)1 << 28;
    vis = (uint64_t *)xmap(0, VIS_N * 8, true);
    outt = (uint64_t *)xmap(0, OUT_N * 8, true);
    xmap(REGION, REGION_SZ, false);
    xmap(SHADOW_V, REGION_SZ / 8, false);
    xmap(SHADOW_R, REGION_SZ / 8 * sizeof(Cell), false);
    size_t gl = _end - __data_start;
    xmap(GSHADOW_R, page_up((gl / 8 + 2) * sizeof(Cell)), false);
    dl_iterate_phdr(phdr_cb, 0);
    g->snaplen = gl; g->snap = (char *)xmap(0, page_up(gl), false);
    memcpy(g->snap, __data_start, gl);
    if (rep) return cmd_replay(rep);
    return cmd_explore(prop, pat, jobs, cap, out, rdir);
}

// ------------------------------------------------------------------ atomics
enum { O_RELAXED, O_CONSUME, O_ACQUIRE, O_RELEASE, O_ACQ_REL, O_SEQ_CST };
static inline bool acq(int o) { return o == O_CONSUME || o == O_ACQUIRE || o == O_ACQ_REL || o == O_SEQ_CST; }
static inline bool rel(int o) { return o == O_RELEASE || o == O_ACQ_REL || o == O_SEQ_CST; }

static void spin_check(uint64_t s) {
    Thr *t = &g->t[g->cur];
    t->sig[t->nsig++ & 63] = s;
    uint32_t n = t->nsig;
    for (uint32_t p = 1; p <= 16; p++) {
        if (n < 3 * p) break;
        bool same = true;
        for (uint32_t k = 0; k < 2 * p && same; k++) same = t->sig[(n - 1 - k) & 63] == t->sig[(n - 1 - k - p) & 63];
        if (same) { t->nsig = 0; yield(); return; }
    }
}
static inline void apoint(const char *l) {
    tick();
    if (g->o.atomic_points) { g->t[g->cur].label = l; reschedule(true, false, l); }
}
static void a_load(uintptr_t a, size_t sz, int mo) {
    access(a, sz, false, true);
    g->inrt++;
    Sync *s = getsync(a); Thr *t = &g->t[g->cur];
    if (acq(mo)) vjoin(t->vc, s->rel); else vjoin(t->facq, s->rel);
    hb_event(s, false, 1);
    g->inrt--;
}
static void a_store(uintptr_t a, size_t sz, int mo) {
    access(a, sz, true, true);
    g->inrt++;
    Sync *s = getsync(a); Thr *t = &g->t[g->cur];
    if (rel(mo)) { s->rel = t->vc; s->rel_owner = g->cur; tickclk(); }
    else if (t->has_frel) { s->rel = t->frel; s->rel_owner = g->cur; }
    else if (s->rel_owner != g->cur) { memset(&s->rel, 0, sizeof s->rel); s->rel_owner = -1; }
    hb_event(s, true, 2);
    g->inrt--;
}
static void a_rmw(uintptr_t a, size_t sz, int mo) {
    access(a, sz, true, true);
    g->inrt++;
    Sync *s = getsync(a); Thr *t = &g->t[g->cur];
    if (acq(mo)) vjoin(t->vc, s->rel); else vjoin(t->facq, s->rel);
    if (rel(mo)) { vjoin(s->rel, t->vc); tickclk(); }
    else if (t->has_frel) vjoin(s->rel, t->frel);
    hb_event(s, true, 3);
    g->inrt--;
}
#define ON() (g && g->on && !g->inrt && !g->quiet)
} // namespace mc
using namespace mc;

#define PC ((uint64_t)__builtin_return_address(0))
#define ATOMIC(N, T) \
extern "C" T __tsan_atomic##N##_load(const volatile T *a, int mo) { \
    if (!ON()) return *a; \
    g->inrt++; apoint("atomic load"); g->inrt--; \
    T v = *a; a_load((uintptr_t)a, sizeof(T), mo); \
    g->inrt++; if (g->verbose) trace("load%d -> %llx (order %d)", N, (unsigned long long)v, mo); \
    spin_check(mix(PC ^ (uintptr_t)a, (uint64_t)v)); g->inrt--; return v; } \
extern "C" void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { \
    if (!ON()) { *a = v; return; } \
    g->inrt++; apoint("atomic store"); g->inrt--; \
    bool ch = *a != v; a_store((uintptr_t)a, sizeof(T), mo); *a = v; \
    g->inrt++; if (ch) progress(); if (g->verbose) trace("store%d %llx (order %d)", N, (unsigned long long)v, mo); spin_check(mix(PC ^ (uintptr_t)a, (uint64_t)v + 9)); g->inrt--; } \
static T rmw##N(volatile T *a, int mo, const char *nm, T (*f)(T, T), T x, uint64_t pc) { \
    g->inrt++; apoint(nm); g->inrt--; \
    T o = *a; a_rmw((uintptr_t)a, sizeof(T), mo); T nv = f(o, x); *a = nv; \
    g->inrt++; if (nv != o) progress(); if (g->verbose) trace("%s%d %llx -> %llx (order %d)", nm, N, (unsigned long long)o, (unsigned long long)nv, mo); \
    spin_check(mix(pc ^ (uintptr_t)a, (uint64_t)o + 77)); g->inrt--; return o; } \
static T fx##N(T, T x) { return x; } static T fa##N(T o, T x) { return o + x; } static T fs##N(T o, T x) { return o - x; } \
static T fand##N(T o, T x) { return o & x; } static T for##N(T o, T x) { return o | x; } static T fxor##N(T o, T x) { return o ^ x; } static T fnand##N(T o, T x) { return ~(o & x); } \
extern "C" T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { if (!ON()) { T o = *a; *a = v; return o; } return rmw##N(a, mo, "exchange", fx##N, v, PC); } \
extern "C" T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { if (!ON()) { T o = *a; *a = o + v; return o; } return rmw##N(a, mo, "fetch_add", fa##N, v, PC); } \
extern "C" T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { if (!ON()) { T o = *a; *a = o - v; return o; } return rmw##N(a, mo, "fetch_sub", fs##N, v, PC); } \
extern "C" T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { if (!ON()) { T o = *a; *a = o & v; return o; } return rmw##N(a, mo, "fetch_and", fand##N, v, PC); } \
extern "C" T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { if (!ON()) { T o = *a; *a = o | v; return o; } return rmw##N(a, mo, "fetch_or", for##N, v, PC); } \
extern "C" T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { if (!ON()) { T o = *a; *a = o ^ v; return o; } return rmw##N(a, mo, "fetch_xor", fxor##N, v, PC); } \
extern "C" T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { if (!ON()) { T o = *a; *a = ~(o & v); return o; } return rmw##N(a, mo, "fetch_nand", fnand##N, v, PC); } \
static bool cas##N(volatile T *a, T *c, T v, int mo, int fmo, bool weak, uint64_t pc) { \
    if (!ON()) { if (*a == *c) { *a = v; return true; } *c = *a; return false; } \
    g->inrt++; apoint("compare_exchange"); g->inrt--; \
    T o = *a; \
    bool ok = o == *c; \
    if (ok && weak && g->o.spurious && choose(2, "spurious CAS failure")) ok = false; \
    if (ok) { a_rmw((uintptr_t)a, sizeof(T), mo); *a = v; } else { a_load((uintptr_t)a, sizeof(T), fmo); *c = o; } \
    g->inrt++; if (ok && v != o) progress(); if (g->verbose) trace("cas%d %llx -> %llx %s (order %d)", N, (unsigned long long)o, (unsigned long long)v, ok ? "ok" : "failed", mo); \
    spin_check(mix(pc ^ (uintptr_t)a, (uint64_t)o * 2 + ok)); g->inrt--; return ok; } \
extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { return cas##N(a, c, v, mo, fmo, false, PC); } \
extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return cas##N(a, c, v, mo, fmo, true, PC); } \
extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { cas##N(a, &c, v, mo, fmo, false, PC); return c; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)

extern "C" {
void __tsan_atomic_thread_fence(int mo) {
    if (!ON()) return;
    g->inrt++;
    Thr *t = &g->t[g->cur];
    if (acq(mo)) vjoin(t->vc, t->facq);
    if (rel(mo)) { t->frel = t->vc; t->has_frel = true; tickclk(); }
    g->inrt--;
}
void __tsan_atomic_signal_fence(int) {}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
void __tsan_read##N(void *a) { access((uintptr_t)a, N, false); } \
void __tsan_write##N(void *a) { access((uintptr_t)a, N, true); } \
void __tsan_read_write##N(void *a) { access((uintptr_t)a, N, true); } \
void __tsan_unaligned_read##N(void *a) { access((uintptr_t)a, N, false); } \
void __tsan_unaligned_write##N(void *a) { access((uintptr_t)a, N, true); } \
void __tsan_unaligned_read_write##N(void *a) { access((uintptr_t)a, N, true); } \
void __tsan_volatile_read##N(void *a) { access((uintptr_t)a, N, false); } \
void __tsan_volatile_write##N(void *a) { access((uintptr_t)a, N, true); } \
void __tsan_unaligned_volatile_read##N(void *a) { access((uintptr_t)a, N, false); } \
void __tsan_unaligned_volatile_write##N(void *a) { access((uintptr_t)a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access((uintptr_t)a, n, false); }
void __tsan_write_range(void *a, size_t n) { access((uintptr_t)a, n, true); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) access((uintptr_t)d, n, true); return memset(d, c, n); }

// ------------------------------------------------------------------ pthread layer
static inline bool ours(const void *p) { uintptr_t a = (uintptr_t)p; return in_region(a) || in_globals(a); }
#define PON(p) (g && g->on && !g->inrt && ours(p))

static bool mutex_free(void *m) { return *(volatile int *)m == 0; }
static void m_acq(void *m, const char *l) {
    point(l);
    if (*(volatile int *)m) block(mutex_free, m, ~0ull, l);
    g->inrt++;
    *(volatile int *)m = g->cur + 1;
    Sync *s = getsync((uintptr_t)m);
    vjoin(g->t[g->cur].vc, s->rel);
    hb_event(s, true, 11);
    if (g->verbose) trace("%s", l);
    g->inrt--;
}
static void m_rel(void *m) {
    g->inrt++;
    if (*(volatile int *)m != g->cur + 1) fail("mutex unlocked by a thread that does not hold it");
    *(volatile int *)m = 0;
    Sync *s = getsync((uintptr_t)m);
    s->rel = g->t[g->cur].vc; tickclk();
    hb_event(s, true, 12);
    progress();
    if (g->verbose) trace("unlock");
    g->inrt--;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) {
    if (PON(m) && *(int *)m) fail("mutex destroyed while locked");
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { if (!PON(m)) return 0; m_acq(m, "mutex lock"); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!PON(m)) return 0;
    point("mutex trylock");
    if (*(int *)m) { g->inrt++; hb_event(getsync((uintptr_t)m), false, 13); g->inrt--; return EBUSY; }
    m_acq(m, "mutex trylock"); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!PON(m)) return 0; m_rel(m); return 0; }

static bool rw_canread(void *m) { return *(volatile int *)m >= 0; }
static bool rw_canwrite(void *m) { return *(volatile int *)m == 0; }
int pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { memset(m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *m) { if (PON(m) && *(int *)m) fail("rwlock destroyed while held"); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    if (!PON(m)) return 0;
    point("rwlock rdlock");
    if (!rw_canread(m)) block(rw_canread, m, ~0ull, "rwlock rdlock");
    g->inrt++; ++*(volatile int *)m;
    Sync *s = getsync((uintptr_t)m); vjoin(g->t[g->cur].vc, s->rel); hb_event(s, true, 14); if (g->verbose) trace("rdlock"); g->inrt--;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    if (!PON(m)) return 0;
    point("rwlock wrlock");
    if (!rw_canwrite(m)) block(rw_canwrite, m, ~0ull, "rwlock wrlock");
    g->inrt++; *(volatile int *)m = -1;
    Sync *s = getsync((uintptr_t)m), *r = getsync((uintptr_t)m + 4);
    vjoin(g->t[g->cur].vc, s->rel); vjoin(g->t[g->cur].vc, r->rel); hb_event(s, true, 15); if (g->verbose) trace("wrlock"); g->inrt--;
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if (!PON(m)) return 0; point("rwlock tryrdlock"); if (!rw_canread(m)) return EBUSY; return pthread_rwlock_rdlock(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if (!PON(m)) return 0; point("rwlock trywrlock"); if (!rw_canwrite(m)) return EBUSY; return pthread_rwlock_wrlock(m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (!PON(m)) return 0;
    g->inrt++;
    Sync *s = getsync((uintptr_t)m), *r = getsync((uintptr_t)m + 4);
    if (*(int *)m == 0) fail("rwlock unlocked while not held");
    if (*(int *)m < 0) { *(int *)m = 0; s->rel = g->t[g->cur].vc; }
    else { --*(int *)m; vjoin(r->rel, g->t[g->cur].vc); }
    tickclk(); hb_event(s, true, 16); progress(); if (g->verbose) trace("rwunlock");
    g->inrt--;
    return 0;
}

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
    if (PON(c)) for (int i = 0; i < g->nt; i++) if (g->t[i].state == T_BLOCK && g->t[i].cond == (uintptr_t)c && !g->t[i].signaled) fail("condition variable destroyed while T%d waits on it", i);
    return 0;
}
static bool cond_ready(void *p) { return ((Thr *)p)->signaled; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline) {
    Thr *t = &g->t[g->cur];
    t->cond = (uintptr_t)c; t->signaled = false;
    m_rel(m);
    g->inrt++; hb_event(getsync((uintptr_t)c), true, 17); g->inrt--;
    bool ok = block(cond_ready, t, deadline, "condition wait");
    t->cond = 0;
    m_acq(m, "condition relock");
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!PON(m)) { fprintf(stderr, "cond_wait outside\n"); _exit(3); } return cond_wait(c, m, ~0ull); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (!PON(m)) return ETIMEDOUT;
    uint64_t dl = (uint64_t)ts->tv_sec * 1000 + ts->tv_nsec / 1000000;
    return cond_wait(c, m, dl);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { return pthread_cond_timedwait(c, m, ts); }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!PON(c)) return 0;
    point("notify_one");
    g->inrt++;
    int l[MAXT], n = 0;
    for (int i = 0; i < g->nt; i++) if (g->t[i].state == T_BLOCK && g->t[i].cond == (uintptr_t)c && !g->t[i].signaled) l[n++] = i;
    int a = n > 1 ? choose(n, "notify_one picks", 0) : 0;
    if (n) g->t[l[a]].signaled = true;
    hb_event(getsync((uintptr_t)c), true, 18); progress();
    if (g->verbose) trace("notify_one");
    g->inrt--;
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!PON(c)) return 0;
    point("notify_all");
    g->inrt++;
    for (int i = 0; i < g->nt; i++) if (g->t[i].state == T_BLOCK && g->t[i].cond == (uintptr_t)c) g->t[i].signaled = true;
    hb_event(getsync((uintptr_t)c), true, 19); progress();
    if (g->verbose) trace("notify_all");
    g->inrt--;
    return 0;
}

typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!(g && g->on && !g->inrt)) {
        create_t real = (create_t)dlsym(RTLD_NEXT, "pthread_create");
        return real(t, a, fn, arg);
    }
    point("thread create");
    g->inrt++;
    int i = new_fiber(fn, arg);
    *t = (pthread_t)(0x7000 + i);
    progress();
    if (g->verbose) trace("created T%d", i);
    g->inrt--;
    point("thread created");
    return 0;
}
static bool thr_done(void *p) { return ((Thr *)p)->state == T_DONE; }
int pthread_join(pthread_t t, void **ret) {
    if (!(g && g->on)) return 0;
    int i = (int)((uintptr_t)t - 0x7000);
    if (i <= 0 || i >= g->nt) fail("join of an unknown thread");
    if (i == g->cur) fail("thread joins itself");
    point("thread join");
    Thr *x = &g->t[i];
    if (x->state != T_DONE) block(thr_done, x, ~0ull, "thread join");
    g->inrt++;
    vjoin(g->t[g->cur].vc, x->vc);
    hb_event(getsync((uintptr_t)x), true, 42);
    if (ret) *ret = x->ret;
    g->inrt--;
    return 0;
}
int pthread_detach(pthread_t t) {
    if (!(g && g->on)) return 0;
    int i = (int)((uintptr_t)t - 0x7000);
    if (i > 0 && i < g->nt) g->t[i].detached = true;
    return 0;
}
// thread-specific data of libraries (OpenSSL's error queue) belongs to the fiber
typedef int (*kcreate_t)(pthread_key_t *, void (*)(void *));
typedef void *(*kget_t)(pthread_key_t);
typedef int (*kset_t)(pthread_key_t, const void *);
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
    static kcreate_t real; if (!real) real = (kcreate_t)dlsym(RTLD_NEXT, "pthread_key_create");
    int r = real(k, d);
    if (!r && *k < 64) { if (!g) rt_init(); g->spec_dtor_[*k] = d; }
    return r;
}
void *pthread_getspecific(pthread_key_t k) {
    if (g && g->on && k < 64) return g->t[g->cur].spec[k];
    static kget_t real; if (!real) real = (kget_t)dlsym(RTLD_NEXT, "pthread_getspecific");
    return real(k);
}
int pthread_setspecific(pthread_key_t k, const void *v) {
    if (g && g->on && k < 64) { g->t[g->cur].spec[k] = (void *)v; if (v) g->t[g->cur].nspec++; return 0; }
    static kset_t real; if (!real) real = (kset_t)dlsym(RTLD_NEXT, "pthread_setspecific");
    return real(k, v);
}
int sched_yield() {
    if (!(g && g->on && !g->inrt)) { return (int)syscall(SYS_sched_yield); }
    yield(); return 0;
}
int pthread_sigmask(int how, const sigset_t *s, sigset_t *o) {
    if (g && g->on) {
        if (s && !g->inrt) {
            bool has = sigismember(s, SIGPIPE) == 1;
            if (how == SIG_BLOCK && has) g->t[g->cur].sigpipe_blocked = true;
            else if (how == SIG_UNBLOCK && has) g->t[g->cur].sigpipe_blocked = false;
            else if (how == SIG_SETMASK) g->t[g->cur].sigpipe_blocked = has;
        }
        return 0;
    }
    return sigprocmask(how, s, o);
}
int nanosleep(const struct timespec *ts, struct timespec *rem) {
    if (g && g->on && !g->inrt) { sleep_ms((uint64_t)ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000); return 0; }
    return (int)syscall(SYS_nanosleep, ts, rem);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem) {
    if (g && g->on && !g->inrt) { sleep_ms((uint64_t)ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000); return 0; }
    return (int)syscall(SYS_clock_nanosleep, c, fl, ts, rem);
}
int gettimeofday(struct timeval *tv, void *) {
    if (g && g->on) { tv->tv_sec = 1500000000 + g->now / 1000; tv->tv_usec = (g->now % 1000) * 1000; return 0; }
    struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (g && g->on && c != CLOCK_PROCESS_CPUTIME_ID) { ts->tv_sec = g->now / 1000; ts->tv_nsec = (g->now % 1000) * 1000000; if (c == CLOCK_REALTIME) ts->tv_sec += 0; return 0; }
    return (int)syscall(SYS_clock_gettime, c, ts);
}

void __assert_fail(const char *expr, const char *file, unsigned line, const char *func) {
    const char *b = strrchr(file, '/');
    if (g && g->on) fail("assertion `%s' failed in %s (%s)", expr, func, b ? b + 1 : file);
    fprintf(stderr, "assertion %s failed at %s:%u\n", expr, file, line);
    abort();
}
static bool guard_idle(void *p) { return ((volatile char *)p)[1] == 0; }
int __cxa_guard_acquire(__cxxabiv1::__guard *gd) {
    char *b = (char *)gd;
    if (*(volatile char *)b) { if (g && g->on && !g->inrt) sync_acquire(gd); return 0; }
    if (g && g->on && !g->inrt) {
        point("static init");
        while (b[1]) block(guard_idle, b, ~0ull, "static init in progress");
        sync_acquire(gd);
        if (b[0]) return 0;
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(__cxxabiv1::__guard *gd) noexcept {
    char *b = (char *)gd; b[1] = 0; b[0] = 1;
    if (g && g->on && !g->inrt) { g->inrt++; Sync *s = getsync((uintptr_t)gd); s->rel = g->t[g->cur].vc; g->inrt--; sync_release(gd); }
}
void __cxa_guard_abort(__cxxabiv1::__guard *gd) noexcept { ((char *)gd)[1] = 0; }
} // extern "C"

// ------------------------------------------------------------------ heap
void *operator new(size_t n) { return rt_new(n, 1); }
void *operator new[](size_t n) { return rt_new(n, 2); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return rt_new(n, 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return rt_new(n, 2); }
void *operator new(size_t n, std::align_val_t a) { return rt_new(n, 1, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return rt_new(n, 2, (size_t)a); }
void operator delete(void *p) noexcept { rt_delete(p, 1); }
void operator delete[](void *p) noexcept { rt_delete(p, 2); }
void operator delete(void *p, size_t) noexcept { rt_delete(p, 1); }
void operator delete[](void *p, size_t) noexcept { rt_delete(p, 2); }
void operator delete(void *p, const std::nothrow_t &) noexcept { rt_delete(p, 1); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { rt_delete(p, 2); }
void operator delete(void *p, std::align_val_t) noexcept { rt_delete(p, 1); }
void operator delete[](void *p, std::align_val_t) noexcept { rt_delete(p, 2); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { rt_delete(p, 1); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { rt_delete(p, 2); }

int main(int argc, char **argv) { return mc::main(argc, argv); }
