// mcrt: a controlled-scheduler runtime for stateless model checking of real C++ code.
//
// The code under test is compiled with clang's -fsanitize=thread instrumentation, but linked
// against this runtime instead of libtsan: every atomic access, lock, thread operation, event
// loop step and (simulated) system call is a scheduling point owned by the explorer, and every
// plain access feeds a vector-clock race detector and a heap checker.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>

namespace mc {

struct Opts {
    int bound_quick = 2;       // deviation bound, quick tier
    int bound_thorough = 3;    // deviation bound, thorough tier
    bool atomic_points = true; // scheduling point before every atomic access
    bool free_switch = true;   // switching away from a blocked/yielding thread costs nothing
    bool races = true;         // report data races on plain accesses
    bool leaks = true;         // report heap blocks still live at the end
    bool cache = true;         // happens-before state caching
    bool spurious = false;     // compare_exchange_weak may fail spuriously (one deviation)
    uint32_t horizon = 20000;  // steps before an execution is called a livelock
    int max_ms = 0;            // unused
    bool thorough_only = false;
    bool sys_points = true;    // scheduling point before every simulated system call
};

typedef void (*body_t)(long arg);
// Registered at static-initialisation time.  name must be unique in the binary.
void scenario(const char *prop, const char *name, body_t fn, long arg, const Opts &o);

// --- used by harness bodies and by the simulated OS
bool active();                                  // inside an execution?
int self();                                     // current fiber
int choose(int n, const char *label, int cost = 1);  // environment choice, 0 is the default answer
void point(const char *label);                  // plain scheduling point
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // shown in replays
bool replaying();
void outcome(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // observed result

// blocking: waits until pred(arg) is true or virtual time reaches deadline (ms; ~0 = never).
// returns true when pred held.
typedef bool (*pred_t)(void *);
bool block(pred_t pred, void *arg, uint64_t deadline, const char *label);
void sleep_ms(uint64_t ms);                     // virtual time
void quiesce();                                 // wait until no other thread can run now
void anywhen(uint64_t ms = 0);                                 // the caller resumes at any later point, enumerated at no cost
uint64_t now();                                 // virtual milliseconds
void advance_to(uint64_t t);                    // move virtual time forward
bool sigpipe_blocked();
void enter(); void leave();                     // suspend / resume instrumentation
void yield();

// synchronisation annotations for simulated objects (addr is any key)
void sync_acquire(const void *addr);
void sync_release(const void *addr);
void touch(const void *addr, bool write);       // dependency event for state caching

// harness-side event records kept out of the instrumented world
struct Rec { int tid; long a, b, c; };
void rec(long a, long b = 0, long c = 0);
int nrec();
const Rec &getrec(int i);
int count_threads();                            // live fibers
size_t live_blocks();                           // live heap blocks of this execution
size_t live_bytes();
bool heap_ok(const void *p, size_t n);
// mute the memory/race checker for harness-internal bookkeeping
struct Quiet { Quiet(); ~Quiet(); };
void set_races(bool on);

int main(int argc, char **argv);
extern bool thorough;
}
#define MC_ASSERT(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)
