// Exhaustive enumeration of operation sequences / inputs for sequential code: every value returned
// by pick() is enumerated by depth-first search, the body is re-run for every path, and the code
// under test runs under AddressSanitizer and UndefinedBehaviorSanitizer.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
namespace seq {
struct Opts { bool leaks = true; bool thorough_only = false; int sd = 3; /* choices after which the work is divided among the workers */ };
typedef void (*body_t)(long arg);
void group(const char *prop, const char *name, body_t fn, long arg, const Opts &o = Opts());
int pick(int n, const char *label = "");       // enumerated choice 0..n-1
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // describes the case (shown in replays and samples)
void step(uint64_t n = 1);                     // a checked transition
void state(uint64_t h);                        // a distinct state reached
void state(const std::string &s);
bool replaying();
extern bool thorough;
void bulk(uint64_t n);                         // n further inputs evaluated inside this path
void cur(const void *p, size_t n);             // the input being evaluated now (kept for crash reports)
}
#define SEQ_ASSERT(c, ...) do { if (!(c)) seq::fail(__VA_ARGS__); } while (0)
