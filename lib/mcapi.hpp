// Interface between concurrency harnesses (compiled with -fsanitize=thread, which calls our runtime) and lib/mcrt.cpp.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>

namespace mcapi {
struct Bound {
    int total, preempt, stale, env;
};
// every alternative at this point is explored
unsigned choose(unsigned n);
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void outcome(uint64_t h);
bool quick();
// a scheduling point without memory effect
void point(const char* what);
// the calling thread waits for something other threads do: do not continue it while others can run
void relax();
// component code that may fail: returns true in some execution (a deviation)
bool fault();
int self();
void add(const char* name, std::function<void()> body, std::vector<Bound> quick, std::vector<Bound> thorough, double capq = 60, double capt = 900);
int main(int argc, char** argv);
// accesses made while one of these exists are the harness's own book-keeping: no race detection, no scheduling points
struct Quiet {
    Quiet();
    ~Quiet();
};
struct Opts {
    int random_alts = 2;      // how many different values std::random_device may produce
    int stale_depth = 3;      // how many older values a load may return
    uint32_t horizon = 20000; // scheduling points after which an execution under the fair scheduler counts as not terminating
    bool free_switch = false; // explore every choice when the running thread blocks, not only as a deviation
    bool races = true;        // report data races
};
Opts& opts();
} // namespace mcapi
#define MCHECK(cond, ...)                      \
    do {                                       \
        if (!(cond)) ::mcapi::fail(__VA_ARGS__); \
    } while (0)
