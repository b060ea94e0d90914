// Controlled concurrency for the explorer: threads of the code under test run as fibers of one OS thread, switched at
// synchronisation operations only (atomics, mutexes, initialisation guards, task pick-ups), by choices of the
// explorer. Code compiled with clang's -fsanitize=thread calls the __tsan_* functions defined in rt.cpp (the runtime of
// the sanitizer itself is not linked), which maintain vector clocks: two conflicting accesses not ordered by
// happens-before are a violation, whatever the interleaving they were seen in.
//
// The choices: at each scheduling point the default is taken for free, any other alternative costs one unit of the
// deviation budget of the execution (delay-bounded scheduling): all the executions with at most that many deviations
// are explored.
#ifndef VERIF_RT_HPP
#define VERIF_RT_HPP

#include <functional>
#include <string>
#include <vector>

#include "mc.hpp"

namespace rt
{

struct Options {
    // Threads of the pool that run tasks of parallel loops, besides the ones given.
    unsigned workers = 1;
    // Deviations from the default schedule.
    unsigned deviations = 2;
    // Whether splits of the loops are choices too (each costs one deviation).
    bool splits = false;
    unsigned max_leaves = 3;
    unsigned max_steps = 200000;
};

struct Stats {
    unsigned long steps = 0, switches = 0, accesses = 0, tasks = 0, groups = 0, sync = 0;
    // Identity of the schedule.
    unsigned long long hash = 0;
};

// Run the given functions, each as a thread, to completion. Throws mc::Violation in case of a data race, a deadlock, a
// livelock or a failed check; what the explorer threw; or the first exception that left a function.
Stats run(mc::Ctx &, std::vector<std::function<void()>>, const Options &);

// If not negative, new memory is filled with this byte.
extern int fill;
// The last blocks that operator new provided.
struct Block {
    const char *p;
    std::size_t size;
};
inline constexpr unsigned n_blocks = 16;
extern Block blocks[n_blocks];
extern unsigned long last_block;
// If not negative, the number of calls of operator new until one fails (once).
extern long alloc_countdown;
// Memory obtained from operator new and not given back.
extern long live_bytes;
// Identifier of the running thread: 0 outside run().
unsigned self();
// A scheduling point, for the harness.
void point();
// Accesses made in the scope are not checked (harness bookkeeping).
struct Quiet {
    Quiet();
    ~Quiet();
};

} // namespace rt

#endif
