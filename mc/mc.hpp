// Bounded-exhaustive explorer ("model checker on the real code").
//
// A scenario is a function body(mc::Ctx &) whose nondeterminism comes only from
// Ctx::choose(). The explorer enumerates ALL the choice sequences (depth-first, by
// re-execution), sharded over a few processes, and runs the body on each of them. A
// sequence of choices is the replay artifact of an execution. Scenarios must be
// deterministic functions of their choices.
//
// Outcome of an execution: it returns (fine), throws mc::Violation (via MC_CHECK),
// lets another exception escape, crashes (signal, failed assertion) or stops
// making progress: all but the first are violations.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <cstddef>
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace mc
{

struct Violation {
    std::string msg;
};

class Ctx
{
public:
    // Pick one of n alternatives (0 .. n-1).
    unsigned choose(unsigned n, const char *label = "");
    template <typename T>
    const T &pick(const std::vector<T> &v, const char *label = "")
    {
        return v[choose(static_cast<unsigned>(v.size()), label)];
    }
    bool flag(const char *label = "")
    {
        return choose(2, label) != 0u;
    }
    // One transition: an operation of the code under test was executed (and compared to the oracle).
    void op(unsigned n = 1);
    // One comparison of an observation of the implementation to the reference model.
    void validated(unsigned n = 1);
    // Record a canonical state.
    void state(std::uint64_t);
    void state(const std::string &);
    // Free-form log, kept for samples and replays.
    void log(const std::string &);
    bool logging() const
    {
        return m_logging;
    }
    bool thorough() const
    {
        return m_thorough;
    }
    // Abandon the execution: it is outside the bounds (not counted as an execution).
    [[noreturn]] void prune();
    [[noreturn]] void fail(const std::string &);

    bool m_logging = false, m_thorough = false;
};

struct Scenario {
    std::string name;
    std::function<void(Ctx &)> body;
    // Number of leading choices by which the executions are distributed over the workers.
    unsigned shard_depth = 2;
    // 0: both tiers, 1: thorough only, 2: quick only.
    int tier = 0;
    // Run each execution in its own child process (for scenarios with process-wide state).
    bool isolate = false;
};

// What std::thread::hardware_concurrency() answers.
extern unsigned cores;

int run(int argc, char **argv, std::vector<Scenario>);

// The scenarios of all the translation units (mc.cpp contains main()).
std::vector<Scenario> &registry();
// (Where the scenarios of several checks are explored together, they are told apart by a prefix.)
#ifndef SCENARIO_PREFIX
#define SCENARIO_PREFIX ""
#endif
#ifndef SCENARIO_SKIP
#define SCENARIO_SKIP ""
#endif
struct Reg {
    Reg(std::vector<Scenario> v, const std::string &prefix = SCENARIO_PREFIX, const std::string &skip = SCENARIO_SKIP)
    {
        for (auto &s : v) {
            if (!skip.empty() && s.name.find(skip) != std::string::npos) continue;
            s.name = prefix + s.name;
            registry().push_back(std::move(s));
        }
    }
};

// Hook executed in each worker before the first execution.
extern void (*worker_init)();
// Hook executed before every execution.
extern void (*exec_begin)(Ctx &);
extern void (*exec_end)(Ctx &);

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}
inline std::uint64_t hstr(const std::string &s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    return mix(h, s.size());
}

template <typename... A>
inline std::string cat(const A &...a)
{
    std::ostringstream o;
    ((o << a), ...);
    return o.str();
}

} // namespace mc

#define MC_CHECK(ctx, cond, ...)                                                                                       \
    do {                                                                                                               \
        (ctx).validated();                                                                                             \
        if (!(cond)) {                                                                                                 \
            (ctx).fail(::mc::cat(__VA_ARGS__, "  [failed: ", #cond, "]"));                                             \
        }                                                                                                              \
    } while (0)

// Run an expression and classify the exception it throws, if any.
#define MC_THROWS(ctx, expr, exc, ...)                                                                                 \
    do {                                                                                                               \
        bool mc_thrown_ = false;                                                                                       \
        try {                                                                                                          \
            (void)(expr);                                                                                              \
        } catch (const exc &) {                                                                                        \
            mc_thrown_ = true;                                                                                         \
        }                                                                                                              \
        (ctx).validated();                                                                                             \
        if (!mc_thrown_) {                                                                                             \
            (ctx).fail(::mc::cat(__VA_ARGS__, "  [not thrown: ", #exc, " by ", #expr, "]"));                           \
        }                                                                                                              \
    } while (0)

#endif
