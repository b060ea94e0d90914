// Stand-in for the subset of oneTBB that a library like obake can use, with all the
// scheduling decisions (how ranges are split, in which order and by which thread the
// tasks run) handed to a hook, so that a model checker can enumerate them.
#ifndef VERIF_TBB_MC_HPP
#define VERIF_TBB_MC_HPP

#include <algorithm>
#include <cstddef>
#include <exception>
#include <functional>
#include <iterator>
#include <memory>
#include <thread>
#include <utility>
#include <vector>

namespace tbb_mc
{

struct Hooks {
    // Scheduling choice among n alternatives. Null: the default behaviour (always the same one).
    unsigned (*choose)(unsigned n, const char *label) = nullptr;
    // Run all the tasks of a group and wait. Null: in order, on the calling thread.
    void (*run)(std::vector<std::function<void()>> &tasks) = nullptr;
    // Isolated execution.
    void (*isolate)(const std::function<void()> &) = nullptr;
    // Bound on the number of leaf tasks created by one parallel loop (when splits are chosen).
    unsigned max_leaves = 4;
    // If false, the order of execution is fixed and only the splits are chosen.
    bool choose_order = true;
    bool choose_split = true;
    // In order on the calling thread, without any memory allocation of the stand-in's own.
    bool plain = false;
    // Bookkeeping.
    unsigned long n_groups = 0, n_tasks = 0;
};

inline Hooks hooks;

inline void run_group(std::vector<std::function<void()>> &tasks)
{
    if (hooks.run) {
        hooks.run(tasks);
        return;
    }
    ++hooks.n_groups;
    hooks.n_tasks += tasks.size();
    if (hooks.choose && hooks.choose_order) {
        while (!tasks.empty()) {
            const unsigned i = hooks.choose(static_cast<unsigned>(tasks.size()), "order");
            auto t = std::move(tasks[i]);
            tasks.erase(tasks.begin() + i);
            t();
        }
    } else {
        for (auto &t : tasks) t();
    }
}

// Split a range into contiguous leaves.
template <typename R>
inline void leaves(R r, std::vector<R> &out, unsigned &budget)
{
    bool split = false;
    if (r.is_divisible() && budget) {
        split = (hooks.choose && hooks.choose_split) ? hooks.choose(2, "split") != 0u : true;
    }
    if (split) {
        --budget;
        R right(r, ::std::true_type{});
        leaves(r, out, budget);
        leaves(right, out, budget);
    } else {
        out.push_back(r);
    }
}

} // namespace tbb_mc

namespace tbb
{

struct split {
    // NOTE: lets the range types of the stand-in be split also from within it.
    split() = default;
    split(std::true_type) {}
};

struct auto_partitioner {
};
struct simple_partitioner {
};
struct static_partitioner {
};
struct affinity_partitioner {
};

template <typename T>
class blocked_range
{
public:
    using const_iterator = T;
    using size_type = std::size_t;
    blocked_range(T b, T e, size_type g = 1) : m_b(b), m_e(e), m_g(g) {}
    blocked_range(blocked_range &r, split) : m_b(r.m_b + static_cast<decltype(r.m_e - r.m_b)>((r.m_e - r.m_b) / 2)), m_e(r.m_e), m_g(r.m_g)
    {
        r.m_e = m_b;
    }
    const_iterator begin() const
    {
        return m_b;
    }
    const_iterator end() const
    {
        return m_e;
    }
    size_type size() const
    {
        return static_cast<size_type>(m_e - m_b);
    }
    size_type grainsize() const
    {
        return m_g;
    }
    bool empty() const
    {
        return !(m_b < m_e);
    }
    bool is_divisible() const
    {
        return m_g < size();
    }

private:
    T m_b, m_e;
    size_type m_g;
};

template <typename Range, typename Body, typename... P>
    requires requires(const Range &r) { r.is_divisible(); }
inline void parallel_for(const Range &r, const Body &body, P &&...)
{
    if (r.empty()) return;
    if (tbb_mc::hooks.plain) {
        Range left(r);
        if (left.is_divisible()) {
            const Range right(left, std::true_type{});
            body(static_cast<const Range &>(left));
            body(right);
        } else {
            body(static_cast<const Range &>(left));
        }
        return;
    }
    std::vector<Range> lv;
    unsigned budget = tbb_mc::hooks.max_leaves > 0u ? tbb_mc::hooks.max_leaves - 1u : 0u;
    tbb_mc::leaves(r, lv, budget);
    std::vector<std::function<void()>> tasks;
    for (auto &l : lv) tasks.emplace_back([&l, &body]() { body(l); });
    tbb_mc::run_group(tasks);
}
template <typename I, typename F>
    requires std::is_integral_v<I>
inline void parallel_for(I b, I e, const F &f)
{
    tbb::parallel_for(blocked_range<I>(b, e), [&f](const auto &r) {
        for (auto i = r.begin(); i != r.end(); ++i) f(i);
    });
}
template <typename I, typename F>
    requires std::is_integral_v<I>
inline void parallel_for(I b, I e, I step, const F &f)
{
    const I n = b < e ? static_cast<I>((e - b - I(1)) / step + I(1)) : I(0);
    tbb::parallel_for(blocked_range<I>(I(0), n), [&](const auto &r) {
        for (auto i = r.begin(); i != r.end(); ++i) f(static_cast<I>(b + i * step));
    });
}
template <typename It, typename F>
inline void parallel_for_each(It b, It e, const F &f)
{
    if (tbb_mc::hooks.plain) {
        for (; b != e; ++b) f(*b);
        return;
    }
    std::vector<std::function<void()>> tasks;
    for (; b != e; ++b) tasks.emplace_back([b, &f]() { f(*b); });
    tbb_mc::run_group(tasks);
}
template <typename C, typename F>
inline void parallel_for_each(C &&c, const F &f)
{
    tbb::parallel_for_each(std::begin(c), std::end(c), f);
}

namespace detail_mc
{
template <typename Range, typename V, typename F, typename C>
inline V reduce(Range r, const V &id, V init, const F &f, const C &c, unsigned &budget, bool det)
{
    unsigned mode = 0; // 0: one leaf, 1: split and join, 2: split, the right part continues from the left result.
    if (r.is_divisible() && budget) {
        if (det) {
            mode = 1;
        } else {
            mode = (tbb_mc::hooks.choose && tbb_mc::hooks.choose_split) ? tbb_mc::hooks.choose(3, "reduce") : 1u;
        }
    }
    if (mode == 0u) return f(static_cast<const Range &>(r), std::move(init));
    if (tbb_mc::hooks.plain) {
        budget = 0;
        Range right(r, split{});
        V lres = f(static_cast<const Range &>(r), std::move(init));
        V rres = f(static_cast<const Range &>(right), V(id));
        return c(std::move(lres), std::move(rres));
    }
    --budget;
    Range right(r, split{});
    if (mode == 2u) {
        V left = reduce(r, id, std::move(init), f, c, budget, det);
        return reduce(right, id, std::move(left), f, c, budget, det);
    }
    // NOTE: the budget is divided beforehand, as the two halves may run in any order.
    unsigned bl = budget / 2u, br = budget - bl;
    budget = 0;
    std::unique_ptr<V> lres, rres;
    std::vector<std::function<void()>> tasks;
    tasks.emplace_back([&]() { lres = std::make_unique<V>(reduce(r, id, std::move(init), f, c, bl, det)); });
    tasks.emplace_back([&]() { rres = std::make_unique<V>(reduce(right, id, V(id), f, c, br, det)); });
    tbb_mc::run_group(tasks);
    return c(std::move(*lres), std::move(*rres));
}
} // namespace detail_mc

template <typename Range, typename V, typename F, typename C, typename... P>
    requires requires(const Range &r) { r.is_divisible(); }
inline V parallel_reduce(const Range &r, const V &id, const F &f, const C &c, P &&...)
{
    if (r.empty()) return id;
    unsigned budget = tbb_mc::hooks.max_leaves > 0u ? tbb_mc::hooks.max_leaves - 1u : 0u;
    return detail_mc::reduce(r, id, V(id), f, c, budget, false);
}
template <typename Range, typename V, typename F, typename C, typename... P>
inline V parallel_deterministic_reduce(const Range &r, const V &id, const F &f, const C &c, P &&...)
{
    if (r.empty()) return id;
    unsigned budget = tbb_mc::hooks.max_leaves > 0u ? tbb_mc::hooks.max_leaves - 1u : 0u;
    return detail_mc::reduce(r, id, V(id), f, c, budget, true);
}

template <typename... F>
inline void parallel_invoke(F &&...f)
{
    if (tbb_mc::hooks.plain) {
        (std::forward<F>(f)(), ...);
        return;
    }
    std::vector<std::function<void()>> tasks;
    (tasks.emplace_back([&f]() { std::forward<F>(f)(); }), ...);
    tbb_mc::run_group(tasks);
}

template <typename It, typename Cmp>
inline void parallel_sort(It b, It e, const Cmp &c)
{
    // NOTE: the real one is not stable: equivalent elements may end up in any order.
    if (tbb_mc::hooks.choose && tbb_mc::hooks.choose_order && e - b > 1 && tbb_mc::hooks.choose(2, "sort")) {
        std::reverse(b, e);
        std::stable_sort(b, e, c);
    } else {
        std::sort(b, e, c);
    }
}
template <typename It>
inline void parallel_sort(It b, It e)
{
    tbb::parallel_sort(b, e, std::less<>{});
}

namespace this_task_arena
{
template <typename F>
inline auto isolate(const F &f) -> decltype(f())
{
    if (!tbb_mc::hooks.isolate) return f();
    if constexpr (std::is_void_v<decltype(f())>) {
        tbb_mc::hooks.isolate([&f]() { f(); });
    } else {
        std::unique_ptr<decltype(f())> r;
        tbb_mc::hooks.isolate([&f, &r]() { r = std::make_unique<decltype(f())>(f()); });
        return std::move(*r);
    }
}
inline int max_concurrency()
{
    return static_cast<int>(std::thread::hardware_concurrency());
}
} // namespace this_task_arena

class task_arena
{
public:
    static constexpr int automatic = -1;
    explicit task_arena(int = automatic, unsigned = 1) {}
    template <typename F>
    auto execute(F &&f) -> decltype(f())
    {
        return this_task_arena::isolate(f);
    }
    void initialize() {}
    int max_concurrency() const
    {
        return this_task_arena::max_concurrency();
    }
};

class task_group
{
    std::vector<std::function<void()>> m_t;

public:
    template <typename F>
    void run(F f)
    {
        m_t.emplace_back(std::move(f));
    }
    void wait()
    {
        auto t = std::move(m_t);
        m_t.clear();
        tbb_mc::run_group(t);
    }
    template <typename F>
    void run_and_wait(F f)
    {
        run(std::move(f));
        wait();
    }
};

namespace info
{
inline int default_concurrency()
{
    return static_cast<int>(std::thread::hardware_concurrency());
}
} // namespace info

} // namespace tbb

namespace oneapi
{
namespace tbb = ::tbb;
}

#endif
