// P37: the spin lock and the arrays of flags.
#include "../mc/mc.hpp"
#include "../mc/rt.hpp"

#include <atomic>
#include <limits>
#include <new>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include <obake/detail/atomic_flag_array.hpp>
#include <obake/detail/atomic_lock_guard.hpp>

using obake::detail::atomic_flag_array;
using obake::detail::atomic_lock_guard;

namespace
{

struct Leave {
    int x;
};

// What a flag protects: plain data.
struct Data {
    unsigned long value = 0, owner = 0, max_inside = 0, inside = 0;
    std::vector<unsigned> history;
};

// One section: what a thread does while it holds a flag.
void section(Data &d, bool points, bool yields)
{
    d.owner = rt::self();
    const auto v = d.value;
    if (++d.inside > d.max_inside) d.max_inside = d.inside;
    if (points) rt::point();
    d.value = v + 1u;
    d.history.push_back(rt::self());
    if (yields) rt::point();
    if (d.owner != rt::self()) d.max_inside = 99;
    --d.inside;
}

// Every thread executes a program: a list of (flag, way to leave the section).
void sections(mc::Ctx &ctx, unsigned nt, unsigned max_len, unsigned dev, bool nested)
{
    const unsigned nf = 1u + ctx.choose(3, "flags") % 3u;
    struct Step {
        unsigned flag, exit;
    };
    std::vector<std::vector<Step>> prog(nt);
    std::vector<unsigned> expected(nf);
    std::string txt;
    for (unsigned t = 0; t < nt; ++t) {
        const auto len = 1u + ctx.choose(max_len, "length");
        for (unsigned i = 0; i < len; ++i) {
            // Up to a renaming of the flags, the first section uses the first flag.
            const Step s{t + i == 0u ? 0u : ctx.choose(nf, "flag"), ctx.choose(2, "exit")};
            prog[t].push_back(s);
            ++expected[s.flag];
            txt += mc::cat(" ", t + 1u, s.exit ? "!" : ":", s.flag);
        }
    }
    const bool array = ctx.flag("array");
    // The flags: an array, or separate ones.
    rt::fill = 0xff;
    atomic_flag_array arr(nf);
    rt::fill = -1;
    std::vector<std::unique_ptr<std::atomic_flag>> sep;
    for (unsigned i = 0; i < nf; ++i) {
        sep.push_back(std::make_unique<std::atomic_flag>());
        sep.back()->clear();
    }
    std::vector<Data> data(nf);
    std::vector<unsigned> caught(nt);
    std::vector<std::function<void()>> fns;
    for (unsigned t = 0; t < nt; ++t) {
        fns.push_back([&, t]() {
            for (const auto &s : prog[t]) {
                auto &fl = array ? arr[s.flag] : *sep[s.flag];
                try {
                    atomic_lock_guard lock(fl);
                    section(data[s.flag], true, nested);
                    if (s.exit) throw Leave{static_cast<int>(t)};
                } catch (const Leave &l) {
                    if (l.x == static_cast<int>(t)) ++caught[t];
                }
            }
        });
    }
    rt::Options o;
    o.workers = 0;
    o.deviations = dev;
    const auto st = rt::run(ctx, fns, o);
    ctx.op(static_cast<unsigned>(st.sync));
    ctx.state(mc::mix(st.hash, mc::hstr(txt)));
    for (unsigned i = 0; i < nf; ++i) {
        MC_CHECK(ctx, data[i].value == expected[i], "sections", txt, ": flag ", i, " protected ", data[i].value, " increments out of ", expected[i]);
        MC_CHECK(ctx, data[i].history.size() == expected[i], "sections", txt, ": ", data[i].history.size(), " entries");
        MC_CHECK(ctx, data[i].max_inside <= 1u, "sections", txt, ": several threads were inside at once");
        // All the flags are released.
        MC_CHECK(ctx, !(array ? arr[i] : *sep[i]).test_and_set(), "sections", txt, ": flag ", i, " is still held at the end");
        // (and the other ones are untouched by that)
    }
    for (unsigned t = 0; t < nt; ++t) {
        unsigned n = 0;
        for (const auto &s : prog[t]) n += s.exit;
        MC_CHECK(ctx, caught[t] == n, "sections", txt, ": exceptions seen by thread ", t + 1u, ": ", caught[t], " instead of ", n);
    }
    if (ctx.logging()) ctx.log(mc::cat("sections", txt, array ? " (array)" : ""));
}

// A thread that holds a flag waits for another one to use another flag of the same array.
void independent(mc::Ctx &ctx)
{
    const unsigned nf = 2u + ctx.choose(ctx.thorough() ? 16u : 9u, "flags");
    const auto a = ctx.choose(nf, "first"), b = ctx.choose(nf, "second");
    if (a == b) ctx.prune();
    rt::fill = static_cast<int>(ctx.choose(2, "memory") * 0xffu);
    atomic_flag_array arr(nf);
    rt::fill = -1;
    std::atomic<int> stage{0};
    unsigned long x = 0, y = 0;
    std::vector<std::function<void()>> fns;
    fns.push_back([&]() {
        atomic_lock_guard l(arr[a]);
        x = 1;
        stage.store(1, std::memory_order_relaxed);
        while (stage.load(std::memory_order_relaxed) != 2) {
        }
        x = 2;
    });
    fns.push_back([&]() {
        while (stage.load(std::memory_order_relaxed) == 0) {
        }
        {
            atomic_lock_guard l(arr[b]);
            y = 1;
        }
        {
            atomic_lock_guard l(arr[b]);
            y = 2;
        }
        stage.store(2, std::memory_order_relaxed);
        // The other one leaves its section sooner or later.
        atomic_lock_guard l(arr[a]);
        y += x;
    });
    rt::Options o;
    o.workers = 0;
    o.deviations = 2;
    const auto st = rt::run(ctx, fns, o);
    ctx.op(static_cast<unsigned>(st.sync));
    ctx.state(mc::mix(st.hash, nf * 10000u + a * 100u + b));
    MC_CHECK(ctx, x == 2u && y == 4u, "two flags (", a, ", ", b, ") of ", nf, ": ", x, ", ", y);
}

// Message passing: what is written inside is seen by the next owner, and nothing else orders the two.
void visible(mc::Ctx &ctx)
{
    const unsigned nt = 2u + ctx.choose(2, "threads");
    atomic_flag_array arr(1);
    std::vector<std::string> log;
    std::unique_ptr<std::string> p;
    std::vector<std::function<void()>> fns;
    for (unsigned t = 0; t < nt; ++t) {
        fns.push_back([&, t]() {
            atomic_lock_guard l(arr[0]);
            p = std::make_unique<std::string>(p ? *p + std::string(1, static_cast<char>('a' + t)) : std::string(1, static_cast<char>('a' + t)));
            log.push_back(*p);
        });
    }
    rt::Options o;
    o.workers = 0;
    o.deviations = ctx.thorough() ? 5 : 4;
    const auto st = rt::run(ctx, fns, o);
    ctx.op(static_cast<unsigned>(st.sync));
    ctx.state(st.hash);
    MC_CHECK(ctx, p && p->size() == nt && log.size() == nt, "messages: ", p ? *p : std::string("none"));
    for (unsigned i = 0; i < nt; ++i) MC_CHECK(ctx, log[i].size() == i + 1u && p->compare(0, i + 1u, log[i]) == 0, "message ", i, ": ", log[i], ", at the end ", *p);
}

// A new array: all the flags are released, whatever the memory contained; they are distinct and contiguous.
void fresh_array(mc::Ctx &ctx)
{
    std::vector<std::size_t> sizes;
    for (std::size_t i = 0; i <= 130u; ++i) sizes.push_back(i);
    for (std::size_t i : {255u, 256u, 257u, 1000u, 4095u, 4096u, 4097u, 65535u, 65536u, 65537u}) sizes.push_back(i);
    const auto n = ctx.pick(sizes, "size");
    static const int fills[] = {0, 0x01, 0x55, 0x80, 0xff};
    const auto fb = fills[ctx.choose(5, "memory")];
    rt::fill = fb;
    const auto b0 = rt::last_block;
    atomic_flag_array arr(n);
    rt::fill = -1;
    const auto b1 = rt::last_block;
    rt::Block blocks[rt::n_blocks];
    std::copy(std::begin(rt::blocks), std::end(rt::blocks), blocks);
    const auto &carr = arr;
    ctx.op();
    std::set<const void *> addr;
    for (std::size_t i = 0; i < n; ++i) {
        MC_CHECK(ctx, !arr[i].test_and_set(), "flag ", i, " of a new array of ", n, " flags in memory filled with ", fb, " is set");
        MC_CHECK(ctx, &carr[i] == &arr[i], "flag ", i, " of ", n, ": the constant access gives another flag");
        addr.insert(&arr[i]);
        // The memory it obtained holds all of them.
        const auto *const q = reinterpret_cast<const char *>(&arr[i]);
        bool inside = false, foreign = true;
        for (auto k = std::max(b0, b1 < rt::n_blocks ? 0ul : b1 - rt::n_blocks) + 1u; k <= b1; ++k) {
            const auto &m = blocks[k % rt::n_blocks];
            inside = inside || (q >= m.p && q + sizeof(arr[i]) <= m.p + m.size);
            foreign = foreign && (q < m.p || q > m.p + m.size + 16);
        }
        MC_CHECK(ctx, inside || foreign, "flag ", i, " of ", n, " is behind the memory of the array");
    }
    MC_CHECK(ctx, addr.size() == n, "the flags of an array of ", n, " are not distinct");
    // Release them one by one: the others remain set.
    const std::size_t stride = n <= 130u ? 1u : n / 37u;
    for (std::size_t i = 0; i < n; i += stride) {
        arr[i].clear();
        for (std::size_t j = 0; j < n; j += (n <= 40u ? 1u : n / 20u)) {
            const bool was = j <= i && j % stride == 0u;
            MC_CHECK(ctx, arr[j].test_and_set() == !was, "array of ", n, ": after the release of the flags up to ", i, ", flag ", j);
            if (was) arr[j].clear();
        }
    }
}
// No array of an absurd size.
void huge_array(mc::Ctx &ctx)
{
    const auto m = std::numeric_limits<std::size_t>::max();
    const std::vector<std::size_t> sizes{m, m - 1u, m / 2u + 1u, m - 15u};
    const auto n = ctx.pick(sizes, "size");
    MC_THROWS(ctx, atomic_flag_array(n), std::bad_alloc, "an array of ", n, " flags");
}

// Release orders: the guard is dropped when a scope is left by return, break, exception or the end, nested guards in
// reverse order; each of them released at once (not at the end of the thread).
void scopes(mc::Ctx &ctx)
{
    const auto how = ctx.choose(6, "exit");
    atomic_flag_array arr(3);
    bool seen[3] = {false, false, false};
    auto f = [&]() -> int {
        for (int k = 0; k < 2; ++k) {
            atomic_lock_guard l0(arr[0]);
            {
                atomic_lock_guard l1(arr[1]);
                if (how == 0u) return 1;
                if (how == 1u) throw Leave{1};
                if (how == 2u) break;
                if (how == 3u) continue;
                if (how == 4u) {
                    try {
                        atomic_lock_guard l2(arr[2]);
                        throw Leave{2};
                    } catch (const Leave &) {
                        seen[2] = arr[2].test_and_set();
                        arr[2].clear();
                        // The outer ones are still held.
                        if (!arr[0].test_and_set() || !arr[1].test_and_set()) return 5;
                    }
                }
            }
            seen[1] = seen[1] || arr[1].test_and_set();
            arr[1].clear();
        }
        return 0;
    };
    int r = -1;
    // While another exception is being handled or is propagating, too.
    struct D {
        std::function<void()> f;
        ~D() noexcept(false)
        {
            f();
        }
    };
    const auto mode = ctx.choose(3, "context");
    const auto call = [&]() {
        try {
            r = f();
        } catch (const Leave &) {
            r = 2;
        }
    };
    if (mode == 0u) call();
    else if (mode == 1u) {
        try {
            throw 1;
        } catch (int) {
            call();
        }
    } else {
        try {
            D d{call};
            throw 1;
        } catch (int) {
        }
    }
    ctx.op();
    const int er = how == 0u ? 1 : how == 1u ? 2 : 0;
    MC_CHECK(ctx, r == er, "scope left in way ", how, ": ", r);
    MC_CHECK(ctx, !seen[1] && !seen[2], "scope left in way ", how, ": a flag was still held after the end of its scope");
    for (unsigned i = 0; i < 3u; ++i) MC_CHECK(ctx, !arr[i].test_and_set(), "scope left in way ", how, " (context ", mode, "): flag ", i, " remains held");
}

mc::Reg reg({
    {"two threads", [](mc::Ctx &c) { sections(c, 2, 2, c.thorough() ? 5 : 4, true); }, 4},
    {"two threads, longer", [](mc::Ctx &c) { sections(c, 2, 3, 3, false); }, 5, 1},
    {"three threads", [](mc::Ctx &c) { sections(c, 3, 1, c.thorough() ? 5 : 3, false); }, 4},
    {"independence", independent, 3},
    {"visibility", visible, 2},
    {"new arrays", fresh_array, 2},
    {"huge arrays", huge_array, 1},
    {"scopes", scopes, 2},
});

} // namespace
