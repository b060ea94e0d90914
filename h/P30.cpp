// P30: the range check of products of monomials.
#include "mono.hpp"

#include <forward_list>

#include <tbb/parallel_for.h>

using namespace hv;

namespace
{

// Whether all the products are representable: exponents within the limits of their group, and for d_packed monomials
// degrees within the exponent type.
template <typename K, typename V>
bool expected(const std::vector<V> &a, const std::vector<V> &b, unsigned n)
{
    using T = typename K::value_type;
    const auto lims = mono_info<K>::lims(n);
    for (const auto &x : a)
        for (const auto &y : b) {
            i128 d = 0;
            for (unsigned i = 0; i < n; ++i) {
                const i128 s = i128(x[i]) + i128(y[i]);
                if (!in_range(s, lims)) return false;
                d += s;
            }
            if (d < i128(std::numeric_limits<T>::min()) || d > i128(std::numeric_limits<T>::max())) return false;
        }
    return true;
}

// Small ranges: all lists of up to 2 (thorough: 3) monomials of a universe against all of the other ones.
template <typename K>
void small(mc::Ctx &ctx)
{
    const auto n = ctx.choose(std::min(mono_info<K>::max_symbols(), 6u) + 1u, "symbols");
    const auto &ss = sym_set(n);
    using V = std::vector<typename K::value_type>;
    auto vs = mono_vecs<K>(n, n <= 2u ? 36 : 60);
    if (vs.size() > 24u && !ctx.thorough()) {
        std::vector<V> w;
        for (std::size_t i = 0; i < vs.size(); i += 2u) w.push_back(vs[i]);
        vs = w;
    }
    std::vector<std::vector<V>> lists{{}};
    for (const auto &x : vs) lists.push_back({x});
    for (const auto &x : vs)
        for (const auto &y : vs) lists.push_back({x, y});
    const auto &a = ctx.pick(lists, "first range");
    std::vector<K> ka;
    for (const auto &v : a) ka.push_back(mono_of<K>(v));
    const std::list<K> la(ka.begin(), ka.end());
    std::map<V, K> km;
    for (const auto &v : vs) km.emplace(v, mono_of<K>(v));
    const bool big = lists.size() > 700u;
    for (std::size_t j = big ? a.size() : 0u; j < lists.size(); j += (big && !ctx.thorough() ? 3u : 1u)) {
        const auto &b = lists[j];
        std::vector<K> kb;
        for (const auto &v : b) kb.push_back(km.find(v)->second);
        const bool e = a.empty() || b.empty() || expected<K>(a, b, n);
        const bool r = obake::monomial_range_overflow_check(ka, kb, ss);
        ctx.op();
        ctx.validated();
        const auto msg = [&](const char *how) {
            std::string s = mc::cat(kname<K>(), " (", how, "): the products of [");
            for (const auto &v : a) s += vstr(v);
            s += "] and [";
            for (const auto &v : b) s += vstr(v);
            return s + "] should be " + (e ? "accepted" : "rejected");
        };
        if (r != e) ctx.fail(msg("vectors"));
        if (j % 5u == 0u) {
            ctx.op(4);
            ctx.validated(4);
            if (obake::monomial_range_overflow_check(kb, ka, ss) != e) ctx.fail(msg("exchanged"));
            if (obake::monomial_range_overflow_check(la, kb, ss) != e) ctx.fail(msg("list and vector"));
            if (obake::monomial_range_overflow_check(kb, std::forward_list<K>(ka.begin(), ka.end()), ss) != e) ctx.fail(msg("vector and forward list"));
            if (obake::monomial_range_overflow_check(std::vector<K>(ka), std::as_const(kb), ss) != e) ctx.fail(msg("rvalue and constant"));
        }
    }
    ctx.state(mc::cat(kname<K>(), n, " ", ctx.thorough(), " ", a.size(), a.empty() ? "" : vstr(a[0])));
}

mc::Ctx *cur = nullptr;
unsigned hook(unsigned n, const char *l)
{
    return cur->choose(n, l);
}
struct Hooked {
    explicit Hooked(mc::Ctx &c, unsigned leaves)
    {
        cur = &c;
        tbb_mc::hooks.choose = hook;
        tbb_mc::hooks.max_leaves = leaves;
    }
    ~Hooked()
    {
        tbb_mc::hooks.choose = nullptr;
        tbb_mc::hooks.max_leaves = 4;
        cur = nullptr;
    }
};

// Large ranges: two elements matter, placed at every interesting position; every way of splitting and ordering the work.
template <typename K>
void large(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    using V = std::vector<T>;
    const unsigned n = is_dpacked<K> ? group_size<K>::get(0) + 1u : 2u;
    const auto &ss = sym_set(n);
    const auto [lo, hi] = mono_info<K>::lims(n);
    const std::size_t size = ctx.pick(ctx.thorough() ? std::vector<std::size_t>{5001, 5002, 6001} : std::vector<std::size_t>{5001, 6000}, "size");
    const std::size_t osize = ctx.pick(std::vector<std::size_t>{1, 3, 5003}, "other size");
    if (osize > 1u && !ctx.thorough() && size != 5001u) ctx.prune();
    // The halves and quarters of the range without its first element, and their neighbours.
    std::set<std::size_t> ps{0, 1, 2, size - 1u, size - 2u};
    for (std::size_t q = 1; q < 4u; ++q)
        for (int d = (ctx.thorough() || q == 2u) ? -1 : 0; d <= (ctx.thorough() || q == 2u ? 1 : 0); ++d)
            ps.insert(1u + (size - 1u) * q / 4u + static_cast<std::size_t>(d + 1) - 1u);
    const std::vector<std::size_t> pos(ps.begin(), ps.end());
    const auto p = ctx.pick(pos, "position");
    const auto q = osize == 1u ? 0u : ctx.pick(std::vector<std::size_t>{osize / 2u, osize - 1u}, "other position");
    // Which component, which limit, and whether it is exceeded.
    const auto comp = ctx.choose(2, "component") ? n - 1u : 0u;
    const bool low = std::is_signed_v<T> && ctx.flag("lower limit");
    const bool exceed = ctx.flag("exceed");
    const bool second = ctx.flag("second");
    V base(n, T(0)), x(n, T(0)), y(n, T(0));
    x[comp] = low ? static_cast<T>(lo + 1) : static_cast<T>(hi - 1);
    y[comp] = low ? static_cast<T>(exceed ? -2 : -1) : static_cast<T>(exceed ? 2 : 1);
    std::vector<K> r1(size, mono_of<K>(base)), r2(osize, mono_of<K>(base));
    r1[p] = mono_of<K>(x);
    r2[q] = mono_of<K>(y);
    Hooked h(ctx, (ctx.thorough() ? 4 : 3) - (osize > 1u ? 1 : 0));
    const bool r = second ? obake::monomial_range_overflow_check(r2, r1, ss) : obake::monomial_range_overflow_check(r1, r2, ss);
    ctx.op();
    MC_CHECK(ctx, r == !exceed, kname<K>(), ": ranges of ", size, " and ", osize, " monomials whose only non-trivial product is that of ", vstr(x), " at ", p, " and ", vstr(y), " at ", q, second ? ", exchanged" : "", ": should be ", exceed ? "rejected" : "accepted");
    ctx.state(mc::cat(kname<K>(), size, " ", osize, " ", p, " ", q, " ", comp, low, exceed, second));
}
// Degrees of d_packed monomials: every component fits, the degree does not.
template <typename K>
void large_degree(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    if constexpr (is_dpacked<K>) {
        // Enough symbols for the degree to overflow.
        const auto [lo, hi] = mono_info<K>::lims(1);
        const bool low = std::is_signed_v<T> && ctx.flag("lower limit");
        const i128 top = low ? -i128(std::numeric_limits<T>::min()) : i128(std::numeric_limits<T>::max());
        const i128 each = low ? -i128(lo) : i128(hi);
        const i128 cnt = (top + each - 1) / each + 1;
        if (cnt > 40) {
            // Such groups hold small exponents only.
            ctx.state(0);
            return;
        }
        const auto n = static_cast<unsigned>(cnt);
        const auto &ss = sym_set(n);
        const std::size_t size = ctx.pick(std::vector<std::size_t>{2, 5001, 5002}, "size");
        const auto p = ctx.pick(std::vector<std::size_t>{0, 1, size / 2u, size - 1u}, "position");
        const int d = static_cast<int>(ctx.choose(3, "excess")) - 1;
        const bool second = ctx.flag("second");
        // One monomial has degree top - 1, the other one 1 + d, in components that fit.
        std::vector<T> x(n, T(0)), y(n, T(0));
        i128 rest = top - 1;
        for (unsigned i = 0; i < n && rest > 0; ++i) {
            const i128 v = std::min(rest, each - 2);
            x[i] = static_cast<T>(low ? -v : v);
            rest -= v;
        }
        if (rest != 0) ctx.prune();
        y[n - 1u] = static_cast<T>(low ? -(1 + d) : 1 + d);
        std::vector<K> r1(size, mono_of<K>(std::vector<T>(n, T(0)))), r2(1, mono_of<K>(y));
        r1[p] = mono_of<K>(x);
        const bool e = expected<K>({x, std::vector<T>(n, T(0))}, std::vector<std::vector<T>>{y}, n);
        Hooked h(ctx, ctx.thorough() ? 4 : 3);
        const bool r = second ? obake::monomial_range_overflow_check(r2, r1, ss) : obake::monomial_range_overflow_check(r1, r2, ss);
        ctx.op();
        MC_CHECK(ctx, r == e && e == (d <= 0), kname<K>(), ": ranges of ", size, " and 1 monomials, degree ", istr(low ? -top : top), " + ", d, " at ", p, ": should be ", e ? "accepted" : "rejected");
        ctx.state(mc::cat(kname<K>(), low, size, " ", p, " ", d, second));
    } else {
        ctx.state(0);
    }
}

#define S1(K, N) {"small_" N, small<K>, 2}, {"large_" N, large<K>, 4}, {"degree_" N, large_degree<K>, 2},
mc::Reg reg({MONO_TYPES(S1)});

} // namespace
