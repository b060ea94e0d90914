// P42: iteration over a series and lookup in it: laws of the iterators, over all layouts of bounded series; all
// histories of operations on iterators.
#include "pairs.hpp"

#include <algorithm>
#include <iterator>

#include <obake/power_series/power_series.hpp>

using namespace hv;

namespace
{

template <typename C>
C cf_of(int n)
{
    if constexpr (obake::is_cvr_series_v<C>) {
        using CK = obake::series_key_t<C>;
        C r;
        r.set_symbol_set(to_ss({"u"}));
        r.add_term(key_access<CK>::make({1}), obake::series_cf_t<C>(n));
        r.add_term(key_access<CK>::make({0}), obake::series_cf_t<C>(1));
        return r;
    } else {
        return C(n);
    }
}

// A series out of the terms of a list of exponents selected by a mask: term i has coefficient i + 1.
template <typename S>
S build_mask(const std::vector<Exps> &keys, unsigned mask, unsigned segs, bool reverse)
{
    using K = obake::series_key_t<S>;
    using C = obake::series_cf_t<S>;
    S s;
    s.set_n_segments(segs);
    Syms ss;
    for (std::size_t i = 0; i < keys[0].size(); ++i) ss.push_back(std::string(1, static_cast<char>('x' + i)));
    s.set_symbol_set(to_ss(ss));
    for (std::size_t j = 0; j < keys.size(); ++j) {
        const auto i = reverse ? keys.size() - 1u - j : j;
        if (mask & (1u << i)) s.add_term(key_access<K>::make(keys[i]), cf_of<C>(static_cast<int>(i) + 1));
    }
    return s;
}

template <typename It>
using ref_t = decltype(*std::declval<const It &>());

template <typename S>
constexpr bool static_laws()
{
    using I = typename S::iterator;
    using CI = typename S::const_iterator;
    using V = typename std::iterator_traits<CI>::value_type;
    static_assert(std::is_base_of_v<std::forward_iterator_tag, typename std::iterator_traits<I>::iterator_category>);
    static_assert(std::is_base_of_v<std::forward_iterator_tag, typename std::iterator_traits<CI>::iterator_category>);
    static_assert(std::is_same_v<ref_t<CI>, const V &>);
    static_assert(std::is_same_v<ref_t<I>, V &>);
    static_assert(std::is_same_v<decltype(std::declval<const I &>()->second), typename V::second_type>);
    static_assert(std::is_convertible_v<const I &, CI>);
    static_assert(!std::is_convertible_v<const CI &, I> && !std::is_constructible_v<I, const CI &>);
    static_assert(std::is_default_constructible_v<I> && std::is_default_constructible_v<CI>);
    static_assert(std::is_same_v<decltype(std::declval<const S &>().begin()), CI>);
    static_assert(std::is_same_v<decltype(std::declval<const S &>().end()), CI>);
    static_assert(std::is_same_v<decltype(std::declval<S &>().cbegin()), CI>);
    static_assert(std::is_same_v<decltype(std::declval<S &>().begin()), I>);
    static_assert(std::is_same_v<decltype(std::declval<S &>().find(std::declval<const obake::series_key_t<S> &>())), I>);
    static_assert(std::is_same_v<decltype(std::declval<const S &>().find(std::declval<const obake::series_key_t<S> &>())), CI>);
    static_assert(obake::is_forward_iterator_v<I> && obake::is_forward_iterator_v<CI>);
    static_assert(obake::is_range_v<S &> && obake::is_range_v<const S &> && obake::is_forward_range_v<S &> && obake::is_forward_range_v<const S &>);
    return true;
}

// Every layout: the terms visited, comparisons of all pairs of positions, lookup of all keys, writing through iterators.
template <typename S>
std::function<void(mc::Ctx &)> layouts(std::vector<Exps> keys, std::vector<Exps> absent, std::vector<unsigned> segs)
{
    static_assert(static_laws<S>());
    return [=](mc::Ctx &ctx) {
        using K = obake::series_key_t<S>;
        using C = obake::series_cf_t<S>;
        using I = typename S::iterator;
        using CI = typename S::const_iterator;
        const auto sg = ctx.pick(segs, "segments");
        const bool rev = ctx.flag("reverse");
        const auto mask = ctx.choose(1u << keys.size(), "terms");
        auto what = [&]() { return mc::cat("mask ", mask, ", 2^", sg, " segments, ", rev ? "inserted backwards" : "inserted forwards"); };
        S s = build_mask<S>(keys, mask, sg, rev);
        const S &cs = s;
        const auto nk = static_cast<unsigned>(keys[0].size());
        std::size_t n = 0;
        for (unsigned m = mask; m; m &= m - 1u) ++n;
        MC_CHECK(ctx, s.size() == n && s.empty() == (n == 0u), what(), ": size() = ", s.size(), ", empty() = ", s.empty());
        MC_CHECK(ctx, static_cast<std::size_t>(std::distance(cs.begin(), cs.end())) == n, what(), ": distance of the constant iterators");
        MC_CHECK(ctx, static_cast<std::size_t>(std::distance(s.begin(), s.end())) == n, what(), ": distance of the iterators");
        // The terms visited, const and not, by all the ways to iterate.
        std::vector<CI> pos;
        std::vector<I> mpos;
        std::set<Exps> seen;
        for (auto it = cs.begin();; ++it) {
            pos.push_back(it);
            if (it == cs.end()) break;
            ctx.op();
            const auto e = key_access<K>::get(it->first, nk);
            MC_CHECK(ctx, seen.insert(e).second, what(), ": the term ", vstr(e), " is visited twice");
            const auto i = static_cast<std::size_t>(std::find(keys.begin(), keys.end(), e) - keys.begin());
            MC_CHECK(ctx, i < keys.size() && (mask & (1u << i)), what(), ": visited a term ", vstr(e), " which was never added");
            MC_CHECK(ctx, it->second == cf_of<C>(static_cast<int>(i) + 1), what(), ": wrong coefficient for ", vstr(e));
            MC_CHECK(ctx, pos.size() <= n, what(), ": more than ", n, " terms are visited");
        }
        MC_CHECK(ctx, seen.size() == n && pos.size() == n + 1u, what(), ": ", seen.size(), " terms visited out of ", n);
        for (auto it = s.begin();; it++) {
            mpos.push_back(it);
            if (it == s.end()) break;
            MC_CHECK(ctx, mpos.size() <= n, what(), ": more than ", n, " terms are visited (mutable)");
        }
        MC_CHECK(ctx, mpos.size() == n + 1u, what(), ": ", mpos.size() - 1u, " terms visited out of ", n, " (mutable)");
        // All pairs of positions: equal if and only if they are the same position, same and mixed constness.
        for (std::size_t i = 0; i <= n; ++i) {
            for (std::size_t j = 0; j <= n; ++j) {
                const bool e = i == j;
                MC_CHECK(ctx, (pos[i] == pos[j]) == e && (pos[i] != pos[j]) == !e, what(), ": comparison of positions ", i, " and ", j);
                MC_CHECK(ctx, (mpos[i] == mpos[j]) == e && (mpos[i] != mpos[j]) == !e, what(), ": comparison of mutable positions ", i, " and ", j);
                MC_CHECK(ctx, (mpos[i] == pos[j]) == e && (mpos[i] != pos[j]) == !e, what(), ": mixed comparison of positions ", i, " and ", j);
                MC_CHECK(ctx, (pos[i] == mpos[j]) == e && (pos[i] != mpos[j]) == !e, what(), ": mixed comparison of positions ", i, " and ", j);
            }
            const CI c1 = mpos[i];
            CI c2;
            c2 = mpos[i];
            MC_CHECK(ctx, c1 == pos[i] && c2 == pos[i], what(), ": conversion of position ", i, " to a constant iterator");
            if (i < n) {
                MC_CHECK(ctx, &*mpos[i] == &*pos[i] && &*c1 == &*pos[i] && mpos[i].operator->() == &*pos[i], what(), ": conversion of position ", i);
                // Multipass: advancing copies gives the same positions.
                auto a = pos[i];
                auto b = mpos[i];
                const auto &ra = *a++;
                MC_CHECK(ctx, &ra == &*pos[i] && a == pos[i + 1u], what(), ": post-increment at ", i);
                auto &rb = ++b;
                MC_CHECK(ctx, &rb == &b && b == mpos[i + 1u] && mpos[i] != b, what(), ": pre-increment at ", i);
            }
            MC_CHECK(ctx, static_cast<std::size_t>(std::distance(pos[i], cs.end())) == n - i, what(), ": distance to the end from ", i);
        }
        MC_CHECK(ctx, CI{} == CI{} && I{} == I{}, what(), ": default-constructed iterators differ");
        MC_CHECK(ctx, CI(s.end()) == cs.cend() && cs.cbegin() == pos[0] && obake::begin(s) == pos[0] && obake::end(s) == pos[n] && obake::begin(cs) == pos[0] && obake::end(cs) == pos[n], what(), ": ends of the range");
        // Lookup.
        auto look = [&](const Exps &e, bool present) {
            ctx.op(2);
            const auto k = key_access<K>::make(e);
            const auto f = cs.find(k);
            const auto m = s.find(k);
            MC_CHECK(ctx, (f != cs.end()) == present && (m != s.end()) == present, what(), ": ", vstr(e), present ? " is not found" : " is found");
            MC_CHECK(ctx, m == f, what(), ": the two lookups of ", vstr(e), " differ");
            if (present) {
                MC_CHECK(ctx, key_access<K>::get(f->first, nk) == e && &*f == &*m, what(), ": lookup of ", vstr(e), " gives another term");
                const auto p = std::find(pos.begin(), pos.end(), f);
                MC_CHECK(ctx, p != pos.end() && &**p == &*f, what(), ": lookup of ", vstr(e), " gives an iterator which is not one of the positions");
                // Iteration goes on from there.
                const auto i = static_cast<std::size_t>(p - pos.begin());
                MC_CHECK(ctx, static_cast<std::size_t>(std::distance(f, cs.end())) == n - i && static_cast<std::size_t>(std::distance(m, s.end())) == n - i, what(), ": iteration from the result of the lookup of ", vstr(e));
            } else {
                MC_CHECK(ctx, f == cs.end() && m == s.end() && f == pos[n], what(), ": failed lookup of ", vstr(e));
            }
        };
        for (std::size_t i = 0; i < keys.size(); ++i) look(keys[i], (mask & (1u << i)) != 0u);
        for (const auto &e : absent) look(e, false);
        // Coefficients written through the iterators, and through lookup, are those of the series.
        int c = 100;
        std::map<Exps, int> w;
        for (auto &p : s) {
            w[key_access<K>::get(p.first, nk)] = ++c;
            p.second = cf_of<C>(c);
        }
        for (std::size_t i = 0; i < keys.size(); i += 2u) {
            if (!(mask & (1u << i))) continue;
            s.find(key_access<K>::make(keys[i]))->second = cf_of<C>(w[keys[i]] = ++c);
        }
        ctx.op(2);
        for (const auto &[e, v] : w) {
            const auto f = cs.find(key_access<K>::make(e));
            MC_CHECK(ctx, f != cs.end() && f->second == cf_of<C>(v), what(), ": coefficient of ", vstr(e), " after writing through an iterator");
        }
        check_inv(ctx, s, "after writing");
        // Standard algorithms.
        MC_CHECK(ctx, std::equal(cs.begin(), cs.end(), s.begin(), s.end(), [](const auto &x, const auto &y) { return &x == &y; }), what(), ": std::equal");
        MC_CHECK(ctx, static_cast<std::size_t>(std::count_if(cs.begin(), cs.end(), [](const auto &) { return true; })) == n, what(), ": std::count_if");
        // The range is empty after the terms are removed.
        s.clear_terms();
        MC_CHECK(ctx, s.begin() == s.end() && cs.begin() == cs.end(), what(), ": iteration after clear_terms()");
        for (const auto &e : keys) MC_CHECK(ctx, cs.find(key_access<K>::make(e)) == cs.end(), what(), ": lookup after clear_terms()");
        ctx.state(mc::mix(mask, sg * 2u + rev));
    };
}

// All histories of operations on two iterators, a constant iterator and the series they point into.
template <typename S>
std::function<void(mc::Ctx &)> histories(std::vector<Exps> keys, std::vector<unsigned> masks, std::vector<unsigned> segs, unsigned quick, unsigned deep)
{
    return [=](mc::Ctx &ctx) {
        using K = obake::series_key_t<S>;
        using I = typename S::iterator;
        using CI = typename S::const_iterator;
        using C = obake::series_cf_t<S>;
        const auto sg = ctx.pick(segs, "segments");
        const auto mask = ctx.pick(masks, "terms");
        S s = build_mask<S>(keys, mask, sg, false);
        const S &cs = s;
        // The sequence of terms, from the lookups (not from iteration) and the order of iteration.
        std::vector<const void *> seq;
        std::vector<int> cf;
        for (const auto &p : cs) seq.push_back(&p);
        for (auto it = cs.begin(); it != cs.end(); ++it) {
            const auto e = key_access<K>::get(it->first, static_cast<unsigned>(keys[0].size()));
            cf.push_back(static_cast<int>(std::find(keys.begin(), keys.end(), e) - keys.begin()) + 1);
        }
        const int n = static_cast<int>(seq.size());
        // Positions: -1 is singular.
        I it[2];
        CI ci;
        int p[3] = {-1, -1, -1};
        int next = 50;
        const unsigned depth = ctx.thorough() ? deep : quick;
        std::string h;
        for (unsigned d = 0; d < depth; ++d) {
            const auto o = ctx.choose(15, "operation");
            h += " " + std::to_string(o);
            switch (o) {
                case 0:
                    return;
                case 1:
                    if (p[0] < 0 || p[0] == n) ctx.prune();
                    ++it[0];
                    ++p[0];
                    break;
                case 2: {
                    if (p[0] < 0 || p[0] == n) ctx.prune();
                    it[1] = it[0]++;
                    p[1] = p[0]++;
                    break;
                }
                case 3:
                    it[1] = it[0];
                    p[1] = p[0];
                    break;
                case 4: {
                    using std::swap;
                    swap(it[0], it[1]);
                    std::swap(p[0], p[1]);
                    break;
                }
                case 5:
                    it[0] = s.begin();
                    p[0] = 0;
                    break;
                case 6:
                    it[1] = s.end();
                    p[1] = n;
                    break;
                case 7:
                    ci = it[0];
                    p[2] = p[0];
                    break;
                case 8:
                    if (p[2] < 0 || p[2] == n) ctx.prune();
                    it[0] = s.find(ci->first);
                    p[0] = p[2];
                    break;
                case 9:
                    if (p[0] < 0 || p[0] == n) ctx.prune();
                    it[0]->second = cf_of<C>(++next);
                    cf[static_cast<std::size_t>(p[0])] = next;
                    break;
                case 10:
                    it[0] = I{};
                    p[0] = -1;
                    break;
                case 11:
                    if (p[2] < 0 || p[2] == n) ctx.prune();
                    ci++;
                    ++p[2];
                    break;
                case 12:
                    it[0] = I(std::move(it[1]));
                    p[0] = p[1];
                    it[1] = s.begin();
                    p[1] = 0;
                    break;
                case 13: {
                    CI c2(cs.begin());
                    swap(ci, c2);
                    p[2] = 0;
                    break;
                }
                default:
                    ci = cs.end();
                    p[2] = n;
                    break;
            }
            ctx.op();
            auto what = [&]() { return mc::cat("mask ", mask, ", 2^", sg, " segments, after the operations", h); };
            for (int a = 0; a < 2; ++a) {
                if (p[a] >= 0 && p[a] < n) {
                    const auto q = static_cast<std::size_t>(p[a]);
                    MC_CHECK(ctx, &*it[a] == seq[q], what(), ": iterator ", a, " does not point to term ", q);
                    MC_CHECK(ctx, it[a]->second == cf_of<C>(cf[q]), what(), ": coefficient of term ", q);
                }
                if (p[a] >= 0) MC_CHECK(ctx, (it[a] == s.end()) == (p[a] == n), what(), ": iterator ", a, " at the end");
                else MC_CHECK(ctx, it[a] == I{}, what(), ": iterator ", a, " is not singular");
                if ((p[a] < 0) == (p[2] < 0)) {
                    MC_CHECK(ctx, (it[a] == ci) == (p[a] == p[2]) && (ci == it[a]) == (p[a] == p[2]) && (ci != it[a]) == (p[a] != p[2]), what(), ": comparison of iterator ", a, " with the constant one");
                }
            }
            if (p[2] >= 0 && p[2] < n) MC_CHECK(ctx, &*ci == seq[static_cast<std::size_t>(p[2])], what(), ": the constant iterator does not point to term ", p[2]);
            if ((p[0] < 0) == (p[1] < 0)) MC_CHECK(ctx, (it[0] == it[1]) == (p[0] == p[1]), what(), ": comparison of the iterators");
            ctx.state(mc::mix(mc::mix(mask * 16u + sg, static_cast<std::uint64_t>(p[0] + 1)), static_cast<std::uint64_t>((p[1] + 1) * 64 + p[2] + 1)));
        }
    };
}

template <typename T>
using PM = obake::polynomials::packed_monomial<T>;
template <typename T, unsigned N>
using DM = obake::polynomials::d_packed_monomial<T, N>;

#if !defined(PART) || PART == 0
const std::vector<Exps> k1 = {{0, 0}, {1, 0}, {0, 1}, {2, 3}, {-1, 4}, {7, -7}, {100, 5}, {1, 1}};
const std::vector<Exps> a1 = {{3, 0}, {-1, -1}, {5, 100}};
const std::vector<unsigned> sg = {0, 1, 2, 3, 5};
mc::Reg r0({
    {"layouts: packed", layouts<obake::polynomial<PM<long>, Int>>(k1, a1, sg), 3},
    {"histories: packed", histories<obake::polynomial<PM<long>, Int>>(k1, {0u, 1u, 6u, 7u, 200u}, {0, 2}, 5, 8), 3},
});
#endif
#if !defined(PART) || PART == 1
const std::vector<Exps> k2 = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}, {9, 0, 2}, {0, 50, 0}};
const std::vector<Exps> a2 = {{2, 0, 0}, {0, 0, 3}};
mc::Reg r1({
    {"layouts: d_packed", layouts<obake::polynomial<DM<unsigned, 2>, Rat>>(k2, a2, {0, 1, 2, 4}), 3},
    {"histories: d_packed", histories<obake::polynomial<DM<unsigned, 2>, Rat>>(k2, {0u, 2u, 5u, 97u}, {0, 1, 4}, 5, 8), 3},
});
#endif
#if !defined(PART) || PART == 2
const std::vector<Exps> k3 = {{0}, {1}, {2}, {3}, {-4}, {50}};
mc::Reg r2({
    {"layouts: nested", layouts<obake::polynomial<PM<int>, obake::polynomial<PM<int>, Int>>>(k3, {{9}, {-1}}, {0, 1, 3}), 3},
    {"layouts: power series, double", layouts<obake::p_series<PM<int>, double>>(k3, {{9}, {-1}}, {0, 2, 6}), 3},
    {"histories: nested", histories<obake::polynomial<PM<int>, obake::polynomial<PM<int>, Int>>>(k3, {0u, 3u, 41u}, {0, 2}, 5, 7), 3},
});
#endif

} // namespace
