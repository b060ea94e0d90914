// P24: merging and intersecting symbol sets: all pairs of subsets of a set of names.
#include "common.hpp"

#include <numeric>

#include <obake/detail/fw_utils.hpp>

using namespace hv;

namespace
{

// Prefixes of each other, the empty name, characters beyond ASCII (which compare as unsigned).
const Syms base = {"", " ", "A", "a", "aa", "ab", "b", "\xc3\xa9", "\xff", "~"};

std::vector<std::string> subset(unsigned m, unsigned n)
{
    std::vector<std::string> v;
    for (unsigned i = 0; i < n; ++i)
        if (m >> i & 1u) v.push_back(base[i]);
    return v;
}
// What an insertion map says: names inserted before the element at the given index.
Syms inserted(const Syms &s, const obake::symbol_idx_map<obake::symbol_set> &m)
{
    Syms r;
    std::size_t used = 0;
    for (std::size_t i = 0; i <= s.size(); ++i) {
        const auto it = m.find(i);
        if (it != m.end()) {
            ++used;
            r.insert(r.end(), it->second.begin(), it->second.end());
        }
        if (i < s.size()) r.push_back(s[i]);
    }
    if (used != m.size()) throw mc::Violation{"an insertion map has an index beyond the size of the set " + str(s)};
    return r;
}
void pair(mc::Ctx &ctx, const Syms &a, const obake::symbol_set &sa, const Syms &b, const obake::symbol_set &sb)
{
    const auto u = syms_union(a, b);
    const auto [su, m1, m2] = obake::detail::merge_symbol_sets(sa, sb);
    ctx.op();
    auto what = [&] { return "merging " + str(a) + " and " + str(b); };
    MC_CHECK(ctx, to_syms(su) == u, what(), " gave ", str(to_syms(su)));
    MC_CHECK(ctx, inserted(a, m1) == u, what(), ": the insertion map of the first set leads to ", str(inserted(a, m1)));
    MC_CHECK(ctx, inserted(b, m2) == u, what(), ": the insertion map of the second set leads to ", str(inserted(b, m2)));
    for (const auto *m : {&m1, &m2})
        for (const auto &[i, s] : *m) MC_CHECK(ctx, !s.empty(), what(), ": empty insertion at ", i);
    for (const auto &s : u) MC_CHECK(ctx, su.find(s) != su.end(), what(), ": ", s, " cannot be found in the result");
    // The result works as a set.
    auto cp = su;
    MC_CHECK(ctx, !u.empty() ? !cp.insert(u.front()).second && !cp.insert(u.back()).second : cp.insert("q").second, what(), ": the result is not a valid set");
    // The intersection.
    const auto ix = obake::detail::ss_intersect_idx(sa, sb);
    std::vector<std::size_t> e;
    for (std::size_t i = 0; i < b.size(); ++i)
        if (std::find(a.begin(), a.end(), b[i]) != a.end()) e.push_back(i);
    MC_CHECK(ctx, std::vector<std::size_t>(ix.begin(), ix.end()) == e, "intersecting ", str(a), " with ", str(b), " gave wrong indices");
    for (auto i : e) MC_CHECK(ctx, ix.count(i) == 1u, "index not found");
    // With a map.
    obake::symbol_map<int> mp;
    int k = 10;
    std::map<std::string, int> ref;
    for (const auto &s : a) {
        ref[s] = ++k;
        mp[s] = k;
    }
    const auto im = obake::detail::sm_intersect_idx(mp, sb);
    MC_CHECK(ctx, im.size() == e.size(), "intersecting a map over ", str(a), " with ", str(b), " gave ", im.size(), " elements");
    std::size_t j = 0;
    for (const auto &[i, v] : im) {
        MC_CHECK(ctx, i == e[j] && v == ref[b[i]], "intersecting a map over ", str(a), " with ", str(b), " gave ", i, " -> ", v);
        ++j;
    }
    // Shared sets.
    const obake::detail::ss_fw fa(sa), fb(sb), fu(su);
    MC_CHECK(ctx, (fa == fb) == (a == b) && (fu == fa) == (u == a) && &fa.get() != nullptr && fa.get() == sa && fb.get() == sb && fu.get() == su, "shared sets compare wrongly for ", str(a), " and ",
             str(b));
    MC_CHECK(ctx, (a == b) == (&fa.get() == &fb.get()), "equal sets do not share their storage");
    const obake::detail::ss_fw_hasher h{};
    if (a == b) MC_CHECK(ctx, h(sa) == h(sb), "equal sets have different hashes");
}
std::function<void(mc::Ctx &)> pairs(unsigned n)
{
    return [n](mc::Ctx &ctx) {
        const auto ma = ctx.choose(1u << n, "a");
        auto a = subset(ma, n);
        std::sort(a.begin(), a.end());
        const auto sa = to_ss(a);
        if (ctx.logging()) ctx.log("a = " + str(a));
        for (unsigned mb = 0; mb < (1u << n); ++mb) {
            auto b = subset(mb, n);
            std::sort(b.begin(), b.end());
            const auto sb = to_ss(b);
            pair(ctx, a, sa, b, sb);
        }
        // Text.
        std::string t = "{";
        for (std::size_t i = 0; i < a.size(); ++i) t += (i ? ", '" : "'") + a[i] + "'";
        MC_CHECK(ctx, obake::detail::to_string(sa) == t + "}", "the text of ", str(a), " is ", obake::detail::to_string(sa));
        ctx.state(str(a));
    };
}
// Three sets: merging is associative, and the maps compose.
std::function<void(mc::Ctx &)> triples(unsigned n)
{
    return [n](mc::Ctx &ctx) {
        const auto a = to_ss(subset(ctx.choose(1u << n, "a"), n));
        for (unsigned mb = 0; mb < (1u << n); ++mb)
            for (unsigned mc_ = 0; mc_ < (1u << n); ++mc_) {
                const auto b = to_ss(subset(mb, n)), c = to_ss(subset(mc_, n));
                const auto ab = std::get<0>(obake::detail::merge_symbol_sets(a, b)), bc = std::get<0>(obake::detail::merge_symbol_sets(b, c));
                const auto [l, l1, l2] = obake::detail::merge_symbol_sets(ab, c);
                const auto [r, r1, r2] = obake::detail::merge_symbol_sets(a, bc);
                ctx.op(4);
                MC_CHECK(ctx, l == r, "merging is not associative");
                MC_CHECK(ctx, inserted(to_syms(ab), l1) == inserted(to_syms(bc), r2), "the insertion maps are inconsistent");
            }
        ctx.state(str(to_syms(a)));
    };
}

// Large sets: runs, arithmetic progressions and their complements.
void large(mc::Ctx &ctx)
{
    static const auto sets = [] {
        std::vector<Syms> r;
        const auto name = [](unsigned i) { return std::string{static_cast<char>('a' + i / 100u), static_cast<char>('0' + i / 10u % 10u), static_cast<char>('0' + i % 10u)}; };
        for (unsigned n : {31u, 33u, 127u, 129u, 255u, 257u, 600u})
            for (unsigned step : {1u, 2u, 7u, 100u})
                for (unsigned from : {0u, 1u, 128u, 599u})
                    for (bool c : {false, true}) {
                        Syms x;
                        for (unsigned i = 0; i < n; ++i)
                            if ((i >= from && (i - from) % step == 0u) != c) x.push_back(name(i));
                        r.push_back(std::move(x));
                    }
        std::sort(r.begin(), r.end());
        r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }();
    const auto &a = ctx.pick(sets, "first");
    const auto sa = to_ss(a);
    for (std::size_t i = 0; i < sets.size(); i += ctx.thorough() ? 1u : 3u) pair(ctx, a, sa, sets[i], to_ss(sets[i]));
    ctx.state(str(a));
}

const mc::Reg reg({
    {"large sets", large, 1},
    {"all pairs of subsets of 8 names", pairs(8), 1},
    {"all triples of subsets of 5 names", triples(5), 1},
    {"thorough: all pairs of subsets of 10 names", pairs(10), 1, 1},
    {"thorough: all triples of subsets of 7 names", triples(7), 1, 1},
});

} // namespace
