// P15: truncation by total and partial degree of all members of bounded universes, with all the limits around the degrees
// of the terms, against removal of the terms above the limit.
#include "limits.hpp"
#include "pairs.hpp"

#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

std::vector<Syms> subsets(const Syms &names)
{
    std::vector<Syms> r{{}};
    for (const auto &n : names) {
        const auto c = r;
        for (auto s : c) {
            s.push_back(n);
            r.push_back(s);
        }
    }
    return r;
}

template <typename P, typename L>
std::function<void(mc::Ctx &)> trunc(Univ u, Syms names, int lo, int hi, Rat scale = Rat(1))
{
    return all_of(u, [=, subs = subsets(names)](mc::Ctx &ctx, const Desc &d) {
        const auto r = d.ref();
        const auto p0 = d.make<P>();
        ctx.state(d.str());
        auto check = [&](const P &p, const Ref &e, auto &&what) {
            ctx.op();
            ctx.validated();
            if (to_ref(p) != e) ctx.fail(mc::cat(what(), " of ", show(p0), " gave ", show(p), ", expected ", e.str()));
            if (to_syms(p.get_symbol_set()) != d.ss || p.get_s_size() != p0.get_s_size()) ctx.fail(mc::cat(what(), " of ", show(p0), " changed the symbols or the segmentation: ", show(p)));
            check_inv(ctx, p, "truncation");
        };
        for (int l = lo; l <= hi; ++l) {
            const Rat ql = Rat(l) * scale;
            const L lim = [&] {
                if constexpr (std::is_same_v<L, Rat>)
                    return ql;
                else
                    return static_cast<L>(ql);
            }();
            auto keep = [&](ll deg) { return Rat(deg) <= ql; };
            {
                Ref e;
                for (const auto &[m, c] : r.t)
                    if (keep(Ref::mdeg(m))) e.t.emplace(m, c);
                P p(p0);
                obake::truncate_degree(p, lim);
                check(p, e, [&] { return mc::cat("truncation to degree ", ql.to_string()); });
                obake::truncate_degree(p, L(lim));
                check(p, e, [&] { return mc::cat("repeated truncation to degree ", ql.to_string()); });
            }
            for (const auto &s : subs) {
                const std::set<std::string> st(s.begin(), s.end());
                Ref e;
                for (const auto &[m, c] : r.t)
                    if (keep(Ref::mdeg(m, st))) e.t.emplace(m, c);
                P p(p0);
                obake::truncate_p_degree(p, lim, to_ss(s));
                check(p, e, [&] { return mc::cat("truncation to degree ", ql.to_string(), " in ", hv::str(s)); });
                obake::truncate_p_degree(p, L(lim), to_ss(s));
                check(p, e, [&] { return mc::cat("repeated truncation to degree ", ql.to_string(), " in ", hv::str(s)); });
            }
        }
    });
}
// Two terms with exponents at the limits of the representation; limits at, below and above the degrees.
template <typename K>
void edges(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    using P = obake::polynomial<K, Int>;
    const Syms names{"x", "y"};
    const auto al = edge_values<T>(group_size<K>::get(2));
    std::vector<std::vector<T>> e(2);
    std::vector<i128> deg;
    P p;
    p.set_symbol_set(to_ss(names));
    for (auto &v : e) {
        v = {ctx.pick(al, "exponent"), ctx.pick(al, "exponent")};
        deg.push_back(i128(v[0]) + i128(v[1]));
    }
    if (e[0] >= e[1]) ctx.prune();
    try {
        for (std::size_t i = 0; i < 2u; ++i) p.add_term(K(e[i].begin(), e[i].end()), static_cast<int>(i) + 1);
    } catch (const std::overflow_error &) {
        ctx.prune();
    }
    if (ctx.logging()) ctx.log("exponents " + vstr(e[0]) + ", " + vstr(e[1]));
    using L = std::numeric_limits<T>;
    for (const auto &x : deg)
        if (x < i128(L::min()) || x > i128(L::max())) ctx.prune();
    auto run = [&](i128 lim, const std::vector<i128> &dg, auto f) {
        if (lim < i128(L::min()) || lim > i128(L::max())) return;
        P q(p);
        f(q, static_cast<T>(lim));
        ctx.op();
        ctx.validated();
        std::size_t n = 0;
        for (std::size_t i = 0; i < 2u; ++i) {
            const bool k = dg[i] <= lim;
            n += k;
            MC_CHECK(ctx, (q.find(K(e[i].begin(), e[i].end())) != q.end()) == k, "a truncation kept or removed a term wrongly: exponents ", vstr(e[0]), ", ", vstr(e[1]), ", limit ", static_cast<ll>(lim));
        }
        MC_CHECK(ctx, q.size() == n, "wrong number of terms after a truncation");
    };
    for (const auto &x : deg)
        for (int o = -1; o <= 1; ++o) run(x + o, deg, [](P &q, T l) { obake::truncate_degree(q, l); });
    for (std::size_t s = 0; s < 2u; ++s)
        for (std::size_t i = 0; i < 2u; ++i)
            for (int o = -1; o <= 1; ++o)
                run(i128(e[i][s]) + o, {i128(e[0][s]), i128(e[1][s])}, [&](P &q, T l) { obake::truncate_p_degree(q, l, obake::symbol_set{names[s]}); });
    ctx.state(vstr(e[0]) + vstr(e[1]));
}
template <typename K>
std::function<void(mc::Ctx &)> ed()
{
    return [](mc::Ctx &ctx) { edges<K>(ctx); };
}

using k32 = op::packed_monomial<std::int32_t>;
using k64 = op::packed_monomial<std::int64_t>;
using u32 = op::packed_monomial<std::uint32_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using e64 = op::d_packed_monomial<std::uint64_t, 1>;

const Univ u1{{{}, {"x"}, {"x", "y"}, {"a", "x", "z"}}, {-2, 0, 1}, {Rat(1)}, 2, {0, 1}};
const Univ u2{{{}, {"x"}, {"x", "y"}}, {-1, 0, 3}, {Rat(1), Rat(-2)}, 3, {0, 2}};
const Univ u3{{{}, {"x"}, {"x", "y"}, {"a", "x", "z"}}, {0, 1, 4}, {Rat(1)}, 2, {0, 1}};
const Syms n3{"a", "x", "zz"};

#if PART == 0
const mc::Reg reg({
    {"packed32, int limit", trunc<obake::polynomial<k32, Rat>, int>(u1, {"a", "x", "y", "zz"}, -5, 3)},
    {"packed64, three terms, integer limit of arbitrary size", trunc<obake::polynomial<k64, Rat>, Int>(u2, {"w", "x"}, -3, 6)},
    {"large exponents", trunc<obake::polynomial<k64, Int>, long>({{{"x"}, {"x", "y"}}, {-200, 0, 40000}, {Rat(1)}, 2, {0}}, {"x", "y"}, 39998, 40002)},
    {"large exponents, 8 bits", trunc<obake::polynomial<k64, Int>, long>({{{"x"}, {"x", "y"}}, {-130, 0, 130}, {Rat(1)}, 2, {0}}, {"x", "y"}, 126, 132)},
    {"larger operands", trunc<obake::polynomial<k64, Int>, int>(scale({5, 33, 300}, {1, 2, 5, 9}, {0, 5}, true), {"a", "c", "x"}, -9, 9)},
    {"thorough packed32, four terms", trunc<obake::polynomial<k32, Int>, int>({{{"x", "y"}, {"x", "y", "z"}}, {-1, 0, 2}, {Rat(1)}, 4, {0, 1}}, {"x", "z"}, -4, 6), 2, 1},
});
#elif PART == 1
const mc::Reg reg({
    {"unsigned packed64, unsigned limit", trunc<obake::polynomial<u64, Int>, unsigned long>(u3, n3, 0, 13)},
    {"unsigned packed32, integer limit of arbitrary size", trunc<obake::polynomial<u32, Int>, Int>(u3, n3, -1, 9)},
    {"packed32, rational limit", trunc<obake::polynomial<k32, Int>, Rat>(u1, n3, -7, 5, Rat(1, 2))},
});
#elif PART == 2
const mc::Reg reg({
    {"d_packed32, long limit", trunc<obake::polynomial<d32, Rat>, long>(u1, {"a", "x", "y", "zz"}, -5, 3)},
    {"d_packed64, rational limit", trunc<obake::polynomial<e64, Int>, Rat>(u3, n3, -1, 13, Rat(3, 2))},
    {"d_packed32, double coefficients", trunc<obake::polynomial<d32, double>, Int>(u2, {"w", "x"}, -3, 6)},
    {"larger operands, d_packed", trunc<obake::polynomial<d32, Rat>, long>(scale({5, 33, 300}, {1, 5, 9, 12}, {0, 5}, true), {"a", "c", "x"}, -9, 9)},
});
#elif PART == 3
const mc::Reg reg({
    {"limits of the representation, packed32", ed<k32>()},
    {"limits of the representation, packed64", ed<k64>()},
    {"limits of the representation, unsigned packed32", ed<u32>()},
    {"limits of the representation, d_packed32", ed<d32>()},
    {"limits of the representation, unsigned d_packed64", ed<e64>()},
});
#endif

} // namespace
