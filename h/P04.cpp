// P04: truncated multiplication against the reference: every pair of operands x every limit x every symbol subset.
#include "wcf.hpp"

#include "pairs.hpp"

#include <obake/polynomials/polynomial.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

const std::vector<std::set<std::string>> subsets = {{}, {"x"}, {"y"}, {"x", "y"}, {"q"}, {"x", "z"}, {"a", "y", "z"}};

template <typename PA, typename PB, typename L>
void trunc_body(mc::Ctx &ctx, const Desc &da, const Desc &db, int lo, int hi, unsigned nsub)
{
    const PA a = da.make<PA>();
    const PB b = db.make<PB>();
    const Ref ra = da.ref(), rb = db.ref(), prod = ra * rb;
    const auto us = syms_union(da.ss, db.ss);
    using R = promoted<PA, PB>;
    for (int l = lo; l <= hi; ++l) {
        const L lim(l);
        const Ref e = prod.truncated(l);
        const auto form = mc::cat("truncated_mul(a, b, ", l, ")");
        check_res<R>(ctx, truncated_mul(a, b, lim), e, us, form.c_str(), da, db);
        check_res<R>(ctx, truncated_mul(b, a, lim), e, us, ("swapped " + form).c_str(), da, db);
    }
    for (unsigned s = 0; s < nsub; ++s) {
        const auto &sub = subsets[s];
        const obake::symbol_set oss(sub.begin(), sub.end());
        for (int l = lo; l <= hi; ++l) {
            const L lim(l);
            const Ref e = prod.truncated(l, sub);
            const auto form = mc::cat("truncated_mul(a, b, ", l, ", ", str(Syms(sub.begin(), sub.end())), ")");
            check_res<R>(ctx, truncated_mul(a, b, lim, oss), e, us, form.c_str(), da, db);
            check_res<R>(ctx, truncated_mul(b, a, lim, oss), e, us, ("swapped " + form).c_str(), da, db);
        }
    }
    if (to_ref(a) != ra || to_ref(b) != rb) ctx.fail("an operand was modified");
    ctx.state(mc::mix(mc::hstr(da.str()), mc::hstr(db.str())));
}
template <typename PA, typename PB, typename L = int>
std::function<void(mc::Ctx &)> pairs(Univ ua, Univ ub, int lo, int hi, unsigned nsub)
{
    return all_pairs(ua, ub, [=](mc::Ctx &c, const Desc &a, const Desc &b) { trunc_body<PA, PB, L>(c, a, b, lo, hi, nsub); });
}
template <typename K>
std::function<void(mc::Ctx &)> heavy(Univ ua, Univ ub, std::vector<std::size_t> ws, int lo, int hi, unsigned nsub)
{
    return all_pairs(ua, ub, [=](mc::Ctx &c, const Desc &a, const Desc &b) {
        using P = obake::polynomial<K, wc::wcf>;
        wc::weight = c.pick(ws, "weight");
        trunc_body<P, P, int>(c, a, b, lo, hi, nsub);
        c.state(mc::mix(mc::mix(mc::hstr(a.str()), mc::hstr(b.str())), wc::weight));
        wc::weight = 8;
    });
}

using k32 = op::packed_monomial<std::int32_t>;
using k64 = op::packed_monomial<std::int64_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using PR = obake::polynomial<k32, Rat>;
using PI = obake::polynomial<k32, Int>;

const Rat h(1, 2);
const Univ u1{{{}, {"x"}, {"x", "y"}, {"x", "z"}}, {0, 1, -2}, {Rat(1)}, 1, {0}};
const Univ u2{{{"x"}, {"y"}}, {-1, 0, 2}, {Rat(1), Rat(-1)}, 2, {0, 1}};
const Univ u3{{{"x", "y"}}, {0, 1}, {Rat(1)}, 3, {0}};
const Univ u4{{{"x"}}, {0, 1, 2, 3}, {Rat(1), Rat(-1)}, 3, {0}};
const Univ u4b{{{"x"}, {"y"}}, {0, 1, 3}, {Rat(1)}, 3, {0}};
const Univ t1{{{"x", "y"}}, {-1, 0, 2}, {Rat(1)}, 3, {0}};
const Univ t2{{{"x"}}, {0, 1, 2, 3, 4}, {Rat(1), Rat(-1)}, 4, {0}};
const Univ up{{{}, {"b"}, {"x", "y"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0}};
const Univ wide{{{"x"}, {"x", "y"}}, {0, 130, 40000}, {Rat(1)}, 1, {0}};
const Univ m1{{{"x"}}, {0, 1, 2, 3}, {Rat(1)}, 3, {0}};
const Univ m2{{{"x", "y"}}, {0, 1}, {Rat(1)}, 4, {0}};
const Univ m3{{{"x"}, {"y"}}, {-1, 0, 2}, {Rat(1), Rat(-1)}, 2, {0}};
const std::vector<std::size_t> W = {40000, 400000, 1600000};

#if PART == 0
const mc::Reg reg({
    {"rat*rat one term", pairs<PR, PR>(u1, u1, -5, 3, 7)},
    {"rat*rat two terms", pairs<PR, PR>(u2, u2, -3, 5, 2)},
    {"rat*rat three terms", pairs<PR, PR>(u4, u4b, -1, 7, 3)},
    {"thorough rat*rat three terms, two symbols", pairs<PR, PR>(t1, t1, -5, 9, 4), 2, 1},
    {"thorough rat*rat four terms", pairs<PR, PR>(t2, t2, -1, 9, 1), 2, 1},
});
#elif PART == 1
const mc::Reg reg({
    {"int*rat, integer limit of arbitrary size", pairs<PI, PR, Int>(u3, u1, -3, 4, 4)},
    {"rat*int, rational limit", pairs<PR, PI, Rat>(u2, u1, -4, 4, 2)},
    {"int*int, long limit", pairs<PI, PI, long long>(u4b, u3, -1, 6, 4)},
});
#elif PART == 2
const mc::Reg reg({
    {"d_packed rat*rat", pairs<obake::polynomial<d32, Rat>, obake::polynomial<d32, Rat>>(u1, u1, -5, 3, 7)},
    {"d_packed rat*int", pairs<obake::polynomial<d32, Rat>, obake::polynomial<d32, Int>>(u3, u2, -2, 6, 4)},
});
#elif PART == 3
const mc::Reg reg({
    {"multi-threaded, packed", heavy<k32>(m1, m1, W, -1, 7, 3)},
    {"multi-threaded, packed, symbols merged", heavy<k32>(m3, m3, W, -3, 5, 4)},
    {"multi-threaded, packed, two symbols", heavy<k32>(m2, m2, W, -1, 5, 4)},
});
#elif PART == 4
const mc::Reg reg({
    {"multi-threaded, d_packed", heavy<d32>(m2, m3, W, -2, 5, 4)},
    {"thorough multi-threaded, d_packed", heavy<d32>(t1, t1, {40000, 1600000}, -5, 9, 4), 2, 1},
});
#elif PART == 5
const mc::Reg reg({
    {"unsigned packed64 int*int", pairs<obake::polynomial<u64, Int>, obake::polynomial<u64, Int>>(up, up, 0, 4, 4)},
    {"packed64 int*int", pairs<obake::polynomial<k64, Int>, obake::polynomial<k64, Int>>(u2, u3, -2, 5, 4)},
    {"large exponents", pairs<obake::polynomial<k64, Int>, obake::polynomial<k64, Int>>(wide, wide, 39998, 40002, 3)},
    {"larger operands, packed", pairs<PR, PI>(scale({5, 17, 33}, {1, 4}, {0}, true), scale({6, 20}, {2, 4}, {3}, true), -4, 9, 4)},
    {"larger operands, d_packed", pairs<obake::polynomial<d32, Int>, obake::polynomial<d32, Rat>>(scale({9, 33}, {3, 9}, {4}, true), scale({6, 20}, {1, 10}, {0}, true), -6, 9, 5)},
    {"larger operands, many terms", pairs<obake::polynomial<k64, Int>, obake::polynomial<k64, Int>>(scale({300, 2000}, {2}, {0}, true), scale({3, 290}, {2}, {0}, true), -21, 21, 3)},
    {"more than 65536 terms", pairs<obake::polynomial<k64, Int>, obake::polynomial<k64, Int>>(scale({70000}, {2}, {0}, true), scale({3}, {2}, {0}, true), -1, 1, 3)},
});
#endif

} // namespace
