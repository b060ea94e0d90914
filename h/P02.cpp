// P02: multiplication against the reference, over all pairs of a bounded universe, for both algorithms.
#include "wcf.hpp"

#include "common.hpp"

#include <obake/polynomials/polynomial.hpp>

#include "pairs.hpp"

using namespace hv;
namespace op = obake::polynomials;

namespace
{

template <typename PA, typename PB>
void mul_body(mc::Ctx &ctx, const Desc &da, const Desc &db)
{
    const PA a0 = da.make<PA>();
    const PB b0 = db.make<PB>();
    const Ref ra = da.ref(), rb = db.ref();
    const auto us = syms_union(da.ss, db.ss);
    const Ref prod = ra * rb;
    using R = promoted<PA, PB>;
    auto intact = [&](const char *form) {
        ctx.validated();
        if (to_ref(a0) != ra || to_ref(b0) != rb || to_syms(a0.get_symbol_set()) != da.ss || to_syms(b0.get_symbol_set()) != db.ss
            || a0.get_s_size() != da.segs || b0.get_s_size() != db.segs)
            ctx.fail(mc::cat(form, " modified an operand: a = ", da.str(), " became ", show(a0), ", b = ", db.str(), " became ", show(b0)));
    };
    check_res<R>(ctx, a0 * b0, prod, us, "a * b", da, db);
    check_res<R>(ctx, b0 * a0, prod, us, "b * a", da, db);
    intact("product");
    check_res<R>(ctx, PA(a0) * b0, prod, us, "move(a) * b", da, db);
    check_res<R>(ctx, a0 * PB(b0), prod, us, "a * move(b)", da, db);
    check_res<R>(ctx, PA(a0) * PB(b0), prod, us, "move(a) * move(b)", da, db);
    intact("product with rvalues");
    if constexpr (obake::is_in_place_multipliable_v<PA &, const PB &>) {
        using CA = obake::series_cf_t<PA>;
        const Ref prodc = conv<CA>(prod);
        auto a = a0;
        auto &r = (a *= b0);
        if (&r != &a) ctx.fail("a *= b does not return its left operand");
        check_res<PA>(ctx, a, prodc, us, "a *= b", da, db);
        a = a0;
        auto b = b0;
        a *= std::move(b);
        check_res<PA>(ctx, a, prodc, us, "a *= move(b)", da, db);
        b = b0;
        if (to_ref(b) != rb) ctx.fail("a moved-from operand cannot be assigned properly");
        intact("in-place product");
    }
    ctx.state(mc::mix(mc::hstr(da.str()), mc::hstr(db.str())));
}

template <typename PA, typename PB>
std::function<void(mc::Ctx &)> pairs(Univ ua, Univ ub)
{
    return all_pairs(ua, ub, [](mc::Ctx &c, const Desc &a, const Desc &b) { mul_body<PA, PB>(c, a, b); });
}

template <typename P, typename T>
void scal_one(mc::Ctx &ctx, const Desc &da, const T &x, const Rat &rx)
{
    const P a0 = da.make<P>();
    const Ref ra = da.ref();
    Desc db;
    db.ts.push_back(Term{{}, rx});
    using R = promoted<P, obake::polynomial<obake::series_key_t<P>, T>>;
    const Ref e = ra * Ref(rx);
    check_res<R>(ctx, a0 * x, e, da.ss, "a * scalar", da, db);
    check_res<R>(ctx, x * a0, e, da.ss, "scalar * a", da, db);
    check_res<R>(ctx, P(a0) * T(x), e, da.ss, "move(a) * scalar", da, db);
    check_res<R>(ctx, T(x) * P(a0), e, da.ss, "scalar * move(a)", da, db);
    if constexpr (obake::is_in_place_multipliable_v<P &, const T &>) {
        auto a = a0;
        a *= x;
        check_res<P>(ctx, a, conv<obake::series_cf_t<P>>(e), da.ss, "a *= scalar", da, db);
    }
    if (to_ref(a0) != ra) ctx.fail("the series operand was modified");
    ctx.state(mc::mix(mc::hstr(da.str()), mc::hstr(rx.to_string())));
}
template <typename P>
std::function<void(mc::Ctx &)> scalars(Univ u)
{
    auto v = std::make_shared<std::vector<Desc>>(enumerate(u));
    return [v](mc::Ctx &ctx) {
        const auto &d = ctx.pick(*v, "a");
        const int k = static_cast<int>(ctx.choose(7)) - 3;
        scal_one<P>(ctx, d, k, Rat(k));
        scal_one<P>(ctx, d, Int(k), Rat(k));
        scal_one<P>(ctx, d, Rat(k, 2), Rat(k, 2));
    };
}
template <typename P>
std::function<void(mc::Ctx &)> alias(Univ u)
{
    auto v = std::make_shared<std::vector<Desc>>(enumerate(u));
    return [v](mc::Ctx &ctx) {
        const auto &d = ctx.pick(*v, "a");
        const Ref r = d.ref(), sq = r * r;
        auto a = d.make<P>();
        check_res<P>(ctx, a * a, sq, d.ss, "a * a", d, d);
        if (to_ref(a) != r) ctx.fail("a * a modified a");
        check_res<P>(ctx, std::as_const(a) * a, sq, d.ss, "as_const(a) * a", d, d);
        auto b = a;
        b *= b;
        check_res<P>(ctx, b, sq, d.ss, "a *= a", d, d);
        auto both = [&](auto f, const char *what) {
            P x(a);
            check_res<P>(ctx, f(x), sq, d.ss, what, d, d);
            x = a;
            if (to_ref(x) != r) ctx.fail(mc::cat("the operand of ", what, " cannot be assigned properly: ", d.str()));
        };
        both([](P &x) { return std::move(x) * x; }, "move(a) * a");
        both([](P &x) { return x * std::move(x); }, "a * move(a)");
        both([](P &x) { return std::move(x) * std::move(x); }, "move(a) * move(a)");
        both([](P &x) { return P(x *= std::move(x)); }, "a *= move(a)");
        both([](P &x) { return P(x *= std::as_const(x)); }, "a *= as_const(a)");
        b = a;
        b = b * b * b;
        check_res<P>(ctx, b, sq * r, d.ss, "a = a * a * a", d, d);
        ctx.state(d.str());
    };
}

// The multi-threaded algorithm, reached by the claimed weight of the coefficients.
template <typename K>
std::function<void(mc::Ctx &)> heavy(Univ ua, Univ ub, std::vector<std::size_t> ws)
{
    return all_pairs(ua, ub, [ws](mc::Ctx &c, const Desc &a, const Desc &b) {
        using P = obake::polynomial<K, wc::wcf>;
        wc::weight = c.pick(ws, "weight");
        const P x = a.make<P>(), y = b.make<P>();
        const Ref e = a.ref() * b.ref();
        const auto us = syms_union(a.ss, b.ss);
        check_res<P>(c, x * y, e, us, "a * b (heavy)", a, b);
        check_res<P>(c, y * x, e, us, "b * a (heavy)", a, b);
        if (to_ref(x) != a.ref() || to_ref(y) != b.ref()) c.fail("an operand was modified by a product of " + a.str() + " and " + b.str());
        c.state(mc::mix(mc::mix(mc::hstr(a.str()), mc::hstr(b.str())), wc::weight));
        wc::weight = 8;
    });
}

using k32 = op::packed_monomial<std::int32_t>;
using k64 = op::packed_monomial<std::int64_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using d64 = op::d_packed_monomial<std::int64_t, 1>;
using PR = obake::polynomial<k32, Rat>;
using PI = obake::polynomial<k32, Int>;
using PD = obake::polynomial<k32, double>;
const Rat h(1, 2);
const Univ u1{{{}, {"x"}, {"y"}, {"x", "y"}, {"x", "z"}}, {0, 1, -2}, {Rat(1), Rat(-1)}, 1, {0, 1}};
const Univ u2{{{"x"}, {"y"}, {"x", "z"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0, 2}};
const Univ u2r{{{"x"}, {"x", "y"}}, {0, 1}, {h, Rat(-1)}, 2, {0, 1}};
const Univ u3{{{"x"}}, {0, 1, 2}, {Rat(1), Rat(-1)}, 3, {0, 1}};
const Univ up{{{}, {"b"}, {"a", "b"}, {"a", "c"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0}};
const Univ t1{{{}, {"x"}, {"y"}, {"x", "y"}, {"x", "z"}, {"w", "y"}}, {0, 1, -2}, {Rat(1), Rat(-1), Rat(3)}, 1, {0, 1, 3}};
const Univ t2{{{"x"}, {"x", "y"}, {"y", "z"}}, {0, 1}, {Rat(1), Rat(-1), h}, 3, {0}};
const Univ t3{{{"x"}}, {0, 1, 2, 3}, {Rat(1), Rat(-1)}, 4, {0, 1}};
// Operands of the multi-threaded algorithm.
const Univ m1{{{"x"}}, {0, 1, 2, 3}, {Rat(1), Rat(-1)}, 3, {0, 1}};
const Univ m1b{{{"x"}, {"y"}}, {0, 1, 2}, {Rat(1), Rat(-1)}, 2, {0}};
const Univ m2{{{"x", "y"}}, {0, 1}, {Rat(1), Rat(-1)}, 3, {0}};
const Univ m2b{{{"x", "y"}, {"y", "z"}}, {-1, 0}, {Rat(1), Rat(-1)}, 2, {0}};
const std::vector<std::size_t> W = {40000, 400000, 1600000};

#if PART == 0
const mc::Reg reg({
    {"packed32 rat*rat one term, all symbol relations", pairs<PR, PR>(u1, u1)},
    {"packed32 rat*rat two terms", pairs<PR, PR>(u2, u2), 2, 2},
    {"packed32 rat*rat cancellations", pairs<PR, PR>(u3, u3)},
    {"thorough rat*rat one term", pairs<PR, PR>(t1, t1), 2, 1},
    {"thorough rat*rat three terms", pairs<PR, PR>(t2, t2), 2, 1},
    {"thorough rat*rat four terms", pairs<PR, PR>(t3, t3), 2, 1},
    {"aliasing rat", alias<PR>(t3)},
});
#elif PART == 1
const mc::Reg reg({
    {"packed32 int*rat", pairs<PI, PR>(u2, u2r)},
    {"packed32 double*int", pairs<PD, PI>(u1, u2)},
});
#elif PART == 2
const mc::Reg reg({
    {"packed64 int*int", pairs<obake::polynomial<k64, Int>, obake::polynomial<k64, Int>>(u1, u2)},
    {"unsigned packed64 int*int", pairs<obake::polynomial<u64, Int>, obake::polynomial<u64, Int>>(up, up)},
});
#elif PART == 3
const mc::Reg reg({
    {"d_packed32 rat*int", pairs<obake::polynomial<d32, Rat>, obake::polynomial<d32, Int>>(u1, u1)},
    {"d_packed64 rat*rat", pairs<obake::polynomial<d64, Rat>, obake::polynomial<d64, Rat>>(up, up)},
});
#elif PART == 4
const mc::Reg reg({
    {"scalars rat", scalars<PR>(u1)},
    {"scalars int", scalars<PI>(u2)},
});
#elif PART == 5
const mc::Reg reg({
    {"multi-threaded, packed", heavy<k32>(m1, m1b, W)},
    {"multi-threaded, packed, two symbols", heavy<k32>(m2, m2b, W)},
    {"thorough multi-threaded, packed", heavy<k64>(m1, m1, {40000, 300000, 1600000, 7000000}), 2, 1},
});
#elif PART == 6
// Products of coefficients that vanish.
void underflow(mc::Ctx &ctx)
{
    const double v[] = {1e-200, -1e-200, 1.0, 1e-150};
    const unsigned ns = ctx.choose(3);
    PD a, b;
    a.set_n_segments(ns);
    a.set_symbol_set(obake::symbol_set{"x"});
    b.set_symbol_set(ctx.flag() ? obake::symbol_set{"x"} : obake::symbol_set{"y"});
    std::vector<double> ca, cb;
    for (int i = 0; i < 2; ++i) {
        ca.push_back(v[ctx.choose(4)]);
        a.add_term(k32{i}, ca.back());
        cb.push_back(v[ctx.choose(4)]);
        b.add_term(k32{i}, cb.back());
    }
    const auto r = a * b;
    ctx.op();
    check_inv(ctx, r, "product of tiny doubles");
    const auto r2 = b * a;
    check_inv(ctx, r2, "product of tiny doubles");
    MC_CHECK(ctx, r == r2, "the product does not commute");
    auto c = a;
    c *= 1e-200;
    check_inv(ctx, c, "in-place product of tiny doubles");
    c = a * 1e-200;
    check_inv(ctx, c, "product of tiny doubles");
    std::size_t n = 0;
    for (auto x : ca) n += (x * 1e-200 != 0);
    MC_CHECK(ctx, c.size() == n, "wrong number of terms in ", c.size());
    ctx.state(mc::cat(ca[0], ca[1], cb[0], cb[1]));
}
const mc::Reg reg({
    {"products that underflow", underflow},
    {"larger operands, packed", pairs<PR, PI>(scale({5, 17, 33}, {1, 4}, {0, 5}, true), scale({6, 20}, {2, 4}, {0, 3}, true))},
    {"larger operands, d_packed", pairs<obake::polynomial<d32, Int>, obake::polynomial<d32, Rat>>(scale({9, 33}, {3, 9}, {0, 4}, true), scale({6, 20}, {1, 10}, {0, 7}, true))},
    {"larger operands, many terms", pairs<obake::polynomial<k64, Int>, obake::polynomial<k64, Int>>(scale({900}, {2, 3}, {0, 4}, true), scale({3, 20}, {2, 3}, {0}, true))},
    {"more than 65536 terms", pairs<obake::polynomial<k64, Int>, obake::polynomial<k64, Int>>(scale({70000}, {1, 3}, {0}, true), scale({3}, {3}, {0}, true))},
    {"larger operands, aliasing", alias<obake::polynomial<k64, Int>>(scale({5, 33}, {1, 3}, {0, 5}, true))},
    {"thorough larger operands", pairs<PR, PR>(scale({5, 17, 33, 70}, {1, 3, 4}, {0, 2, 8}, true), scale({6, 40, 70}, {2, 4}, {0, 3}, true)), 2, 1},
    {"multi-threaded, d_packed", heavy<d32>(m2, m2b, W)},
    {"multi-threaded, unsigned packed", heavy<u64>(m2, m1b, W)},
    {"aliasing d_packed int", alias<obake::polynomial<d32, Int>>(u1)},
});
#endif

} // namespace
