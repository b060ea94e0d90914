// P01: addition and subtraction against the reference, over all pairs of a bounded universe.
#include "common.hpp"

#include <obake/polynomials/polynomial.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

template <typename C>
Ref conv(const Ref &r)
{
    if constexpr (std::is_same_v<C, Int>) {
        // Term-by-term conversion of the coefficients.
        Ref o;
        for (const auto &[m, c] : r.t) o.add(m, Rat(Int(c)));
        return o;
    } else {
        return r;
    }
}

template <typename R, typename Exp>
void check_res(mc::Ctx &ctx, const R &r, const Ref &exp, const Syms &us, const char *form, const Desc &a, const Desc &b)
{
    ctx.op();
    static_assert(std::is_same_v<R, Exp>);
    auto ctxt = [&]() { return mc::cat(form, " with a = ", a.str(), ", b = ", b.str(), " gave ", show(r), ", expected ", exp.str()); };
    const auto got = to_ref(r);
    ctx.validated();
    if (got != exp) ctx.fail(ctxt());
    if (to_syms(r.get_symbol_set()) != us) ctx.fail("wrong symbol set: " + ctxt());
    check_inv(ctx, r, form);
}

template <typename PA, typename PB>
void pair_body(mc::Ctx &ctx, const Desc &da, const Desc &db)
{
    const PA a0 = da.make<PA>();
    const PB b0 = db.make<PB>();
    const Ref ra = da.ref(), rb = db.ref();
    const auto us = syms_union(da.ss, db.ss);
    const Ref sum = ra + rb, dif = ra - rb;
    using R = std::remove_cvref_t<decltype(a0 + b0)>;
    using CR = obake::series_cf_t<R>;
    using Exp = std::conditional_t<
        std::is_same_v<obake::series_cf_t<PA>, Rat> || std::is_same_v<obake::series_cf_t<PB>, Rat>,
        obake::polynomial<obake::series_key_t<PA>, Rat>,
        std::conditional_t<std::is_same_v<obake::series_cf_t<PA>, double> || std::is_same_v<obake::series_cf_t<PB>, double>,
                           obake::polynomial<obake::series_key_t<PA>, double>, obake::polynomial<obake::series_key_t<PA>, Int>>>;
    (void)sizeof(CR);
    auto intact = [&](const char *form) {
        ctx.validated();
        if (to_ref(a0) != ra || to_ref(b0) != rb || to_syms(a0.get_symbol_set()) != da.ss || to_syms(b0.get_symbol_set()) != db.ss
            || a0.get_s_size() != da.segs || b0.get_s_size() != db.segs)
            ctx.fail(mc::cat(form, " modified an operand passed by const reference: a = ", da.str(), " became ", show(a0), ", b = ", db.str(),
                             " became ", show(b0)));
    };
    check_res<R, Exp>(ctx, a0 + b0, sum, us, "a + b", da, db);
    check_res<R, Exp>(ctx, a0 - b0, dif, us, "a - b", da, db);
    intact("binary");
    {
        auto a = a0;
        check_res<R, Exp>(ctx, std::move(a) + b0, sum, us, "move(a) + b", da, db);
        a = a0;
        check_res<R, Exp>(ctx, std::move(a) - b0, dif, us, "move(a) - b", da, db);
        a = a0;
        if (to_ref(a) != ra) ctx.fail("a moved-from operand cannot be assigned properly");
    }
    intact("binary, rvalue a");
    {
        auto b = b0;
        check_res<R, Exp>(ctx, a0 + std::move(b), sum, us, "a + move(b)", da, db);
        b = b0;
        check_res<R, Exp>(ctx, a0 - std::move(b), dif, us, "a - move(b)", da, db);
        b = b0;
        if (to_ref(b) != rb) ctx.fail("a moved-from operand cannot be assigned properly");
    }
    {
        auto a = a0;
        auto b = b0;
        check_res<R, Exp>(ctx, std::move(a) + std::move(b), sum, us, "move(a) + move(b)", da, db);
        auto a2 = a0;
        auto b2 = b0;
        check_res<R, Exp>(ctx, std::move(a2) - std::move(b2), dif, us, "move(a) - move(b)", da, db);
    }
    // In-place forms: the type of the left operand is kept.
    if constexpr (obake::is_in_place_addable_v<PA &, const PB &>) {
        using CA = obake::series_cf_t<PA>;
        const Ref sumc = ra + conv<CA>(rb), difc = ra - conv<CA>(rb);
        {
            auto a = a0;
            auto &r = (a += b0);
            if (&r != &a) ctx.fail("a += b does not return its left operand");
            check_res<PA, PA>(ctx, a, sumc, us, "a += b", da, db);
        }
        {
            auto a = a0;
            a -= b0;
            check_res<PA, PA>(ctx, a, difc, us, "a -= b", da, db);
        }
        {
            auto a = a0;
            auto b = b0;
            a += std::move(b);
            check_res<PA, PA>(ctx, a, sumc, us, "a += move(b)", da, db);
            b = b0;
            if (to_ref(b) != rb) ctx.fail("a moved-from operand cannot be assigned properly");
        }
        {
            auto a = a0;
            auto b = b0;
            a -= std::move(b);
            check_res<PA, PA>(ctx, a, difc, us, "a -= move(b)", da, db);
        }
    }
    intact("in-place");
    ctx.state(mc::mix(mc::hstr(da.str()), mc::hstr(db.str())));
}

template <typename PA, typename PB>
std::function<void(mc::Ctx &)> pairs(Univ ua, Univ ub)
{
    auto va = std::make_shared<std::vector<Desc>>(enumerate(ua));
    auto vb = std::make_shared<std::vector<Desc>>(enumerate(ub));
    return [va, vb](mc::Ctx &ctx) {
        const auto &da = ctx.pick(*va, "a");
        const auto &db = ctx.pick(*vb, "b");
        if (ctx.logging()) ctx.log("a = " + da.str() + ", b = " + db.str());
        pair_body<PA, PB>(ctx, da, db);
    };
}

// A series and a scalar.
template <typename P, typename T>
void scal_one(mc::Ctx &ctx, const Desc &da, const T &x, const Rat &rx)
{
    const P a0 = da.make<P>();
    const Ref ra = da.ref();
    const auto us = da.ss;
    using R = std::remove_cvref_t<decltype(a0 + x)>;
    Desc db;
    db.ts.push_back(Term{{}, rx});
    check_res<R, R>(ctx, a0 + x, ra + Ref(rx), us, "a + scalar", da, db);
    check_res<R, R>(ctx, x + a0, ra + Ref(rx), us, "scalar + a", da, db);
    check_res<R, R>(ctx, a0 - x, ra - Ref(rx), us, "a - scalar", da, db);
    check_res<R, R>(ctx, x - a0, Ref(rx) - ra, us, "scalar - a", da, db);
    {
        auto a = a0;
        check_res<R, R>(ctx, x - std::move(a), Ref(rx) - ra, us, "scalar - move(a)", da, db);
        a = a0;
        check_res<R, R>(ctx, std::move(a) + T(x), ra + Ref(rx), us, "move(a) + scalar", da, db);
    }
    if constexpr (obake::is_in_place_addable_v<P &, const T &>) {
        auto a = a0;
        a += x;
        const auto cx = conv<obake::series_cf_t<P>>(Ref(rx));
        check_res<P, P>(ctx, a, ra + cx, us, "a += scalar", da, db);
        a = a0;
        a -= x;
        check_res<P, P>(ctx, a, ra - cx, us, "a -= scalar", da, db);
    }
    if (to_ref(a0) != ra) ctx.fail("the series operand was modified");
    ctx.state(mc::mix(mc::hstr(da.str()), mc::hstr(rx.to_string())));
}

template <typename P>
std::function<void(mc::Ctx &)> scalars(Univ u)
{
    auto v = std::make_shared<std::vector<Desc>>(enumerate(u));
    return [v](mc::Ctx &ctx) {
        const auto &d = ctx.pick(*v, "a");
        const int k = static_cast<int>(ctx.choose(7)) - 3;
        if (ctx.logging()) ctx.log("a = " + d.str() + ", scalar " + std::to_string(k));
        scal_one<P>(ctx, d, k, Rat(k));
        scal_one<P>(ctx, d, Int(k), Rat(k));
        if constexpr (std::is_same_v<obake::series_cf_t<P>, Rat> || std::is_same_v<obake::series_cf_t<P>, Int>) {
            scal_one<P>(ctx, d, Rat(k, 2), Rat(k, 2));
        }
    };
}

// The same object on both sides.
template <typename P>
std::function<void(mc::Ctx &)> alias(Univ u)
{
    auto v = std::make_shared<std::vector<Desc>>(enumerate(u));
    return [v](mc::Ctx &ctx) {
        const auto &d = ctx.pick(*v, "a");
        const Ref r = d.ref(), dbl = r + r;
        auto a = d.make<P>();
        check_res<P, P>(ctx, a + a, dbl, d.ss, "a + a", d, d);
        check_res<P, P>(ctx, a - a, Ref(), d.ss, "a - a", d, d);
        if (to_ref(a) != r) ctx.fail("a + a modified a");
        auto b = a;
        b += b;
        check_res<P, P>(ctx, b, dbl, d.ss, "a += a", d, d);
        b = a;
        b -= b;
        check_res<P, P>(ctx, b, Ref(), d.ss, "a -= a", d, d);
        b = a;
        check_res<P, P>(ctx, b + std::as_const(b), dbl, d.ss, "a + as_const(a)", d, d);
        // The same object as rvalue operands.
        auto both = [&](auto f, const Ref &e, const char *what) {
            P x(a);
            check_res<P, P>(ctx, f(x), e, d.ss, what, d, d);
            x = a;
            if (to_ref(x) != r) ctx.fail(mc::cat("the operand of ", what, " cannot be assigned properly: ", d.str()));
        };
        both([](P &x) { return std::move(x) + x; }, dbl, "move(a) + a");
        both([](P &x) { return x + std::move(x); }, dbl, "a + move(a)");
        both([](P &x) { return std::move(x) + std::move(x); }, dbl, "move(a) + move(a)");
        both([](P &x) { return std::as_const(x) + std::move(x); }, dbl, "as_const(a) + move(a)");
        both([](P &x) { return std::move(x) - x; }, Ref(), "move(a) - a");
        both([](P &x) { return x - std::move(x); }, Ref(), "a - move(a)");
        both([](P &x) { return std::move(x) - std::move(x); }, Ref(), "move(a) - move(a)");
        both([](P &x) { return P(x += std::move(x)); }, dbl, "a += move(a)");
        both([](P &x) { return P(x -= std::move(x)); }, Ref(), "a -= move(a)");
        both([](P &x) { return P(x += std::as_const(x)); }, dbl, "a += as_const(a)");
        check_res<P, P>(ctx, +a, r, d.ss, "+a", d, d);
        check_res<P, P>(ctx, -a, -r, d.ss, "-a", d, d);
        ctx.state(d.str());
    };
}

using k32 = op::packed_monomial<std::int32_t>;
using k64 = op::packed_monomial<std::int64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using d64 = op::d_packed_monomial<std::int64_t, 1>;
using u64 = op::packed_monomial<std::uint64_t>;
using PR = obake::polynomial<k32, Rat>;
using PI = obake::polynomial<k32, Int>;
using PD = obake::polynomial<k32, double>;
const Rat h(1, 2);
// Too small for a double.
const Rat tiny = Rat(1) / Rat(mppp::pow(Int(10), 400));
// Broad in symbol sets, one or two terms.
const Univ u1{{{}, {"x"}, {"y"}, {"x", "y"}, {"x", "z"}}, {0, 1, -2}, {Rat(1), Rat(-1)}, 1, {0, 1}};
const Univ u2{{{"x"}, {"y"}, {"x", "z"}}, {0, 1}, {Rat(1), Rat(-1), Rat(2)}, 2, {0, 2}};
const Univ u2r{{{"x"}, {"y"}, {"x", "y"}}, {0, 1}, {h, Rat(-1)}, 2, {0, 1}};
const Univ u3{{{"x"}, {"x", "y"}}, {0, 1, 3}, {Rat(1), Rat(-1)}, 2, {0, 1}};
const Univ up{{{}, {"b"}, {"a", "b"}, {"b", "c"}, {"a", "c", "d"}}, {0, 1}, {Rat(1), Rat(-1)}, 1, {0, 2}};
const Univ ul{{{"x"}}, {0, 1, 2, 3, 4}, {Rat(1), Rat(-1)}, 4, {0, 1}};
const Univ t1{{{}, {"x"}, {"y"}, {"x", "y"}, {"x", "z"}, {"w", "y"}}, {0, 1, -2}, {Rat(1), Rat(-1), Rat(3)}, 1, {0, 1, 3}};
const Univ t2{{{"x"}, {"y"}, {"x", "y"}, {"y", "z"}}, {0, 1}, {Rat(1), Rat(-1), h}, 2, {0, 2}};

#if PART == 0
const mc::Reg reg({
    {"packed32 rat+rat one term, all symbol relations", pairs<PR, PR>(u1, u1)},
    {"packed32 rat+rat two terms", pairs<PR, PR>(u2, u2), 2, 2},
    {"packed32 rat+rat cancellations", pairs<PR, PR>(u3, u3)},
    {"packed32 rat+rat up to four terms", pairs<PR, PR>(ul, {{{"x"}, {"y"}}, {0, 2, 3}, {Rat(1), Rat(-1)}, 2, {0, 1}})},
    {"thorough rat+rat one term", pairs<PR, PR>(t1, t1), 2, 1},
    {"thorough rat+rat two terms", pairs<PR, PR>(t2, t2), 2, 1},
    {"aliasing rat", alias<PR>(ul)},
});
#elif PART == 1
const mc::Reg reg({
    {"packed32 int+rat", pairs<PI, PR>(u2, u2r)},
    {"thorough int+rat two terms", pairs<PI, PR>(t2, t2), 2, 1},
});
#elif PART == 2
const mc::Reg reg({
    {"packed32 rat+int", pairs<PR, PI>(u2r, u2)},
    {"packed32 double+int", pairs<PD, PI>(u1, u2)},
});
#elif PART == 3
const mc::Reg reg({
    {"packed64 int+int", pairs<obake::polynomial<k64, Int>, obake::polynomial<k64, Int>>(u1, u2)},
    {"unsigned packed64 int+int", pairs<obake::polynomial<u64, Int>, obake::polynomial<u64, Int>>(up, up)},
});
#elif PART == 4
const mc::Reg reg({
    {"d_packed32 rat+int", pairs<obake::polynomial<d32, Rat>, obake::polynomial<d32, Int>>(u1, u1)},
    {"d_packed64 rat+rat", pairs<obake::polynomial<d64, Rat>, obake::polynomial<d64, Rat>>(up, up)},
});
#elif PART == 5
const mc::Reg reg({
    {"scalars rat", scalars<PR>(u1)},
    {"scalars int", scalars<PI>(u2)},
    {"aliasing int d_packed", alias<obake::polynomial<d32, Int>>(u1)},
});
#elif PART == 6
// Conversions of the coefficients that produce zeroes.
void vanishing(mc::Ctx &ctx)
{
    const Syms sets[] = {{}, {"x"}, {"y"}, {"x", "y"}};
    const Syms &sa = sets[ctx.choose(4)], &sb = sets[ctx.choose(4)];
    const unsigned ga = ctx.choose(3), gb = ctx.choose(3);
    const Rat cs[] = {tiny, -tiny, Rat(1)};
    auto mk = [&](const Syms &s, std::vector<Term> &ts) {
        ts.push_back(Term{Exps(s.size(), 1), cs[ctx.choose(3)]});
        if (!s.empty() && ctx.flag()) ts.push_back(Term{Exps(s.size(), 2), cs[ctx.choose(3)]});
    };
    std::vector<Term> ta, tb;
    mk(sa, ta);
    mk(sb, tb);
    const auto a = build<PR>(sa, ta, ga);
    std::vector<Term> tb1;
    for (const auto &t : tb) tb1.push_back(Term{t.e, Rat(2)});
    const auto b = build<PD>(sb, tb1, gb);
    // The values of the terms of a after conversion.
    std::vector<Term> tc;
    for (const auto &t : ta) tc.push_back(Term{t.e, Rat(static_cast<double>(t.c))});
    const Ref ra = build_ref(sa, tc), rb = build_ref(sb, tb1);
    auto chk = [&](const auto &r, const Ref &e, const char *form) {
        ctx.op();
        MC_CHECK(ctx, to_ref(r) == e, form, " gave ", show(r), " expected ", e);
        check_inv(ctx, r, form);
    };
    chk(a + b, ra + rb, "tiny + double");
    chk(b + a, ra + rb, "double + tiny");
    chk(a - b, ra - rb, "tiny - double");
    chk(b - a, rb - ra, "double - tiny");
    chk(PR(a) + b, ra + rb, "move(tiny) + double");
    chk(b + PR(a), ra + rb, "double + move(tiny)");
    auto c = b;
    c += a;
    chk(c, ra + rb, "double += tiny");
    c = b;
    c -= PR(a);
    chk(c, rb - ra, "double -= move(tiny)");
    ctx.state(mc::cat(show(a), show(b)));
}
const mc::Reg reg({
    {"scalars d_packed", scalars<obake::polynomial<d32, Rat>>(u1)},
    {"larger operands, packed", pairs<PR, PI>(scale({5, 17, 33, 70}, {1, 4}, {0, 5}, true), scale({6, 40}, {2, 4}, {0, 3}, true))},
    {"larger operands, d_packed", pairs<obake::polynomial<d32, Int>, obake::polynomial<d32, Rat>>(scale({9, 33}, {3, 9}, {0, 4}, true), scale({6, 40}, {1, 10}, {0, 7}, true))},
    {"larger operands, aliasing", alias<PR>(scale({5, 33, 130, 600}, {1, 4}, {0, 5, 9}, true))},
    {"thorough larger operands", pairs<PR, PR>(scale({5, 17, 33, 70, 300}, {1, 3, 5}, {0, 2, 8}, true), scale({6, 40, 300}, {2, 4}, {0, 3}, true)), 2, 1},
    {"coefficients that vanish in the conversion", vanishing},
});
#endif

} // namespace
