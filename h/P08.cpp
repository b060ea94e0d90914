// P08: equality against equality of the reference values, over all pairs of two universes (all representations).
#include "pairs.hpp"
#include "ps.hpp"

#include <obake/power_series/power_series.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

std::string text(const Desc &d)
{
    return d.str();
}
template <typename T>
std::string text(const T &x)
{
    if constexpr (obake::is_cvr_series_v<T>) {
        return show(x);
    } else {
        return mc::cat(x);
    }
}
template <typename P>
std::string text(const PItem<P> &x)
{
    return x.str();
}
template <typename A, typename B, typename SA, typename SB>
void eq_forms(mc::Ctx &ctx, const A &a, const B &b, bool e, const SA &sa, const SB &sb)
{
    auto chk = [&](bool got, bool ex, const char *form) {
        ctx.op();
        ctx.validated();
        if (got != ex) ctx.fail(mc::cat(form, " is ", got, " with a = ", text(sa), ", b = ", text(sb)));
    };
    chk(a == b, e, "a == b");
    chk(b == a, e, "b == a");
    chk(a != b, !e, "a != b");
    chk(b != a, !e, "b != a");
    chk(A(a) == b, e, "move(a) == b");
    chk(a == B(b), e, "a == move(b)");
    chk(B(b) != A(a), !e, "move(b) != move(a)");
}
template <typename PA, typename PB>
void body(mc::Ctx &ctx, const Desc &da, const Desc &db)
{
    const PA a = da.make<PA>();
    const PB b = db.make<PB>();
    const Ref ra = da.ref(), rb = db.ref();
    eq_forms(ctx, a, b, ra == rb, da, db);
    // Lvalue non-const references and moved objects: the operands must be as they were.
    auto x = a;
    auto y = b;
    ctx.validated(3);
    if ((x == y) != (ra == rb)) ctx.fail("comparison of non-const lvalues: " + da.str() + ", " + db.str());
    for (int k = 0; k < 2; ++k) {
        const auto &s = k ? x : a;
        if (to_ref(s) != ra || to_syms(s.get_symbol_set()) != da.ss || s.get_s_size() != da.segs) ctx.fail("a comparison changed a: " + da.str() + " became " + show(s));
        const auto &t = k ? y : b;
        if (to_ref(t) != rb || to_syms(t.get_symbol_set()) != db.ss || t.get_s_size() != db.segs) ctx.fail("a comparison changed b: " + db.str() + " became " + show(t));
    }
    if (!(a == a) || (a != a)) ctx.fail("a series is not equal to itself: " + da.str());
    ctx.state(mc::mix(mc::hstr(da.str()), mc::hstr(db.str())));
}
template <typename PA, typename PB>
std::function<void(mc::Ctx &)> pairs(Univ ua, Univ ub)
{
    return all_pairs(ua, ub, [](mc::Ctx &c, const Desc &a, const Desc &b) { body<PA, PB>(c, a, b); });
}
// Triples built by different routes: the results of operations against each other.
template <typename P>
std::function<void(mc::Ctx &)> routes(Univ ua, Univ ub)
{
    return all_pairs(ua, ub, [](mc::Ctx &c, const Desc &da, const Desc &db) {
        const P a = da.make<P>(), b = db.make<P>();
        const Ref ra = da.ref(), rb = db.ref();
        const std::vector<std::pair<P, Ref>> v{{a, ra}, {b, rb}, {a + b, ra + rb}, {b + a - b, ra}, {a * b, ra * rb}, {b * a, ra * rb}, {a - a, Ref()}, {-(b - a), ra - rb}, {a - b, ra - rb}};
        for (const auto &[x, rx] : v)
            for (const auto &[y, ry] : v) {
                c.op();
                c.validated();
                if ((x == y) != (rx == ry)) c.fail(mc::cat("== gives ", x == y, " for ", show(x), " and ", show(y), " computed from a = ", da.str(), ", b = ", db.str()));
                if ((x != y) != (rx != ry)) c.fail(mc::cat("!= gives ", x != y, " for ", show(x), " and ", show(y), " computed from a = ", da.str(), ", b = ", db.str()));
            }
        c.state(mc::mix(mc::hstr(da.str()), mc::hstr(db.str())));
    });
}
template <typename P>
std::function<void(mc::Ctx &)> scalars(Univ u)
{
    return all_of(u, [](mc::Ctx &ctx, const Desc &d) {
        const P a = d.make<P>();
        const Ref r = d.ref();
        for (int k = -3; k <= 3; ++k) {
            eq_forms(ctx, a, k, r == Ref(Rat(k)), d, k);
            eq_forms(ctx, a, Int(k), r == Ref(Rat(k)), d, k);
            eq_forms(ctx, a, Rat(k, 2), r == Ref(Rat(k, 2)), d, Rat(k, 2));
            eq_forms(ctx, a, k / 2., r == Ref(Rat(k, 2)), d, Rat(k, 2));
            if (k >= 0) eq_forms(ctx, a, static_cast<unsigned>(k), r == Ref(Rat(k)), d, k);
        }
        ctx.state(d.str());
    });
}
// Different ranks: polynomials in y.. with polynomial coefficients in x.
template <typename P, typename Q>
std::function<void(mc::Ctx &)> ranks(Univ uo, Univ ui)
{
    auto vo = std::make_shared<std::vector<Desc>>(enumerate(uo));
    auto vi = std::make_shared<std::vector<Desc>>(enumerate(ui));
    return [vo, vi](mc::Ctx &ctx) {
        // A nested polynomial whose terms share one inner polynomial times the outer coefficients.
        auto mk = [&](const Desc &o, const Desc &i) {
            P p;
            p.set_n_segments(o.segs);
            p.set_symbol_set(to_ss(o.ss));
            for (const auto &t : o.ts) p.add_term(key_access<obake::series_key_t<P>>::make(t.e), i.make<Q>() * obake::series_cf_t<Q>(t.c));
            return p;
        };
        const auto &o = ctx.pick(*vo, "outer"), &i = ctx.pick(*vi, "inner");
        const P a = mk(o, i);
        const Ref ra = o.ref() * i.ref();
        MC_CHECK(ctx, to_ref(a) == ra, "construction of ", o.str(), " * ", i.str(), " gave ", show(a));
        for (const auto &j : *vi) {
            const Q q = j.make<Q>();
            eq_forms(ctx, a, q, ra == j.ref(), a, j);
            const P b = mk(o, j);
            eq_forms(ctx, a, b, ra == o.ref() * j.ref(), a, b);
        }
        for (const auto &j : *vo) {
            const P b = mk(j, i);
            eq_forms(ctx, a, b, ra == j.ref() * i.ref(), a, b);
        }
        for (int k = -2; k <= 2; ++k) eq_forms(ctx, a, k, ra == Ref(Rat(k)), a, k);
        ctx.state(mc::mix(mc::hstr(o.str()), mc::hstr(i.str())));
    };
}

// Power series: equal if the values and the truncations are.
template <typename LA, typename LB>
std::function<void(mc::Ctx &)> tagged(LA la, LB lb)
{
    return [=](mc::Ctx &ctx) {
        const auto &va = la();
        const auto &vb = lb();
        const auto &a = va[ctx.choose(static_cast<unsigned>(va.size()), "a")];
        if (ctx.logging()) ctx.log("a = " + a.str());
        for (const auto &b : vb) {
            eq_forms(ctx, a.p, b.p, a.r == b.r && a.t == b.t, a, b);
            if (to_ref(a.p) != a.r || to_ref(b.p) != b.r || !(trunc_of(a.p) == a.t) || !(trunc_of(b.p) == b.t)) ctx.fail("an operand was modified: a = " + a.str() + ", b = " + b.str());
        }
        for (int k = -1; k <= 2; ++k) {
            eq_forms(ctx, a.p, k, a.r == Ref(Rat(k)), a, k);
            eq_forms(ctx, a.p, Rat(k, 2), a.r == Ref(Rat(k, 2)), a, Rat(k, 2));
        }
        ctx.state(a.str());
    };
}
template <typename P>
auto items(Univ u, std::vector<Trunc> t)
{
    return lazy([=] { return ps_items<P>(u, t); });
}

using k32 = op::packed_monomial<std::int32_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using d64 = op::d_packed_monomial<std::int64_t, 3>;
using PR = obake::polynomial<k32, Rat>;
using PI = obake::polynomial<k32, Int>;
using PF = obake::polynomial<k32, double>;
using PD = obake::polynomial<d32, Rat>;
using PDI = obake::polynomial<d32, Int>;
using PP = obake::polynomial<k32, PR>;

const std::vector<Syms> sets = {{}, {"x"}, {"y"}, {"x", "y"}, {"a", "x"}, {"a", "x", "y"}};
const Univ u1{sets, {0, 1}, {Rat(1), Rat(-1)}, 2, {0, 1}};
const Univ u1q{sets, {0, 1}, {Rat(1)}, 2, {0, 1}};
const Univ u2{{{"x"}, {"x", "y"}, {"b", "x", "y"}}, {0, 2}, {Rat(1), Rat(2)}, 2, {0, 2}};
const Univ u3{{{"x"}, {"x", "z"}}, {-1, 0, 1}, {Rat(1), Rat(1, 2)}, 3, {0}};
const Univ u3b{{{"x"}, {"a", "x"}}, {-1, 0, 1}, {Rat(1), Rat(1, 2)}, 2, {1}};
const Univ ui{{{"x"}, {"x", "z"}}, {0, 1, 3}, {Rat(1), Rat(-2)}, 2, {1}};
const Univ uiq{{{"x"}, {"x", "z"}}, {0, 2}, {Rat(1), Rat(-2)}, 2, {1}};
const Univ u3q{{{"x"}, {"x", "z"}}, {-1, 0, 1}, {Rat(1), Rat(1, 2)}, 2, {0}};
const Univ us{{{}, {"x"}, {"x", "y"}}, {0, 1}, {Rat(1), Rat(-1), Rat(1, 2)}, 2, {0, 1}};
const Univ ut{sets, {-1, 0, 1}, {Rat(1), Rat(-1)}, 2, {0, 1}};

#if PART == 0
const mc::Reg reg({
    {"rat == rat", pairs<PR, PR>(u1q, u2)},
    {"rat == rat, same universe", pairs<PR, PR>(u1q, u1q)},
    {"thorough rat == rat, three terms", pairs<PR, PR>(u3, u3b), 2, 1},
    {"thorough rat == rat", pairs<PR, PR>(ut, ut), 2, 1},
    {"rat == scalar", scalars<PR>(us)},
    {"larger operands", pairs<PR, PR>(scale({5, 6, 17, 70, 300}, {2, 3, 5}, {0, 5}, true), scale({5, 6, 17, 70}, {2, 5}, {0, 3}, true))},
});
#elif PART == 1
const mc::Reg reg({
    {"int == rat", pairs<PI, PR>(uiq, u2)},
    {"rat == double", pairs<PR, PF>(u3q, u3b)},
    {"int == double", pairs<PI, PF>(ui, u1q)},
    {"int == scalar", scalars<PI>(ui)},
    {"double == scalar", scalars<PF>(us)},
});
#elif PART == 2
const mc::Reg reg({
    {"d_packed rat == int", pairs<PD, PDI>(u1q, u2)},
    {"d_packed rat == rat", pairs<PD, PD>(u3q, u3b)},
    {"d_packed64 rat == rat", pairs<obake::polynomial<d64, Rat>, obake::polynomial<d64, Rat>>(u2, u1q)},
    {"packed unsigned 64", pairs<obake::polynomial<u64, Int>, obake::polynomial<u64, Rat>>(uiq, u2)},
    {"d_packed == scalar", scalars<PD>(us)},
    {"larger operands, d_packed", pairs<PD, PDI>(scale({5, 6, 17, 70}, {2, 9}, {0, 5}, true), scale({5, 6, 17, 70}, {9, 10}, {0, 3}, true))},
});
#elif PART == 3
const Univ r1{{{"x"}, {"x", "y"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0, 1}};
const Univ r2{{{"x"}, {"a", "y"}}, {0, 1}, {Rat(1), Rat(2)}, 2, {0}};
const mc::Reg reg({
    {"results of operations", routes<PR>(r1, r2)},
    {"results of operations, d_packed", routes<PD>(r1, r2)},
});
#elif PART == 4
const Univ no{{{}, {"y"}, {"a", "y"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0, 1}};
const Univ ni{{{}, {"x"}, {"x", "z"}}, {0, 1}, {Rat(1), Rat(2)}, 2, {0}};
const mc::Reg reg({
    {"nested", ranks<PP, PR>(no, ni)},
});
#elif PART == 5
using SR = obake::p_series<k32, Rat>;
using SI = obake::p_series<k32, Int>;
using SD = obake::p_series<d32, Rat>;
const auto t1 = truncs({0, 1, 3}, {{"x"}, {"x", "y"}});
const Univ p1{{{}, {"x"}, {"x", "y"}, {"a", "x"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0}};
const Univ p2{{{}, {"x"}, {"y"}, {"a", "x", "y"}}, {0, 1}, {Rat(1)}, 2, {0, 1}};
const mc::Reg reg({
    {"power series", tagged(items<SR>(p1, t1), items<SR>(p2, t1))},
    {"power series, mixed coefficients", tagged(items<SI>(p1, truncs({1, 2}, {{"x"}})), items<SR>(p2, truncs({1, 2}, {{"x"}, {"y"}})))},
    {"power series, d_packed", tagged(items<SD>(p1, truncs({1, 2}, {{"x"}})), items<SD>(p2, truncs({1, 2}, {{"x"}, {"y"}})))},
});
#endif

} // namespace
