// P22: operations on power series with every pair of truncation settings: inherited, or rejected without effect.
#include "ps.hpp"

#include <obake/math/pow.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

// What an operand looks like from outside.
template <typename P>
void intact(mc::Ctx &ctx, const P &p, const PItem<P> &a, const char *form, const char *which)
{
    ctx.validated(3);
    if (to_ref(p) != a.r || !(trunc_of(p) == a.t) || to_syms(p.get_symbol_set()) != to_syms(a.p.get_symbol_set()) || p.get_s_size() != a.p.get_s_size())
        ctx.fail(mc::cat("after the failure of ", form, ", ", which, " = ", a.str(), " became ", show(p), ", ", trunc_of(p).str()));
    check_inv(ctx, p, form);
}

template <typename R, typename PA, typename PB>
void combos(mc::Ctx &ctx, const PItem<PA> &a, const PItem<PB> &b)
{
    const auto mt = merged(a.t, b.t);
    auto both = [&] { return "a = " + a.str() + ", b = " + b.str(); };
    // The operation applied to copies of the operands: op(x, y) returns the result.
    auto run = [&](const char *form, const Ref &exact, bool in_place, auto op) {
        PA x(a.p);
        PB y(b.p);
        ctx.op();
        ctx.validated();
        try {
            const R r = op(x, y);
            if (!mt) ctx.fail(mc::cat(form, " is not rejected, ", both(), ", and gave ", show(r), ", ", trunc_of(r).str()));
            const auto e = mt->apply(exact);
            if (to_ref(r) != e || !(trunc_of(r) == *mt)) ctx.fail(mc::cat(form, " with ", both(), " gave ", show(r), ", ", trunc_of(r).str(), ", expected ", e.str(), ", ", mt->str()));
            check_inv(ctx, r, form);
            (void)in_place;
        } catch (const std::invalid_argument &ex) {
            if (mt) ctx.fail(mc::cat(form, " is rejected, ", both(), ": ", ex.what()));
            intact(ctx, x, a, form, "a");
            intact(ctx, y, b, form, "b");
            // The operands can still be used.
            x *= x;
            if (to_ref(x) != a.t.apply(a.r * a.r)) ctx.fail(mc::cat("after the failure of ", form, ", a * a is wrong for ", both()));
            const auto s = y + b.p;
            if (to_ref(s) != b.r + b.r || !(trunc_of(s) == b.t)) ctx.fail(mc::cat("after the failure of ", form, ", b + b is wrong for ", both()));
        }
    };
    const auto sum = a.r + b.r, dif = a.r - b.r;
    run("a + b", sum, false, [](const PA &x, const PB &y) { return x + y; });
    run("b + a", sum, false, [](const PA &x, const PB &y) { return y + x; });
    run("move(a) + b", sum, false, [](PA &x, const PB &y) { return std::move(x) + y; });
    run("a + move(b)", sum, false, [](const PA &x, PB &y) { return x + std::move(y); });
    run("move(a) + move(b)", sum, false, [](PA &x, PB &y) { return std::move(x) + std::move(y); });
    run("a - b", dif, false, [](const PA &x, const PB &y) { return x - y; });
    run("move(a) - b", dif, false, [](PA &x, const PB &y) { return std::move(x) - y; });
    run("a - move(b)", dif, false, [](const PA &x, PB &y) { return x - std::move(y); });
    run("b - a", -dif, false, [](const PA &x, const PB &y) { return y - x; });
    const auto prod = a.r * b.r;
    run("a * b", prod, false, [](const PA &x, const PB &y) { return x * y; });
    run("b * a", prod, false, [](const PA &x, const PB &y) { return y * x; });
    run("move(a) * move(b)", prod, false, [](PA &x, PB &y) { return std::move(x) * std::move(y); });
    if constexpr (std::is_same_v<PA, R>) {
        run("a += b", sum, true, [](PA &x, const PB &y) { return x += y; });
        run("a += move(b)", sum, true, [](PA &x, PB &y) { return x += std::move(y); });
        run("a -= b", dif, true, [](PA &x, const PB &y) { return x -= y; });
        run("a -= move(b)", dif, true, [](PA &x, PB &y) { return x -= std::move(y); });
        run("a *= b", prod, true, [](PA &x, const PB &y) { return x *= y; });
        run("a *= move(b)", prod, true, [](PA &x, PB &y) { return x *= std::move(y); });
    }
    // Equality never fails; series with different truncations differ.
    if constexpr (std::is_same_v<PA, PB>) {
        const bool eq = a.p == b.p;
        MC_CHECK(ctx, eq == (a.t == b.t && a.r == b.r) && eq == (b.p == a.p) && eq != (a.p != b.p), "equality is ", eq, " for ", both());
    }
}
template <typename R, typename LA, typename LB>
std::function<void(mc::Ctx &)> pairs(LA la, LB lb)
{
    return [=](mc::Ctx &ctx) {
        const auto &va = la();
        const auto &vb = lb();
        const auto &a = va[ctx.choose(static_cast<unsigned>(va.size()), "a")];
        if (ctx.logging()) ctx.log("a = " + a.str());
        for (const auto &b : vb) combos<R>(ctx, a, b);
        ctx.state(a.str());
    };
}
template <typename P>
auto items(const Univ &u, const std::vector<Trunc> &t, unsigned stride = 1)
{
    return lazy([=] { return ps_items<P>(u, t, stride); });
}
// All the sequences of operations on two series: the truncation follows the rules along the way.
template <typename P>
std::function<void(mc::Ctx &)> histories(std::vector<Trunc> ts, unsigned depth)
{
    return [=](mc::Ctx &ctx) {
        P v[2];
        Ref r[2];
        Trunc t[2];
        r[0].add(Mono{{"x", 1}}, Rat(1));
        r[0].add(Mono{{"x", 2}}, Rat(1));
        r[1].add(Mono{{"y", 1}}, Rat(1));
        r[1].add(Mono{}, Rat(2));
        v[0] = build<P>({"x"}, {{{1}, Rat(1)}, {{2}, Rat(1)}});
        v[1] = build<P>({"y"}, {{{1}, Rat(1)}, {{0}, Rat(2)}}, 1);
        for (unsigned i = 0; i < depth; ++i) {
            const auto o = ctx.choose(5 + static_cast<unsigned>(ts.size()), "operation");
            const auto k = ctx.choose(2, "series");
            const auto l = 1u - k;
            ctx.op();
            bool thrown = false;
            const auto mt = merged(t[k], t[l]);
            auto upd = [&](const Ref &e) {
                if (!mt) return;
                t[k] = *mt;
                r[k] = t[k].apply(e);
            };
            try {
                switch (o) {
                    case 0:
                        if (ctx.logging()) ctx.log(mc::cat("v", k, " += v", l));
                        upd(r[k] + r[l]);
                        v[k] += v[l];
                        break;
                    case 1:
                        if (ctx.logging()) ctx.log(mc::cat("v", k, " = v", k, " - v", l));
                        upd(r[k] - r[l]);
                        v[k] = std::move(v[k]) - v[l];
                        break;
                    case 2:
                        if (ctx.logging()) ctx.log(mc::cat("v", k, " *= v", l));
                        if (r[k].t.size() * r[l].t.size() > 40u) ctx.prune();
                        upd(r[k] * r[l]);
                        v[k] *= v[l];
                        break;
                    case 3:
                        if (ctx.logging()) ctx.log(mc::cat("v", k, " = v", l));
                        r[k] = r[l];
                        t[k] = t[l];
                        v[k] = v[l];
                        break;
                    case 4:
                        if (k) ctx.prune();
                        if (ctx.logging()) ctx.log("swap");
                        std::swap(r[0], r[1]);
                        std::swap(t[0], t[1]);
                        swap(v[0], v[1]);
                        break;
                    default:
                        if (ctx.logging()) ctx.log(mc::cat("v", k, " truncation ", ts[o - 5u].str()));
                        t[k] = ts[o - 5u];
                        r[k] = t[k].apply(r[k]);
                        set_trunc(v[k], t[k]);
                }
            } catch (const std::invalid_argument &) {
                thrown = true;
            }
            MC_CHECK(ctx, thrown == (o < 3u && !mt), "the operation was ", thrown ? "" : "not ", "rejected with ", t[k].str(), " and ", t[l].str());
            for (int j = 0; j < 2; ++j) {
                if (to_ref(v[j]) != r[j] || !(trunc_of(v[j]) == t[j])) ctx.fail(mc::cat("v", j, " is ", show(v[j]), ", ", trunc_of(v[j]).str(), ", expected ", r[j].str(), ", ", t[j].str()));
                check_inv(ctx, v[j], "history");
                ctx.validated(2);
            }
        }
        ctx.state(r[0].str() + t[0].str() + r[1].str() + t[1].str());
    };
}

using k32 = op::packed_monomial<std::int32_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using d2 = op::d_packed_monomial<std::int64_t, 2>;
using PI = obake::p_series<k32, Int>;
using PR = obake::p_series<k32, Rat>;
using DI = obake::p_series<d2, Int>;
using UI = obake::p_series<u64, Int>;

const std::vector<Rat> pm{Rat(1), Rat(-1)};
// Total and partial limits that select the same terms are still different policies.
const auto TT = truncs({0, 1, 2}, {{}, {"x"}, {"x", "y"}, {"x", "y", "z"}});
const Univ u{{{}, {"x"}, {"x", "y"}}, {0, 1}, {Rat(1)}, 2, {0, 1}};
const Univ uy{{{"y"}, {"x", "y"}}, {0, 2}, pm, 1, {0}};

#if PART == 0
const mc::Reg reg({
    {"packed int32", pairs<PI>(items<PI>(u, TT, 3), items<PI>(uy, TT, 2)), 1},
    {"histories, packed int32", histories<PI>({{0, 0, {}}, {1, 2, {}}, {1, 3, {}}, {2, 2, {"x"}}, {2, 2, {"y"}}}, 4)},
    {"thorough pairs", pairs<PI>(items<PI>(u, TT), items<PI>(uy, TT)), 1, 1},
    {"thorough histories, packed int32", histories<PI>({{0, 0, {}}, {1, 2, {}}, {1, 3, {}}, {2, 2, {"x"}}, {2, 2, {"y"}}}, 5), 2, 1},
});
#elif PART == 1
const mc::Reg reg({
    {"mixed coefficients", pairs<PR>(items<PR>(u, TT, 5), items<PI>(uy, TT, 3)), 1},
});
#elif PART == 2
const mc::Reg reg({
    {"d_packed int64", pairs<DI>(items<DI>(u, TT, 5), items<DI>(uy, TT, 2)), 1},
    {"histories, d_packed", histories<DI>({{0, 0, {}}, {1, 1, {}}, {2, 1, {"x", "y"}}}, 4)},
});
#elif PART == 3
const mc::Reg reg({
    {"packed uint64", pairs<UI>(items<UI>(u, TT, 5), items<UI>(uy, TT, 3)), 1},
});
#endif

} // namespace
