// P12: derivatives and antiderivatives of all members of bounded universes with respect to present and absent symbols,
// against term-by-term reference calculus; exponents at the packing limits.
#include "limits.hpp"
#include "pairs.hpp"

#include <obake/math/diff.hpp>
#include <obake/math/integrate.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

const std::vector<std::string> syms = {"x", "y", "b", "a", "zz"};

template <typename P, typename Q>
void expect(mc::Ctx &ctx, const Q &q, const Ref &r, const Syms &ss, bool exact_ss, const P &a, const std::string &what)
{
    ctx.op();
    ctx.validated();
    if (to_ref(q) != r) ctx.fail(mc::cat(what, " with a = ", show(a), ": got ", show(q), ", expected ", r.str()));
    const auto qs = to_syms(q.get_symbol_set());
    if (exact_ss ? (qs != ss) : !std::includes(ss.begin(), ss.end(), qs.begin(), qs.end()))
        ctx.fail(mc::cat(what, " with a = ", show(a), ": got ", show(q), ", expected the symbols ", str(ss)));
    check_inv(ctx, q, what);
}
enum Out { Value, Domain, Invalid, Overflow };
// One polynomial against its reference. Fast: the algorithm keeps the type and the symbol set.
template <typename P>
void calculus(mc::Ctx &ctx, const P &a, const Ref &ra, const std::string &s, bool integral, bool nested)
{
    const auto ss = to_syms(a.get_symbol_set());
    const auto us = syms_union(ss, {s});
    using D = decltype(obake::diff(a, s));
    constexpr bool same = std::is_same_v<D, P>;
    // Derivative.
    const Ref d = ra.diff(s);
    expect(ctx, obake::diff(a, s), d, ss, same, a, "diff(a, " + s + ")");
    expect(ctx, obake::diff(P(a), s), d, ss, same, a, "diff(move(a), " + s + ")");
    // The product rule against itself.
    expect(ctx, obake::diff(obake::diff(a, s), s), d.diff(s), ss, same, a, "second derivative");
    // Antiderivative.
    if (!integral) return;
    Out ex = Value;
    Ref i;
    // Coefficients may not depend on the symbol.
    bool dep = false;
    if (nested)
        for (const auto &t : a)
            if constexpr (obake::is_cvr_series_v<obake::series_cf_t<P>>) {
                if (!to_ref(t.second).diff(s).t.empty()) dep = true;
            }
    try {
        i = ra.integrate(s);
    } catch (const std::domain_error &) {
        ex = Domain;
    }
    for (int form = 0; form < 2; ++form) {
        Out got = Value;
        P c(a);
        const char *what = form ? "integrate(move(a), " : "integrate(a, ";
        try {
            auto r = form ? obake::integrate(std::move(c), s) : obake::integrate(std::as_const(c), s);
            if (ex == Value && !dep) {
                expect(ctx, r, i, us, std::is_same_v<decltype(r), P>, a, what + s + ")");
                expect(ctx, obake::diff(r, s), ra, us, false, a, "derivative of " + (what + s) + ")");
            }
        } catch (const std::domain_error &) {
            got = Domain;
        } catch (const std::invalid_argument &) {
            got = Invalid;
        }
        ctx.validated();
        if (dep ? (got != Invalid && got != Domain) : got != ex)
            ctx.fail(mc::cat(what, s, ") with a = ", show(a), " ended in state ", got, ", expected ", dep ? Invalid : ex, " (0 value, 1 domain_error, 2 invalid_argument)"));
        if (!form && to_ref(c) != ra) ctx.fail("integrate() modified its argument");
    }
    ctx.validated();
    if (to_ref(a) != ra || to_syms(a.get_symbol_set()) != ss) ctx.fail("the operand was modified: " + show(a));
}
template <typename P>
std::function<void(mc::Ctx &)> flat(Univ u, bool integral = true)
{
    return all_of(u, [=](mc::Ctx &ctx, const Desc &d) {
        const P a = d.make<P>();
        const auto &s = ctx.pick(syms, "symbol");
        calculus(ctx, a, d.ref(), s, integral, false);
        if (obake::diff(a, s).get_s_size() != d.segs && std::is_same_v<P, decltype(obake::diff(a, s))>) ctx.fail("the derivative has another segmentation");
        ctx.state(d.str() + s);
    });
}
// Nested: the coefficients may depend on the same symbol.
template <typename PP, typename P>
std::function<void(mc::Ctx &)> nested(Univ uo, Univ ui)
{
    auto vo = std::make_shared<std::vector<Desc>>(enumerate(uo));
    auto vi = std::make_shared<std::vector<Desc>>(enumerate(ui));
    return [vo, vi](mc::Ctx &ctx) {
        const auto &o = ctx.pick(*vo, "outer");
        PP q;
        Ref r;
        q.set_n_segments(o.segs);
        q.set_symbol_set(to_ss(o.ss));
        for (const auto &t : o.ts) {
            const auto &i = ctx.pick(*vi, "inner");
            q.add_term(key_access<obake::series_key_t<PP>>::make(t.e), i.make<P>() * obake::series_cf_t<P>(t.c));
            Desc one(o);
            one.ts = {t};
            r = r + one.ref() * i.ref();
        }
        MC_CHECK(ctx, to_ref(q) == r, "construction: ", show(q));
        if (ctx.logging()) ctx.log(show(q));
        for (const auto &s : syms) {
            calculus(ctx, q, r, s, true, true);
        }
        ctx.state(show(q));
    };
}
// One term with exponents at the limits.
template <typename K>
std::function<void(mc::Ctx &)> edges(unsigned nsym)
{
    return [nsym](mc::Ctx &ctx) {
        using T = typename key_access<K>::value_type;
        using P = obake::polynomial<K, Rat>;
        const auto gs = group_size<K>::get(nsym);
        const auto [mn, mx] = pack_limits<T>(gs);
        const auto ev = edge_values<T>(gs);
        std::vector<T> e;
        for (unsigned k = 0; k < nsym; ++k) e.push_back(ctx.pick(ev, "exponent"));
        P p;
        Syms names;
        for (unsigned k = 0; k < nsym; ++k) names.push_back(std::string("x") + char('0' + k));
        p.set_symbol_set(to_ss(names));
        p.add_term(K(e.begin(), e.end()), 2);
        for (unsigned k = 0; k < nsym; ++k)
            for (int dir : {-1, 1}) {
                const i128 n = i128(e[k]) + dir;
                Out ex = Value;
                if (dir < 0 ? e[k] == T(0) : false)
                    ex = Value;
                else if (dir > 0 && n == 0)
                    ex = Domain;
                else if (n < i128(mn) || n > i128(mx))
                    ex = Overflow;
                Out got = Value;
                ctx.op();
                try {
                    const auto r = dir < 0 ? obake::diff(p, names[k]) : obake::integrate(p, names[k]);
                    if (ex == Value) {
                        if (dir < 0 && e[k] == T(0)) {
                            MC_CHECK(ctx, r.empty(), "derivative of a constant: ", show(r));
                        } else {
                            auto f(e);
                            f[k] = static_cast<T>(n);
                            Rat c(2);
                            if (dir < 0)
                                c *= Rat(e[k]);
                            else
                                c /= Rat(f[k]);
                            MC_CHECK(ctx, r.size() == 1u && r.begin()->first == K(f.begin(), f.end()) && r.begin()->second == c, dir < 0 ? "diff" : "integrate", " of exponents ", vstr(e),
                                     " w.r.t. the ", k, "-th gave ", show(r));
                            check_inv(ctx, r, "edge");
                        }
                    }
                } catch (const std::overflow_error &) {
                    got = Overflow;
                } catch (const std::domain_error &) {
                    got = Domain;
                }
                ctx.validated();
                if (got != ex) ctx.fail(mc::cat(dir < 0 ? "diff" : "integrate", " of exponents ", vstr(e), " w.r.t. the ", k, "-th ended in state ", got, ", expected ", ex, " (0 value, 1 domain_error, 3 overflow_error)"));
            }
        ctx.state(vstr(e));
    };
}

using k32 = op::packed_monomial<std::int32_t>;
using k64 = op::packed_monomial<std::int64_t>;
using u32 = op::packed_monomial<std::uint32_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using d64 = op::d_packed_monomial<std::int64_t, 3>;
using du32 = op::d_packed_monomial<std::uint32_t, 2>;
using PR = obake::polynomial<k32, Rat>;
using PD = obake::polynomial<d32, Rat>;
using PP = obake::polynomial<k32, PR>;
using PPD = obake::polynomial<d64, PR>;

const std::vector<Syms> sets = {{}, {"x"}, {"a", "x"}, {"x", "y"}};
const Univ u1{sets, {-2, -1, 0, 1, 2}, {Rat(1), Rat(-3)}, 2, {0}};
const Univ u2{{{"x"}, {"x", "y"}}, {0, 1, 3}, {Rat(1), Rat(1, 2)}, 2, {0, 2}};
const Univ u3{{{"x", "y"}}, {-1, 0, 1}, {Rat(1)}, 3, {1}};
const Univ ui{{{"x"}, {"x", "y"}}, {0, 1, 2, 3}, {Rat(12), Rat(-24)}, 2, {0}};
const Univ uu{{{"x"}, {"a", "x", "y"}}, {0, 2}, {Rat(1), Rat(-1)}, 2, {0, 1}};

#if PART == 0
const mc::Reg reg({
    {"packed rat", flat<PR>(u1)},
    {"packed rat, segmented", flat<PR>(u2)},
    {"packed rat, three terms", flat<PR>(u3)},
    {"larger operands", flat<PR>(scale({5, 33, 300}, {1, 2, 5}, {0, 5}, true))},
    {"larger operands, nonnegative exponents", flat<PR>(scale({5, 33, 300}, {1, 2, 5}, {0, 5}, false))},
    {"thorough packed rat", flat<PR>({{{"x", "y"}}, {-2, -1, 0, 1, 2}, {Rat(1), Rat(-3)}, 3, {0}}), 2, 1},
});
#elif PART == 1
const mc::Reg reg({
    {"packed int, divisible coefficients", flat<obake::polynomial<k32, Int>>(ui)},
    {"packed double", flat<obake::polynomial<k32, double>>({{{"x"}, {"a", "x"}}, {-2, 0, 1, 3}, {Rat(1), Rat(8)}, 2, {0}})},
    {"unsigned packed64 rat", flat<obake::polynomial<u64, Rat>>(uu)},
    {"packed64 machine integers", flat<obake::polynomial<k64, int>>(ui)},
});
#elif PART == 2
const mc::Reg reg({
    {"d_packed rat", flat<PD>(u1)},
    {"d_packed rat, segmented", flat<PD>(u2)},
    {"larger operands, d_packed", flat<PD>(scale({5, 33, 300}, {3, 9, 11}, {0, 5}, false))},
    {"d_packed64 rat", flat<obake::polynomial<d64, Rat>>(uu)},
});
#elif PART == 3
const Univ no{{{"x"}, {"a", "y"}}, {-1, 0, 2}, {Rat(1), Rat(-1)}, 2, {0, 1}};
const Univ ni{{{}, {"x"}, {"b", "x"}}, {0, 1, 2}, {Rat(1)}, 1, {0}};
const Univ nt{{{"x"}, {"b", "x"}}, {-1, 0, 1, 2}, {Rat(1), Rat(2)}, 2, {0}};
const mc::Reg reg({
    {"nested, packed", nested<PP, PR>(no, ni)},
    {"nested, d_packed over packed", nested<PPD, PR>(no, ni)},
    {"nested over machine integers", nested<obake::polynomial<k64, obake::polynomial<k32, int>>, obake::polynomial<k32, int>>({{{"x"}, {"a", "y"}}, {0, 1, 2}, {Rat(1), Rat(-1)}, 2, {0}}, {{{}, {"x"}, {"b", "x"}}, {0, 1, 2}, {Rat(12)}, 1, {0}})},
    {"thorough nested, packed", nested<PP, PR>({{{"x"}, {"a", "y"}}, {-1, 0, 2}, {Rat(1)}, 2, {0}}, nt), 2, 1},
});
#elif PART == 4
const mc::Reg reg({
    {"edges packed32 1", edges<k32>(1)},
    {"edges packed32 2", edges<k32>(2)},
    {"edges packed32 3", edges<k32>(3)},
    {"edges packed unsigned 32 2", edges<u32>(2)},
    {"edges packed64 2", edges<k64>(2)},
    {"edges packed unsigned 64 1", edges<u64>(1)},
    {"edges packed unsigned 64 2", edges<u64>(2)},
});
#elif PART == 5
const mc::Reg reg({
    {"edges d_packed32 2", edges<d32>(2)},
    {"edges d_packed32 3", edges<d32>(3)},
    {"edges d_packed64 1", edges<d64>(1)},
    {"edges d_packed64 2", edges<d64>(2)},
    {"edges d_packed unsigned 32 3", edges<du32>(3)},
    {"edges d_packed32 1 by 1", edges<op::d_packed_monomial<std::int32_t, 1>>(3)},
});
#endif

} // namespace
