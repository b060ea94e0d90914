// P11: negation, scalar multiplication and division, over all members of bounded universes and a set of scalars.
#include "wcf.hpp"

#include "pairs.hpp"

using namespace hv;
namespace op = obake::polynomials;

namespace
{

template <typename P>
void expect(mc::Ctx &ctx, const P &p, const Ref &r, const Desc &a, const std::string &what)
{
    ctx.op();
    ctx.validated();
    if (to_ref(p) != r) ctx.fail(mc::cat(what, " with a = ", a.str(), ": got ", show(p), ", expected ", r.str()));
    if (to_syms(p.get_symbol_set()) != a.ss) ctx.fail(mc::cat(what, " with a = ", a.str(), ": wrong symbols in ", show(p)));
    check_inv(ctx, p, what);
}
template <typename P>
std::function<void(mc::Ctx &)> neg(Univ u)
{
    return all_of(u, [](mc::Ctx &ctx, const Desc &d) {
        const P a = d.make<P>();
        const Ref r = d.ref(), m = -r;
        expect(ctx, -a, m, d, "-a");
        expect(ctx, -P(a), m, d, "-move(a)");
        expect(ctx, +a, r, d, "+a");
        expect(ctx, +P(a), r, d, "+move(a)");
        expect(ctx, -(-a), r, d, "-(-a)");
        P b(a);
        obake::negate(b);
        expect(ctx, b, m, d, "negate(a)");
        obake::negate(b);
        expect(ctx, b, r, d, "negate twice");
        b = -b;
        expect(ctx, b, m, d, "a = -a");
        b = a;
        b = -std::move(b);
        expect(ctx, b, m, d, "a = -move(a)");
        b = a;
        P c(-b);
        expect(ctx, b, r, d, "operand of -b");
        expect(ctx, c + b, Ref(), d, "-b + b");
        obake::negate(P(a));
        expect(ctx, a, r, d, "a untouched");
        MC_CHECK(ctx, b.get_s_size() == d.segs && (-b).get_s_size() == d.segs, "negation changed the number of segments");
        ctx.state(d.str());
    });
}
// Reference of a scalar operation: per coefficient, converted to the coefficient type of the result.
template <typename R, typename F>
Ref map(const Ref &a, F f)
{
    Ref r;
    for (const auto &[m, c] : a.t) r.add(m, f(c));
    return r;
}
template <typename P, typename T>
void scal(mc::Ctx &ctx, const Desc &d, const T &x, const Rat &v)
{
    using C = obake::series_cf_t<P>;
    using R = typename prom<C, std::conditional_t<std::is_integral_v<T>, Int, T>>::type;
    using PR_ = obake::polynomial<obake::series_key_t<P>, R>;
    const P a = d.make<P>();
    const Ref r = d.ref();
    const auto sx = v.to_string();
    // Multiplication.
    {
        const Ref e = map<R>(r, [&](const Rat &c) { return c * v; });
        static_assert(std::is_same_v<decltype(a * x), PR_> && std::is_same_v<decltype(x * a), PR_>);
        expect(ctx, a * x, e, d, "a * " + sx);
        expect(ctx, x * a, e, d, sx + " * a");
        expect(ctx, P(a) * x, e, d, "move(a) * " + sx);
        expect(ctx, T(x) * P(a), e, d, sx + " * move(a)");
        P b(a);
        auto &rb = (b *= x);
        MC_CHECK(ctx, &rb == &b, "*= does not return its left operand");
        expect(ctx, b, conv<C>(e), d, "a *= " + sx);
    }
    // Division.
    if (!v.is_zero()) {
        const Ref e = map<R>(r, [&](const Rat &c) {
            const Rat q = c / v;
            if constexpr (std::is_same_v<R, Int>) {
                return Rat(Int(q)); // Truncated.
            } else {
                return q;
            }
        });
        static_assert(std::is_same_v<decltype(a / x), PR_>);
        expect(ctx, a / x, e, d, "a / " + sx);
        expect(ctx, P(a) / x, e, d, "move(a) / " + sx);
        MC_CHECK(ctx, (a / x).get_s_size() == d.segs, "division changed the number of segments");
        P b(a);
        auto &rb = (b /= x);
        MC_CHECK(ctx, &rb == &b, "/= does not return its left operand");
        expect(ctx, b, conv<C>(e), d, "a /= " + sx);
    } else if constexpr (!std::is_same_v<R, double>) {
        for (int form = 0; form < 3; ++form) {
            bool thrown = false;
            P b(a);
            try {
                if (form == 0)
                    (void)(b / x);
                else if (form == 1)
                    b /= x;
                else
                    (void)(P(b) / x);
            } catch (const mppp::zero_division_error &) {
                thrown = true;
            }
            ctx.validated();
            if (thrown != !r.t.empty()) ctx.fail(mc::cat("division of ", d.str(), " by zero ", thrown ? "throws" : "is not reported"));
            if (thrown) expect(ctx, b, r, d, "operand of a failed division");
        }
    }
    expect(ctx, a, r, d, "a untouched");
}
template <typename P>
std::function<void(mc::Ctx &)> scalars(Univ u)
{
    return all_of(u, [](mc::Ctx &ctx, const Desc &d) {
        const int k = static_cast<int>(ctx.choose(7)) - 3;
        scal<P>(ctx, d, k, Rat(k));
        scal<P>(ctx, d, static_cast<long>(k), Rat(k));
        scal<P>(ctx, d, Int(k), Rat(k));
        scal<P>(ctx, d, Rat(k, 2), Rat(k, 2));
        if (k == 0 || k == 1 || k == 2 || k == -1 || k == -2) scal<P>(ctx, d, static_cast<double>(k), Rat(k));
        // Division or multiplication by one's own coefficient.
        P a = d.make<P>();
        if (!a.empty()) {
            const auto c = to_ref(a.begin()->second).t.begin()->second;
            a *= a.begin()->second;
            expect(ctx, a, map<int>(d.ref(), [&](const Rat &x) { return x * c; }), d, "a *= a.begin()->second");
        }
        ctx.state(mc::cat(d.str(), k));
    });
}
// Nested coefficients: scalars act on the innermost ones, polynomials on the coefficients.
template <typename PP, typename P>
std::function<void(mc::Ctx &)> nested(Univ uo, Univ ui)
{
    return all_pairs(uo, ui, [](mc::Ctx &ctx, const Desc &o, const Desc &i) {
        using K = obake::series_key_t<PP>;
        const P p = i.make<P>();
        PP q;
        q.set_n_segments(o.segs);
        q.set_symbol_set(to_ss(o.ss));
        for (const auto &t : o.ts) q.add_term(key_access<K>::make(t.e), p * obake::series_cf_t<P>(t.c));
        const Ref r = o.ref() * i.ref();
        Desc d(o);
        expect(ctx, -q, -r, d, "-q");
        for (int k = -2; k <= 2; ++k) {
            const Ref e = r * Ref(Rat(k));
            expect(ctx, q * k, e, d, mc::cat("q * ", k));
            expect(ctx, Rat(k) * q, e, d, mc::cat(k, " * q"));
            if (k) expect(ctx, q / k, r * Ref(Rat(1) / Rat(k)), d, mc::cat("q / ", k));
        }
        expect(ctx, q * p, r * i.ref(), d, "q * p");
        expect(ctx, p * PP(q), r * i.ref(), d, "p * move(q)");
        expect(ctx, q * (p - p), Ref(), d, "q * (p - p)");
        const auto x = p + 1;
        expect(ctx, q * x, r * (i.ref() + Ref(Rat(1))), d, "q * (p + 1)");
        ctx.state(mc::mix(mc::hstr(o.str()), mc::hstr(i.str())));
    });
}

using k32 = op::packed_monomial<std::int32_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using PR = obake::polynomial<k32, Rat>;
using PI = obake::polynomial<k32, Int>;
using PF = obake::polynomial<k32, double>;
using PD = obake::polynomial<d32, Rat>;
using PDI = obake::polynomial<d32, Int>;
using PW = obake::polynomial<k32, wc::wcf>;
using PP = obake::polynomial<k32, PR>;

const Univ u{{{}, {"x"}, {"x", "y"}}, {-1, 0, 1}, {Rat(1), Rat(-1), Rat(4)}, 2, {0, 2}};
const Univ uh{{{}, {"x"}, {"x", "y"}}, {0, 1}, {Rat(1, 2), Rat(-1), Rat(3)}, 3, {0, 1}};
const Univ ut{{{"x", "y"}}, {-1, 0, 1}, {Rat(1, 2), Rat(-1), Rat(3)}, 4, {0, 2}};

#if PART == 0
const mc::Reg reg({
    {"negation, rat", neg<PR>(uh)},
    {"scalars, rat", scalars<PR>(uh)},
    {"thorough negation, rat", neg<PR>(ut), 2, 1},
    {"thorough scalars, rat", scalars<PR>({{{"x", "y"}}, {-1, 0, 1}, {Rat(1, 2), Rat(-1), Rat(3)}, 3, {0, 2}}), 2, 1},
});
#elif PART == 1
const mc::Reg reg({
    {"negation, int", neg<PI>(u)},
    {"scalars, int", scalars<PI>(u)},
    {"larger operands, negation", neg<PI>(scale({5, 33, 300}, {1, 5}, {0, 5}, true))},
    {"larger operands, scalars", scalars<PI>(scale({5, 33, 300}, {1, 5}, {0, 5}, true))},
});
#elif PART == 2
const mc::Reg reg({
    {"negation, double", neg<PF>(uh)},
    {"negation, user-defined", neg<PW>(u)},
    {"scalars, d_packed rat", scalars<PD>(u)},
});
#elif PART == 3
const mc::Reg reg({
    {"negation, d_packed", neg<PD>(uh)},
    {"larger operands, negation, d_packed", neg<PD>(scale({5, 33, 300}, {3, 9}, {0, 5}, true))},
    {"larger operands, scalars, d_packed", scalars<PD>(scale({5, 33, 100}, {3, 9}, {0, 5}, true))},
    {"scalars, d_packed int", scalars<PDI>(u)},
});
#elif PART == 4
const mc::Reg reg({
    {"nested", nested<PP, PR>({{{}, {"y"}, {"a", "y"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0, 1}}, {{{}, {"x"}, {"x", "z"}}, {0, 1}, {Rat(1), Rat(-3)}, 2, {0}})},
});
#endif

} // namespace
