// P21: the results of the operations on truncated power series are the truncated exact results.
#include "ps.hpp"

#include <obake/math/diff.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

template <typename R, typename MA, typename MB>
void check_ps(mc::Ctx &ctx, const R &r, const Ref &exact, const Trunc &t, const Syms *us, const char *form, MA ma, MB mb)
{
    ctx.op();
    ctx.validated(3);
    const auto e = t.apply(exact);
    auto msg = [&] { return mc::cat(form, " with a = ", ma(), ", b = ", mb(), " gave ", show(r), ", ", trunc_of(r).str(), "; expected ", e.str(), ", ", t.str()); };
    if (to_ref(r) != e) ctx.fail(msg());
    if (!(trunc_of(r) == t)) ctx.fail("wrong truncation: " + msg());
    if (us && to_syms(r.get_symbol_set()) != *us) ctx.fail("wrong symbols: " + msg());
    check_inv(ctx, r, form);
}

// PA, PB: types of the operands, R: of the results.
template <typename R, typename PA, typename PB>
void arith(mc::Ctx &ctx, const PItem<PA> &a, const PItem<PB> &b)
{
    const auto mt = merged(a.t, b.t);
    auto sa = [&] { return a.str(); };
    auto sb = [&] { return b.str(); };
    const auto us = syms_union(to_syms(a.p.get_symbol_set()), to_syms(b.p.get_symbol_set()));
    if (!mt) return; // P22.
    const auto &t = *mt;
    const auto sum = a.r + b.r, dif = a.r - b.r, rdif = b.r - a.r;
    auto c = [&](const R &r, const Ref &e, const char *f) { check_ps(ctx, r, e, t, &us, f, sa, sb); };
    c(a.p + b.p, sum, "a + b");
    c(PA(a.p) + b.p, sum, "move(a) + b");
    c(a.p + PB(b.p), sum, "a + move(b)");
    c(PA(a.p) + PB(b.p), sum, "move(a) + move(b)");
    c(a.p - b.p, dif, "a - b");
    c(PA(a.p) - b.p, dif, "move(a) - b");
    c(b.p - a.p, rdif, "b - a");
    c(b.p - PA(a.p), rdif, "b - move(a)");
    const auto prod = a.r * b.r;
    c(a.p * b.p, prod, "a * b");
    c(PA(a.p) * PB(b.p), prod, "move(a) * move(b)");
    c(b.p * a.p, prod, "b * a");
    if constexpr (std::is_same_v<PA, R>) {
        PA x(a.p);
        c(x += b.p, sum, "a += b");
        PA y(a.p);
        c(y -= PB(b.p), dif, "a -= move(b)");
        PA z(a.p);
        c(z *= b.p, prod, "a *= b");
        // Continue with the results.
        PA w(x);
        w -= b.p;
        check_ps(ctx, w, t.apply(sum) - b.r, t, &us, "(a += b) -= b", sa, sb);
        x += x;
        check_ps(ctx, x, t.apply(sum) + t.apply(sum), t, &us, "(a += b) += itself", sa, sb);
        y *= y;
        check_ps(ctx, y, t.apply(dif) * t.apply(dif), t, &us, "(a -= b) *= itself", sa, sb);
        z -= z;
        check_ps(ctx, z, Ref(), t, &us, "(a *= b) -= itself", sa, sb);
    }
    if (to_ref(a.p) != a.r || to_ref(b.p) != b.r || !(trunc_of(a.p) == a.t) || !(trunc_of(b.p) == b.t)) ctx.fail("an operand was modified: a = " + a.str() + ", b = " + b.str());
}
template <typename R, typename LA, typename LB>
std::function<void(mc::Ctx &)> pairs(LA la, LB lb)
{
    return [=](mc::Ctx &ctx) {
        const auto &va = la();
        const auto &vb = lb();
        const auto &a = va[ctx.choose(static_cast<unsigned>(va.size()), "a")];
        if (ctx.logging()) ctx.log("a = " + a.str());
        for (const auto &b : vb) arith<R>(ctx, a, b);
        ctx.state(a.str());
    };
}
// Scalars: rank 0 operands are terms which can be beyond the limit, too.
template <typename R, typename LA, typename U>
std::function<void(mc::Ctx &)> scalars(LA la, std::vector<U> us)
{
    return [=](mc::Ctx &ctx) {
        const auto &va = la();
        const auto &a = va[ctx.choose(static_cast<unsigned>(va.size()), "a")];
        if (ctx.logging()) ctx.log("a = " + a.str());
        using PA = std::decay_t<decltype(a.p)>;
        auto sa = [&] { return a.str(); };
        const auto ss = to_syms(a.p.get_symbol_set());
        for (const auto &u : us) {
            const auto ru = to_ref(u);
            auto sb = [&] { return ru.str(); };
            auto c = [&](const R &r, const Ref &e, const char *f) { check_ps(ctx, r, e, a.t, &ss, f, sa, sb); };
            c(a.p + u, a.r + ru, "a + scalar");
            c(PA(a.p) + u, a.r + ru, "move(a) + scalar");
            c(u + a.p, a.r + ru, "scalar + a");
            c(a.p - u, a.r - ru, "a - scalar");
            c(u - a.p, ru - a.r, "scalar - a");
            c(u - PA(a.p), ru - a.r, "scalar - move(a)");
            c(a.p * u, a.r * ru, "a * scalar");
            c(u * PA(a.p), a.r * ru, "scalar * move(a)");
            if constexpr (std::is_same_v<PA, R>) {
                PA x(a.p);
                c(x += u, a.r + ru, "a += scalar");
                PA y(a.p);
                c(y -= u, a.r - ru, "a -= scalar");
                PA z(a.p);
                c(z *= u, a.r * ru, "a *= scalar");
                if constexpr (std::is_same_v<typename PA::size_type, typename PA::size_type> && std::is_same_v<obake::series_cf_t<PA>, Rat>) {
                    if (!(ru == Ref())) {
                        Ref inv(Rat(1) / ru.t.begin()->second);
                        c(a.p / u, a.r * inv, "a / scalar");
                        PA w(a.p);
                        c(w /= u, a.r * inv, "a /= scalar");
                    }
                }
            }
        }
        ctx.state(a.str());
    };
}
// Powers, integrals, derivatives, negation.
template <typename LA>
std::function<void(mc::Ctx &)> unary(LA la, unsigned maxpow, bool neg)
{
    return [=](mc::Ctx &ctx) {
        const auto &va = la();
        const auto &a = va[ctx.choose(static_cast<unsigned>(va.size()), "a")];
        if (ctx.logging()) ctx.log("a = " + a.str());
        using P = std::decay_t<decltype(a.p)>;
        auto sa = [&] { return a.str(); };
        const auto ss = to_syms(a.p.get_symbol_set());
        Ref e(Rat(1));
        for (unsigned n = 0; n <= maxpow; ++n) {
            // NOTE: without negative exponents, the exact power can be truncated along the way.
            check_ps(ctx, obake::pow(a.p, n), e, a.t, nullptr, "pow(a, b)", sa, [n] { return std::to_string(n); });
            e = e * a.r;
            if (a.r.t.size() > 1u) e = a.t.apply(e);
        }
        if (neg && a.r.t.size() == 1u) {
            // Negative powers of single terms.
            const auto &[m, c] = *a.r.t.begin();
            Mono im;
            for (const auto &[s, x] : m) im[s] = -2 * x;
            Ref r;
            r.add(im, Rat(1) / (c * c));
            check_ps(ctx, obake::pow(a.p, -2), r, a.t, nullptr, "pow(a, -2)", sa, [] { return ""; });
        }
        check_ps(ctx, -a.p, -a.r, a.t, &ss, "-a", sa, [] { return ""; });
        check_ps(ctx, -P(a.p), -a.r, a.t, &ss, "-move(a)", sa, [] { return ""; });
        check_ps(ctx, +a.p, a.r, a.t, &ss, "+a", sa, [] { return ""; });
        // The same object as both operands.
        const Ref dbl = a.r + a.r, sq = a.t.apply(a.r * a.r);
        auto both = [&](auto f, const Ref &want, const char *what) {
            P x(a.p);
            check_ps(ctx, f(x), want, a.t, &ss, what, sa, [] { return "(itself)"; });
        };
        both([](P &x) { return x + x; }, dbl, "a + a");
        both([](P &x) { return std::move(x) + x; }, dbl, "move(a) + a");
        both([](P &x) { return x + std::move(x); }, dbl, "a + move(a)");
        both([](P &x) { return x - x; }, Ref(), "a - a");
        both([](P &x) { return std::move(x) - std::move(x); }, Ref(), "move(a) - move(a)");
        both([](P &x) { return x * x; }, sq, "a * a");
        both([](P &x) { return std::move(x) * x; }, sq, "move(a) * a");
        both([](P &x) { return P(x += x); }, dbl, "a += a");
        both([](P &x) { return P(x += std::move(x)); }, dbl, "a += move(a)");
        both([](P &x) { return P(x -= x); }, Ref(), "a -= a");
        both([](P &x) { return P(x *= x); }, sq, "a *= a");
        both([](P &x) { return P(x *= std::move(x)); }, sq, "a *= move(a)");
        for (const std::string s : {"x", "y", "w"}) {
            const auto us = syms_union(ss, {s});
            bool log = false;
            Ref in;
            try {
                in = a.r.integrate(s);
            } catch (const std::domain_error &) {
                log = true;
            }
            bool thrown = false;
            try {
                const auto r = obake::integrate(a.p, s);
                check_ps(ctx, r, in, a.t, &us, "integrate(a, b)", sa, [&] { return s; });
                const auto r2 = obake::integrate(P(a.p), s);
                check_ps(ctx, r2, in, a.t, &us, "integrate(move(a), b)", sa, [&] { return s; });
            } catch (const std::domain_error &) {
                thrown = true;
            }
            MC_CHECK(ctx, thrown == log, "the integral of ", a.str(), " in ", s, thrown ? " is rejected" : " is accepted");
            check_ps(ctx, obake::diff(a.p, s), a.r.diff(s), a.t, nullptr, "diff(a, b)", sa, [&] { return s; });
        }
        if (to_ref(a.p) != a.r || !(trunc_of(a.p) == a.t)) ctx.fail("an operand was modified: a = " + a.str());
        ctx.state(a.str());
    };
}
template <typename P>
auto items(const Univ &u, const std::vector<Trunc> &t, unsigned stride = 1)
{
    return lazy([=] { return ps_items<P>(u, t, stride); });
}

using k32 = op::packed_monomial<std::int32_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using d2 = op::d_packed_monomial<std::int32_t, 2>;
using d8 = op::d_packed_monomial<std::int64_t, 8>;
using PI = obake::p_series<k32, Int>;
using PR = obake::p_series<k32, Rat>;
using PD = obake::p_series<k32, double>;
using DI = obake::p_series<d2, Int>;
using DR = obake::p_series<d8, Rat>;
using UI = obake::p_series<u64, Int>;

const std::vector<Rat> pm{Rat(1), Rat(-1)};
const auto T0 = truncs({0, 1, 2}, {{"x"}, {"x", "y"}});
const auto T1 = truncs({-1, 1, 3}, {{}, {"y"}, {"w", "x"}});
const Univ u1{{{}, {"x"}, {"x", "y"}}, {0, 1, 2}, {Rat(1)}, 2, {0}};
const Univ u2{{{"x"}, {"y"}, {"x", "y"}}, {0, 1}, pm, 2, {0, 1}};
const Univ un{{{"x"}, {"x", "y"}}, {-1, 0, 2}, {Rat(1)}, 2, {0}};

#if PART == 0
const mc::Reg reg({
    {"arithmetic, packed int32", pairs<PI>(items<PI>(u1, T0), items<PI>(u2, T0, 3)), 1},
    {"arithmetic, negative exponents", pairs<PI>(items<PI>(un, T1), items<PI>(un, T1, 3)), 1},
    {"thorough arithmetic, packed int32", pairs<PI>(items<PI>(u1, T0), items<PI>(u2, T0)), 1, 1},
});
#elif PART == 1
const mc::Reg reg({
    {"arithmetic, mixed coefficients", pairs<PR>(items<PR>(u1, T0, 5), items<PI>(u2, T0, 3)), 1},
});
#elif PART == 2
const mc::Reg reg({
    {"arithmetic, d_packed int32 2", pairs<DI>(items<DI>(u1, T0, 2), items<DI>(u2, T0, 5)), 1},
});
#elif PART == 3
const auto TU = truncs({0, 1, 2}, {{"x"}, {"y", "z"}});
const mc::Reg reg({
    {"arithmetic, packed uint64", pairs<UI>(items<UI>(u1, TU, 2), items<UI>(u2, TU, 5)), 1},
    {"scalars, integers", scalars<PI>(items<PI>(un, T1), std::vector<int>{0, 1, -3}), 1},
    {"scalars, rationals", scalars<PR>(items<PR>(un, T1), std::vector<Rat>{Rat(0), Rat(1), Rat(-2, 3)}), 1},
    {"scalars, rational and integer series", scalars<PR>(items<PI>(un, T0), std::vector<Rat>{Rat(0), Rat(-2, 3)}), 1},
    {"scalars, d_packed", scalars<DR>(items<DR>(u1, T0), std::vector<Int>{Int(0), Int(5)}), 1},
});
#elif PART == 4
const mc::Reg reg({
    {"powers and calculus", unary(items<PR>(u1, T0), 5, true), 1},
    {"powers and calculus, d_packed", unary(items<DR>(u1, T1), 4, true), 1},
    {"powers and calculus, single terms", unary(items<PR>({{{"x"}, {"x", "y"}}, {-2, -1, 0, 1, 3}, {Rat(1), Rat(-1, 2)}, 1, {0, 2}}, T1), 6, true), 1},
    {"powers and calculus, three terms", unary(items<PR>({{{"x", "y"}}, {0, 1, 2}, {Rat(1)}, 3, {0}}, T0), 4, false), 1},
});
#elif PART == 5
using WI = obake::p_series<op::packed_monomial<std::int64_t>, Int>;
const auto TW = truncs({129, 40000}, {{"x"}, {"x", "y"}});
const Univ wide{{{"x"}, {"x", "y"}}, {0, 130, 40000}, {Rat(1)}, 1, {0}};
const mc::Reg reg({
    {"arithmetic, doubles", pairs<PD>(items<PD>(u1, T1, 5), items<PI>(u2, T1, 3)), 1},
    {"large exponents", pairs<WI>(items<WI>(wide, TW), items<WI>(wide, TW, 2)), 1},
    {"larger operands", pairs<PR>(items<PR>(scale({5, 20}, {1, 3}, {0, 4}, true), T1, 3), items<PI>(scale({9, 33}, {2, 4}, {0, 3}, true), T1, 5)), 1},
});
#elif PART == 6
const mc::Reg reg({
    {"arithmetic, d_packed int64 8, mixed", pairs<DR>(items<DR>(un, T1, 3), items<DR>(u1, T1, 5)), 1},
    {"larger operands, d_packed", pairs<DR>(items<DR>(scale({5, 20}, {3, 10}, {0, 4}, true), T1, 3), items<DR>(scale({9, 33}, {2, 9}, {0, 3}, true), T1, 7)), 1},
});
#elif PART == 7
// Substitution: the exact result of the substitution in the (truncated) series, truncated. Exponents are not negative
// unless the values are numbers.
Ref substituted(const Ref &a, const std::map<std::string, Ref> &v)
{
    Ref r;
    for (const auto &[m, c] : a.t) {
        Ref p(c);
        for (const auto &[s, e] : m) {
            const auto it = v.find(s);
            if (it == v.end() || e < 0) {
                const auto neg = it != v.end();
                Ref x;
                x.add(neg ? Mono{} : Mono{{s, e}}, Rat(1));
                if (neg)
                    for (ll i = 0; i < -e; ++i) x = x * Ref(Rat(1) / it->second.t.begin()->second);
                p = p * x;
            } else {
                p = p * it->second.pow(static_cast<unsigned>(e));
            }
        }
        r = r + p;
    }
    return r;
}
std::string show_map(const std::map<std::string, Ref> &m)
{
    std::string s;
    for (const auto &[k, v] : m) s += k + " -> " + v.str() + " ";
    return "{" + s + "}";
}
template <typename LA>
std::function<void(mc::Ctx &)> numeric_subs(LA la, std::vector<Rat> vals)
{
    return [=](mc::Ctx &ctx) {
        const auto &va = la();
        const auto &a = va[ctx.choose(static_cast<unsigned>(va.size()), "a")];
        if (ctx.logging()) ctx.log("a = " + a.str());
        std::vector<std::map<std::string, Rat>> maps(1);
        for (const std::string s : {"w", "x", "y"}) {
            const auto cur = maps;
            for (const auto &m : cur)
                for (const auto &v : vals) {
                    maps.push_back(m);
                    maps.back()[s] = v;
                }
        }
        for (const auto &m : maps) {
            obake::symbol_map<Rat> sm;
            std::map<std::string, Ref> rm;
            for (const auto &[s, v] : m) {
                sm.emplace(s, v);
                rm.emplace(s, Ref(v));
            }
            auto sa = [&] { return a.str(); };
            auto sb = [&] { return show_map(rm); };
            // An empty series has an untruncated result.
            const auto t = a.p.empty() ? Trunc{} : a.t;
            check_ps(ctx, obake::subs(a.p, sm), substituted(a.r, rm), t, nullptr, "subs(a, b)", sa, sb);
        }
        if (to_ref(a.p) != a.r || !(trunc_of(a.p) == a.t)) ctx.fail("an operand was modified: a = " + a.str());
        ctx.state(a.str());
    };
}
// Values which are series themselves.
template <typename LA, typename LB>
std::function<void(mc::Ctx &)> series_subs(LA la, LB lb)
{
    return [=](mc::Ctx &ctx) {
        const auto &va = la();
        const auto &vb = lb();
        using PB = std::decay_t<decltype(vb[0].p)>;
        const auto &a = va[ctx.choose(static_cast<unsigned>(va.size()), "a")];
        if (ctx.logging()) ctx.log("a = " + a.str());
        for (const auto &b : vb) {
            const auto mt = merged(a.t, b.t);
            if (!mt) continue;
            for (unsigned k = 0; k < 4u; ++k) {
                obake::symbol_map<PB> sm;
                std::map<std::string, Ref> rm;
                auto set = [&](const char *s, const PB &p, const Ref &r) {
                    sm.emplace(s, p);
                    rm.emplace(s, r);
                };
                if (k != 1u) set("x", b.p, b.r);
                if (k == 1u || k == 2u) set("y", b.p, b.r);
                if (k == 3u) set("w", b.p, b.r);
                auto sa = [&] { return a.str(); };
                auto sb = [&] { return show_map(rm) + b.t.str(); };
                const auto r = obake::subs(a.p, sm);
                ctx.op();
                ctx.validated();
                const auto e = substituted(a.r, rm);
                const auto used = trunc_of(r);
                auto msg = [&] { return mc::cat("subs(a, b) with a = ", sa(), ", b = ", sb(), " gave ", show(r), ", ", used.str()); };
                // The powers of values which do not occur in a term are one, without a truncation.
                if (!(used == *mt) && !a.p.empty() && a.t.kind) ctx.fail("wrong truncation: " + msg());
                if (to_ref(r) != used.apply(e)) ctx.fail(mc::cat(msg(), ", expected ", used.apply(e).str()));
                check_inv(ctx, r, "subs");
            }
        }
        ctx.state(a.str());
    };
}
// Truncated series as the coefficients of a polynomial: every coefficient of a result is truncated like those of the
// operands it was made from.
using In = obake::p_series<k32, Rat>;
using Out = obake::polynomial<k32, In>;
// Terms: exponent of u, coefficient.
struct Nested {
    std::map<ll, std::pair<Ref, Trunc>> ts;
    Out p;
    std::string str() const
    {
        return show(p) + (ts.empty() ? "" : ", coefficients " + ts.begin()->second.second.str());
    }
    Trunc t() const
    {
        return ts.empty() ? Trunc{} : ts.begin()->second.second;
    }
};
std::vector<Nested> nested_items(const std::vector<Trunc> &ts, unsigned stride)
{
    std::vector<Nested> v;
    const Univ u{{{"x"}, {"x", "y"}}, {0, 1, 2}, {Rat(1)}, 2, {0}};
    const auto in = ps_items<In>(u, ts, stride);
    for (std::size_t i = 0; i < in.size(); ++i)
        for (unsigned k = 0; k < 3u; ++k) {
            const auto &a = in[i];
            // The second coefficient: another one with the same truncation.
            const PItem<In> *b = nullptr;
            if (k == 2u)
                for (std::size_t j = i + 1u; j < in.size() && !b; ++j)
                    if (in[j].t == a.t && in[j].r.t.size()) b = &in[j];
            if (!a.r.t.size() || (k == 2u && !b)) continue;
            Nested n;
            obake::symbol_set ss{"u"};
            n.p.set_symbol_set(ss);
            auto add = [&](ll e, const PItem<In> &c) {
                n.p.add_term(k32{static_cast<std::int32_t>(e)}, c.p);
                n.ts[e] = {c.r, c.t};
            };
            add(k == 1u ? 1 : 0, a);
            if (b) add(1, *b);
            v.push_back(std::move(n));
        }
    return v;
}
void check_nested(mc::Ctx &ctx, const Out &r, const std::map<ll, Ref> &exact, const Trunc &t, const char *form, const Nested &a, const Nested &b)
{
    ctx.op();
    ctx.validated();
    auto msg = [&] { return mc::cat(form, " with a = ", a.str(), ", b = ", b.str(), " gave ", show(r)); };
    std::map<ll, Ref> got, want;
    for (const auto &[e, q] : exact) {
        auto c = t.apply(q);
        if (c.t.size()) want[e] = std::move(c);
    }
    for (const auto &term : r) {
        Ref key;
        std::vector<ll> ex;
        Out one;
        one.set_symbol_set(r.get_symbol_set());
        one.add_term(term.first, 1);
        ll e = 0;
        const auto kr = to_ref(one);
        for (const auto &[m, c] : kr.t)
            for (const auto &[s, x] : m) e = x;
        got[e] = to_ref(term.second);
        if (!(trunc_of(term.second) == t)) ctx.fail(mc::cat("a coefficient is ", trunc_of(term.second).str(), " instead of ", t.str(), ": ", msg()));
        check_inv(ctx, term.second, form);
    }
    if (got != want) ctx.fail("a wrong result: " + msg());
    check_inv(ctx, r, form);
}
std::function<void(mc::Ctx &)> nested(std::vector<Trunc> ts, unsigned sa, unsigned sb)
{
    auto la = lazy([=] { return nested_items(ts, sa); });
    auto lb = lazy([=] { return nested_items(ts, sb); });
    return [=](mc::Ctx &ctx) {
        const auto &va = la();
        const auto &vb = lb();
        const auto &a = va[ctx.choose(static_cast<unsigned>(va.size()), "a")];
        if (ctx.logging()) ctx.log("a = " + a.str());
        for (const auto &b : vb) {
            const auto mt = merged(a.t(), b.t());
            if (!mt) {
                // Products always combine all the coefficients, sums only those of the same monomials.
                bool thrown = false;
                try {
                    (void)(a.p * b.p);
                } catch (const std::invalid_argument &) {
                    thrown = true;
                }
                ctx.op();
                ctx.validated();
                if (!thrown) ctx.fail("the product of coefficients with different truncations is accepted: a = " + a.str() + ", b = " + b.str());
                continue;
            }
            const auto &t = *mt;
            std::map<ll, Ref> sum, dif, prod;
            for (const auto &[e, c] : a.ts) {
                sum[e] = sum[e] + c.first;
                dif[e] = dif[e] + c.first;
                for (const auto &[f, d] : b.ts) prod[e + f] = prod[e + f] + c.first * d.first;
            }
            for (const auto &[f, d] : b.ts) {
                sum[f] = sum[f] + d.first;
                dif[f] = dif[f] - d.first;
            }
            check_nested(ctx, a.p * b.p, prod, t, "a * b", a, b);
            check_nested(ctx, Out(a.p) * Out(b.p), prod, t, "move(a) * move(b)", a, b);
            Out z(a.p);
            z *= b.p;
            check_nested(ctx, z, prod, t, "a *= b", a, b);
            if (a.t() == b.t()) {
                check_nested(ctx, a.p + b.p, sum, t, "a + b", a, b);
                check_nested(ctx, a.p - b.p, dif, t, "a - b", a, b);
                Out x(a.p);
                x += Out(b.p);
                check_nested(ctx, x, sum, t, "a += move(b)", a, b);
                Out y(a.p);
                y -= b.p;
                check_nested(ctx, y, dif, t, "a -= b", a, b);
                if (a.ts.size() == 1u) check_nested(ctx, obake::pow(b.p, 2) * a.p, [&] {
                    std::map<ll, Ref> r;
                    for (const auto &[e, c] : b.ts)
                        for (const auto &[f, d] : b.ts)
                            for (const auto &[g, h] : a.ts) r[e + f + g] = r[e + f + g] + c.first * d.first * h.first;
                    return r;
                }(), t, "b**2 * a", a, b);
            }
        }
        ctx.state(a.str());
    };
}
const std::vector<Rat> qs{Rat(0), Rat(2), Rat(-1, 3)};
// Results of another type: coefficients narrower than the exponents.
using PM = obake::p_series<op::packed_monomial<std::int64_t>, std::int32_t>;
template <typename LA>
std::function<void(mc::Ctx &)> machine(LA la)
{
    return [=](mc::Ctx &ctx) {
        const auto &va = la();
        const auto &a = va[ctx.choose(static_cast<unsigned>(va.size()), "a")];
        if (ctx.logging()) ctx.log("a = " + a.str());
        auto sa = [&] { return a.str(); };
        // The results for empty series are not truncated.
        const auto t = a.p.empty() ? Trunc{} : a.t;
        for (const std::string s : {"x", "y", "w"}) {
            auto sb = [&] { return s; };
            check_ps(ctx, obake::integrate(a.p, s), a.r.integrate(s), t, nullptr, "integrate(a, b)", sa, sb);
            check_ps(ctx, obake::integrate(std::decay_t<decltype(a.p)>(a.p), s), a.r.integrate(s), t, nullptr, "integrate(move(a), b)", sa, sb);
            check_ps(ctx, obake::diff(a.p, s), a.r.diff(s), t, nullptr, "diff(a, b)", sa, sb);
        }
        ctx.state(a.str());
    };
}
const mc::Reg reg({
    {"substitution of numbers", numeric_subs(items<PR>(u1, T0), qs), 1},
    {"substitution of numbers, negative exponents", numeric_subs(items<PR>(un, T1), {Rat(2), Rat(-1, 3)}), 1},
    {"substitution of numbers, d_packed", numeric_subs(items<DR>(un, T1, 3), {Rat(1), Rat(-2)}), 1},
    {"substitution of series", series_subs(items<PR>(u1, T0, 2), items<PR>(u2, T0, 3)), 1},
    {"calculus over machine integers", machine(items<PM>({{{"x"}, {"y"}, {"x", "y"}}, {0, 1, 2}, {Rat(6), Rat(-12)}, 2, {0}}, T0)), 1},
    {"calculus over machine integers, negative exponents", machine(items<PM>({{{"x"}, {"x", "y"}}, {-2, 0, 2}, {Rat(6)}, 2, {0}}, T1)), 1},
    {"truncated series as coefficients", nested(T0, 2, 3), 1},
});
#endif

} // namespace
