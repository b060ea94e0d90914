// P19: polynomials with polynomial coefficients: all pairs of bounded universes, against the flattened polynomials.
#include "pairs.hpp"

#include <obake/math/degree.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/trim.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

template <typename T>
struct Item {
    T p;
    Ref r;
};
template <typename T>
using Items = std::vector<Item<T>>;

// Built at the first use, never destroyed.
template <typename F>
auto lazy(F f)
{
    using T = decltype(f());
    auto p = std::make_shared<T *>(nullptr);
    return [p, f]() -> const T & {
        if (!*p) *p = new T(f());
        return **p;
    };
}
template <typename P>
auto flat_items(Univ u)
{
    return lazy([u] {
        Items<P> v;
        for (const auto &d : enumerate(u)) v.push_back({d.make<P>(), d.ref()});
        return v;
    });
}
// Nested: the terms of the outer structure get coefficients of the inner universe.
template <typename PP, typename P>
auto nested_items(Univ uo, Univ ui, unsigned stride = 1)
{
    return lazy([=] {
        Items<PP> v;
        const auto in = enumerate(ui);
        unsigned n = 0;
        for (const auto &o : enumerate(uo)) {
            const std::size_t k = o.ts.size();
            std::size_t tot = 1;
            for (std::size_t i = 0; i < k; ++i) tot *= in.size();
            for (std::size_t c = 0; c < tot; ++c) {
                if (k == 2u && n++ % stride != 0u) continue;
                PP q;
                Ref r;
                q.set_n_segments(o.segs);
                q.set_symbol_set(to_ss(o.ss));
                bool ok = true;
                for (std::size_t i = 0, x = c; i < k; ++i, x /= in.size()) {
                    const auto &d = in[x % in.size()];
                    if (d.ts.empty()) ok = false;
                    q.add_term(key_access<obake::series_key_t<PP>>::make(o.ts[i].e), d.make<P>());
                    r = r + build_ref(o.ss, {{o.ts[i].e, Rat(1)}}) * d.ref();
                }
                if (ok) v.push_back({std::move(q), r});
            }
        }
        return v;
    });
}
template <typename T>
std::string sh(const T &x)
{
    if constexpr (obake::is_cvr_series_v<T>) {
        std::ostringstream o;
        o << x;
        const auto s = o.str();
        return s.substr(s.rfind('\n') + 1u) + " over " + str(to_syms(x.get_symbol_set()));
    } else {
        std::ostringstream o;
        o << x;
        return o.str();
    }
}
template <typename T>
Syms osyms(const T &x)
{
    if constexpr (obake::is_cvr_series_v<T>)
        return to_syms(x.get_symbol_set());
    else
        return {};
}
// The outer symbols of the result of an operation.
template <typename A, typename B>
Syms expected_syms(const A &a, const B &b)
{
    if constexpr (obake::series_rank<A> == obake::series_rank<B>)
        return syms_union(osyms(a), osyms(b));
    else if constexpr (obake::series_rank<A> < obake::series_rank<B>)
        return osyms(b);
    else
        return osyms(a);
}
template <typename Exp, typename R, typename A, typename B>
void res(mc::Ctx &ctx, const R &r, const Ref &e, const A &a, const B &b, const char *form)
{
    static_assert(std::is_same_v<R, Exp>);
    ctx.op();
    ctx.validated();
    auto msg = [&] { return mc::cat(form, " with a = ", sh(a), ", b = ", sh(b), " gave ", sh(r), ", expected ", e.str()); };
    if (to_ref(r) != e) ctx.fail(msg());
    check_inv(ctx, r, form);
    if (osyms(r) != expected_syms(a, b)) ctx.fail("wrong symbols: " + msg());
}
// R: the type of the results.
template <typename R, typename A, typename B>
void arith(mc::Ctx &ctx, const A &a, const Ref &ra, const B &b, const Ref &rb, bool disjoint)
{
    res<R>(ctx, a + b, ra + rb, a, b, "a + b");
    res<R>(ctx, A(a) + b, ra + rb, a, b, "move(a) + b");
    res<R>(ctx, a + B(b), ra + rb, a, b, "a + move(b)");
    res<R>(ctx, b + a, ra + rb, a, b, "b + a");
    res<R>(ctx, a - b, ra - rb, a, b, "a - b");
    res<R>(ctx, a - B(b), ra - rb, a, b, "a - move(b)");
    res<R>(ctx, b - a, rb - ra, a, b, "b - a");
    const auto rp = ra * rb;
    auto mul = [&](const auto &x, const char *form) {
        ctx.op();
        ctx.validated();
        if (to_ref(x) != rp) ctx.fail(mc::cat(form, " with a = ", sh(a), ", b = ", sh(b), " gave ", sh(x), ", expected ", rp.str()));
        check_inv(ctx, x, form);
        static_assert(std::is_same_v<std::decay_t<decltype(x)>, R>);
    };
    mul(a * b, "a * b");
    mul(b * a, "b * a");
    if constexpr (std::is_same_v<A, R>) {
        A x(a);
        x += b;
        res<R>(ctx, x, ra + rb, a, b, "a += b");
        A y(a);
        y -= B(b);
        res<R>(ctx, y, ra - rb, a, b, "a -= move(b)");
        A z(a);
        z *= b;
        mul(z, "a *= b");
        // Aliasing, with what was just computed.
        x -= x;
        MC_CHECK(ctx, x.empty(), "x -= x leaves ", sh(x));
        y += y;
        MC_CHECK(ctx, to_ref(y) == (ra - rb) + (ra - rb), "y += y gave ", sh(y));
    }
    // NOTE: equality is structural: it is the mathematical one if no symbol can occur at different levels.
    ctx.op();
    ctx.validated();
    const bool eq = a == b;
    MC_CHECK(ctx, eq == (b == a) && eq != (a != b) && eq != (b != a), "equality is inconsistent for ", sh(a), " and ", sh(b));
    if (disjoint || eq) MC_CHECK(ctx, eq == (ra == rb), "equality of ", sh(a), " and ", sh(b), " is ", eq);
    if constexpr (obake::series_rank<A> == obake::series_rank<B>) MC_CHECK(ctx, (a - b).empty() == eq, "equality and difference disagree for ", sh(a), " and ", sh(b));
    if (to_ref(a) != ra || to_ref(b) != rb) ctx.fail(mc::cat("an operand was modified: a = ", sh(a), ", b = ", sh(b)));
}
template <typename R, typename LA, typename LB>
std::function<void(mc::Ctx &)> pairs(LA la, LB lb, bool disjoint = true)
{
    return [=](mc::Ctx &ctx) {
        const auto &va = la();
        const auto &vb = lb();
        const auto &a = va[ctx.choose(static_cast<unsigned>(va.size()), "a")];
        if (ctx.logging()) ctx.log("a = " + sh(a.p));
        for (const auto &b : vb) arith<R>(ctx, a.p, a.r, b.p, b.r, disjoint);
        ctx.state(sh(a.p));
    };
}
template <typename U>
auto scalars(std::vector<U> v)
{
    return lazy([v] {
        Items<U> r;
        for (const auto &x : v) r.push_back({x, to_ref(x)});
        return r;
    });
}
// Powers, degrees, evaluation, trimming, negation.
template <typename LA>
std::function<void(mc::Ctx &)> unary(LA la, unsigned maxpow, bool disjoint = true)
{
    return [=](mc::Ctx &ctx) {
        const auto &va = la();
        const auto &it = va[ctx.choose(static_cast<unsigned>(va.size()), "a")];
        const auto &a = it.p;
        const auto &r = it.r;
        if (ctx.logging()) ctx.log("a = " + sh(a));
        for (unsigned n = 0; n <= maxpow; ++n) {
            const auto p = obake::pow(a, n);
            ctx.op();
            ctx.validated();
            if (to_ref(p) != r.pow(n)) ctx.fail(mc::cat("(", sh(a), ")**", n, " gave ", sh(p)));
            check_inv(ctx, p, "pow");
        }
        ctx.validated(4);
        if (to_ref(-a) != -r) ctx.fail("wrong negation of " + sh(a));
        const auto t = obake::trim(a);
        check_inv(ctx, t, "trim");
        if (to_ref(t) != r || !(t == a)) ctx.fail("wrong trimming of " + sh(a));
        // The degree is that of the terms (which cannot cancel if no symbol occurs at different levels).
        if (disjoint) {
            ll d = 0, dx = 0;
            bool first = true;
            for (const auto &[m, c] : r.t) {
                d = first ? Ref::mdeg(m) : std::max(d, Ref::mdeg(m));
                const auto e = Ref::mdeg(m, {"x", "z"});
                dx = first ? e : std::max(dx, e);
                first = false;
            }
            if (obake::degree(a) != d) ctx.fail(mc::cat("the degree of ", sh(a), " is reported as ", obake::degree(a)));
            if (obake::p_degree(a, obake::symbol_set{"x", "z"}) != dx) ctx.fail(mc::cat("the degree of ", sh(a), " in x and z is wrong"));
        }
        obake::symbol_map<Rat> m;
        std::map<std::string, Rat> v;
        int k = 2;
        for (const auto *s : {"a", "b", "x", "y", "z"}) {
            v.emplace(s, Rat(k, 3));
            m.emplace(s, Rat(k, 3));
            k = -k + 1;
        }
        Rat e(0);
        for (const auto &[mo, c] : r.t) {
            Rat q(c);
            for (const auto &[s, ex] : mo) {
                for (ll i = 0; i < ex; ++i) q *= v.at(s);
                for (ll i = 0; i < -ex; ++i) q /= v.at(s);
            }
            e += q;
        }
        if (to_ref(obake::evaluate(a, m)) != Ref(e)) ctx.fail("wrong evaluation of " + sh(a));
        if (to_ref(a) != r) ctx.fail("an operand was modified");
        ctx.state(sh(a));
    };
}

using k32 = op::packed_monomial<std::int32_t>;
using k64 = op::packed_monomial<std::int64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using PI = obake::polynomial<k32, Int>;
using PR = obake::polynomial<k32, Rat>;
using PPI = obake::polynomial<k32, PI>;
using PPR = obake::polynomial<k32, PR>;
using PD = obake::polynomial<d32, Int>;
using PPD = obake::polynomial<k64, PD>;
using PPP = obake::polynomial<k32, PPI>;

const Univ uo{{{"x"}, {"y"}}, {0, 1}, {Rat(1)}, 2, {0, 1}};
const Univ uo2{{{"x"}, {"x", "y"}}, {0, -1}, {Rat(1)}, 2, {0}};
const Univ ui{{{"a"}, {"b"}}, {0, 1}, {Rat(1), Rat(-1)}, 1, {0}};
const Univ ui2{{{"a"}}, {0, 2}, {Rat(1), Rat(-1)}, 2, {0}};
// The same names at both levels.
const Univ us{{{}, {"x"}, {"x", "y"}}, {0, 1}, {Rat(1), Rat(-1)}, 1, {0}};

#if PART == 0
const mc::Reg reg({
    {"rank 2 and rank 2", pairs<PPI>(nested_items<PPI, PI>(uo, ui, 2), nested_items<PPI, PI>(uo, ui2, 5)), 1},
    {"rank 2, powers and queries", unary(nested_items<PPR, PR>(uo, ui2), 4), 1},
});
#elif PART == 1
const mc::Reg reg({
    {"rank 2 and rank 2, same names", pairs<PPI>(nested_items<PPI, PI>(uo2, us, 9), nested_items<PPI, PI>(uo2, us, 17), false), 1},
    {"rank 2, same names, powers and queries", unary(nested_items<PPR, PR>(uo2, us), 3, false), 1},
});
#elif PART == 2
const mc::Reg reg({
    {"rank 2 and rank 1", pairs<PPI>(nested_items<PPI, PI>(uo, ui2, 7), flat_items<PI>({{{}, {"a"}, {"a", "b"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0, 1}})), 1},
    {"rank 1 and rank 2", pairs<PPI>(flat_items<PI>({{{}, {"a"}, {"a", "b"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0, 1}}), nested_items<PPI, PI>(uo, ui2, 7)), 1},
    {"rank 2 and scalars", pairs<PPR>(nested_items<PPR, PR>(uo, ui2), scalars<Rat>({Rat(0), Rat(1), Rat(-1), Rat(2, 3)})), 1},
    {"rank 2 and integers", pairs<PPR>(nested_items<PPR, PR>(uo2, ui2), scalars<int>({0, 1, -1, 7})), 1},
});
#elif PART == 3
const mc::Reg reg({
    {"rank 2, packed64 of d_packed32", pairs<PPD>(nested_items<PPD, PD>(uo, ui2, 7), nested_items<PPD, PD>(uo2, ui, 3)), 1},
    {"rank 2, packed64 of d_packed32, powers and queries", unary(nested_items<PPD, PD>(uo, ui), 3), 1},
    {"rank 2, mixed coefficients", pairs<PPR>(nested_items<PPR, PR>(uo, ui, 5), nested_items<PPI, PI>(uo, ui, 5)), 1},
});
#elif PART == 4
// Rank 3.
auto rank3()
{
    return lazy([] {
        Items<PPP> v;
        const auto in = nested_items<PPI, PI>({{{"y"}}, {0, 1}, {Rat(1)}, 2, {0}}, {{{"a"}}, {0, 1}, {Rat(1), Rat(-1)}, 1, {0}})();
        for (const auto &o : enumerate({{{"z"}}, {0, 1}, {Rat(1)}, 2, {0}}))
            for (std::size_t c = 0; c < in.size(); ++c) {
                PPP q;
                Ref r;
                q.set_symbol_set(to_ss(o.ss));
                std::size_t x = c;
                for (const auto &t : o.ts) {
                    q.add_term(key_access<k32>::make(t.e), in[x].p);
                    r = r + build_ref(o.ss, {{t.e, Rat(1)}}) * in[x].r;
                    x = (x + 3u) % in.size();
                }
                v.push_back({std::move(q), r});
            }
        return v;
    });
}
const mc::Reg reg({
    {"rank 3 and rank 3", pairs<PPP>(rank3(), rank3()), 1},
    {"rank 3 and rank 2", pairs<PPP>(rank3(), nested_items<PPI, PI>({{{"y"}}, {0, 1}, {Rat(1)}, 2, {0}}, {{{"a"}}, {0, 1}, {Rat(1), Rat(-1)}, 1, {0}})), 1},
    {"rank 3 and rank 1", pairs<PPP>(rank3(), flat_items<PI>({{{}, {"a"}, {"b"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0}})), 1},
    {"rank 3 and integers", pairs<PPP>(rank3(), scalars<Int>({Int(0), Int(1), Int(-2)})), 1},
    {"rank 3, powers and queries", unary(rank3(), 3), 1},
});
#elif PART == 5
const mc::Reg reg({
    {"thorough rank 2 and rank 2", pairs<PPI>(nested_items<PPI, PI>(uo, {{{"a"}, {"b"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0}}), nested_items<PPI, PI>(uo, ui2)), 1, 1},
    {"thorough rank 2 and rank 2, same names", pairs<PPI>(nested_items<PPI, PI>(uo2, us), nested_items<PPI, PI>(uo2, us, 3), false), 1, 1},
    {"thorough rank 2, powers", unary(nested_items<PPR, PR>(uo, {{{"a"}, {"b"}}, {0, 1, -1}, {Rat(1), Rat(-1, 2)}, 2, {0}}), 6), 1, 1},
});
#endif

} // namespace
