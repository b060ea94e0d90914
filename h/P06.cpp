// P06: every history (up to a length) of power requests, over bases chosen to collide in any cache keyed on
// terms, types, hashes or symbol sets. The results and the bases are modified after each request.
#include "wcf.hpp"

#include "limits.hpp"
#include "pairs.hpp"
#include "ps.hpp"

#include <obake/math/pow.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

enum Ex { Ok, Invalid, Overflow, ZeroDiv };

struct Op {
    std::string name;
    std::function<void(mc::Ctx &, const std::string &)> f;
};

// Make the request, compare, then spoil the result and the base.
template <typename P, typename E>
void request(mc::Ctx &ctx, const Desc &d, const E &e, int n, Ex ex, const std::string &hist)
{
    P b = d.make<P>();
    const P b0(b);
    const Ref rb = d.ref();
    ctx.op();
    std::string what = "?";
    Ex got = Ok;
    try {
        auto r = obake::pow(b, e);
        static_assert(std::is_same_v<E, Rat> || std::is_same_v<decltype(r), P>);
        if (ex == Ok) {
            Ref x;
            if (n >= 0) {
                x = rb.pow(static_cast<unsigned>(n));
            } else {
                // One term.
                const auto &[m, c] = *rb.t.begin();
                Mono k(m);
                Rat q(1);
                for (auto &[s, v] : k) v *= n;
                for (int i = 0; i < -n; ++i) q /= c;
                x.add(k, q);
            }
            const auto got_r = to_ref(r);
            ctx.validated();
            if (got_r != x) ctx.fail(mc::cat(hist, ": ", d.str(), " ** ", n, " gave ", show(r), ", expected ", x.str()));
            for (const auto &s : to_syms(r.get_symbol_set()))
                if (!std::count(d.ss.begin(), d.ss.end(), s)) ctx.fail(hist + ": the power has a symbol that the base has not: " + show(r));
            check_inv(ctx, r, hist);
            // Spoil the result.
            for (auto &t : r) obake::negate(t.second);
            r.clear();
        }
    } catch (const std::invalid_argument &x) {
        got = Invalid;
        what = x.what();
    } catch (const std::overflow_error &x) {
        got = Overflow;
        what = x.what();
    }
    ctx.validated();
    if (got != ex)
        ctx.fail(mc::cat(hist, ": ", d.str(), " ** ", n, " ended in state ", got, ", expected ", ex, " (0: a result, 1: invalid_argument, 2: overflow_error): ", what));
    // The base is unaffected.
    if (to_ref(b) != rb || to_syms(b.get_symbol_set()) != d.ss || b.get_s_size() != d.segs) ctx.fail(hist + ": the base was modified: " + show(b));
    // Spoil the base: what a cache remembers must not depend on it.
    for (auto &t : b) obake::negate(t.second);
    b.clear_terms();
}

template <typename P>
struct nm;
template <typename P, typename E>
void add(std::vector<Op> &v, const char *tn, const Desc &d, const E &e, int n, Ex ex = Ok)
{
    auto name = mc::cat("(", tn, " ", d.str(), ")**", n);
    v.push_back({name, [d, e, n, ex](mc::Ctx &c, const std::string &h) { request<P, E>(c, d, e, n, ex, h); }});
}
void add_clear(std::vector<Op> &v)
{
    v.push_back({"clear the cache", [](mc::Ctx &, const std::string &) { obake::customisation::internal::clear_series_pow_map(); }});
}
std::function<void(mc::Ctx &)> histories(std::vector<Op> v, unsigned len)
{
    return [v, len](mc::Ctx &ctx) {
        obake::customisation::internal::clear_series_pow_map();
        std::string h;
        for (unsigned i = 0; i < len; ++i) {
            const auto k = ctx.choose(static_cast<unsigned>(v.size()) + (i ? 1u : 0u), "request");
            if (k == v.size()) break;
            h += (i ? "; " : "") + v[k].name;
            ctx.state(h);
            if (ctx.logging()) ctx.log(v[k].name);
            v[k].f(ctx, h);
        }
        wc::weight = 8;
    };
}

using k32 = op::packed_monomial<std::int32_t>;
using k64 = op::packed_monomial<std::int64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using PR = obake::polynomial<k32, Rat>;
using PI = obake::polynomial<k32, Int>;
using PL = obake::polynomial<k64, Rat>;
using PD = obake::polynomial<d32, Rat>;
using PDI = obake::polynomial<d32, Int>;
using PW = obake::polynomial<k32, wc::wcf>;

Desc D(Syms ss, std::vector<Term> t, unsigned segs = 0)
{
    Desc d;
    d.ss = std::move(ss);
    d.ts = std::move(t);
    d.segs = segs;
    return d;
}
const Desc x_1 = D({"x"}, {{{1}, 1}, {{0}, 1}}), x_m1 = D({"x"}, {{{1}, 1}, {{0}, -1}}), x_2 = D({"x"}, {{{1}, 1}, {{0}, 2}}),
           y_1 = D({"y"}, {{{1}, 1}, {{0}, 1}}), xs_1 = D({"x"}, {{{1}, 1}, {{0}, 1}}, 2), xy_x1 = D({"x", "y"}, {{{1, 0}, 1}, {{0, 0}, 1}}),
           xy_y1 = D({"x", "y"}, {{{0, 1}, 1}, {{0, 0}, 1}}), xy = D({"x", "y"}, {{{1, 0}, 1}, {{0, 1}, 1}}), xn = D({"x"}, {{{1}, 1}, {{-1}, -1}}),
           xh = D({"x"}, {{{1}, Rat(1, 2)}, {{0}, 1}}), three = D({"x", "y"}, {{{1, 0}, 1}, {{0, 1}, -1}, {{0, 0}, 2}});
const Desc e0 = D({}, {}), ex = D({"x"}, {}), c2 = D({}, {{{}, 2}}), c2x = D({"x"}, {{{0}, 2}}), mx = D({"x"}, {{{1}, 1}}), m2xy = D({"x", "y"}, {{{2, -1}, -2}}),
           mh = D({"x"}, {{{-3}, Rat(1, 2)}});

std::vector<Op> same_type(bool all)
{
    std::vector<Op> v;
    for (const auto *d : {&x_1, &x_m1, &y_1, &xs_1, &xy_x1, &xy}) {
        add<PR>(v, "rat", *d, 2, 2);
        add<PR>(v, "rat", *d, 3u, 3);
    }
    add<PR>(v, "rat", x_1, 0, 0);
    add<PR>(v, "rat", x_1, Int(1), 1);
    add<PR>(v, "rat", x_1, Rat(4), 4);
    add<PR>(v, "rat", x_m1, -1, -1, Invalid);
    add<PR>(v, "rat", x_1, Rat(1, 2), 0, Invalid);
    add_clear(v);
    if (all) {
        for (const auto *d : {&x_2, &xy_y1, &xn, &xh, &three}) {
            add<PR>(v, "rat", *d, 2l, 2);
            add<PR>(v, "rat", *d, Int(3), 3);
            add<PR>(v, "rat", *d, Int(-1), -1, Invalid);
        }
    }
    return v;
}
std::vector<Op> types()
{
    std::vector<Op> v;
    for (const auto *d : {&x_1, &xy}) {
        for (int n : {1, 2, 3}) {
            add<PR>(v, "rat", *d, n, n);
            add<PI>(v, "int", *d, Int(n), n);
            add<PL>(v, "rat 64", *d, static_cast<unsigned>(n), n);
            add<PD>(v, "d_packed rat", *d, n, n);
            add<PDI>(v, "d_packed int", *d, n, n);
        }
    }
    return v;
}
std::vector<Op> special()
{
    std::vector<Op> v;
    for (const auto *d : {&e0, &ex, &c2, &c2x, &mx, &m2xy, &mh, &x_1})
        for (int n : {0, 1, 2, 3}) {
            add<PR>(v, "rat", *d, n, n);
            add<PD>(v, "d_packed rat", *d, Int(n), n);
        }
    for (const auto *d : {&c2, &c2x, &mx, &m2xy, &mh})
        for (int n : {-1, -2}) {
            add<PR>(v, "rat", *d, n, n);
            add<PD>(v, "d_packed rat", *d, Int(n), n);
        }
    return v;
}
// Exponents that are not of integral type, of constants and of others.
std::vector<Op> rational()
{
    std::vector<Op> v;
    const Desc c3 = D({}, {{{}, Rat(2, 3)}}), c3x = D({"x", "y"}, {{{0, 0}, -3}}), one = D({"x"}, {{{0}, 1}});
    for (const auto *d : {&e0, &ex, &c2, &c2x, &c3, &c3x, &one, &mx, &x_1})
        for (int n : {0, 1, 2, 3}) {
            add<PR>(v, "rat", *d, Rat(n), n);
            add<PD>(v, "d_packed rat", *d, Rat(n), n);
        }
    for (const auto *d : {&c2, &c2x, &c3, &c3x, &one})
        for (int n : {-1, -2}) {
            add<PR>(v, "rat", *d, Rat(n), n);
            add<PD>(v, "d_packed rat", *d, Rat(n), n);
        }
    add<PR>(v, "rat", x_1, Rat(-1), -1, Invalid);
    add<PR>(v, "rat", xy, Rat(1, 2), 0, Invalid);
    return v;
}
// Floating-point coefficients and exponents.
std::function<void(mc::Ctx &)> floats()
{
    return [](mc::Ctx &ctx) {
        using PF = obake::polynomial<k32, double>;
        const auto c = ctx.pick(std::vector<double>{0., 1., 2., 0.5, 4., 2.25}, "coefficient");
        const auto e = ctx.pick(std::vector<double>{0., 0.5, 1., 1.5, 2., 3., -1., -0.5}, "exponent");
        const bool sym = ctx.flag("symbols");
        PF p;
        if (sym) p.set_symbol_set(obake::symbol_set{"x", "y"});
        if (sym) p.add_term(k32{0, 0}, c);
        else p.add_term(k32{}, c);
        const auto check = [&](const PF &r, double want, const char *what) {
            ctx.op();
            ctx.validated();
            const bool ok = want == 0. ? r.empty() : r.size() == 1u && r.cbegin()->second == want && obake::key_is_one(r.cbegin()->first, r.get_symbol_set());
            MC_CHECK(ctx, ok, what, ": ", c, " ** ", e, " gave ", show(r), ", expected ", want);
        };
        if (c != 0. || e >= 0.) {
            check(obake::pow(p, e), std::pow(c, e), "double");
            check(obake::pow(p, static_cast<float>(e)), std::pow(c, e), "float");
            if (e == static_cast<int>(e)) check(obake::pow(p, static_cast<int>(e)), std::pow(c, e), "int");
        }
        // With another term, only the natural powers.
        if (sym && c != 0.) {
            p.add_term(k32{1, 0}, 1.);
            const bool nat = e >= 0. && e == static_cast<int>(e);
            bool thrown = false;
            try {
                const auto r = obake::pow(p, static_cast<int>(e));
                if (e == static_cast<int>(e)) {
                    Ref b = to_ref(p);
                    MC_CHECK(ctx, to_ref(r) == b.pow(static_cast<unsigned>(e)), show(p), " ** ", e, " gave ", show(r));
                }
            } catch (const std::invalid_argument &) {
                thrown = true;
            }
            if (e == static_cast<int>(e)) MC_CHECK(ctx, thrown == !nat, show(p), " ** ", e, nat ? " was rejected" : " was accepted");
        }
        ctx.state(mc::cat(c, e, sym));
    };
}
// Power series: the truncation tells bases apart.
std::vector<Op> tagged()
{
    using S = obake::p_series<k32, Rat>;
    std::vector<Op> v;
    for (const auto *d : {&x_1, &xy, &three})
        for (const auto &t : {Trunc{}, Trunc{1, 1, {}}, Trunc{1, 2, {}}, Trunc{2, 1, {"x"}}, Trunc{2, 1, {"y"}}, Trunc{2, 2, {"x", "y"}}})
            for (int n : {2, 3})
                v.push_back({mc::cat("(", d->str(), ", ", t.str(), ")**", n), [d, t, n](mc::Ctx &ctx, const std::string &h) {
                                 S b = d->make<S>();
                                 set_trunc(b, t);
                                 ctx.op();
                                 ctx.validated(2);
                                 auto r = obake::pow(b, n);
                                 const auto want = t.apply(d->ref().pow(static_cast<unsigned>(n)));
                                 if (to_ref(r) != want || !(trunc_of(r) == t)) ctx.fail(mc::cat(h, ": gave ", show(r), ", ", trunc_of(r).str(), ", expected ", want.str(), ", ", t.str()));
                                 if (!(trunc_of(b) == t)) ctx.fail(h + ": the base was modified");
                                 r.clear();
                             }});
    return v;
}
std::vector<Op> big()
{
    std::vector<Op> v;
    // The largest exponents that can be packed for one and two variables.
    const ll m1 = pack_limits<std::int32_t>(1).second, m2 = pack_limits<std::int32_t>(2).second;
    const Desc b1 = D({"x"}, {{{m1}, 1}, {{0}, 1}}), b2 = D({"x", "y"}, {{{m2, 0}, 1}, {{0, 0}, 1}}), b3 = D({"x", "y"}, {{{m2, 0}, 1}, {{0, 1}, -1}}),
               h1 = D({"x"}, {{{m1 / 2}, 1}, {{0}, 1}}), s1 = D({"x"}, {{{m1}, 2}}), s2 = D({"x", "y"}, {{{m2 / 2, -1}, 2}});
    for (const auto *d : {&b1, &b2, &b3}) {
        add<PR>(v, "rat", *d, 1, 1);
        add<PR>(v, "rat", *d, 2, 2, Overflow);
        add<PR>(v, "rat", *d, 3, 3, Overflow);
    }
    for (const auto *d : {&b2, &b3}) {
        add<PD>(v, "d_packed rat", *d, 1, 1);
        add<PD>(v, "d_packed rat", *d, 2, 2, Overflow);
    }
    add<PR>(v, "rat", h1, 2, 2);
    add<PR>(v, "rat", h1, 3, 3, Overflow);
    add<PR>(v, "rat", s1, 1, 1);
    add<PR>(v, "rat", s1, 2, 2, Overflow);
    add<PR>(v, "rat", s2, 2, 2);
    add<PR>(v, "rat", s2, 3, 3, Overflow);
    add<PD>(v, "d_packed rat", s2, 2, 2);
    add<PD>(v, "d_packed rat", s2, 3, 3, Overflow);
    add<PR>(v, "rat", b1, 0, 0);
    add_clear(v);
    return v;
}
// High powers.
std::vector<Op> high()
{
    std::vector<Op> v;
    for (int n : {5, 100, 128, 257, 300}) add<PI>(v, "int", x_1, n, n);
    for (int n : {40, 130}) add<PDI>(v, "d_packed int", xn, n, n);
    for (const auto *d : {&mx, &m2xy, &c2})
        for (int n : {130, 257, 1000}) add<PL>(v, "rat 64", *d, n, n);
    return v;
}
// Heavy coefficients: the products behind the powers take the multi-threaded algorithm.
void add_w(std::vector<Op> &v, const Desc &d, std::size_t w, int n)
{
    auto name = mc::cat("(heavy ", w, " ", d.str(), ")**", n);
    v.push_back({name, [d, w, n](mc::Ctx &c, const std::string &h) {
                     wc::weight = w;
                     request<PW, int>(c, d, n, n, Ok, h);
                 }});
}
std::vector<Op> heavy()
{
    std::vector<Op> v;
    for (const auto *d : {&x_1, &x_m1, &xy, &three})
        for (std::size_t w : {std::size_t(8), std::size_t(400000)})
            for (int n : {1, 2, 3}) add_w(v, *d, w, n);
    add_clear(v);
    return v;
}
// One universe of bases, each raised to increasing/decreasing powers.
template <typename P>
std::function<void(mc::Ctx &)> sweep(Univ u, int maxn)
{
    return all_of(u, [=](mc::Ctx &c, const Desc &d) {
        obake::customisation::internal::clear_series_pow_map();
        const bool down = c.flag("decreasing");
        for (int k = 0; k <= maxn; ++k) {
            const int n = down ? maxn - k : k;
            request<P, int>(c, d, n, n, Ok, "sweep");
        }
        const bool single = d.ts.size() < 2u;
        if (!single) {
            request<P, int>(c, d, -1, -1, Invalid, "sweep");
            request<P, Rat>(c, d, Rat(3, 2), 0, Invalid, "sweep");
            request<P, Int>(c, d, Int(-2), -2, Invalid, "sweep");
            // Larger than any unsigned.
            request<P, Int>(c, d, Int("123456789012345678901234567890"), 0, Invalid, "sweep");
        }
        c.state(mc::cat(d.str(), down));
    });
}

#if PART == 0
const mc::Reg reg({
    {"one type", histories(same_type(false), 4)},
    {"thorough one type, length 4-5", histories(same_type(true), 5), 2, 1},
});
#elif PART == 1
const mc::Reg reg({
    {"five types", histories(types(), 3)},
    {"thorough five types, length 4-5", histories(types(), 4), 2, 1},
});
#elif PART == 2
const mc::Reg reg({
    {"zero, scalars and monomials", histories(special(), 2)},
    {"thorough zero, scalars and monomials", histories(special(), 3), 2, 1},
    {"overflows", histories(big(), 3)},
    {"thorough overflows", histories(big(), 4), 2, 1},
});
#elif PART == 3
const mc::Reg reg({
    {"exponents of rational type", histories(rational(), 2)},
    {"exponents of floating-point type", floats()},
    {"high powers", histories(high(), 2)},
    {"power series", histories(tagged(), 2)},
    {"thorough power series", histories(tagged(), 3), 2, 1},
    {"multi-threaded products", histories(heavy(), 3)},
    {"thorough multi-threaded products", histories(heavy(), 4), 2, 1},
    {"sweep packed rat", sweep<PR>({{{"x"}, {"x", "y"}}, {-1, 0, 2}, {Rat(1), Rat(-1, 2)}, 2, {0, 1}}, 4)},
    {"sweep d_packed int", sweep<PDI>({{{"x"}, {"x", "y", "z"}}, {0, 1}, {Rat(1), Rat(-2)}, 3, {0}}, 3)},
});
#endif

} // namespace
