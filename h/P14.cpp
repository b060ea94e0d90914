// P14: total and partial degrees of all members of bounded universes, flat and nested, and of single terms with
// exponents at the limits, against the maximum over the terms.
#include "limits.hpp"
#include "pairs.hpp"

#include <obake/math/degree.hpp>
#include <obake/math/p_degree.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

template <typename T>
i128 wide(const T &x)
{
    return static_cast<i128>(x);
}
std::string istr(i128 x)
{
    const bool neg = x < 0;
    std::string s;
    unsigned __int128 u = neg ? -static_cast<unsigned __int128>(x) : static_cast<unsigned __int128>(x);
    do {
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10u)));
        u /= 10u;
    } while (u);
    return neg ? "-" + s : s;
}

std::vector<Syms> subsets(const Syms &names)
{
    std::vector<Syms> r{{}};
    for (const auto &n : names) {
        const auto c = r;
        for (auto s : c) {
            s.push_back(n);
            r.push_back(s);
        }
    }
    return r;
}

// The degrees of all the terms, from the description (null coefficients cannot occur).
template <typename P>
void check(mc::Ctx &ctx, const P &p, const Ref &r, const std::vector<Syms> &subs)
{
    ll d = 0;
    bool first = true;
    for (const auto &[m, c] : r.t) {
        const auto x = Ref::mdeg(m);
        if (first || x > d) d = x;
        first = false;
    }
    ctx.op();
    ctx.validated(2);
    const auto before = ctx.logging() ? show(p) : std::string{};
    if (wide(obake::degree(p)) != d) ctx.fail(mc::cat("the degree of ", show(p), " is reported as ", istr(wide(obake::degree(p))), ", it is ", d));
    if (wide(obake::degree(P(p))) != d) ctx.fail(mc::cat("the degree of an rvalue ", show(p), " is wrong"));
    for (const auto &s : subs) {
        const std::set<std::string> ss(s.begin(), s.end());
        ll pd = 0;
        first = true;
        for (const auto &[m, c] : r.t) {
            const auto x = Ref::mdeg(m, ss);
            if (first || x > pd) pd = x;
            first = false;
        }
        ctx.op();
        ctx.validated();
        const auto got = wide(obake::p_degree(p, to_ss(s)));
        if (got != pd) ctx.fail(mc::cat("the degree of ", show(p), " in ", hv::str(s), " is reported as ", istr(got), ", it is ", pd));
        if (wide(obake::p_degree(P(p), to_ss(s))) != pd) ctx.fail(mc::cat("the degree of an rvalue ", show(p), " in ", hv::str(s), " is wrong"));
    }
}

template <typename P>
std::function<void(mc::Ctx &)> flat(Univ u, Syms names)
{
    return all_of(u, [subs = subsets(names)](mc::Ctx &ctx, const Desc &d) {
        const auto p = d.make<P>();
        check(ctx, p, d.ref(), subs);
        MC_CHECK(ctx, to_ref(p) == d.ref(), "a degree computation modified its operand");
        ctx.state(d.str());
    });
}
// A series with up to two terms, whose coefficients are different members of a universe.
template <typename PP, typename P>
std::function<void(mc::Ctx &)> nested(Univ uo, Univ ui, Syms names)
{
    return all_pairs(ui, ui, [subs = subsets(names), uo = enumerate(uo)](mc::Ctx &ctx, const Desc &a, const Desc &b) {
        if (a.ts.empty() || b.ts.empty()) return;
        for (const auto &o : uo) {
            PP q;
            q.set_n_segments(o.segs);
            q.set_symbol_set(to_ss(o.ss));
            Ref r;
            const Desc *cf[] = {&a, &b};
            for (std::size_t i = 0; i < o.ts.size(); ++i) {
                q.add_term(key_access<obake::series_key_t<PP>>::make(o.ts[i].e), cf[i % 2u]->make<P>());
                r = r + build_ref(o.ss, {{o.ts[i].e, Rat(1)}}) * cf[i % 2u]->ref();
            }
            // NOTE: the terms of the reference polynomial may cancel if a symbol occurs at both levels.
            ll want = 0;
            bool first = true;
            std::map<Syms, ll> pd;
            std::map<Syms, bool> ok{{{"?"}, true}};
            using dt = decltype(obake::degree(q));
            auto rep = [](i128 x) { return x >= static_cast<i128>(std::numeric_limits<dt>::min()) && x <= static_cast<i128>(std::numeric_limits<dt>::max()); };
            for (std::size_t i = 0; i < o.ts.size(); ++i)
                for (const auto &t : cf[i % 2u]->ts) {
                    auto deg = [&](const std::set<std::string> *s) {
                        ll x = 0;
                        for (std::size_t j = 0; j < o.ss.size(); ++j)
                            if (!s || s->count(o.ss[j])) x += o.ts[i].e[j];
                        for (std::size_t j = 0; j < cf[i % 2u]->ss.size(); ++j)
                            if (!s || s->count(cf[i % 2u]->ss[j])) x += t.e[j];
                        return x;
                    };
                    const auto x = deg(nullptr);
                    if (first || x > want) want = x;
                    ok[{"?"}] = ok[{"?"}] && rep(x);
                    for (const auto &s : subs) {
                        const std::set<std::string> st(s.begin(), s.end());
                        const auto y = deg(&st);
                        ok.emplace(s, true);
                        ok[s] = ok[s] && rep(y);
                        const auto it = pd.find(s);
                        if (it == pd.end())
                            pd[s] = y;
                        else
                            it->second = std::max(it->second, y);
                    }
                    first = false;
                }
            auto attempt = [&](i128 w, bool fits, auto f, const std::string &what) {
                ctx.op();
                ctx.validated();
                try {
                    const auto got = wide(f());
                    if (got != w) ctx.fail(mc::cat(what, " of ", show(q), " is reported as ", istr(got), ", it is ", istr(w)));
                } catch (const std::overflow_error &) {
                    // Strict only if the degrees of all the terms are representable.
                    if (fits) ctx.fail(mc::cat(what, " of ", show(q), " is reported as an overflow, it is ", istr(w)));
                }
            };
            attempt(want, ok[{"?"}], [&] { return obake::degree(q); }, "the degree");
            for (const auto &s : subs) attempt(pd.count(s) ? pd[s] : 0, !ok.count(s) || ok[s], [&] { return obake::p_degree(q, to_ss(s)); }, "the degree in " + hv::str(s));
        }
        ctx.state(a.str() + b.str());
    });
}
// One term with exponents at the limits.
template <typename K>
void edges(mc::Ctx &ctx, unsigned maxn)
{
    using T = typename K::value_type;
    using P = obake::polynomial<K, Int>;
    const auto n = ctx.choose(maxn + 1u, "symbols");
    const auto al = n ? edge_values<T>(group_size<K>::get(n)) : std::vector<T>{};
    std::vector<T> e;
    i128 tot = 0;
    Syms names;
    for (unsigned i = 0; i < n; ++i) {
        e.push_back(ctx.pick(al, "exponent"));
        tot += wide(e.back());
        names.push_back(std::string(1, static_cast<char>('a' + i)));
    }
    if (ctx.logging()) ctx.log("exponents " + vstr(e));
    P p;
    p.set_symbol_set(to_ss(names));
    try {
        p.add_term(K(e.begin(), e.end()), 1);
    } catch (const std::overflow_error &) {
        // Several exponents near the limits may not fit together.
        MC_CHECK(ctx, !is_dpacked<K>, "a monomial with exponents ", vstr(e), " is rejected");
        ctx.prune();
    }
    auto attempt = [&](i128 w, auto f, const std::string &what) {
        ctx.op();
        ctx.validated();
        const bool rep = w >= wide(std::numeric_limits<T>::min()) && w <= wide(std::numeric_limits<T>::max());
        try {
            const auto got = wide(f());
            MC_CHECK(ctx, got == w, what, " of the term with exponents ", vstr(e), " is reported as ", istr(got), ", it is ", istr(w));
        } catch (const std::overflow_error &) {
            MC_CHECK(ctx, !rep, what, " of the term with exponents ", vstr(e), " is reported as an overflow, it is ", istr(w));
        }
    };
    const auto &k = p.begin()->first;
    attempt(tot, [&] { return obake::key_degree(k, p.get_symbol_set()); }, "the degree of the monomial");
    attempt(tot, [&] { return obake::degree(p); }, "the degree");
    for (unsigned m = 0; m < (1u << n); ++m) {
        Syms s{"0"};
        i128 w = 0;
        std::vector<obake::symbol_idx> idx;
        for (unsigned i = 0; i < n; ++i)
            if (m & (1u << i)) {
                s.push_back(names[i]);
                idx.push_back(i);
                w += wide(e[i]);
            }
        s.push_back("zz");
        const obake::symbol_idx_set si(idx.begin(), idx.end());
        attempt(w, [&] { return obake::key_p_degree(k, si, p.get_symbol_set()); }, "the degree of the monomial in " + hv::str(s));
        attempt(w, [&] { return obake::p_degree(p, to_ss(s)); }, "the degree in " + hv::str(s));
    }
    ctx.state(vstr(e));
}

using k32 = op::packed_monomial<std::int32_t>;
using k64 = op::packed_monomial<std::int64_t>;
using u32 = op::packed_monomial<std::uint32_t>;
using u64 = op::packed_monomial<std::uint64_t>;
template <unsigned N>
using d32 = op::d_packed_monomial<std::int32_t, N>;
template <unsigned N>
using d64 = op::d_packed_monomial<std::int64_t, N>;
template <unsigned N>
using e32 = op::d_packed_monomial<std::uint32_t, N>;
template <unsigned N>
using e64 = op::d_packed_monomial<std::uint64_t, N>;

const Univ u1{{{}, {"x"}, {"x", "y"}, {"a", "x", "z"}}, {-2, 0, 1}, {Rat(1)}, 2, {0, 1}};
const Univ u2{{{}, {"x"}, {"x", "y"}}, {-1, 0, 3}, {Rat(1)}, 3, {0, 2}};
const Univ u3{{{}, {"x"}, {"x", "y"}, {"a", "x", "z"}}, {0, 1, 4}, {Rat(1)}, 2, {0}};
const Univ no{{{"x"}, {"x", "y"}}, {0, 3}, {Rat(1)}, 2, {0}};
const Univ nos{{{"x"}, {"b", "y"}}, {-1, 0, 3}, {Rat(1)}, 2, {0}};
const Univ ni{{{"x"}, {"a", "z"}}, {-2, 0, 1}, {Rat(1)}, 2, {0}};
const Syms n4{"a", "x", "y", "z"};

template <typename K>
std::function<void(mc::Ctx &)> ed(unsigned n)
{
    return [n](mc::Ctx &ctx) { edges<K>(ctx, n); };
}

#if PART == 0
const mc::Reg reg({
    {"flat, packed32, two terms", flat<obake::polynomial<k32, Int>>(u1, {"a", "x", "y", "zz"})},
    {"flat, packed64, three terms", flat<obake::polynomial<k64, Rat>>(u2, {"w", "x", "y"})},
    {"flat, unsigned packed32", flat<obake::polynomial<u32, Int>>(u3, n4)},
    {"flat, unsigned packed64", flat<obake::polynomial<u64, double>>(u3, n4)},
    {"larger operands", flat<obake::polynomial<k64, Rat>>(scale({5, 33, 300, 2000}, {1, 2, 5, 9}, {0, 5}, true), {"a", "c", "x", "y"})},
});
#elif PART == 1
const mc::Reg reg({
    {"flat, d_packed32, two terms", flat<obake::polynomial<d32<2>, Int>>(u1, {"a", "x", "y", "zz"})},
    {"flat, d_packed64, three terms", flat<obake::polynomial<d64<1>, Rat>>(u2, {"w", "x", "y"})},
    {"flat, unsigned d_packed32", flat<obake::polynomial<e32<2>, Int>>(u3, n4)},
    {"flat, unsigned d_packed64", flat<obake::polynomial<e64<8>, Int>>(u3, n4)},
    {"larger operands, d_packed", flat<obake::polynomial<d32<2>, Int>>(scale({5, 33, 300}, {1, 5, 9, 12}, {0, 5}, true), {"a", "c", "x", "y"})},
    {"larger operands, unsigned d_packed", flat<obake::polynomial<e64<8>, Int>>(scale({5, 33, 300}, {2, 5, 9, 12}, {0, 5}, false), {"a", "c", "x", "y"})},
});
#elif PART == 2
const mc::Reg reg({
    {"limits, packed32", ed<k32>(3)},
    {"limits, packed64", ed<k64>(3)},
    {"limits, unsigned packed32", ed<u32>(4)},
    {"limits, unsigned packed64", ed<u64>(4)},
    {"limits, d_packed32 by 1", ed<d32<1>>(4)},
    {"limits, d_packed32 by 2", ed<d32<2>>(4)},
    {"thorough limits, d_packed32 by 2", ed<d32<2>>(5), 2, 1},
    {"limits, d_packed64 by 1", ed<d64<1>>(4)},
    {"limits, d_packed64 by 3", ed<d64<3>>(4)},
    {"thorough limits, d_packed64 by 3", ed<d64<3>>(5), 2, 1},
    {"limits, unsigned d_packed32 by 1", ed<e32<1>>(4)},
    {"limits, unsigned d_packed64 by 2", ed<e64<2>>(4)},
});
#elif PART == 3
using I32 = obake::polynomial<k32, Int>;
const mc::Reg reg({
    {"nested, packed32 of packed32", nested<obake::polynomial<k32, I32>, I32>(nos, ni, n4)},
    {"nested, packed64 of d_packed32", nested<obake::polynomial<k64, obake::polynomial<d32<2>, Int>>, obake::polynomial<d32<2>, Int>>(nos, ni, n4)},
    {"nested, unsigned packed32 of packed32", nested<obake::polynomial<u32, I32>, I32>(no, ni, n4)},
    {"nested, unsigned packed64 of packed32", nested<obake::polynomial<u64, I32>, I32>(no, ni, n4)},
});
#elif PART == 4
using I64 = obake::polynomial<k64, Int>;
using N64 = obake::polynomial<u64, Int>;
const mc::Reg reg({
    {"nested, unsigned packed64 of packed64", nested<obake::polynomial<u64, I64>, I64>(no, ni, n4)},
    {"nested, packed64 of unsigned packed64", nested<obake::polynomial<k64, N64>, N64>(nos, {{{"x"}, {"a", "z"}}, {0, 1}, {Rat(1)}, 2, {0}}, n4)},
    {"nested, d_packed32 of unsigned packed32", nested<obake::polynomial<d32<2>, obake::polynomial<u32, Int>>, obake::polynomial<u32, Int>>(nos, {{{"x"}, {"a", "z"}}, {0, 1}, {Rat(1)}, 2, {0}}, n4)},
});
#endif

} // namespace
