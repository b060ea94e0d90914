// P05: products whose exponents are at, just below and just above the limits of the representation.
#include <array>

#include "limits.hpp"
#include "wcf.hpp"

#include "pairs.hpp"

using namespace hv;
namespace op = obake::polynomials;

namespace
{

template <typename T>
struct Op2 {
    Syms ss;
    std::vector<std::vector<T>> keys;
    std::string str() const
    {
        std::string r = "{";
        for (const auto &k : keys) r += vstr(k);
        return r + "} over " + hv::str(ss);
    }
};

// A product of one- or two-term polynomials with exponents from the edge alphabet.
template <typename K, typename C>
void edges(mc::Ctx &ctx, const std::vector<Syms> &sets, unsigned nta, unsigned ntb, const std::vector<std::size_t> &ws, bool trunc)
{
    using T = typename K::value_type;
    using P = obake::polynomial<K, C>;
    auto mk = [&](unsigned nt) {
        Op2<T> o;
        o.ss = ctx.pick(sets, "symbols");
        const auto n = o.ss.size();
        const auto al = n ? edge_values<T>(group_size<K>::get(n)) : std::vector<T>{};
        for (unsigned i = 0; i < nt; ++i) {
            std::vector<T> e;
            for (std::size_t j = 0; j < n; ++j) {
                // The second term differs from the first in few, smaller, places.
                if (i == 0)
                    e.push_back(ctx.pick(al, "exponent"));
                else
                    e.push_back(j == 0 ? ctx.pick(al, "exponent") : o.keys[0][j]);
            }
            if (i && e == o.keys[0]) ctx.prune();
            o.keys.push_back(e);
        }
        return o;
    };
    auto a = mk(nta), b = mk(ntb);
    const auto w = ctx.pick(ws, "weight");
    if (ctx.logging()) ctx.log("a = " + a.str() + " b = " + b.str() + mc::cat(" weight ", w));
    auto build2 = [&](const Op2<T> &o) {
        P p;
        p.set_symbol_set(to_ss(o.ss));
        for (const auto &k : o.keys) p.add_term(K(k.begin(), k.end()), C(1));
        return p;
    };
    P pa, pb;
    if constexpr (is_dpacked<K>) {
        pa = build2(a);
        pb = build2(b);
    } else {
        // Several exponents near the limits may not fit together.
        try {
            pa = build2(a);
            pb = build2(b);
        } catch (const std::overflow_error &) {
            ctx.prune();
        }
    }
    // What is representable over the union of the symbol sets.
    const auto us = syms_union(a.ss, b.ss);
    const auto gs = us.empty() ? 1u : group_size<K>::get(us.size());
    const auto [mn, mx] = pack_limits<T>(gs);
    bool fit = true, opfit = true;
    std::map<std::vector<i128>, int> prod;
    auto widen = [&](const Op2<T> &o, const std::vector<T> &k) {
        std::vector<i128> r;
        for (const auto &s : us) {
            const auto it = std::find(o.ss.begin(), o.ss.end(), s);
            r.push_back(it == o.ss.end() ? i128(0) : i128(k[static_cast<std::size_t>(it - o.ss.begin())]));
        }
        return r;
    };
    for (const auto &ka : a.keys)
        for (const auto &kb : b.keys) {
            auto e1 = widen(a, ka), e2 = widen(b, kb);
            i128 deg = 0;
            for (std::size_t i = 0; i < e1.size(); ++i) {
                if (e1[i] < i128(mn) || e1[i] > i128(mx) || e2[i] < i128(mn) || e2[i] > i128(mx)) opfit = false;
                e1[i] += e2[i];
                deg += e1[i];
                if (e1[i] < i128(mn) || e1[i] > i128(mx)) fit = false;
            }
            if (is_dpacked<K> && (deg < i128(std::numeric_limits<T>::min()) || deg > i128(std::numeric_limits<T>::max()))) fit = false;
            ++prod[e1];
        }
    fit = fit && opfit;
    auto check = [&](const char *form, const P &r, bool all, const std::map<std::vector<i128>, int> &exp) {
        ctx.op();
        MC_CHECK(ctx, all ? fit : true, form, ": the product of ", a.str(), " and ", b.str(), " succeeded although it is not representable");
        MC_CHECK(ctx, to_syms(r.get_symbol_set()) == us, form, ": wrong symbol set");
        std::map<std::vector<i128>, int> got;
        for (const auto &t : r) {
            const auto e = key_access<K>::get(t.first, static_cast<unsigned>(us.size()));
            std::vector<i128> v;
            for (auto x : e) v.push_back(std::is_signed_v<T> ? i128(x) : i128(static_cast<std::make_unsigned_t<ll>>(x)));
            int c = 0;
            for (const auto &[m, q] : to_ref(t.second).t) c += static_cast<int>(q.get_num());
            got[v] += c;
        }
        MC_CHECK(ctx, got == exp, form, ": wrong product of ", a.str(), " and ", b.str());
    };
    wc::weight = w;
    auto attempt = [&](const char *form, bool all, const std::map<std::vector<i128>, int> &exp, auto f) {
        try {
            const P r = f();
            check(form, r, all, exp);
        } catch (const std::overflow_error &) {
            ctx.op();
            ctx.validated();
            if (fit) ctx.fail(mc::cat(form, ": an overflow was reported although the product of ", a.str(), " and ", b.str(), " is representable"));
        }
    };
    attempt("a * b", true, prod, [&] { return pa * pb; });
    attempt("b * a", true, prod, [&] { return pb * pa; });
    attempt("a *= b", true, prod, [&] {
        P c(pa);
        c *= pb;
        return c;
    });
    if (trunc) {
        // The degrees of the terms are at the limits too.
        for (int li = -1; li <= 1; ++li) {
            const T lim = li < 0 ? mn : (li ? mx : T(0));
            std::map<std::vector<i128>, int> e;
            for (const auto &[k, c] : prod) {
                i128 d = 0;
                for (auto x : k) d += x;
                if (d <= i128(lim)) e[k] = c;
            }
            attempt("truncated_mul(a, b, limit)", false, e, [&] { return truncated_mul(pa, pb, lim); });
        }
    }
    MC_CHECK(ctx, pa == build2(a) && pb == build2(b), "an operand was modified");
    wc::weight = 8;
    ctx.state(a.str() + b.str());
}

template <typename K, typename C>
mc::Scenario sc(std::string name, std::vector<Syms> sets, unsigned nta, unsigned ntb, std::vector<std::size_t> ws, bool trunc, int tier = 0)
{
    return {name, [=](mc::Ctx &c) { edges<K, C>(c, sets, nta, ntb, ws, trunc); }, 3, tier};
}

using k32 = op::packed_monomial<std::int32_t>;
using k64 = op::packed_monomial<std::int64_t>;
using uk32 = op::packed_monomial<std::uint32_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using d32_1 = op::d_packed_monomial<std::int32_t, 1>;
using d64 = op::d_packed_monomial<std::int64_t, 3>;
using ud32 = op::d_packed_monomial<std::uint32_t, 2>;

const std::vector<Syms> s1 = {{}, {"x"}, {"y"}}, s2 = {{"x"}, {"x", "y"}}, s22 = {{"x", "y"}}, s3 = {{"y"}, {"x", "z"}};

#if PART == 0
const mc::Reg reg({
    sc<k32, Int>("packed int32, one symbol", s1, 1, 2, {8}, true),
    sc<k32, Int>("packed int32, two symbols", s2, 1, 1, {8}, true),
    sc<k32, Int>("packed int32, two symbols, two terms", s22, 2, 1, {8}, false),
    sc<k32, Int>("packed int32, merged symbols", s3, 1, 1, {8}, true),
    sc<k32, Int>("packed int32, two symbols, two terms each", s22, 2, 2, {8}, false, 1),
});
#elif PART == 1
const mc::Reg reg({
    sc<k64, Int>("packed int64, one symbol", s1, 1, 2, {8}, true),
    sc<k64, Int>("packed int64, two symbols", s2, 1, 1, {8}, true),
    sc<uk32, Int>("packed uint32, two symbols", s2, 2, 2, {8}, true),
});
#elif PART == 2
const mc::Reg reg({
    sc<d32, Int>("d_packed int32, groups of two", s3, 1, 1, {8}, true),
    sc<d32, Int>("d_packed int32, groups of two, two terms", {{"x", "y"}}, 2, 1, {8}, false),
    sc<ud32, Int>("d_packed uint32, groups of two", s3, 2, 1, {8}, true),
});
#elif PART == 3
const mc::Reg reg({
    sc<d32_1, Int>("d_packed int32, groups of one", {{"x"}, {"x", "y"}}, 1, 1, {8}, true),
    sc<d64, Int>("d_packed int64, groups of three", s2, 1, 1, {8}, true),
});
#elif PART == 4
const mc::Reg reg({
    sc<k32, wc::wcf>("packed int32, multi-threaded", s22, 1, 2, {40000}, true),
    sc<k32, wc::wcf>("packed int32, multi-threaded, several segments", s2, 1, 2, {40000, 400000}, true, 1),
    sc<d32, wc::wcf>("d_packed int32, multi-threaded", s2, 1, 2, {40000}, true),
});
#elif PART == 5
// Partial degrees: every component and the total degree of the products fit, the partial degree may not.
template <typename K, typename C>
void partial(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    using P = obake::polynomial<K, C>;
    const auto [mn, mx] = pack_limits<T>(group_size<K>::get(4));
    const T al[] = {0, static_cast<T>(mx / 2), mx, mn};
    const Syms ss{"w", "x", "y", "z"};
    auto key = [&]() {
        std::vector<T> e;
        for (int i = 0; i < 4; ++i) e.push_back(al[ctx.choose(4)]);
        return e;
    };
    const auto k1 = key(), k2 = key();
    wc::weight = ctx.flag() ? 40000 : 8;
    P a, b;
    a.set_symbol_set(to_ss(ss));
    b.set_symbol_set(to_ss(ss));
    try {
        a.add_term(K(k1.begin(), k1.end()), C(1));
        b.add_term(K(k2.begin(), k2.end()), C(1));
        b.add_term(K{T(0), T(0), T(0), T(0)}, C(1));
    } catch (const std::overflow_error &) {
        ctx.prune();
    }
    if (b.size() != 2u) ctx.prune();
    const obake::symbol_set sub{"w", "x", "y"};
    std::map<std::vector<i128>, int> exp;
    for (const T lim : {T(0), T(5), mn}) {
        exp.clear();
        auto put = [&](const std::vector<T> &u) {
            std::vector<i128> v;
            for (int i = 0; i < 4; ++i) v.push_back(i128(k1[static_cast<unsigned>(i)]) + u[static_cast<unsigned>(i)]);
            if (v[0] + v[1] + v[2] <= i128(lim)) ++exp[v];
        };
        put(k2);
        put(std::vector<T>(4u, T(0)));
        ctx.op();
        try {
            const auto r = truncated_mul(a, b, lim, sub);
            std::map<std::vector<i128>, int> got;
            for (const auto &t : r) {
                const auto e = key_access<K>::get(t.first, 4);
                ++got[std::vector<i128>(e.begin(), e.end())];
            }
            MC_CHECK(ctx, got == exp, "truncated_mul in {w, x, y} with limit ", lim, " of ", vstr(k1), " and ", vstr(k2), " + 1: ", r.size(),
                     " terms instead of ", exp.size());
        } catch (const std::overflow_error &) {
            // Fine if something is not representable.
            bool fit = true;
            i128 d1 = 0, d2 = 0, p1 = 0, p2 = 0;
            for (unsigned i = 0; i < 4; ++i) {
                const i128 s = i128(k1[i]) + k2[i];
                if (s > i128(mx) || s < i128(mn)) fit = false;
                d1 += k1[i];
                d2 += s;
                if (i < 3) p1 += k1[i], p2 += s;
            }
            for (auto d : {d1, d2, d2 - d1, p1, p2, p2 - p1})
                if (d > i128(std::numeric_limits<T>::max()) || d < i128(std::numeric_limits<T>::min())) fit = false;
            MC_CHECK(ctx, !fit, "truncated_mul in {w, x, y} with limit ", lim, " of ", vstr(k1), " and ", vstr(k2),
                     " + 1 reported an overflow although everything is representable");
        }
    }
    wc::weight = 8;
    ctx.state(mc::cat(vstr(k1), vstr(k2)));
}
const mc::Reg reg({
    {"partial degrees, d_packed int32, groups of one", partial<d32_1, wc::wcf>},
    {"partial degrees, d_packed int32, groups of two", partial<d32, wc::wcf>},
    {"partial degrees, packed int32", partial<k32, wc::wcf>},
    {"partial degrees, d_packed int64, groups of three", partial<d64, wc::wcf>, 2, 1},
});
#endif

} // namespace
