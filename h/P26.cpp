// P26: products and powers of monomials.
#include "mono.hpp"

#include <obake/math/safe_cast.hpp>

using namespace hv;

namespace
{

template <typename K>
void mul(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    const auto n = ctx.choose(mono_info<K>::max_symbols() + 1u, "symbols");
    const auto &ss = sym_set(n);
    const auto vs = mono_vecs<K>(n, ctx.thorough() ? 4000 : 250);
    const auto i = ctx.choose(static_cast<unsigned>(vs.size()), "first");
    const auto &a = vs[i];
    const auto ka = mono_of<K>(a);
    const auto lims = mono_info<K>::lims(n);
    for (const auto &b : vs) {
        bool ok = true;
        std::vector<T> s(n);
        for (unsigned j = 0; j < n && ok; ++j) {
            const i128 x = i128(a[j]) + i128(b[j]);
            ok = in_range(x, lims);
            s[j] = static_cast<T>(x);
        }
        // NOTE: products that are not representable are excluded by the range check (P30).
        if (!ok) continue;
        const auto kb = mono_of<K>(b);
        // Any compatible monomial can be overwritten.
        K out[] = {K(ss), ka, kb};
        for (auto &o : out) {
            obake::monomial_mul(o, ka, kb, ss);
            ctx.op();
            const auto r = expos(o, n);
            MC_CHECK(ctx, r == s, kname<K>(), ": the product of ", vstr(a), " and ", vstr(b), " has exponents ", vstr(r));
        }
        MC_CHECK(ctx, expos(ka, n) == a && expos(kb, n) == b, "an operand was changed by a product");
        if (i % 7u == 0u) ctx.state(mc::cat(kname<K>(), vstr(s)));
    }
}

// Exponents of all types, with their exact value if integral.
template <typename K, typename N>
void pow_one(mc::Ctx &ctx, const std::vector<typename K::value_type> &a, const N &n, const Rat &val, const std::string &nt)
{
    using T = typename K::value_type;
    const auto sz = static_cast<unsigned>(a.size());
    const auto &ss = sym_set(sz);
    const auto ka = mono_of<K>(a);
    const auto lims = mono_info<K>::lims(sz);
    std::string err;
    std::vector<T> e(sz);
    if (!val.get_den().is_one()) {
        err = "invalid_argument";
    } else {
        for (unsigned j = 0; j < sz; ++j) {
            const Int x = Int(a[j]) * val.get_num();
            if (x < Int(lims.first) || x > Int(lims.second))
                err = "overflow_error";
            else
                e[j] = static_cast<T>(x);
        }
    }
    std::string got;
    std::vector<T> r;
    try {
        r = expos(obake::monomial_pow(ka, n, ss), sz);
    } catch (const std::overflow_error &) {
        got = "overflow_error";
    } catch (const std::invalid_argument &) {
        got = "invalid_argument";
    } catch (const std::exception &x) {
        got = std::string("another exception: ") + x.what();
    }
    ctx.op();
    MC_CHECK(ctx, got == err, kname<K>(), ": ", vstr(a), " to the power of ", val.to_string(), " (", nt, "): ", got.empty() ? "result " + vstr(r) : got, ", expected ", err.empty() ? vstr(e) : err);
    if (err.empty()) MC_CHECK(ctx, r == e, kname<K>(), ": ", vstr(a), " to the power of ", val.to_string(), " (", nt, ") is ", vstr(r));
}

template <typename K>
void power(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    const auto n = ctx.choose(mono_info<K>::max_symbols() + 1u, "symbols");
    const auto vs = mono_vecs<K>(n, ctx.thorough() ? 2000 : 120);
    const auto [lo, hi] = mono_info<K>::lims(n);
    const auto &a = ctx.pick(vs, "base");
    // Exponents, including those that bring the component to, and just beyond, the limits.
    std::set<i128> es{0, 1, 2, 3, 5, -1, -2, -3, i128(hi), i128(hi) + 1, i128(lo), i128(lo) - 1, -i128(hi)};
    for (auto x : a)
        if (x != T(0))
            for (auto l : {i128(lo), i128(hi)})
                for (int d = -1; d <= 1; ++d) es.insert(l / i128(x) + d);
    const auto fits = [](i128 x, auto t) {
        using U = decltype(t);
        return x >= i128(std::numeric_limits<U>::min()) && x <= i128(std::numeric_limits<U>::max());
    };
    for (auto x : es) {
        const Rat v{to_int(x)};
        pow_one<K>(ctx, a, to_int(x), v, "integer<1>");
        pow_one<K>(ctx, a, mppp::integer<2>(to_int(x).to_string()), v, "integer<2>");
        if (fits(x, int())) pow_one<K>(ctx, a, static_cast<int>(x), v, "int");
        if (fits(x, 0ll)) pow_one<K>(ctx, a, static_cast<long long>(x), v, "long long");
        if (fits(x, 0ull)) pow_one<K>(ctx, a, static_cast<unsigned long long>(x), v, "unsigned long long");
        if (fits(x, char())) pow_one<K>(ctx, a, static_cast<signed char>(x), v, "signed char");
        pow_one<K>(ctx, a, Rat(to_int(x)), v, "rational");
    }
    for (int k : {31, 32, 63, 64, 65, 128, 200}) {
        Int p(1);
        for (int i = 0; i < k; ++i) p *= Int(2);
        for (int d = -1; d <= 1; ++d) {
            pow_one<K>(ctx, a, p + Int(d), Rat(p + Int(d)), "integer<1>");
            pow_one<K>(ctx, a, -(p + Int(d)), Rat(-(p + Int(d))), "integer<1>");
            pow_one<K>(ctx, a, mppp::integer<2>((p + Int(d)).to_string()), Rat(p + Int(d)), "integer<2>");
            pow_one<K>(ctx, a, Rat(p + Int(d)), Rat(p + Int(d)), "rational");
        }
    }
    for (const auto &q : {Rat(Int(1), Int(2)), Rat(Int(-7), Int(3)), Rat(Int(1), Int(1) * Int(1000000007))}) pow_one<K>(ctx, a, q, q, "rational");
    ctx.state(mc::cat(kname<K>(), vstr(a)));
}

#define S1(K, N) {"mul_" N, mul<K>, 2}, {"pow_" N, power<K>, 2},
mc::Reg reg({MONO_TYPES(S1)});

} // namespace
