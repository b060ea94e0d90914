// P28: derivative, antiderivative, evaluation and substitution of monomials.
#include "mono.hpp"

using namespace hv;

namespace formal
{
// Formal products of powers of numbered variables.
struct Form {
    std::map<int, i128> e;
    Form() = default;
    explicit Form(int n)
    {
        // NOTE: only the unity is made of a number.
        if (n != 1) e[-1] = n;
    }
    static Form var(int i)
    {
        Form f;
        f.e[i] = 1;
        return f;
    }
    Form &operator*=(const Form &o)
    {
        for (const auto &[i, x] : o.e) {
            auto &y = e[i];
            y += x;
            if (y == 0) e.erase(i);
        }
        return *this;
    }
    friend bool operator==(const Form &a, const Form &b)
    {
        return a.e == b.e;
    }
    std::string str() const
    {
        std::string r = "1";
        for (const auto &[i, x] : e) r += "*v" + std::to_string(i) + "^" + istr(x);
        return r;
    }
};
template <typename T>
    requires std::is_integral_v<T>
Form pow(const Form &f, const T &n)
{
    Form r;
    for (const auto &[i, x] : f.e)
        if (n != T(0)) r.e[i] = x * i128(n);
    return r;
}
} // namespace formal

namespace
{
using formal::Form;

template <typename K>
void calculus(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    const auto n = ctx.choose(mono_info<K>::max_symbols(), "symbols") + 1u;
    const auto &ss = sym_set(n);
    const auto vs = mono_vecs<K>(n, ctx.thorough() ? 6000 : 350);
    const auto &a = ctx.pick(vs, "monomial");
    const auto ka = mono_of<K>(a);
    const auto lims = mono_info<K>::lims(n);
    for (unsigned i = 0; i < n; ++i) {
        for (int integ = 0; integ < 2; ++integ) {
            const char *what = integ ? "antiderivative" : "derivative";
            i128 factor;
            auto e = a;
            std::string err;
            if (integ) {
                const i128 x = i128(a[i]) + 1;
                factor = x;
                if (x == 0)
                    err = "domain_error";
                else if (!in_range(x, lims))
                    err = "overflow_error";
                else
                    e[i] = static_cast<T>(x);
            } else if (a[i] != T(0)) {
                const i128 x = i128(a[i]) - 1;
                factor = a[i];
                if (!in_range(x, lims))
                    err = "overflow_error";
                else
                    e[i] = static_cast<T>(x);
            } else {
                factor = 0;
            }
            std::string got;
            std::vector<T> r;
            i128 f = 0;
            try {
                const auto p = integ ? obake::monomial_integrate(ka, i, ss) : obake::monomial_diff(ka, i, ss);
                f = i128(p.first);
                r = expos(p.second, n);
                MC_CHECK(ctx, obake::key_is_compatible(p.second, ss), "the result is not a proper monomial");
            } catch (const std::overflow_error &) {
                got = "overflow_error";
            } catch (const std::domain_error &) {
                got = "domain_error";
            }
            ctx.op();
            MC_CHECK(ctx, got == err, kname<K>(), ": ", what, " of ", vstr(a), " by symbol ", i, ": ", got.empty() ? "accepted" : got, ", expected ", err.empty() ? "success" : err);
            if (!err.empty()) continue;
            MC_CHECK(ctx, f == factor, kname<K>(), ": ", what, " of ", vstr(a), " by symbol ", i, ": factor ", istr(f));
            // NOTE: the monomial does not matter if the factor is null.
            if (factor != 0) MC_CHECK(ctx, r == e, kname<K>(), ": ", what, " of ", vstr(a), " by symbol ", i, " has exponents ", vstr(r));
        }
    }
    MC_CHECK(ctx, expos(ka, n) == a, "the operand was changed");
    ctx.state(mc::cat(kname<K>(), vstr(a)));
}

template <typename K>
void eval(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    const auto n = ctx.choose(mono_info<K>::max_symbols() + 1u, "symbols");
    const auto &ss = sym_set(n);
    const auto vs = mono_vecs<K>(n, ctx.thorough() ? 4000 : 200);
    const auto &a = ctx.pick(vs, "monomial");
    const auto ka = mono_of<K>(a);
    // Distinct variables: the monomial itself.
    {
        obake::symbol_idx_map<Form> m;
        Form e;
        for (unsigned i = 0; i < n; ++i) {
            m.emplace(i, Form::var(static_cast<int>(i)));
            e *= formal::pow(Form::var(static_cast<int>(i)), a[i]);
        }
        const auto r = obake::key_evaluate(ka, m, ss);
        ctx.op();
        MC_CHECK(ctx, r == e, kname<K>(), ": ", vstr(a), " evaluates to ", r.str());
    }
    // Substitution: all subsets (all intervals, and their complements, if there are many symbols).
    std::vector<std::vector<bool>> subs;
    if (n <= 7u) {
        for (unsigned m = 0; m < (1u << n); ++m) {
            std::vector<bool> s(n);
            for (unsigned i = 0; i < n; ++i) s[i] = (m >> i) & 1u;
            subs.push_back(s);
        }
    } else {
        for (int comp = 0; comp < 2; ++comp)
            for (unsigned i = 0; i <= n; ++i)
                for (unsigned j = i; j <= n; ++j) {
                    std::vector<bool> s(n, comp != 0);
                    for (unsigned k = i; k < j; ++k) s[k] = !comp;
                    subs.push_back(s);
                }
    }
    for (const auto &s : subs) {
        obake::symbol_idx_map<Form> m;
        Form e;
        auto left = a;
        for (unsigned i = 0; i < n; ++i)
            if (s[i]) {
                m.emplace(i, Form::var(static_cast<int>(i)));
                e *= formal::pow(Form::var(static_cast<int>(i)), a[i]);
                left[i] = T(0);
            }
        const auto r = obake::monomial_subs(ka, m, ss);
        ctx.op();
        MC_CHECK(ctx, r.first == e, kname<K>(), ": substitution of ", m.size(), " symbols in ", vstr(a), ": factor ", r.first.str(), " instead of ", e.str());
        MC_CHECK(ctx, expos(r.second, n) == left && obake::key_is_compatible(r.second, ss), kname<K>(), ": substitution of ", m.size(), " symbols in ", vstr(a), " leaves ", vstr(expos(r.second, n)));
    }
    ctx.state(mc::cat(kname<K>(), vstr(a)));
}

// Numeric values, small exponents.
template <typename K>
void numeric(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    const auto n = ctx.choose(4, "symbols");
    if (!is_dpacked<K> && n > max_packed<T>) ctx.prune();
    const auto &ss = sym_set(n);
    std::vector<T> a(n);
    const std::vector<T> al = std::is_signed_v<T> ? std::vector<T>{0, 1, 2, T(-1), T(-2), 3} : std::vector<T>{0, 1, 2, 3};
    for (unsigned i = 0; i < n; ++i) a[i] = ctx.pick(al, "exponent");
    const auto ka = mono_of<K>(a);
    const std::vector<Rat> vals{Rat(Int(0)), Rat(Int(1)), Rat(Int(-1)), Rat(Int(2)), Rat(Int(-3)), Rat(Int(1), Int(2)), Rat(Int(-2), Int(3))};
    std::vector<unsigned> d(n, 0);
    for (;;) {
        // All assignments.
        bool zero_div = false, integral = true;
        Rat e(Int(1));
        obake::symbol_idx_map<Rat> mr;
        obake::symbol_idx_map<Int> mi;
        for (unsigned i = 0; i < n; ++i) {
            const auto &v = vals[d[i]];
            mr.emplace(i, v);
            if (v.get_den().is_one())
                mi.emplace(i, v.get_num());
            else
                integral = false;
            if (v.is_zero() && a[i] < T(0)) {
                zero_div = true;
                continue;
            }
            const auto ex = static_cast<long long>(a[i]);
            for (long long j = 0; j < (ex < 0 ? -ex : ex); ++j) e = ex < 0 ? e / v : e * v;
        }
        bool thrown = false;
        Rat r;
        try {
            r = obake::key_evaluate(ka, mr, ss);
            const auto s = obake::monomial_subs(ka, mr, ss);
            MC_CHECK(ctx, s.first == r && obake::key_is_one(s.second, ss), kname<K>(), ": substitution and evaluation of ", vstr(a), " differ");
        } catch (const mppp::zero_division_error &) {
            thrown = true;
        }
        ctx.op();
        MC_CHECK(ctx, thrown == zero_div, kname<K>(), ": division by zero in the evaluation of ", vstr(a));
        if (!thrown) MC_CHECK(ctx, r == e, kname<K>(), ": evaluation of ", vstr(a), ": ", r.to_string(), " instead of ", e.to_string());
        bool nonneg = std::all_of(a.begin(), a.end(), [](T x) { return x >= T(0); });
        if (integral && nonneg) {
            MC_CHECK(ctx, Rat(obake::key_evaluate(ka, mi, ss)) == e, kname<K>(), ": integral evaluation of ", vstr(a));
            ctx.op();
        }
        unsigned i = 0;
        while (i < n && ++d[i] == vals.size()) d[i++] = 0;
        if (i == n) break;
    }
    ctx.state(mc::cat(kname<K>(), vstr(a)));
}

// Degrees.
template <typename K>
void degrees(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    const auto n = ctx.choose(mono_info<K>::max_symbols() + 1u, "symbols");
    const auto &ss = sym_set(n);
    const auto vs = mono_vecs<K>(n, ctx.thorough() ? 4000 : 200);
    const auto &a = ctx.pick(vs, "monomial");
    const auto ka = mono_of<K>(a);
    for (unsigned m = 0; m <= (n <= 8u ? (1u << n) : n * n); ++m) {
        obake::symbol_idx_set si;
        i128 d = 0;
        const bool all = (m == 0u);
        for (unsigned i = 0; i < n; ++i) {
            const bool in = all || (n <= 8u ? (((m - 1u) >> i) & 1u) != 0u : (i == (m - 1u) / n || i == (m - 1u) % n));
            if (in) {
                si.insert(i);
                d += a[i];
            }
        }
        const bool fits = d >= i128(std::numeric_limits<T>::min()) && d <= i128(std::numeric_limits<T>::max());
        for (int tot = 0; tot < (all ? 2 : 1); ++tot) {
            bool thrown = false;
            T r{};
            try {
                r = tot ? obake::key_degree(ka, ss) : obake::key_p_degree(ka, si, ss);
            } catch (const std::overflow_error &) {
                thrown = true;
            }
            ctx.op();
            MC_CHECK(ctx, thrown == !fits, kname<K>(), ": degree of ", vstr(a), " in ", si.size(), " symbols: ", thrown ? "rejected" : "accepted");
            if (fits) MC_CHECK(ctx, i128(r) == d, kname<K>(), ": degree of ", vstr(a), " in ", si.size(), " symbols: ", +r, " instead of ", istr(d));
        }
    }
    ctx.state(mc::cat(kname<K>(), vstr(a)));
}

#define S1(K, N) {"calculus_" N, calculus<K>, 2}, {"evaluate_" N, eval<K>, 2}, {"numeric_" N, numeric<K>, 2}, {"degree_" N, degrees<K>, 2},
mc::Reg reg({MONO_TYPES(S1)});

} // namespace
