// P20: polynomial and power series factories: all (short) lists of names x symbol sets x truncations.
#include "limits.hpp"
#include "pairs.hpp"

#include <array>
#include <string_view>
#include <variant>

#include <obake/math/safe_cast.hpp>
#include <obake/power_series/power_series.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

// Names which are prefixes of each other, need escaping, are empty, compare differently as signed characters.
const Syms names = {"x", "x_1", "", "a b", "\xc3\xa9", "X"};
// In all the subsets order matters: the sets are sorted, the names are not.
std::vector<Syms> subsets()
{
    std::vector<Syms> v;
    for (unsigned m = 0; m < (1u << names.size()); ++m) {
        Syms s;
        for (unsigned i = 0; i < names.size(); ++i)
            if (m >> i & 1u) s.push_back(names[i]);
        std::sort(s.begin(), s.end());
        v.push_back(s);
    }
    return v;
}

// No truncation, total, partial.
struct Trunc {
    int kind = 0;
    ll lim = 0;
    Syms names;
};
std::string tstr(const Trunc &t)
{
    return t.kind == 0 ? "no truncation" : mc::cat("truncation at ", t.lim, t.kind == 2 ? " in " + str(t.names) : std::string());
}

template <typename P>
void check_gen(mc::Ctx &ctx, const P &p, const std::string &n, const Syms &ss, const Trunc &t, const std::string &what)
{
    ctx.op();
    Ref e;
    const bool in_set = t.kind == 1 || (t.kind == 2 && std::find(t.names.begin(), t.names.end(), n) != t.names.end());
    if (!((in_set ? 1 : 0) > t.lim && t.kind != 0)) e.add(Mono{{n, 1}}, Rat(1));
    MC_CHECK(ctx, to_ref(p) == e, what, ": the generator ", n, " is ", show(p), ", expected ", e.str());
    MC_CHECK(ctx, to_syms(p.get_symbol_set()) == ss, what, ": the generator ", n, " has symbols ", str(to_syms(p.get_symbol_set())));
    check_inv(ctx, p, what);
    if constexpr (obake::any_p_series<P>) {
        const auto &tr = obake::get_truncation(p);
        MC_CHECK(ctx, static_cast<int>(tr.index()) == t.kind, what, ": the truncation is of kind ", tr.index());
        if (t.kind == 1) MC_CHECK(ctx, std::get<1>(tr) == t.lim, what, ": wrong truncation limit");
        if (t.kind == 2)
            MC_CHECK(ctx, std::get<2>(tr).first == t.lim && to_syms(std::get<2>(tr).second) == t.names, what, ": wrong partial truncation");
    }
}

// Calls make(names...) with all the ways to pass a string.
template <typename P, typename Make>
void call(mc::Ctx &ctx, const Syms &ns, const Syms *ss, const Trunc &t, const std::string &what, Make make)
{
    bool bad = false;
    if (ss)
        for (const auto &n : ns) bad = bad || std::find(ss->begin(), ss->end(), n) == ss->end();
    // More symbols than the key can take.
    bool over = false;
    if (ss && !is_dpacked<obake::series_key_t<P>>) over = ss->size() > (sizeof(typename key_access<obake::series_key_t<P>>::value_type) == 4u ? 10u : 21u);
    auto run = [&](auto f) {
        bool inv = false, ovf = false;
        try {
            const auto a = f();
            MC_CHECK(ctx, a.size() == ns.size(), what, ": ", a.size(), " generators for ", ns.size(), " names");
            static_assert(std::is_same_v<std::decay_t<decltype(a[0])>, P>);
            for (std::size_t i = 0; i < ns.size() && !bad && !over; ++i) check_gen(ctx, a[i], ns[i], ss ? *ss : Syms{ns[i]}, t, what);
        } catch (const std::invalid_argument &) {
            inv = true;
        } catch (const std::overflow_error &) {
            ovf = true;
        }
        ctx.validated();
        if (over)
            MC_CHECK(ctx, (bad && inv) || ovf, what, ": too many symbols were not reported");
        else
            MC_CHECK(ctx, inv == bad && !ovf, what, ": invalid_argument ", inv ? "" : "not ", "raised");
    };
    std::vector<const char *> c;
    std::vector<std::string_view> v;
    for (const auto &n : ns) {
        c.push_back(n.c_str());
        v.emplace_back(n);
    }
    switch (ns.size()) {
        case 1u:
            run([&] { return make(ns[0]); });
            run([&] { return make(c[0]); });
            run([&] { return make(v[0]); });
            break;
        case 2u:
            run([&] { return make(ns[0], ns[1]); });
            run([&] { return make(c[0], c[1]); });
            run([&] { return make(v[0], ns[1]); });
            break;
        case 3u:
            run([&] { return make(ns[0], ns[1], ns[2]); });
            run([&] { return make(ns[0], c[1], v[2]); });
            break;
        default:
            run([&] { return make(c[0], ns[1], ns[2], v[3]); });
    }
    ctx.state(what);
}
Syms pick_names(mc::Ctx &ctx, unsigned maxn)
{
    Syms ns;
    const auto k = ctx.choose(maxn, "number of names") + 1u;
    for (unsigned i = 0; i < k; ++i) ns.push_back(ctx.pick(names, "name"));
    return ns;
}

template <typename P>
std::function<void(mc::Ctx &)> polys(unsigned maxn)
{
    return [maxn, sets = subsets()](mc::Ctx &ctx) {
        const auto ns = pick_names(ctx, maxn);
        call<P>(ctx, ns, nullptr, {}, "make_polynomials" + str(ns), [](const auto &...n) { return obake::make_polynomials<P>(n...); });
        for (const auto &ss : sets) {
            const auto s = to_ss(ss);
            call<P>(ctx, ns, &ss, {}, "make_polynomials" + str(ns) + " over " + str(ss), [&](const auto &...n) { return obake::make_polynomials<P>(s, n...); });
        }
    };
}
template <typename P, typename D>
std::function<void(mc::Ctx &)> pseries(unsigned maxn, std::vector<D> lims)
{
    return [=, sets = subsets()](mc::Ctx &ctx) {
        const auto ns = pick_names(ctx, maxn);
        const int kind = static_cast<int>(ctx.choose(3, "truncation"));
        const auto dl = kind ? ctx.pick(lims, "limit") : lims[0];
        Trunc t{kind, kind ? static_cast<ll>(dl) : 0, kind == 2 ? ctx.pick(sets, "truncated symbols") : Syms{}};
        const auto w = "p_series" + str(ns) + ", " + tstr(t);
        const auto ts = to_ss(t.names);
        call<P>(ctx, ns, nullptr, t, w, [&](const auto &...n) {
            return kind == 0 ? obake::make_p_series<P>(n...) : kind == 1 ? obake::make_p_series_t<P>(dl, n...) : obake::make_p_series_p<P>(dl, ts, n...);
        });
        for (std::size_t k = 0; k < sets.size(); ++k) {
            // A quarter of the sets when there is a set in the truncation, too.
            if (kind == 2 && !ctx.thorough() && (k + ns.size()) % 4u) continue;
            const auto &ss = sets[k];
            const auto s = to_ss(ss);
            call<P>(ctx, ns, &ss, t, w + " over " + str(ss), [&](const auto &...n) {
                return kind == 0   ? obake::make_p_series<P>(s, n...)
                       : kind == 1 ? obake::make_p_series_t<P>(s, dl, n...)
                                   : obake::make_p_series_p<P>(s, dl, ts, n...);
            });
        }
    };
}
// Symbol sets as large as the keys allow, and larger.
template <typename K>
inline constexpr bool is_packed = false;
template <typename T>
inline constexpr bool is_packed<obake::packed_monomial<T>> = true;
template <typename P>
std::function<void(mc::Ctx &)> large()
{
    return [](mc::Ctx &ctx) {
        // NOTE: there is no limit but for the packed monomials.
        constexpr bool packed = is_packed<obake::series_key_t<P>>;
        auto n = ctx.choose(packed ? 26u : 29u, "number of symbols") + 1u;
        if (n > 26u) n = n == 27u ? 70u : n == 28u ? 130u : 300u;
        Syms ss;
        for (unsigned i = 0; i < n; ++i) ss.push_back(std::string(1, static_cast<char>('a' + i / 26u)) + std::string(1, static_cast<char>('a' + i % 26u)) + "q");
        const auto s = to_ss(ss);
        for (unsigned i = 0; i < n; ++i) {
            const Syms ns{ss[i], ss[n - 1u - i], ss[(i * 7u + 3u) % n]};
            const auto w = "generators " + str(ns) + " of " + str(ss);
            if constexpr (obake::any_p_series<P>)
                call<P>(ctx, ns, &ss, {}, w, [&](const auto &...m) { return obake::make_p_series<P>(s, m...); });
            else
                call<P>(ctx, ns, &ss, {}, w, [&](const auto &...m) { return obake::make_polynomials<P>(s, m...); });
        }
    };
}
// Limits that cannot be converted to the degree type.
template <typename P>
std::function<void(mc::Ctx &)> bad_limits()
{
    return [](mc::Ctx &ctx) {
        using deg_t = obake::detail::psk_deg_t<obake::series_key_t<P>>;
        const i128 mn = std::numeric_limits<ll>::min(), mx = std::numeric_limits<ll>::max();
        std::vector<Int> lims;
        for (const Int &x : {Int(std::numeric_limits<std::int32_t>::min()), Int(std::numeric_limits<std::int32_t>::max()), Int(std::numeric_limits<std::uint32_t>::max()), Int(static_cast<ll>(mn)), Int(static_cast<ll>(mx)), Int(std::numeric_limits<unsigned long>::max()), Int(0)})
            for (int d = -1; d <= 1; ++d) lims.push_back(x + d);
        for (const auto &l : lims) {
            const Int lo(0), hi(0);
            bool fits;
            if constexpr (std::is_integral_v<deg_t>)
                fits = l >= Int(std::numeric_limits<deg_t>::min()) && l <= Int(std::numeric_limits<deg_t>::max());
            else
                fits = true;
            for (int k = 0; k < 4; ++k) {
                ctx.op();
                bool thrown = false;
                Ref e;
                e.add(Mono{{"x", 1}}, Rat(1));
                try {
                    const auto ss = obake::symbol_set{"x", "y"};
                    const auto a = k == 0   ? obake::make_p_series_t<P>(l, "x")
                                   : k == 1 ? obake::make_p_series_t<P>(ss, l, "x")
                                   : k == 2 ? obake::make_p_series_p<P>(l, obake::symbol_set{"x"}, "x")
                                            : obake::make_p_series_p<P>(ss, l, obake::symbol_set{"x"}, "x");
                    if (l < 1) e = Ref();
                    MC_CHECK(ctx, to_ref(a[0]) == e, "a generator truncated at ", l, " is ", show(a[0]));
                    const auto &tr = obake::get_truncation(a[0]);
                    MC_CHECK(ctx, (k < 2 ? Int(std::get<1>(tr)) : Int(std::get<2>(tr).first)) == l, "wrong limit for ", l);
                } catch (const obake::safe_cast_failure &) {
                    thrown = true;
                }
                MC_CHECK(ctx, thrown == !fits, "a truncation limit of ", l, " was ", thrown ? "rejected" : "accepted");
            }
        }
        (void)ctx.choose(1);
        ctx.state("limits");
    };
}

using p32 = op::packed_monomial<std::int32_t>;
using u32 = op::packed_monomial<std::uint32_t>;
using p64 = op::packed_monomial<std::int64_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using d1 = op::d_packed_monomial<std::int32_t, 1>;
using d2 = op::d_packed_monomial<std::uint64_t, 2>;
using d8 = op::d_packed_monomial<std::int64_t, 8>;

#if PART == 0
const mc::Reg reg({
    {"polynomials, packed int32", polys<obake::polynomial<p32, Int>>(3)},
    {"polynomials, packed uint64", polys<obake::polynomial<u64, Rat>>(2)},
    {"polynomials, packed int64, double", polys<obake::polynomial<p64, double>>(2)},
    {"thorough polynomials", polys<obake::polynomial<u32, Int>>(4), 2, 1},
});
#elif PART == 1
const mc::Reg reg({
    {"polynomials, d_packed int32 1", polys<obake::polynomial<d1, Int>>(2)},
    {"polynomials, d_packed uint64 2", polys<obake::polynomial<d2, Int>>(3)},
    {"polynomials, d_packed int64 8", polys<obake::polynomial<d8, Rat>>(2)},
    {"polynomials with polynomial coefficients", polys<obake::polynomial<p32, obake::polynomial<d2, Int>>>(2)},
});
#elif PART == 2
const mc::Reg reg({
    {"power series, packed int32", pseries<obake::p_series<p32, Int>, int>(2, {-1, 0, 1, 2})},
    {"power series, packed int64, rational limits", pseries<obake::p_series<p64, Rat>, Int>(1, {Int(-1), Int(0), Int(1)})},
    {"thorough power series", pseries<obake::p_series<p64, Rat>, ll>(3, {-1, 0, 1}), 2, 1},
});
#elif PART == 3
const mc::Reg reg({
    {"power series, d_packed int32 1", pseries<obake::p_series<d1, Int>, ll>(1, {-1, 0, 1, 2})},
    {"power series, d_packed int64 8", pseries<obake::p_series<d8, double>, short>(2, {0, 1})},
    {"power series, packed uint32", pseries<obake::p_series<u32, Int>, unsigned>(1, {0u, 1u})},
    {"limits out of range, int32", bad_limits<obake::p_series<p32, Int>>()},
    {"limits out of range, uint32", bad_limits<obake::p_series<u32, Int>>()},
    {"limits out of range, uint64", bad_limits<obake::p_series<u64, Int>>()},
    {"limits out of range, d_packed int32", bad_limits<obake::p_series<d1, Int>>()},
});
#elif PART == 4
const mc::Reg reg({
    {"large symbol sets, packed int32", large<obake::polynomial<p32, Int>>()},
    {"large symbol sets, packed uint32", large<obake::p_series<u32, Int>>()},
    {"large symbol sets, packed int64", large<obake::p_series<p64, Int>>()},
    {"large symbol sets, packed uint64", large<obake::polynomial<u64, Int>>()},
    {"large symbol sets, d_packed int32 1", large<obake::p_series<d1, Int>>()},
    {"large symbol sets, d_packed uint64 2", large<obake::polynomial<d2, Int>>()},
    {"large symbol sets, d_packed int64 8", large<obake::polynomial<d8, Int>>()},
});
#endif

} // namespace
