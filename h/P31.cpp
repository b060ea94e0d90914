// P31: checked conversions and checked integer arithmetic.
#include <functional>

#include "../mc/mc.hpp"
#include "ints.hpp"

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/config.hpp>
#include <obake/detail/safe_integral_arith.hpp>
#include <obake/math/safe_cast.hpp>
#include <obake/math/safe_convert.hpp>

using namespace hv;

namespace
{
using Int = mppp::integer<1>;
using Int2 = mppp::integer<2>;
using Rat = mppp::rational<1>;

// One conversion: the destination holds a recognisable value beforehand.
template <typename To, typename From>
void convert(mc::Ctx &ctx, const From &x, bool fits, const To &want, const To &before, const std::function<std::string()> &what)
{
    To out(before);
    const bool r = obake::safe_convert(out, x);
    ctx.op(2);
    ctx.validated(3);
    if (r != fits) ctx.fail(what() + (r ? " is accepted" : " is rejected"));
    if (!(out == (fits ? want : before))) ctx.fail(what() + (fits ? " gives another value" : " is rejected but changes its destination"));
    try {
        const To y = obake::safe_cast<To>(x);
        if (!fits) ctx.fail(what() + " by safe_cast() is accepted");
        if (!(y == want)) ctx.fail(what() + " by safe_cast() gives another value");
    } catch (const obake::safe_cast_failure &) {
        if (fits) ctx.fail(what() + " by safe_cast() is rejected");
    }
}
// Throwing is slow: only convert() the rest.
template <typename To, typename From>
void convert_fast(mc::Ctx &ctx, const From &x, bool fits, const To &want, const To &before, const std::function<std::string()> &what)
{
    To out(before);
    const bool r = obake::safe_convert(out, x);
    ctx.op();
    ctx.validated(2);
    if (r != fits) ctx.fail(what() + (r ? " is accepted" : " is rejected"));
    if (!(out == (fits ? want : before))) ctx.fail(what() + (fits ? " gives another value" : " is rejected but changes its destination"));
}

#if PART == 0
template <typename From, typename To>
void int_int(mc::Ctx &ctx)
{
    const To before = static_cast<To>(To(1) & To(1));
    std::size_t i = 0, nbad = 0;
    const auto &vs = values<From>();
    for (const auto &x : vs) {
        const auto z = Z::of(x);
        const bool f = z.template fits<To>();
        const auto what = [&]() { return "the conversion of " + tname<From>() + " " + z.str() + " to " + tname<To>(); };
        if (f ? (i++ % 64u == 0u || vs.size() < 3000u) : (nbad++ % 512u == 0u || (vs.size() < 3000u && nbad % 8u == 0u)))
            convert<To>(ctx, x, f, f ? z.template to<To>() : To(), before, what);
        else
            convert_fast<To>(ctx, x, f, f ? z.template to<To>() : To(), before, what);
    }
    ctx.state(mc::cat(tname<From>(), "->", tname<To>()));
}
template <typename... Ts>
std::vector<std::function<void(mc::Ctx &)>> all_pairs(list<Ts...>)
{
    std::vector<std::function<void(mc::Ctx &)>> r;
    const auto row = [&]<typename F>(F *) { (r.push_back(int_int<F, Ts>), ...); };
    (row(static_cast<Ts *>(nullptr)), ...);
    return r;
}
void ints(mc::Ctx &ctx)
{
    static const auto v = all_pairs(all_ints{});
    ctx.pick(v, "types")(ctx);
}
// Usable in constant expressions.
template <typename To, typename From>
constexpr int cconv(From x)
{
    To t{};
    return obake::safe_convert(t, x) ? (static_cast<i128>(t) == static_cast<i128>(x) ? 1 : 2) : 0;
}
static_assert(cconv<int>(5ll) == 1 && cconv<unsigned>(-1) == 0 && cconv<signed char>(128) == 0 && cconv<long long>(~0ull) == 0);

template <typename T>
void arith(mc::Ctx &ctx)
{
    // All the pairs for 8-bit types, pairs of interesting values otherwise.
    const auto vs = [&]() {
        std::vector<T> r;
        if (sizeof(T) == 1u) return values<T>();
        for (const auto &z : edges())
            if (z.fits<T>()) r.push_back(z.to<T>());
        return r;
    }();
    const T a = vs[ctx.choose(static_cast<unsigned>(vs.size()), "first")];
    std::size_t nt = 0;
    for (const T b : vs)
        for (int sub = 0; sub < 2; ++sub) {
            // The exact result, from the signs and magnitudes.
            const auto x = Z::of(a);
            auto y = Z::of(b);
            if (sub && y.m) y.neg = !y.neg;
            Z e;
            bool over = false;
            if (x.neg == y.neg) {
                e.neg = x.neg;
                e.m = x.m + y.m;
                over = e.m < x.m;
            } else if (x.m >= y.m) {
                e.m = x.m - y.m;
                e.neg = x.neg && e.m;
            } else {
                e.m = y.m - x.m;
                e.neg = y.neg && e.m;
            }
            const bool f = !over && e.template fits<T>();
            // NOTE: exceptions are slow: with a large set of values, only some of those far from the limits are tried.
            if (!f && nt++ % 4u && sizeof(T) > 1u && !ctx.thorough()) {
                const bool close = !over && e.m <= static_cast<u128>(int_max<T>()) + 10u;
                if (!close) continue;
            }
            ctx.op();
            ctx.validated();
            const auto what = [&]() { return tname<T>() + ": " + Z::of(a).str() + (sub ? " - " : " + ") + Z::of(b).str(); };
            try {
                const T r = sub ? obake::detail::safe_int_sub(a, b) : obake::detail::safe_int_add(a, b);
                if (!f) ctx.fail(what() + " is " + zs(r) + ", should overflow");
                if (!(Z::of(r) == e)) ctx.fail(what() + " is " + zs(r));
            } catch (const std::overflow_error &ex) {
                if (f) ctx.fail(what() + " overflows");
                const std::string m = ex.what();
                if (m.find(Z::of(a).str()) == std::string::npos || m.find(Z::of(b).str()) == std::string::npos) ctx.fail(what() + ": the error does not tell the operands: " + m);
            }
        }
    ctx.state(mc::cat(tname<T>(), zs(a)));
}
#define A1(T) {"arith_" #T, arith<T>, 1},
mc::Reg reg({{"integers", ints, 1}, A1(bool) A1(char) A1(signed char) A1(unsigned char) A1(short) A1(unsigned short) A1(int) A1(unsigned) A1(long) A1(unsigned long) A1(long long) A1(unsigned long long) A1(i128) A1(u128)});
#else

std::vector<std::string> big_values()
{
    std::vector<std::string> r;
    for (const auto &z : edges()) r.push_back(z.str());
    for (const char *s : {"340282366920938463463374607431768211456", "340282366920938463463374607431768211457", "-340282366920938463463374607431768211455", "-340282366920938463463374607431768211456", "-170141183460469231731687303715884105729", "-170141183460469231731687303715884105730", "36893488147419103232000000000000000000000000000000000000000001",
                          "-115792089237316195423570985008687907853269984665640564039457584007913129639936"})
        r.push_back(s);
    return r;
}
template <typename T>
void mp(mc::Ctx &ctx)
{
    static const auto bv = big_values();
    // From multi-precision to integral.
    const auto &s = ctx.pick(bv, "value");
    const Int n(s);
    const Int2 n2(s);
    const Rat q(n);
    bool f = false;
    T want{};
    for (const auto &z : edges())
        if (z.str() == s && z.fits<T>()) {
            f = true;
            want = z.to<T>();
        }
    const T before = static_cast<T>(T(1) & T(1));
    const auto what = [&](const char *t) { return [&, t]() { return std::string("the conversion of ") + t + " " + s + " to " + tname<T>(); }; };
    convert<T>(ctx, n, f, want, before, what("integer<1>"));
    convert<T>(ctx, n2, f, want, before, what("integer<2>"));
    convert<T>(ctx, q, f, want, before, what("rational<1>"));
    for (const Rat &h : {Rat(n * Int(2) + Int(1), Int(2)), Rat(n * Int(3) + Int(1), Int(3))})
        convert<T>(ctx, h, false, T(), before, what("a fraction next to"));
    const Rat tiny(Int(1), n.sgn() ? n * n + Int(1) : Int(5));
    convert<T>(ctx, tiny, false, T(), before, what("the inverse of the square of"));
    // The opposite direction.
    if (f) {
        const auto back = [&]() { return "the conversion of " + tname<T>() + " " + s + " to multi-precision"; };
        convert<Int>(ctx, want, true, n, Int(7), back);
        convert<Int2>(ctx, want, true, n2, Int2(7), back);
        convert<Rat>(ctx, want, true, q, Rat(Int(7), Int(3)), back);
    }
    ctx.state(s);
}
// NOTE: conversions to bool are up to mp++, for which any nonzero integer is true.
void mpmp(mc::Ctx &ctx)
{
    static const auto bv = big_values();
    const auto &s = ctx.pick(bv, "value");
    const Int n(s);
    const auto what = [&]() { return "the conversion of " + s; };
    convert<Rat>(ctx, n, true, Rat(n), Rat(Int(7), Int(3)), what);
    convert<Int>(ctx, Rat(n), true, n, Int(7), what);
    convert<Int>(ctx, n, true, n, Int(7), what);
    convert<Rat>(ctx, Rat(n), true, Rat(n), Rat(Int(1)), what);
    for (int d : {2, 3, 7, 1000003})
        for (int k : {1, -1}) {
            const Rat f(n * Int(d) + Int(k), Int(d));
            convert<Int>(ctx, f, false, Int(), Int(7), what);
        }
    ctx.state(s);
}
#define M1(T) {"mp_" #T, mp<T>, 1},
mc::Reg reg({{"mp_mp", mpmp, 1}, M1(char) M1(signed char) M1(unsigned char) M1(short) M1(unsigned short) M1(int) M1(unsigned) M1(long) M1(unsigned long) M1(long long) M1(unsigned long long) M1(i128) M1(u128)});
#endif
} // namespace
