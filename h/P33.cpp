// P33: the generic operations on scalars. PART 0, 1: as configured by default, with hardware fused multiply-add.
#include <cfloat>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <sstream>
#include <type_traits>

#include "../mc/mc.hpp"
#include "ints.hpp"

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/byte_size.hpp>
#include <obake/config.hpp>
#include <obake/hash.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/fma3.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/symbols.hpp>

using namespace hv;

namespace
{
template <typename T>
constexpr bool is_fp = std::is_same_v<T, float> || std::is_same_v<T, double> || std::is_same_v<T, long double>;
template <typename T>
struct mpt : std::integral_constant<int, 0> {
};
template <std::size_t N>
struct mpt<mppp::integer<N>> : std::integral_constant<int, 1> {
    using int_t = mppp::integer<N>;
};
template <std::size_t N>
struct mpt<mppp::rational<N>> : std::integral_constant<int, 2> {
    using int_t = mppp::integer<N>;
};
template <typename T>
constexpr int mp = mpt<T>::value;
template <typename T>
constexpr bool is_int = !is_fp<T> && mp<T> == 0;

template <typename T>
std::string nm()
{
    if constexpr (std::is_same_v<T, float>) return "float";
    else if constexpr (std::is_same_v<T, double>) return "double";
    else if constexpr (std::is_same_v<T, long double>) return "long double";
    else if constexpr (mp<T> == 1) return mc::cat("integer/", sizeof(T));
    else if constexpr (mp<T> == 2) return mc::cat("rational/", sizeof(T));
    else return tname<T>();
}
template <typename T>
std::string str(const T &x)
{
    if constexpr (mp<T> != 0) {
        return x.to_string();
    } else if constexpr (is_fp<T>) {
        std::ostringstream o;
        o.precision(22);
        o << x;
        return o.str();
    } else {
        return zs(x);
    }
}
// The same value: NaNs are equal to each other, zeros of different sign are not.
template <typename T>
bool same(const T &a, const T &b)
{
    if constexpr (is_fp<T>) {
        if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        return a == b && std::signbit(a) == std::signbit(b);
    } else {
        return a == b;
    }
}
template <typename T>
const std::vector<T> &vals()
{
    static const auto &v = *new std::vector<T>([]() {
        std::vector<T> r;
        if constexpr (is_fp<T>) {
            using L = std::numeric_limits<T>;
            for (T x : {T(0), T(1), T(2), T(3), T(0.1L), T(0.5), T(1.5), T(10), T(1) / T(3), T(1e10L), T(123456789), L::epsilon(), L::min(), L::denorm_min(),
                        L::max(), L::infinity(), 1 + L::epsilon(), 1 - L::epsilon(), L::max() / 2, std::sqrt(L::max()), std::sqrt(L::min()), T(7) / T(11)}) {
                r.push_back(x);
                r.push_back(-x);
            }
            r.push_back(L::quiet_NaN());
        } else if constexpr (mp<T> == 1) {
            for (const char *s : {"0", "1", "2", "3", "7", "10", "255", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807",
                                  "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455",
                                  "340282366920938463463374607431768211456", "123456789012345678901234567890123456789012345678901234567890"})
                for (int n = 0; n < 2; ++n) {
                    if (n && std::string(s) == "0") continue;
                    r.push_back(T((n ? "-" : "") + std::string(s)));
                    // The same value with dynamic storage.
                    T d(r.back());
                    d.promote();
                    r.push_back(d);
                }
        } else if constexpr (mp<T> == 2) {
            for (const char *s : {"0", "1", "-1", "1/2", "-1/2", "2", "-3/2", "7/3", "10", "18446744073709551616", "-18446744073709551616", "1/18446744073709551616",
                                  "18446744073709551617/340282366920938463463374607431768211456", "-123456789012345678901234567890/7",
                                  "-3/123456789012345678901234567890123456789012345678901234567892"})
                r.push_back(T(std::string(s)));
        } else {
            r = values<T>();
        }
        return r;
    }());
    return v;
}
// A smaller choice, for pairs and triples.
template <typename T>
const std::vector<T> &few()
{
    static const auto &v = *new std::vector<T>([]() {
        if constexpr (!is_int<T>) {
            return vals<T>();
        } else {
            std::vector<T> r;
            for (int d = 0; d < 4; ++d) {
                if constexpr (!std::is_same_v<T, bool>) {
                    r.push_back(static_cast<T>(d));
                    r.push_back(static_cast<T>(int_max<T>() - d));
                    if constexpr (is_sgn<T>) {
                        r.push_back(static_cast<T>(-d));
                        r.push_back(static_cast<T>(int_min<T>() + d));
                    }
                }
            }
            return r;
        }
    }());
    return v;
}

template <typename T>
bool zero(const T &x)
{
    if constexpr (is_fp<T>) return std::fpclassify(x) == FP_ZERO;
    else if constexpr (mp<T> != 0) return x.to_string() == "0";
    else return Z::of(x).m == 0u;
}

// One value.
template <typename T>
void unary(mc::Ctx &ctx, const T &v)
{
    const auto w = [&]() { return nm<T>() + " " + str(v); };
    // Zero test.
    {
        T a(v);
        const T b(v);
        static_assert(std::is_same_v<bool, decltype(obake::is_zero(a))>);
        static_assert(obake::is_zero_testable_v<T> && obake::is_zero_testable_v<T &> && obake::is_zero_testable_v<const T &> && obake::ZeroTestable<const T>);
        const bool e = zero(v);
        const bool ok = obake::is_zero(a) == e && obake::is_zero(b) == e && obake::is_zero(std::move(a)) == e && obake::is_zero(T(v)) == e;
        ctx.op(4);
        ctx.validated(2);
        if (!ok) ctx.fail(w() + ": wrong zero test");
        if (!same(b, v)) ctx.fail(w() + ": changed by the zero test");
    }
    // Negation.
    if constexpr (!std::is_same_v<T, bool>) {
        static_assert(obake::is_negatable_v<T> && obake::is_negatable_v<T &> && !obake::is_negatable_v<const T> && !obake::is_negatable_v<const T &>);
        static_assert(obake::Negatable<T &> && !obake::Negatable<const T &>);
        bool defined = true;
        T e(v);
        if constexpr (is_fp<T>) {
            e = std::copysign(v, std::signbit(v) ? T(1) : T(-1));
        } else if constexpr (mp<T> != 0) {
            auto s = v.to_string();
            if (s != "0") s = s[0] == '-' ? s.substr(1) : "-" + s;
            e = T(s);
        } else {
            if constexpr (is_sgn<T>) {
                // Overflow.
                if (v == int_min<T>() && sizeof(T) >= sizeof(int)) defined = false;
            }
            auto z = Z::of(v);
            z.neg = !z.neg && z.m != 0u;
            e = z.template to<T>();
        }
        if (defined) {
            T a(v);
            auto &&r = obake::negate(a);
            static_assert(std::is_same_v<decltype(r), T &>);
            ctx.op();
            ctx.validated(2);
            if (!same(a, e)) ctx.fail(w() + " negated is " + str(a));
            if (&r != &a) ctx.fail(w() + ": the negation does not return its operand");
            T b(v);
            auto &&q = obake::negate(std::move(b));
            static_assert(std::is_same_v<decltype(q), T &&>);
            ctx.op();
            ctx.validated(2);
            if (!same(b, e)) ctx.fail(w() + " negated as an rvalue is " + str(b));
            if (&q != &b) ctx.fail(w() + ": the negation of an rvalue does not return its operand");
            // Never a zero from a nonzero value, and back.
            ctx.validated(2);
            if (obake::is_zero(a) != zero(v)) ctx.fail(w() + ": the negation is zero");
            if constexpr (is_fp<T> || mp<T> != 0) {
                obake::negate(a);
                if (!same(a, v)) ctx.fail(w() + " negated twice is " + str(a));
            }
        }
    }
    // Derivative.
    {
        static_assert(obake::is_differentiable_v<T> && obake::is_differentiable_v<const T &>);
        for (const char *s : {"", "x"}) {
            T a(v);
            static_assert(std::is_same_v<T, decltype(obake::diff(a, s))>);
            static_assert(std::is_same_v<T, decltype(obake::diff(std::as_const(a), s))>);
            const bool ok = zero(obake::diff(a, s)) && zero(obake::diff(std::as_const(a), s)) && zero(obake::diff(std::move(a), s));
            ctx.op(3);
            ctx.validated();
            if (!ok) ctx.fail(w() + ": the derivative is not zero");
        }
    }
    // Evaluation, substitution, trimming: the value itself.
    {
        const obake::symbol_map<double> m{{"x", 1.5}};
        const obake::symbol_map<int> n{};
        const obake::symbol_map<mppp::integer<1>> k{{"x", mppp::integer<1>(5)}, {"y", mppp::integer<1>(0)}};
        T a(v), b(v);
        const T c(v);
        static_assert(std::is_same_v<T, decltype(obake::evaluate(a, m))> && std::is_same_v<T, decltype(obake::evaluate(c, n))>
                      && std::is_same_v<T, decltype(obake::evaluate(std::move(a), k))>);
        static_assert(std::is_same_v<T, decltype(obake::subs(a, m))> && std::is_same_v<T, decltype(obake::subs(c, n))>
                      && std::is_same_v<T, decltype(obake::subs(std::move(a), k))>);
        static_assert(std::is_same_v<T, decltype(obake::trim(a))> && std::is_same_v<T, decltype(obake::trim(c))> && std::is_same_v<T, decltype(obake::trim(std::move(a)))>);
        bool ok = same(obake::evaluate(a, m), v) && same(obake::evaluate(c, n), v) && same(obake::evaluate(a, k), v);
        ok = ok && same(a, v) && same(obake::evaluate(std::move(a), k), v);
        ctx.op(4);
        ctx.validated(3);
        if (!ok) ctx.fail(w() + ": changed by an evaluation");
        ok = same(obake::subs(b, m), v) && same(obake::subs(c, n), v) && same(obake::subs(b, k), v);
        ok = ok && same(b, v) && same(obake::subs(std::move(b), k), v);
        ctx.op(4);
        if (!ok) ctx.fail(w() + ": changed by a substitution");
        T d(v);
        ok = same(obake::trim(d), v) && same(obake::trim(c), v) && same(d, v) && same(obake::trim(std::move(d)), v);
        ctx.op(3);
        if (!ok) ctx.fail(w() + ": changed by trimming");
    }
    // Hash.
    if constexpr (obake::is_hashable_v<const T &>) {
        T a(v);
        const T c(v);
        static_assert(std::is_same_v<std::size_t, decltype(obake::hash(a))> && std::is_same_v<std::size_t, decltype(obake::hash(c))>);
        const auto e = std::hash<T>{}(c);
        const bool ok = obake::hash(a) == e && obake::hash(c) == e && obake::hash(T(v)) == e;
        ctx.op(3);
        ctx.validated();
        if (!ok) ctx.fail(w() + ": wrong hash");
    }
    // Size.
    {
        T a(v);
        static_assert(std::is_same_v<std::size_t, decltype(obake::byte_size(a))>);
        std::size_t e = sizeof(T), ec = 0;
        if constexpr (mp<T> == 1) {
            if (a.is_dynamic()) e += a.size() * sizeof(mp_limb_t);
        } else if constexpr (mp<T> == 2) {
            if (a.get_num().is_dynamic()) e += a.get_num().size() * sizeof(mp_limb_t);
            if (a.get_den().is_dynamic()) e += a.get_den().size() * sizeof(mp_limb_t);
        }
        (void)ec;
        const bool ok = obake::byte_size(a) == e && obake::byte_size(std::as_const(a)) == e && obake::byte_size(std::move(a)) == e;
        ctx.op(3);
        ctx.validated();
        if (!ok) ctx.fail(mc::cat(w(), ": the size is ", obake::byte_size(T(v)), " instead of ", e));
    }
    ctx.state(mc::hstr(w()));
}
template <typename T>
void b_unary(mc::Ctx &ctx)
{
    const auto &vs = vals<T>();
    // In chunks.
    const std::size_t n = vs.size() > 4096u ? 1024u : 1u;
    const auto c = ctx.choose(static_cast<unsigned>((vs.size() + n - 1u) / n), "values");
    for (std::size_t i = c * n; i < std::min(vs.size(), (c + 1u) * n); ++i) unary<T>(ctx, vs[i]);
}

// Fused multiply-add.
template <typename T>
constexpr bool fast_fma()
{
#if defined(FP_FAST_FMAF)
    if (std::is_same_v<T, float>) return true;
#endif
#if defined(FP_FAST_FMA)
    if (std::is_same_v<T, double>) return true;
#endif
#if defined(FP_FAST_FMAL)
    if (std::is_same_v<T, long double>) return true;
#endif
    return mp<T> == 1;
}
template <typename T>
void b_fma(mc::Ctx &ctx)
{
    if constexpr (fast_fma<T>()) {
        static_assert(obake::is_mult_addable_v<T &, const T &, const T &> && obake::is_mult_addable_v<T &, T, T &> && obake::MultAddable<T &, const T &, const T &>);
        static_assert(!obake::is_mult_addable_v<const T &, const T &, const T &>);
        const auto &vs = few<T>();
        const auto &x = ctx.pick(vs, "x"), &y = ctx.pick(vs, "y");
        const auto ref = [](const T &a, const T &b, const T &c) {
            if constexpr (is_fp<T>) return std::fma(b, c, a);
            else return T(a + T(b * c));
        };
        const auto chk = [&](const char *f, const T &got, const T &e, const T &r) {
            ctx.op();
            ctx.validated();
            if (!same(got, e)) ctx.fail(nm<T>() + ": fma3(" + str(r) + ", " + str(x) + ", " + str(y) + ") " + f + " is " + str(got) + " instead of " + str(e));
        };
        for (const auto &r : vs) {
            T a(r), xx(x), yy(y);
            obake::fma3(a, xx, yy);
            static_assert(std::is_void_v<decltype(obake::fma3(a, xx, yy))>);
            chk("", a, ref(r, x, y), r);
            ctx.validated();
            if (!same(xx, x) || !same(yy, y)) ctx.fail(nm<T>() + ": fma3() changed its operands");
            T b(r);
            obake::fma3(b, std::move(xx), std::as_const(yy));
            chk("of an rvalue", b, ref(r, x, y), r);
        }
        {
            T a(x);
            obake::fma3(a, a, T(y));
            chk("(first and second operand identical)", a, ref(x, x, y), x);
            T b(x);
            obake::fma3(b, T(y), b);
            chk("(first and third operand identical)", b, ref(x, y, x), x);
            T c(y), d(x);
            obake::fma3(c, d, d);
            chk("(second and third operand identical)", c, ref(y, x, x), y);
            T e(x);
            obake::fma3(e, e, e);
            chk("(all the operands identical)", e, ref(x, x, x), x);
        }
    } else {
        static_assert(!obake::is_mult_addable_v<T &, const T &, const T &>);
        if (ctx.choose(1, "unavailable")) {
        }
        ctx.op();
    }
}

// Powers with a floating-point operand.
template <typename T, typename U>
void pow_one(mc::Ctx &ctx, const T &x, const U &y)
{
    using R = std::conditional_t<is_fp<T> && is_fp<U>, decltype(std::pow(T(), U())), std::conditional_t<is_fp<T>, T, U>>;
    static_assert(obake::is_exponentiable_v<T, U> && obake::is_exponentiable_v<const T &, U &> && obake::Exponentiable<T, const U &>);
    T a(x);
    const U b(y);
    static_assert(std::is_same_v<R, decltype(obake::pow(a, b))>);
    R e;
    if constexpr (!is_fp<T>) e = std::pow(static_cast<U>(x), y);
    else if constexpr (!is_fp<U>) e = std::pow(x, static_cast<T>(y));
    else e = std::pow(x, y);
    const bool ok = same<R>(obake::pow(a, b), e) && same<R>(obake::pow(T(x), U(y)), e);
    ctx.op(2);
    ctx.validated();
    if (!ok) ctx.fail(nm<T>() + " " + str(x) + " to the power " + nm<U>() + " " + str(y) + " is " + str(obake::pow(a, b)) + " instead of " + str(e));
    // An independent check: small powers of small integers are exact.
    if constexpr (!is_fp<U>) {
        if (x >= T(-3) && x <= T(3) && std::trunc(x) == x && y >= U(0) && static_cast<u128>(y) < 15u) {
            R p = 1;
            for (unsigned i = 0; i < static_cast<unsigned>(y); ++i) p *= x;
            ctx.validated();
            if (obake::pow(a, b) != p) ctx.fail(nm<T>() + " " + str(x) + " to the power " + str(y) + " is not exact");
        }
    }
}
template <typename F, typename... Us>
void pow_fp(mc::Ctx &ctx, const F &x, list<Us...>)
{
    unsigned k = ctx.choose(sizeof...(Us), "type"), i = 0;
    const auto one = [&](auto t) {
        using U = decltype(t);
        if (i++ != k) return;
        for (const auto &y : few<U>()) {
            pow_one<F, U>(ctx, x, y);
            if constexpr (!is_fp<U>) pow_one<U, F>(ctx, y, x);
        }
    };
    (one(Us()), ...);
}
template <typename F>
void b_pow(mc::Ctx &ctx)
{
    pow_fp<F>(ctx, ctx.pick(few<F>(), "x"), list<char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, i128, u128, float, double, long double>{});
}
// Powers of multi-precision numbers.
template <typename T>
void b_powmp(mc::Ctx &ctx)
{
    const auto &x = ctx.pick(vals<T>(), "x");
    const int n = static_cast<int>(ctx.choose(8, "n"));
    T e(1);
    for (int i = 0; i < n; ++i) e *= x;
    static_assert(std::is_same_v<T, decltype(obake::pow(x, n))>);
    bool ok = obake::pow(x, n) == e && obake::pow(T(x), static_cast<unsigned long long>(n)) == e && obake::pow(x, static_cast<short>(n)) == e;
    using I = typename mpt<T>::int_t;
    static_assert(std::is_same_v<T, decltype(obake::pow(x, I()))>);
    ok = ok && obake::pow(x, I(n)) == e;
    ctx.op(4);
    ctx.validated();
    if (!ok) ctx.fail(nm<T>() + " " + str(x) + mc::cat(" to the power ", n, " is wrong"));
    ctx.state(mc::hstr(str(e)));
}
// Equal values have equal hashes and sizes that reflect the storage.
template <typename T>
void b_hash(mc::Ctx &ctx)
{
    const auto &vs = few<T>();
    const auto &x = ctx.pick(vs, "x"), &y = ctx.pick(vs, "y");
    ctx.op(2);
    if (x == y) {
        ctx.validated();
        if (obake::hash(x) != obake::hash(y)) ctx.fail(nm<T>() + " " + str(x) + ": two hashes");
    }
}

template <typename T>
void add(std::vector<mc::Scenario> &r)
{
    r.push_back({"unary/" + nm<T>(), b_unary<T>, 1, 0, false});
    r.push_back({"fma/" + nm<T>(), b_fma<T>, 1, 0, false});
    if constexpr (obake::is_hashable_v<T>) r.push_back({"hash/" + nm<T>(), b_hash<T>, 1, 0, false});
    if constexpr (is_fp<T>) r.push_back({"pow/" + nm<T>(), b_pow<T>, 2, 0, false});
    if constexpr (mp<T> != 0) r.push_back({"pow/" + nm<T>(), b_powmp<T>, 2, 0, false});
}
template <typename... Ts>
std::vector<mc::Scenario> all(list<Ts...>)
{
    std::vector<mc::Scenario> r;
    (add<Ts>(r), ...);
    for (auto &s : r) s.name += "/" PARTNAME;
    return r;
}
mc::Reg reg(all(list<char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char16_t, char32_t, i128, u128, float, double,
                     long double, mppp::integer<1>, mppp::integer<2>, mppp::rational<1>, mppp::rational<2>>{}));
} // namespace
