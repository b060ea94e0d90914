// Stand-in for mp++'s <mp++/integer.hpp>, on top of GMP. See ../README.md.
#ifndef VERIF_MPPP_INTEGER_HPP
#define VERIF_MPPP_INTEGER_HPP

#include <gmp.h>

#include <fmt/core.h>
#include <fmt/format.h>

#include <climits>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <ios>
#include <iostream>
#include <istream>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>

#include <mp++/config.hpp>
#include <mp++/exceptions.hpp>

namespace mppp
{

namespace detail
{
template <typename T>
inline constexpr bool is_cpp_int_v
    = std::is_integral_v<T> || std::is_same_v<std::remove_cv_t<T>, __int128_t> || std::is_same_v<std::remove_cv_t<T>, __uint128_t>;
template <typename T>
inline constexpr bool is_cpp_fp_v = std::is_floating_point_v<T>;
template <typename T>
concept cpp_int = is_cpp_int_v<T> && !std::is_const_v<T> && !std::is_volatile_v<T>;
template <typename T>
concept cpp_fp = is_cpp_fp_v<T> && !std::is_const_v<T> && !std::is_volatile_v<T>;
template <typename T>
concept cpp_arith = cpp_int<T> || cpp_fp<T>;
template <typename T>
constexpr bool cpp_signed()
{
    if constexpr (std::is_same_v<T, __int128_t>) {
        return true;
    } else if constexpr (std::is_same_v<T, __uint128_t>) {
        return false;
    } else {
        return std::is_signed_v<T>;
    }
}
} // namespace detail

template <std::size_t SSize>
class rational;

// Arbitrary-precision integer: int64 inline value, GMP beyond that.
template <std::size_t SSize>
class integer
{
    static_assert(SSize > 0u);
    template <std::size_t>
    friend class integer;

    std::int64_t m_s = 0;
    mpz_ptr m_z = nullptr;

    static mpz_ptr mk()
    {
        auto p = new __mpz_struct;
        mpz_init(p);
        return p;
    }
    void drop()
    {
        if (m_z) {
            mpz_clear(m_z);
            delete m_z;
            m_z = nullptr;
        }
    }
    // Read-only mpz view.
    struct view {
        mpz_t tmp;
        mpz_srcptr p;
        bool own = false;
        explicit view(const integer &n)
        {
            if (n.m_z) {
                p = n.m_z;
            } else {
                mpz_init_set_si(tmp, n.m_s);
                p = tmp;
                own = true;
            }
        }
        ~view()
        {
            if (own) mpz_clear(tmp);
        }
        view(const view &) = delete;
        view &operator=(const view &) = delete;
    };
    // Normalise: use the inline value whenever possible.
    void norm()
    {
        if (m_z && mpz_fits_slong_p(m_z)) {
            m_s = mpz_get_si(m_z);
            drop();
        }
    }
    static integer from_mpz(mpz_ptr z)
    {
        integer r;
        if (mpz_fits_slong_p(z)) {
            r.m_s = mpz_get_si(z);
        } else {
            r.m_z = mk();
            mpz_swap(r.m_z, z);
        }
        return r;
    }
    template <typename F>
    static integer binop(const integer &a, const integer &b, F f)
    {
        view va(a), vb(b);
        mpz_t r;
        mpz_init(r);
        f(r, va.p, vb.p);
        auto ret = from_mpz(r);
        mpz_clear(r);
        return ret;
    }
    template <typename T>
    void set_int(T x)
    {
        if constexpr (sizeof(T) < 8u || (sizeof(T) == 8u && detail::cpp_signed<T>())) {
            m_s = static_cast<std::int64_t>(x);
        } else {
            const bool neg = detail::cpp_signed<T>() && x < T(0);
            __uint128_t u = static_cast<__uint128_t>(x);
            if (neg) u = -u;
            mpz_t r;
            mpz_init_set_ui(r, static_cast<unsigned long>(static_cast<std::uint64_t>(u >> 64)));
            mpz_mul_2exp(r, r, 64);
            mpz_add_ui(r, r, static_cast<unsigned long>(static_cast<std::uint64_t>(u)));
            if (neg) mpz_neg(r, r);
            *this = from_mpz(r);
            mpz_clear(r);
        }
    }

public:
    static constexpr std::size_t ssize = SSize;

    integer() = default;
    integer(const integer &o) : m_s(o.m_s)
    {
        if (o.m_z) {
            m_z = mk();
            mpz_set(m_z, o.m_z);
        }
    }
    integer(integer &&o) noexcept : m_s(o.m_s), m_z(o.m_z)
    {
        o.m_s = 0;
        o.m_z = nullptr;
    }
    template <detail::cpp_int T>
    integer(const T &x)
    {
        set_int(x);
    }
    template <detail::cpp_fp T>
    explicit integer(const T &x)
    {
        if (!std::isfinite(x)) {
            throw std::domain_error("Cannot construct an integer from a non-finite value");
        }
        mpz_t r;
        mpz_init_set_d(r, static_cast<double>(x));
        *this = from_mpz(r);
        mpz_clear(r);
    }
    explicit integer(const char *s, int base = 10)
    {
        mpz_t r;
        mpz_init(r);
        if (mpz_set_str(r, s, base) != 0) {
            mpz_clear(r);
            throw std::invalid_argument(std::string("The string '") + s + "' is not a valid integer");
        }
        *this = from_mpz(r);
        mpz_clear(r);
    }
    explicit integer(const std::string &s, int base = 10) : integer(s.c_str(), base) {}
    // Conversion from rational: truncation.
    template <std::size_t S2>
    explicit integer(const rational<S2> &q);

    ~integer()
    {
        drop();
    }
    integer &operator=(const integer &o)
    {
        if (this != &o) {
            if (o.m_z) {
                if (!m_z) m_z = mk();
                mpz_set(m_z, o.m_z);
            } else {
                drop();
                m_s = o.m_s;
            }
        }
        return *this;
    }
    integer &operator=(integer &&o) noexcept
    {
        if (this != &o) {
            drop();
            m_s = o.m_s;
            m_z = o.m_z;
            o.m_s = 0;
            o.m_z = nullptr;
        }
        return *this;
    }
    template <detail::cpp_arith T>
    integer &operator=(const T &x)
    {
        return *this = integer(x);
    }

    std::string to_string(int base = 10) const
    {
        view v(*this);
        std::string s(mpz_sizeinbase(v.p, base) + 2u, '\0');
        mpz_get_str(s.data(), base, v.p);
        s.resize(std::char_traits<char>::length(s.c_str()));
        return s;
    }
    int sgn() const
    {
        return m_z ? mpz_sgn(m_z) : (m_s > 0) - (m_s < 0);
    }
    bool is_zero() const
    {
        return sgn() == 0;
    }
    bool is_one() const
    {
        return !m_z && m_s == 1;
    }
    bool is_negative_one() const
    {
        return !m_z && m_s == -1;
    }
    bool odd_p() const
    {
        view v(*this);
        return mpz_odd_p(v.p);
    }
    bool even_p() const
    {
        return !odd_p();
    }
    // Number of limbs.
    std::size_t size() const
    {
        if (m_z) return mpz_size(m_z);
        return m_s != 0;
    }
    bool is_static() const
    {
        return !(m_z && m_s == 1) && size() <= SSize;
    }
    // Flag the object as dynamically stored (this is visible only through is_static()).
    bool promote()
    {
        if (!is_static()) return false;
        if (!m_z) {
            m_z = mk();
            mpz_set_si(m_z, m_s);
        }
        m_s = 1;
        return true;
    }
    bool is_dynamic() const
    {
        return !is_static();
    }
    std::size_t nbits() const
    {
        if (is_zero()) return 0;
        view v(*this);
        return mpz_sizeinbase(v.p, 2);
    }
    integer &neg()
    {
        if (m_z) {
            mpz_neg(m_z, m_z);
            norm();
        } else if (m_s == INT64_MIN) {
            m_z = mk();
            mpz_set_si(m_z, m_s);
            mpz_neg(m_z, m_z);
        } else {
            m_s = -m_s;
        }
        return *this;
    }
    integer &abs()
    {
        return sgn() < 0 ? neg() : *this;
    }

    // Conversion to C++ types.
    template <detail::cpp_int T>
    bool get(T &out) const
    {
        if constexpr (std::is_same_v<T, bool>) {
            out = !is_zero();
            return true;
        } else if (!m_z) {
            if constexpr (!detail::cpp_signed<T>()) {
                if (m_s < 0) return false;
            }
            const T cand = static_cast<T>(m_s);
            if constexpr (sizeof(T) < 8u) {
                if (static_cast<std::int64_t>(cand) != m_s) return false;
            }
            out = cand;
            return true;
        } else {
            if (mpz_sizeinbase(m_z, 2) > 128u) return false;
            const bool ng = mpz_sgn(m_z) < 0;
            __uint128_t u = mpz_getlimbn(m_z, 0);
            if (mpz_size(m_z) > 1u) u |= static_cast<__uint128_t>(mpz_getlimbn(m_z, 1)) << 64;
            if constexpr (detail::cpp_signed<T>()) {
                const __uint128_t mx = (static_cast<__uint128_t>(1) << (sizeof(T) * 8u - 1u)) - 1u;
                if (u > mx + static_cast<__uint128_t>(ng)) return false;
                out = static_cast<T>(ng ? static_cast<__uint128_t>(-u) : u);
                return true;
            } else {
                if (ng) return false;
                if constexpr (sizeof(T) < 16u) {
                    if (u >> (sizeof(T) * 8u)) return false;
                }
                out = static_cast<T>(u);
                return true;
            }
        }
    }
    template <detail::cpp_int T>
    explicit operator T() const
    {
        T r{};
        if (!get(r)) {
            throw std::overflow_error("Conversion of the integer " + to_string() + " to a C++ integral overflows");
        }
        return r;
    }
    template <detail::cpp_fp T>
    explicit operator T() const
    {
        if (!m_z) return static_cast<T>(m_s);
        return static_cast<T>(mpz_get_d(m_z));
    }

    // Arithmetic.
    friend integer operator+(const integer &a, const integer &b)
    {
        std::int64_t r;
        if (!a.m_z && !b.m_z && !__builtin_add_overflow(a.m_s, b.m_s, &r)) {
            integer ret;
            ret.m_s = r;
            return ret;
        }
        return binop(a, b, [](auto... x) { mpz_add(x...); });
    }
    friend integer operator-(const integer &a, const integer &b)
    {
        std::int64_t r;
        if (!a.m_z && !b.m_z && !__builtin_sub_overflow(a.m_s, b.m_s, &r)) {
            integer ret;
            ret.m_s = r;
            return ret;
        }
        return binop(a, b, [](auto... x) { mpz_sub(x...); });
    }
    friend integer operator*(const integer &a, const integer &b)
    {
        std::int64_t r;
        if (!a.m_z && !b.m_z && !__builtin_mul_overflow(a.m_s, b.m_s, &r)) {
            integer ret;
            ret.m_s = r;
            return ret;
        }
        return binop(a, b, [](auto... x) { mpz_mul(x...); });
    }
    friend integer operator/(const integer &a, const integer &b)
    {
        if (b.is_zero()) throw zero_division_error("Integer division by zero");
        return binop(a, b, [](auto... x) { mpz_tdiv_q(x...); });
    }
    friend integer operator%(const integer &a, const integer &b)
    {
        if (b.is_zero()) throw zero_division_error("Integer division by zero");
        return binop(a, b, [](auto... x) { mpz_tdiv_r(x...); });
    }
    friend integer gcd(const integer &a, const integer &b)
    {
        return binop(a, b, [](auto... x) { mpz_gcd(x...); });
    }
    integer operator+() const
    {
        return *this;
    }
    integer operator-() const
    {
        integer r(*this);
        r.neg();
        return r;
    }
    static int cmp(const integer &a, const integer &b)
    {
        if (!a.m_z && !b.m_z) return (a.m_s > b.m_s) - (a.m_s < b.m_s);
        view va(a), vb(b);
        const int c = mpz_cmp(va.p, vb.p);
        return (c > 0) - (c < 0);
    }
    integer &operator+=(const integer &o)
    {
        return *this = *this + o;
    }
    integer &operator-=(const integer &o)
    {
        return *this = *this - o;
    }
    integer &operator*=(const integer &o)
    {
        return *this = *this * o;
    }
    integer &operator/=(const integer &o)
    {
        return *this = *this / o;
    }
    integer &operator%=(const integer &o)
    {
        return *this = *this % o;
    }
#define VERIF_MPPP_INPLACE(op, bop)                                                                                    \
    template <detail::cpp_int T>                                                                                       \
    integer &operator op(const T &x)                                                                                   \
    {                                                                                                                  \
        return *this = *this bop integer(x);                                                                           \
    }                                                                                                                  \
    template <detail::cpp_fp T>                                                                                        \
    integer &operator op(const T &x)                                                                                   \
    {                                                                                                                  \
        return *this = integer(static_cast<T>(*this) bop x);                                                           \
    }
    VERIF_MPPP_INPLACE(+=, +)
    VERIF_MPPP_INPLACE(-=, -)
    VERIF_MPPP_INPLACE(*=, *)
    VERIF_MPPP_INPLACE(/=, /)
#undef VERIF_MPPP_INPLACE
    integer &operator++()
    {
        return *this += integer(1);
    }
    integer operator++(int)
    {
        auto r(*this);
        ++*this;
        return r;
    }
    integer &operator--()
    {
        return *this -= integer(1);
    }
    integer operator--(int)
    {
        auto r(*this);
        --*this;
        return r;
    }
    template <detail::cpp_int T>
    friend integer operator<<(const integer &a, const T &s)
    {
        view v(a);
        mpz_t r;
        mpz_init(r);
        mpz_mul_2exp(r, v.p, static_cast<mp_bitcnt_t>(s));
        auto ret = from_mpz(r);
        mpz_clear(r);
        return ret;
    }
    template <detail::cpp_int T>
    friend integer operator>>(const integer &a, const T &s)
    {
        view v(a);
        mpz_t r;
        mpz_init(r);
        mpz_tdiv_q_2exp(r, v.p, static_cast<mp_bitcnt_t>(s));
        auto ret = from_mpz(r);
        mpz_clear(r);
        return ret;
    }
    template <detail::cpp_int T>
    integer &operator<<=(const T &s)
    {
        return *this = *this << s;
    }
    template <detail::cpp_int T>
    integer &operator>>=(const T &s)
    {
        return *this = *this >> s;
    }
    static integer pow_ui(const integer &b, unsigned long e)
    {
        view v(b);
        mpz_t r;
        mpz_init(r);
        mpz_pow_ui(r, v.p, e);
        auto ret = from_mpz(r);
        mpz_clear(r);
        return ret;
    }
    template <typename Archive>
    void save(Archive &ar, unsigned) const
    {
        std::string s = to_string();
        ar << s;
    }
    template <typename Archive>
    void load(Archive &ar, unsigned)
    {
        std::string s;
        ar >> s;
        *this = integer(s);
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned v)
    {
        if constexpr (Archive::is_saving::value) {
            save(ar, v);
        } else {
            load(ar, v);
        }
    }
    friend std::ostream &operator<<(std::ostream &os, const integer &n)
    {
        const auto f = os.flags() & std::ios_base::basefield;
        std::string s;
        if (f == std::ios_base::hex) {
            s = n.to_string(16);
        } else if (f == std::ios_base::oct) {
            s = n.to_string(8);
        } else {
            s = n.to_string();
        }
        if ((os.flags() & std::ios_base::showpos) && n.sgn() >= 0) s = "+" + s;
        return os << s;
    }
    friend std::istream &operator>>(std::istream &is, integer &n)
    {
        std::string s;
        is >> s;
        n = integer(s);
        return is;
    }
};

#define VERIF_MPPP_MIXED(op)                                                                                           \
    template <std::size_t S, detail::cpp_int T>                                                                        \
    inline integer<S> operator op(const integer<S> &a, const T &b)                                                     \
    {                                                                                                                  \
        return a op integer<S>(b);                                                                                     \
    }                                                                                                                  \
    template <std::size_t S, detail::cpp_int T>                                                                        \
    inline integer<S> operator op(const T &a, const integer<S> &b)                                                     \
    {                                                                                                                  \
        return integer<S>(a) op b;                                                                                     \
    }                                                                                                                  \
    template <std::size_t S, detail::cpp_fp T>                                                                         \
    inline T operator op(const integer<S> &a, const T &b)                                                              \
    {                                                                                                                  \
        return static_cast<T>(a) op b;                                                                                 \
    }                                                                                                                  \
    template <std::size_t S, detail::cpp_fp T>                                                                         \
    inline T operator op(const T &a, const integer<S> &b)                                                              \
    {                                                                                                                  \
        return a op static_cast<T>(b);                                                                                 \
    }
VERIF_MPPP_MIXED(+)
VERIF_MPPP_MIXED(-)
VERIF_MPPP_MIXED(*)
VERIF_MPPP_MIXED(/)
#undef VERIF_MPPP_MIXED
template <std::size_t S, detail::cpp_int T>
inline integer<S> operator%(const integer<S> &a, const T &b)
{
    return a % integer<S>(b);
}
template <std::size_t S, detail::cpp_int T>
inline integer<S> operator%(const T &a, const integer<S> &b)
{
    return integer<S>(a) % b;
}
// C++ lvalue in-place with an integer on the right.
#define VERIF_MPPP_CPP_INPLACE(op, bop)                                                                                \
    template <std::size_t S, detail::cpp_arith T>                                                                      \
    inline T &operator op(T &a, const integer<S> &b)                                                                   \
    {                                                                                                                  \
        return a = static_cast<T>(a bop b);                                                                            \
    }
VERIF_MPPP_CPP_INPLACE(+=, +)
VERIF_MPPP_CPP_INPLACE(-=, -)
VERIF_MPPP_CPP_INPLACE(*=, *)
VERIF_MPPP_CPP_INPLACE(/=, /)
#undef VERIF_MPPP_CPP_INPLACE

#define VERIF_MPPP_CMP(op)                                                                                             \
    template <std::size_t S>                                                                                           \
    inline bool operator op(const integer<S> &a, const integer<S> &b)                                                  \
    {                                                                                                                  \
        return integer<S>::cmp(a, b) op 0;                                                                             \
    }                                                                                                                  \
    template <std::size_t S, detail::cpp_int T>                                                                        \
    inline bool operator op(const integer<S> &a, const T &b)                                                           \
    {                                                                                                                  \
        return integer<S>::cmp(a, integer<S>(b)) op 0;                                                                 \
    }                                                                                                                  \
    template <std::size_t S, detail::cpp_int T>                                                                        \
    inline bool operator op(const T &a, const integer<S> &b)                                                           \
    {                                                                                                                  \
        return integer<S>::cmp(integer<S>(a), b) op 0;                                                                 \
    }                                                                                                                  \
    template <std::size_t S, detail::cpp_fp T>                                                                         \
    inline bool operator op(const integer<S> &a, const T &b)                                                           \
    {                                                                                                                  \
        return static_cast<T>(a) op b;                                                                                 \
    }                                                                                                                  \
    template <std::size_t S, detail::cpp_fp T>                                                                         \
    inline bool operator op(const T &a, const integer<S> &b)                                                           \
    {                                                                                                                  \
        return a op static_cast<T>(b);                                                                                 \
    }
VERIF_MPPP_CMP(==)
VERIF_MPPP_CMP(!=)
VERIF_MPPP_CMP(<)
VERIF_MPPP_CMP(>)
VERIF_MPPP_CMP(<=)
VERIF_MPPP_CMP(>=)
#undef VERIF_MPPP_CMP

template <std::size_t S>
inline bool is_zero(const integer<S> &n)
{
    return n.is_zero();
}
template <std::size_t S>
inline bool is_one(const integer<S> &n)
{
    return n.is_one();
}
template <std::size_t S>
inline int sgn(const integer<S> &n)
{
    return n.sgn();
}
template <std::size_t S>
inline integer<S> abs(const integer<S> &n)
{
    auto r(n);
    r.abs();
    return r;
}
template <std::size_t S>
inline integer<S> &addmul(integer<S> &rop, const integer<S> &a, const integer<S> &b)
{
    return rop = rop + a * b;
}
template <std::size_t S>
inline integer<S> &mul(integer<S> &rop, const integer<S> &a, const integer<S> &b)
{
    return rop = a * b;
}
template <std::size_t S>
inline integer<S> &add(integer<S> &rop, const integer<S> &a, const integer<S> &b)
{
    return rop = a + b;
}
template <detail::cpp_int T, std::size_t S>
inline bool get(T &out, const integer<S> &n)
{
    return n.get(out);
}
template <detail::cpp_fp T, std::size_t S>
inline bool get(T &out, const integer<S> &n)
{
    out = static_cast<T>(n);
    return true;
}
template <std::size_t S>
inline integer<S> pow(const integer<S> &b, const integer<S> &e)
{
    if (e.sgn() >= 0) {
        unsigned long ue = 0;
        if (!e.get(ue)) {
            if (b.is_zero() || b.is_one()) return b;
            if (b.is_negative_one()) return e.odd_p() ? b : integer<S>(1);
            throw std::overflow_error("Exponent too large in integer exponentiation");
        }
        return integer<S>::pow_ui(b, ue);
    }
    if (b.is_zero()) throw zero_division_error("Cannot exponentiate zero to a negative power");
    if (b.is_one()) return b;
    if (b.is_negative_one()) return e.odd_p() ? b : integer<S>(1);
    return integer<S>{};
}
template <std::size_t S, detail::cpp_int T>
inline integer<S> pow(const integer<S> &b, const T &e)
{
    return pow(b, integer<S>(e));
}
template <std::size_t S, detail::cpp_int T>
inline integer<S> pow(const T &b, const integer<S> &e)
{
    return pow(integer<S>(b), e);
}
template <std::size_t S, detail::cpp_fp T>
requires(!std::is_same_v<T, long double>) // NOTE: no MPFR.
inline T pow(const integer<S> &b, const T &e)
{
    return std::pow(static_cast<T>(b), e);
}
template <std::size_t S, detail::cpp_fp T>
requires(!std::is_same_v<T, long double>) // NOTE: no MPFR.
inline T pow(const T &b, const integer<S> &e)
{
    return std::pow(b, static_cast<T>(e));
}
template <std::size_t S>
inline std::size_t hash(const integer<S> &n)
{
    std::int64_t v;
    if (n.get(v)) return static_cast<std::size_t>(v);
    return std::hash<std::string>{}(n.to_string());
}
template <std::size_t S>
inline void swap(integer<S> &a, integer<S> &b) noexcept
{
    auto t(std::move(a));
    a = std::move(b);
    b = std::move(t);
}

namespace literals
{
inline integer<1> operator""_z1(const char *s)
{
    return integer<1>(s);
}
inline integer<2> operator""_z2(const char *s)
{
    return integer<2>(s);
}
} // namespace literals

} // namespace mppp

namespace std
{
template <size_t S>
struct hash<::mppp::integer<S>> {
    size_t operator()(const ::mppp::integer<S> &n) const
    {
        return ::mppp::hash(n);
    }
};
} // namespace std

namespace fmt
{
template <std::size_t S>
struct formatter<::mppp::integer<S>> : formatter<std::string> {
    template <typename Ctx>
    auto format(const ::mppp::integer<S> &x, Ctx &ctx) const
    {
        return formatter<std::string>::format(x.to_string(), ctx);
    }
};
} // namespace fmt

#endif
