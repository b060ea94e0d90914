// Stand-in for mp++'s <mp++/rational.hpp>. See ../README.md.
#ifndef VERIF_MPPP_RATIONAL_HPP
#define VERIF_MPPP_RATIONAL_HPP

#include <mp++/integer.hpp>

namespace mppp
{

template <std::size_t SSize>
class rational
{
public:
    using int_t = integer<SSize>;

private:
    int_t m_num, m_den{1};

public:
    void canonicalise()
    {
        if (m_den.is_zero()) throw zero_division_error("Zero denominator in a rational");
        if (m_den.sgn() < 0) {
            m_num.neg();
            m_den.neg();
        }
        const auto g = gcd(m_num, m_den);
        if (!g.is_one()) {
            m_num = m_num / g;
            m_den = m_den / g;
        }
    }
    rational() = default;
    rational(const rational &) = default;
    rational(rational &&o) noexcept : m_num(std::move(o.m_num)), m_den(std::move(o.m_den))
    {
        o.m_den = int_t(1);
    }
    rational &operator=(const rational &) = default;
    rational &operator=(rational &&o) noexcept
    {
        if (this != &o) {
            m_num = std::move(o.m_num);
            m_den = std::move(o.m_den);
            o.m_den = int_t(1);
        }
        return *this;
    }
    template <detail::cpp_int T>
    rational(const T &n) : m_num(n)
    {
    }
    rational(const int_t &n) : m_num(n) {}
    rational(int_t &&n) : m_num(std::move(n)) {}
    template <detail::cpp_fp T>
    explicit rational(const T &x)
    {
        if (!std::isfinite(x)) throw std::domain_error("Cannot construct a rational from a non-finite value");
        int e;
        double m = std::frexp(static_cast<double>(x), &e);
        m = std::ldexp(m, 53);
        e -= 53;
        m_num = int_t(m);
        if (e >= 0) {
            m_num = m_num << static_cast<unsigned>(e);
        } else {
            m_den = int_t(1) << static_cast<unsigned>(-e);
        }
        canonicalise();
    }
    template <typename T, typename U>
        requires(detail::cpp_int<T> || std::is_same_v<T, int_t>) && (detail::cpp_int<U> || std::is_same_v<U, int_t>)
    rational(const T &n, const U &d) : m_num(n), m_den(d)
    {
        canonicalise();
    }
    explicit rational(const std::string &s)
    {
        const auto p = s.find('/');
        m_num = int_t(s.substr(0, p));
        if (p != std::string::npos) m_den = int_t(s.substr(p + 1u));
        canonicalise();
    }
    explicit rational(const char *s) : rational(std::string(s)) {}
    template <detail::cpp_arith T>
    rational &operator=(const T &x)
    {
        return *this = rational(x);
    }
    rational &operator=(const int_t &n)
    {
        m_num = n;
        m_den = int_t(1);
        return *this;
    }

    int_t &_get_den()
    {
        return m_den;
    }
    int_t &_get_num()
    {
        return m_num;
    }
    const int_t &get_num() const
    {
        return m_num;
    }
    const int_t &get_den() const
    {
        return m_den;
    }
    int sgn() const
    {
        return m_num.sgn();
    }
    bool is_zero() const
    {
        return m_num.is_zero();
    }
    bool is_one() const
    {
        return m_num.is_one() && m_den.is_one();
    }
    rational &neg()
    {
        m_num.neg();
        return *this;
    }
    rational &inv()
    {
        if (is_zero()) throw zero_division_error("Cannot invert a zero rational");
        std::swap(m_num, m_den);
        canonicalise();
        return *this;
    }
    std::string to_string() const
    {
        return m_den.is_one() ? m_num.to_string() : m_num.to_string() + "/" + m_den.to_string();
    }
    template <detail::cpp_int T>
    explicit operator T() const
    {
        return static_cast<T>(m_num / m_den);
    }
    template <detail::cpp_fp T>
    explicit operator T() const
    {
        return static_cast<T>(m_num) / static_cast<T>(m_den);
    }
    explicit operator int_t() const
    {
        return m_num / m_den;
    }
    template <detail::cpp_int T>
    bool get(T &out) const
    {
        return (m_num / m_den).get(out);
    }

    rational operator+() const
    {
        return *this;
    }
    rational operator-() const
    {
        auto r(*this);
        r.neg();
        return r;
    }
    friend rational operator+(const rational &a, const rational &b)
    {
        rational r;
        r.m_num = a.m_num * b.m_den + b.m_num * a.m_den;
        r.m_den = a.m_den * b.m_den;
        r.canonicalise();
        return r;
    }
    friend rational operator-(const rational &a, const rational &b)
    {
        return a + (-b);
    }
    friend rational operator*(const rational &a, const rational &b)
    {
        rational r;
        r.m_num = a.m_num * b.m_num;
        r.m_den = a.m_den * b.m_den;
        r.canonicalise();
        return r;
    }
    friend rational operator/(const rational &a, const rational &b)
    {
        if (b.is_zero()) throw zero_division_error("Rational division by zero");
        rational r;
        r.m_num = a.m_num * b.m_den;
        r.m_den = a.m_den * b.m_num;
        r.canonicalise();
        return r;
    }
#define VERIF_MPPP_R_INPLACE(op, bop)                                                                                  \
    rational &operator op(const rational &o)                                                                           \
    {                                                                                                                  \
        return *this = *this bop o;                                                                                    \
    }                                                                                                                  \
    template <typename T>                                                                                              \
        requires detail::cpp_int<T> || std::is_same_v<T, int_t>                                                        \
    rational &operator op(const T &x)                                                                                  \
    {                                                                                                                  \
        return *this = *this bop rational(x);                                                                          \
    }                                                                                                                  \
    template <detail::cpp_fp T>                                                                                        \
    rational &operator op(const T &x)                                                                                  \
    {                                                                                                                  \
        return *this = rational(static_cast<T>(*this) bop x);                                                          \
    }
    VERIF_MPPP_R_INPLACE(+=, +)
    VERIF_MPPP_R_INPLACE(-=, -)
    VERIF_MPPP_R_INPLACE(*=, *)
    VERIF_MPPP_R_INPLACE(/=, /)
#undef VERIF_MPPP_R_INPLACE
    static int cmp(const rational &a, const rational &b)
    {
        return int_t::cmp(a.m_num * b.m_den, b.m_num * a.m_den);
    }
    friend std::ostream &operator<<(std::ostream &os, const rational &q)
    {
        return os << q.to_string();
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        if constexpr (Archive::is_saving::value) {
            std::string s = to_string();
            ar << s;
        } else {
            std::string s;
            ar >> s;
            *this = rational(s);
        }
    }
};

#define VERIF_MPPP_R_MIXED(op)                                                                                         \
    template <std::size_t S, typename T>                                                                               \
        requires detail::cpp_int<T> || std::is_same_v<T, integer<S>>                                                   \
    inline rational<S> operator op(const rational<S> &a, const T &b)                                                   \
    {                                                                                                                  \
        return a op rational<S>(b);                                                                                    \
    }                                                                                                                  \
    template <std::size_t S, typename T>                                                                               \
        requires detail::cpp_int<T> || std::is_same_v<T, integer<S>>                                                   \
    inline rational<S> operator op(const T &a, const rational<S> &b)                                                   \
    {                                                                                                                  \
        return rational<S>(a) op b;                                                                                    \
    }                                                                                                                  \
    template <std::size_t S, detail::cpp_fp T>                                                                         \
    inline T operator op(const rational<S> &a, const T &b)                                                             \
    {                                                                                                                  \
        return static_cast<T>(a) op b;                                                                                 \
    }                                                                                                                  \
    template <std::size_t S, detail::cpp_fp T>                                                                         \
    inline T operator op(const T &a, const rational<S> &b)                                                             \
    {                                                                                                                  \
        return a op static_cast<T>(b);                                                                                 \
    }
VERIF_MPPP_R_MIXED(+)
VERIF_MPPP_R_MIXED(-)
VERIF_MPPP_R_MIXED(*)
VERIF_MPPP_R_MIXED(/)
#undef VERIF_MPPP_R_MIXED
#define VERIF_MPPP_CPP_INPLACE(op, bop)                                                                                \
    template <std::size_t S, detail::cpp_arith T>                                                                      \
    inline T &operator op(T &a, const rational<S> &b)                                                                  \
    {                                                                                                                  \
        return a = static_cast<T>(a bop b);                                                                            \
    }
VERIF_MPPP_CPP_INPLACE(+=, +)
VERIF_MPPP_CPP_INPLACE(-=, -)
VERIF_MPPP_CPP_INPLACE(*=, *)
VERIF_MPPP_CPP_INPLACE(/=, /)
#undef VERIF_MPPP_CPP_INPLACE
#define VERIF_MPPP_R_CMP(op)                                                                                           \
    template <std::size_t S>                                                                                           \
    inline bool operator op(const rational<S> &a, const rational<S> &b)                                                \
    {                                                                                                                  \
        return rational<S>::cmp(a, b) op 0;                                                                            \
    }                                                                                                                  \
    template <std::size_t S, typename T>                                                                               \
        requires detail::cpp_int<T> || std::is_same_v<T, integer<S>>                                                   \
    inline bool operator op(const rational<S> &a, const T &b)                                                          \
    {                                                                                                                  \
        return rational<S>::cmp(a, rational<S>(b)) op 0;                                                               \
    }                                                                                                                  \
    template <std::size_t S, typename T>                                                                               \
        requires detail::cpp_int<T> || std::is_same_v<T, integer<S>>                                                   \
    inline bool operator op(const T &a, const rational<S> &b)                                                          \
    {                                                                                                                  \
        return rational<S>::cmp(rational<S>(a), b) op 0;                                                               \
    }                                                                                                                  \
    template <std::size_t S, detail::cpp_fp T>                                                                         \
    inline bool operator op(const rational<S> &a, const T &b)                                                          \
    {                                                                                                                  \
        return static_cast<T>(a) op b;                                                                                 \
    }                                                                                                                  \
    template <std::size_t S, detail::cpp_fp T>                                                                         \
    inline bool operator op(const T &a, const rational<S> &b)                                                          \
    {                                                                                                                  \
        return a op static_cast<T>(b);                                                                                 \
    }
VERIF_MPPP_R_CMP(==)
VERIF_MPPP_R_CMP(!=)
VERIF_MPPP_R_CMP(<)
VERIF_MPPP_R_CMP(>)
VERIF_MPPP_R_CMP(<=)
VERIF_MPPP_R_CMP(>=)
#undef VERIF_MPPP_R_CMP

template <std::size_t S>
inline bool is_zero(const rational<S> &q)
{
    return q.is_zero();
}
template <std::size_t S>
inline bool is_one(const rational<S> &q)
{
    return q.is_one();
}
template <std::size_t S>
inline rational<S> pow(const rational<S> &b, const integer<S> &e)
{
    if (e.sgn() >= 0) {
        return rational<S>(pow(b.get_num(), e), pow(b.get_den(), e));
    }
    if (b.is_zero()) throw zero_division_error("Cannot exponentiate zero to a negative power");
    return rational<S>(pow(b.get_den(), -e), pow(b.get_num(), -e));
}
template <std::size_t S, detail::cpp_int T>
inline rational<S> pow(const rational<S> &b, const T &e)
{
    return pow(b, integer<S>(e));
}
template <std::size_t S, detail::cpp_fp T>
requires(!std::is_same_v<T, long double>) // NOTE: no MPFR.
inline T pow(const rational<S> &b, const T &e)
{
    return std::pow(static_cast<T>(b), e);
}
template <std::size_t S, detail::cpp_fp T>
requires(!std::is_same_v<T, long double>) // NOTE: no MPFR.
inline T pow(const T &b, const rational<S> &e)
{
    return std::pow(b, static_cast<T>(e));
}
template <std::size_t S>
inline rational<S> pow(const rational<S> &b, const rational<S> &e)
{
    if (e.get_den().is_one()) return pow(b, e.get_num());
    if (b == rational<S>(1)) return b;
    if (b.is_zero() && e.get_num().sgn() > 0) return b;
    if (b.is_zero()) throw zero_division_error("Cannot exponentiate zero to a negative power");
    throw std::domain_error("Unsupported rational exponent in rational exponentiation");
}
template <std::size_t S>
inline rational<S> pow(const integer<S> &b, const rational<S> &e)
{
    return pow(rational<S>(b), e);
}
template <std::size_t S, detail::cpp_int T>
inline rational<S> pow(const T &b, const rational<S> &e)
{
    return pow(rational<S>(b), e);
}
template <std::size_t S>
inline rational<S> abs(const rational<S> &q)
{
    return q.get_num().sgn() < 0 ? -q : q;
}
template <std::size_t S>
inline std::size_t hash(const rational<S> &q)
{
    return hash(q.get_num()) + hash(q.get_den());
}
template <detail::cpp_int T, std::size_t S>
inline bool get(T &out, const rational<S> &q)
{
    return q.get(out);
}
template <std::size_t S>
template <std::size_t S2>
integer<S>::integer(const rational<S2> &q) : integer(q.get_num() / q.get_den())
{
}

namespace literals
{
inline rational<1> operator""_q1(const char *s)
{
    return rational<1>(s);
}
} // namespace literals

} // namespace mppp

namespace std
{
template <size_t S>
struct hash<::mppp::rational<S>> {
    size_t operator()(const ::mppp::rational<S> &q) const
    {
        return ::mppp::hash(q);
    }
};
} // namespace std

namespace fmt
{
template <std::size_t S>
struct formatter<::mppp::rational<S>> : formatter<std::string> {
    template <typename Ctx>
    auto format(const ::mppp::rational<S> &x, Ctx &ctx) const
    {
        return formatter<std::string>::format(x.to_string(), ctx);
    }
};
} // namespace fmt

#endif
