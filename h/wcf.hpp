// A coefficient whose memory footprint is chosen by the checker: it makes the multiplication take the
// multi-threaded path, with any number of segments, on operands of a few terms. It is an ordinary user-defined
// coefficient type (byte_size() is a customisation point of the library).
#ifndef VERIF_WCF_HPP
#define VERIF_WCF_HPP

#include <cstddef>
#include <ostream>
#include <thread>

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

namespace wc
{

// The claimed size of all the coefficients.
inline std::size_t weight = 8;

struct wcf {
    long long v = 0;
    wcf() = default;
    wcf(int n) : v(n) {}
    wcf(long long n) : v(n) {}
    explicit wcf(const mppp::integer<1> &n) : v(static_cast<long long>(n)) {}
    friend wcf operator+(const wcf &a, const wcf &b)
    {
        return wcf(a.v + b.v);
    }
    friend wcf operator-(const wcf &a, const wcf &b)
    {
        return wcf(a.v - b.v);
    }
    friend wcf operator*(const wcf &a, const wcf &b)
    {
        return wcf(a.v * b.v);
    }
    mppp::rational<1> hv_value() const
    {
        return mppp::rational<1>(v);
    }
    wcf operator-() const
    {
        return wcf(-v);
    }
    wcf &operator+=(const wcf &b)
    {
        v += b.v;
        return *this;
    }
    wcf &operator-=(const wcf &b)
    {
        v -= b.v;
        return *this;
    }
    wcf &operator*=(const wcf &b)
    {
        v *= b.v;
        return *this;
    }
    friend bool operator==(const wcf &a, const wcf &b)
    {
        return a.v == b.v;
    }
    friend bool operator!=(const wcf &a, const wcf &b)
    {
        return a.v != b.v;
    }
    friend std::ostream &operator<<(std::ostream &os, const wcf &a)
    {
        return os << a.v;
    }
};
inline bool is_zero(const wcf &a)
{
    return a.v == 0;
}
inline void negate(wcf &a)
{
    a.v = -a.v;
}
inline void negate(wcf &&a)
{
    a.v = -a.v;
}
inline wcf pow(const wcf &a, int n)
{
    wcf r(1);
    for (; n > 0; --n) r *= a;
    return r;
}
inline std::size_t byte_size(const wcf &)
{
    return weight;
}

} // namespace wc

#endif
