// Shared by the harnesses that run under the concurrency runtime.
#ifndef VERIF_HCF_HPP
#define VERIF_HCF_HPP

#include <memory>
#include <ostream>
#include <stdexcept>

#include "common.hpp"

#include "../mc/rt.hpp"

namespace hh
{

using namespace hv;

// A coefficient on the heap, with a claimed size: it leads the multiplication to the multi-threaded algorithm. All the
// accesses are visible to the race detector; a moved-from value cannot be used.
inline std::size_t weight = 8;
struct Fail {
};
inline long countdown = -1;
inline void maybe_fail()
{
    rt::Quiet q;
    if (countdown >= 0 && countdown-- == 0) throw Fail{};
}
struct hcf {
    std::unique_ptr<long long> p;
    hcf() : p(std::make_unique<long long>(0)) {}
    hcf(long long n) : p(std::make_unique<long long>(n)) {}
    hcf(int n) : p(std::make_unique<long long>(n)) {}
    explicit hcf(const Int &n) : p(std::make_unique<long long>(static_cast<long long>(n))) {}
    hcf(const hcf &o) : p(std::make_unique<long long>(o.get())) {}
    hcf(hcf &&) = default;
    hcf &operator=(const hcf &o)
    {
        if (!p) p = std::make_unique<long long>(o.get());
        else *p = o.get();
        return *this;
    }
    hcf &operator=(hcf &&) = default;
    long long get() const
    {
        if (!p) throw std::runtime_error("a moved-from coefficient is used");
        return *p;
    }
    Rat hv_value() const
    {
        return Rat(get());
    }
    friend hcf operator*(const hcf &a, const hcf &b)
    {
        maybe_fail();
        return hcf(a.get() * b.get());
    }
    hcf &operator*=(const hcf &b)
    {
        const auto v = get() * b.get();
        *p = v;
        return *this;
    }
    hcf &operator+=(const hcf &b)
    {
        const auto v = get() + b.get();
        *p = v;
        return *this;
    }
    hcf &operator-=(const hcf &b)
    {
        const auto v = get() - b.get();
        *p = v;
        return *this;
    }
    friend hcf operator+(const hcf &a, const hcf &b)
    {
        return hcf(a.get() + b.get());
    }
    friend hcf operator-(const hcf &a, const hcf &b)
    {
        return hcf(a.get() - b.get());
    }
    hcf operator-() const
    {
        return hcf(-get());
    }
    friend bool operator==(const hcf &a, const hcf &b)
    {
        return a.get() == b.get();
    }
    friend bool operator!=(const hcf &a, const hcf &b)
    {
        return a.get() != b.get();
    }
    friend std::ostream &operator<<(std::ostream &os, const hcf &a)
    {
        return os << a.get();
    }
};
inline bool is_zero(const hcf &a)
{
    return a.get() == 0;
}
inline void negate(hcf &a)
{
    a = hcf(-a.get());
}
inline void negate(hcf &&a)
{
    a = hcf(-a.get());
}
inline hcf pow(const hcf &a, unsigned n)
{
    hcf r(1);
    for (; n; --n) r *= a;
    return r;
}
inline hcf pow(const hcf &a, int n)
{
    return pow(a, static_cast<unsigned>(n));
}
inline std::size_t byte_size(const hcf &)
{
    return weight;
}

} // namespace hh

#endif
