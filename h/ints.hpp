// Interesting integers.
#ifndef VERIF_INTS_HPP
#define VERIF_INTS_HPP

#include <climits>
#include <limits>
#include <set>
#include <string>
#include <type_traits>
#include <vector>

namespace hv
{
using i128 = __int128;
using u128 = unsigned __int128;

template <typename T>
inline constexpr bool is_big = std::is_same_v<T, i128> || std::is_same_v<T, u128>;
template <typename T>
inline constexpr bool is_sgn = T(-1) < T(0);
template <typename T>
constexpr T int_max()
{
    if constexpr (std::is_same_v<T, bool>) {
        return true;
    } else if constexpr (is_sgn<T>) {
        return static_cast<T>((((T(1) << (sizeof(T) * CHAR_BIT - 2u)) - 1) << 1) + 1);
    } else {
        return static_cast<T>(-1);
    }
}
template <typename T>
constexpr T int_min()
{
    if constexpr (is_sgn<T>) {
        return static_cast<T>(-int_max<T>() - 1);
    } else {
        return T(0);
    }
}
// A value of any integral type: sign and magnitude.
struct Z {
    bool neg = false;
    u128 m = 0;
    template <typename T>
    static Z of(T x)
    {
        Z r;
        r.neg = x < T(0);
        r.m = r.neg ? u128(0) - static_cast<u128>(static_cast<i128>(x)) : static_cast<u128>(x);
        return r;
    }
    template <typename T>
    bool fits() const
    {
        if (!neg) return m <= static_cast<u128>(int_max<T>());
        if constexpr (is_sgn<T>) {
            return m <= static_cast<u128>(int_max<T>()) + 1u;
        } else {
            return false;
        }
    }
    template <typename T>
    T to() const
    {
        return static_cast<T>(neg ? u128(0) - m : m);
    }
    friend bool operator==(const Z &a, const Z &b)
    {
        return a.neg == b.neg && a.m == b.m;
    }
    friend bool operator<(const Z &a, const Z &b)
    {
        if (a.neg != b.neg) return a.neg;
        return a.neg ? b.m < a.m : a.m < b.m;
    }
    std::string str() const
    {
        std::string r;
        u128 x = m;
        do r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(x % 10u)));
        while (x /= 10u);
        return neg ? "-" + r : r;
    }
};
template <typename T>
std::string zs(T x)
{
    return Z::of(x).str();
}
// Neighbours of all the powers of two and ten, of their sums and of the limits.
inline const std::vector<Z> &edges()
{
    static const auto v = []() {
        std::set<Z> s;
        const auto put = [&](u128 m) {
            for (int n = 0; n < 2; ++n) {
                Z z;
                z.neg = n && m;
                z.m = m;
                if (!z.neg || z.m <= u128(1) << 127) s.insert(z);
            }
        };
        for (unsigned k = 0; k < 128u; ++k)
            for (unsigned d = 0; d < 7u; ++d) put((u128(1) << k) + d - 3u);
        for (unsigned d = 0; d < 12u; ++d) put(d);
        for (u128 p = 1;; p *= 10u) {
            for (unsigned d = 1; d < 10u; ++d) {
                if (p > ~u128(0) / d) break;
                put(p * d);
                put(p * d - 1u);
                put(p * d + 1u);
            }
            if (p > ~u128(0) / 10u) break;
        }
        for (unsigned d = 0; d < 4u; ++d) put(~u128(0) - d);
        return std::vector<Z>(s.begin(), s.end());
    }();
    return v;
}
// Those that fit a type; all of its values if there are at most 2^16.
template <typename T>
const std::vector<T> &values()
{
    static const auto v = []() {
        std::vector<T> r;
        if constexpr (sizeof(T) <= 2u) {
            for (long x = static_cast<long>(int_min<T>()); x <= static_cast<long>(int_max<T>()); ++x) r.push_back(static_cast<T>(x));
        } else {
            for (const auto &z : edges())
                if (z.fits<T>()) r.push_back(z.to<T>());
        }
        return r;
    }();
    return v;
}
template <typename T>
std::string tname()
{
#define VERIF_N(U) \
    if (std::is_same_v<T, U>) return #U;
    VERIF_N(bool)
    VERIF_N(char)
    VERIF_N(signed char)
    VERIF_N(unsigned char)
    VERIF_N(short)
    VERIF_N(unsigned short)
    VERIF_N(int)
    VERIF_N(unsigned)
    VERIF_N(long)
    VERIF_N(unsigned long)
    VERIF_N(long long)
    VERIF_N(unsigned long long)
    VERIF_N(wchar_t)
    VERIF_N(char8_t)
    VERIF_N(char16_t)
    VERIF_N(char32_t)
    VERIF_N(i128)
    VERIF_N(u128)
#undef VERIF_N
    return "?";
}
template <typename... Ts>
struct list {
};
using all_ints = list<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char8_t, char16_t, char32_t, i128, u128>;

} // namespace hv

#endif
