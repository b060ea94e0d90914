// The representable exponents, found through the public packer.
#ifndef VERIF_LIMITS_HPP
#define VERIF_LIMITS_HPP

#include <limits>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

#include "common.hpp"

namespace hv
{

using i128 = __int128;

template <typename T>
bool packs(T x, unsigned size)
{
    try {
        obake::kpacker<T> k(size);
        k << x;
        return true;
    } catch (const std::overflow_error &) {
        return false;
    }
}
// The largest/smallest value that can be packed in a group of the given size.
template <typename T>
std::pair<T, T> pack_limits_impl(unsigned size)
{
    using L = std::numeric_limits<T>;
    T lo = 0, hi = L::max();
    while (lo < hi) {
        const T m = static_cast<T>(lo + (hi - lo) / 2 + ((hi - lo) % 2));
        if (packs<T>(m, size))
            lo = m;
        else
            hi = static_cast<T>(m - 1);
    }
    const T mx = lo;
    T mn = 0;
    if constexpr (std::is_signed_v<T>) {
        T l = L::min(), h = 0;
        while (l < h) {
            const T m = static_cast<T>(l + (h / 2 - l / 2));
            const T mm = (m >= h) ? static_cast<T>(h - 1) : m;
            if (packs<T>(mm, size))
                h = mm;
            else
                l = static_cast<T>(mm + 1);
        }
        mn = h;
    }
    return {mn, mx};
}

template <typename T>
std::pair<T, T> pack_limits(unsigned size)
{
    static std::map<unsigned, std::pair<T, T>> cache;
    const auto it = cache.find(size);
    return it != cache.end() ? it->second : (cache[size] = pack_limits_impl<T>(size));
}

// The group size for n symbols.
template <typename K>
struct group_size {
    template <typename U>
    static unsigned get(U n)
    {
        return static_cast<unsigned>(n);
    }
};
template <typename T, unsigned P>
struct group_size<obake::polynomials::d_packed_monomial<T, P>> {
    template <typename U>
    static unsigned get(U)
    {
        return P;
    }
};
template <typename K>
inline constexpr bool is_dpacked = false;
template <typename T, unsigned P>
inline constexpr bool is_dpacked<obake::polynomials::d_packed_monomial<T, P>> = true;

// Exponents around the limits. Stored as 128-bit values.
template <typename T>
std::vector<T> edge_values(unsigned size)
{
    const auto [mn, mx] = pack_limits<T>(size);
    std::set<T> s{T(0), T(1), mx, static_cast<T>(mx - 1), static_cast<T>(mx / 2), static_cast<T>(mx / 2 + 1)};
    if constexpr (std::is_signed_v<T>) {
        s.insert({T(-1), mn, static_cast<T>(mn + 1), static_cast<T>(mn / 2), static_cast<T>(mn / 2 - 1)});
    }
    return std::vector<T>(s.begin(), s.end());
}

} // namespace hv

#endif
