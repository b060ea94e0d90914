// Shared by the harnesses on monomials.
#ifndef VERIF_MONO_HPP
#define VERIF_MONO_HPP

#include <iterator>
#include <list>
#include <memory>

#include "limits.hpp"

#include <obake/hash.hpp>
#include <obake/key/key_degree.hpp>
#include <obake/key/key_evaluate.hpp>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/key/key_p_degree.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/monomial_subs.hpp>

namespace hv
{

template <typename T>
inline constexpr unsigned max_packed = sizeof(T) == 4u ? 10u : 21u;

inline Int to_int(i128 x)
{
    return Int(x);
}
inline std::string istr(i128 x)
{
    return to_int(x).to_string();
}

template <typename K>
struct mono_info {
    using T = typename K::value_type;
    static constexpr bool dp = is_dpacked<K>;
    static unsigned group(unsigned n)
    {
        return group_size<K>::get(n);
    }
    // The largest number of symbols to be tried.
    static unsigned max_symbols()
    {
        if constexpr (is_dpacked<K>) {
            return K::psize * 2u + 2u > 12u ? K::psize + 2u : K::psize * 2u + 2u;
        } else {
            return max_packed<T>;
        }
    }
    // The number of packed values for n symbols.
    static unsigned n_groups(unsigned n)
    {
        if constexpr (is_dpacked<K>) {
            return (n + K::psize - 1u) / K::psize;
        } else {
            return 1;
        }
    }
    static std::pair<T, T> lims(unsigned n)
    {
        return pack_limits<T>(group(n) ? group(n) : 1u);
    }
};

// Names: s00, s01, ...
inline Syms sym_names(unsigned n)
{
    Syms r;
    for (unsigned i = 0; i < n; ++i) r.push_back("s" + std::string(1, static_cast<char>('0' + i / 10)) + static_cast<char>('0' + i % 10));
    return r;
}
inline const obake::symbol_set &sym_set(unsigned n)
{
    static std::map<unsigned, obake::symbol_set> m;
    auto it = m.find(n);
    if (it == m.end()) it = m.emplace(n, to_ss(sym_names(n))).first;
    return it->second;
}

// Exponents of a monomial, without going through the functions under test.
template <typename K>
std::vector<typename K::value_type> expos(const K &k, unsigned n)
{
    using T = typename K::value_type;
    std::vector<T> r;
    T t;
    if constexpr (is_dpacked<K>) {
        for (const auto &c : k._container()) {
            obake::kunpacker<T> u(c, K::psize);
            for (unsigned i = 0; i < K::psize; ++i) {
                u >> t;
                // NOTE: the padding must be null.
                if (r.size() < n || t != T(0)) r.push_back(t);
            }
        }
    } else {
        obake::kunpacker<T> u(k.get_value(), n);
        for (unsigned i = 0; i < n; ++i) {
            u >> t;
            r.push_back(t);
        }
    }
    return r;
}
// A monomial built out of packed values, without going through its constructors from exponents.
template <typename K, typename T>
K mono_of(const std::vector<T> &v)
{
    if constexpr (is_dpacked<K>) {
        K k;
        std::size_t i = 0;
        while (i < v.size()) {
            obake::kpacker<T> p(K::psize);
            for (unsigned j = 0; j < K::psize && i < v.size(); ++j, ++i) p << v[i];
            k._container().push_back(p.get());
        }
        return k;
    } else {
        obake::kpacker<T> p(static_cast<unsigned>(v.size()));
        for (const auto &x : v) p << x;
        return K(p.get());
    }
}

// Vectors of n exponents: the whole product of an alphabet of edge values where that is small enough, sparse vectors
// otherwise.
template <typename K>
std::vector<std::vector<typename K::value_type>> mono_vecs(unsigned n, std::size_t cap)
{
    using T = typename K::value_type;
    using V = std::vector<T>;
    std::vector<V> r;
    if (n == 0u) return {V{}};
#ifdef THIN
    cap = std::max<std::size_t>(cap / (2u * THIN), 12u);
#endif
    const auto [lo, hi] = mono_info<K>::lims(n);
    std::vector<T> all{T(0), hi, T(1), lo, T(2), T(hi - 1), T(hi / 2), T(lo + 1), T(hi / 2 + 1), T(lo / 2)};
    if constexpr (std::is_signed_v<T>) all.insert(all.begin() + 4, T(-1));
    std::vector<T> al;
    for (auto x : all)
        if (std::find(al.begin(), al.end(), x) == al.end() && packs<T>(x, mono_info<K>::group(n))) al.push_back(x);
    std::size_t k = al.size();
    const auto fits = [&](std::size_t b) {
        std::size_t p = 1;
        for (unsigned i = 0; i < n; ++i)
            if ((p *= b) > cap) return false;
        return true;
    };
    while (k > 3u && !fits(k)) --k;
    if (fits(k)) {
        std::vector<std::size_t> d(n, 0);
        for (;;) {
            V v(n);
            for (unsigned i = 0; i < n; ++i) v[i] = al[d[i]];
            r.push_back(v);
            unsigned i = 0;
            while (i < n && ++d[i] == k) d[i++] = 0;
            if (i == n) break;
        }
        return r;
    }
    // Sparse ones.
    std::set<V> seen;
    const auto put = [&](const V &v) {
        if (r.size() < cap && seen.insert(v).second) r.push_back(v);
    };
    for (auto x : al) put(V(n, x));
    for (unsigned i = 0; i < n; ++i)
        for (auto x : al) {
            V v(n, T(0));
            v[i] = x;
            put(v);
        }
    const std::vector<T> al2(al.begin(), al.begin() + static_cast<std::ptrdiff_t>(std::min<std::size_t>(al.size(), 5)));
    for (unsigned gap = 1; gap < n; ++gap)
        for (unsigned i = 0; i + gap < n; ++i)
            for (auto x : al2)
                for (auto y : al2) {
                    V v(n, T(0));
                    v[i] = x;
                    v[i + gap] = y;
                    put(v);
                }
    return r;
}

template <typename T>
i128 sum_of(const std::vector<T> &v)
{
    i128 r = 0;
    for (auto x : v) r += x;
    return r;
}
template <typename T>
bool in_range(i128 x, const std::pair<T, T> &l)
{
    return x >= i128(l.first) && x <= i128(l.second);
}

template <typename K>
std::string kname()
{
    using T = typename K::value_type;
    std::string t = std::is_same_v<T, std::int32_t>    ? "int32"
                    : std::is_same_v<T, std::uint32_t> ? "uint32"
                    : std::is_same_v<T, std::int64_t>  ? "int64"
                                                       : "uint64";
    if constexpr (is_dpacked<K>) {
        return "d_packed_monomial<" + t + "," + std::to_string(K::psize) + ">";
    } else {
        return "packed_monomial<" + t + ">";
    }
}

} // namespace hv

// The monomial types of each part of a harness: X(type, short name).
namespace hv
{
template <typename T>
using pm = obake::polynomials::packed_monomial<T>;
template <typename T, unsigned P>
using dpm = obake::polynomials::d_packed_monomial<T, P>;
using i32 = std::int32_t;
using u32 = std::uint32_t;
using i64 = std::int64_t;
using u64 = std::uint64_t;
} // namespace hv

#if PART == 0
#define MONO_TYPES(X) X(pm<i32>, "p_i32") X(pm<u32>, "p_u32")
#elif PART == 1
#define MONO_TYPES(X) X(pm<i64>, "p_i64") X(pm<u64>, "p_u64")
#elif PART == 2
#define MONO_TYPES(X) X(X2(dpm<i32, 1>), "d_i32_1") X(X2(dpm<u32, 2>), "d_u32_2") X(X2(dpm<i32, 3>), "d_i32_3") X(X2(dpm<u32, 10>), "d_u32_10")
#else
#define MONO_TYPES(X) X(X2(dpm<i64, 8>), "d_i64_8") X(X2(dpm<u64, 8>), "d_u64_8") X(X2(dpm<i64, 2>), "d_i64_2") X(X2(dpm<u64, 1>), "d_u64_1") X(X2(dpm<i64, 21>), "d_i64_21")
#endif
#define X2(...) __VA_ARGS__

#endif
