// P25: packing of integers.
#include <cmath>

#include "limits.hpp"

using namespace hv;

namespace
{

template <typename T>
constexpr unsigned max_size = sizeof(T) == 4u ? 10u : 21u;

// The limits that users can count on (those of the released library).
template <typename T>
const std::vector<unsigned long long> &released();
template <>
const std::vector<unsigned long long> &released<std::int32_t>()
{
    static const std::vector<unsigned long long> v{1073741823ull, 23168ull, 644ull, 105ull, 35ull, 15ull, 9ull, 6ull, 3ull, 3ull};
    return v;
}
template <>
const std::vector<unsigned long long> &released<std::uint32_t>()
{
    static const std::vector<unsigned long long> v{4294967294ull, 65520ull, 1620ull, 250ull, 82ull, 36ull, 18ull, 12ull, 6ull, 6ull};
    return v;
}
template <>
const std::vector<unsigned long long> &released<std::int64_t>()
{
    static const std::vector<unsigned long long> v{4611686018427387903ull, 1518500246ull, 1048571ull, 27551ull, 3101ull, 723ull, 254ull, 116ull, 63ull, 36ull, 23ull, 18ull, 11ull, 9ull, 8ull, 6ull, 5ull, 3ull, 3ull, 3ull, 3ull};
    return v;
}
template <>
const std::vector<unsigned long long> &released<std::uint64_t>()
{
    static const std::vector<unsigned long long> v{18446744073709551614ull, 4294967290ull, 2642238ull, 65520ull, 7128ull, 1620ull, 562ull, 250ull, 136ull, 82ull, 52ull, 36ull, 28ull, 18ull, 16ull, 12ull, 10ull, 6ull, 6ull, 6ull, 6ull};
    return v;
}

template <typename T>
std::vector<T> unpack(const T &code, unsigned n)
{
    std::vector<T> r;
    obake::kunpacker<T> u(code, n);
    for (unsigned i = 0; i < n; ++i) {
        T x;
        u >> x;
        r.push_back(x);
    }
    return r;
}
template <typename T>
T pack(const std::vector<T> &v, unsigned n)
{
    obake::kpacker<T> k(n);
    for (const auto &x : v) k << x;
    return k.get();
}
template <typename T>
void check_vec(mc::Ctx &ctx, const std::vector<T> &v, std::map<T, std::vector<T>> *seen = nullptr)
{
    const auto n = static_cast<unsigned>(v.size());
    const auto c = pack(v, n);
    ctx.op();
    ctx.validated(2);
    std::vector<T> r;
    try {
        r = unpack(c, n);
    } catch (const std::exception &e) {
        ctx.fail(mc::cat("the code ", c, " of ", vstr(v), " cannot be unpacked: ", e.what()));
    }
    if (r != v) ctx.fail(mc::cat(vstr(v), " is packed to ", c, " and unpacked to ", vstr(r)));
    if (seen) {
        const auto [it, n2] = seen->emplace(c, v);
        if (!n2 && it->second != v) ctx.fail(mc::cat(vstr(v), " and ", vstr(it->second), " have the same code ", c));
    }
}
template <typename T>
std::vector<T> alphabet(unsigned size, unsigned k)
{
    const auto [lo, hi] = pack_limits<T>(size);
    std::vector<T> all{hi, T(0), lo, T(1), T(hi - 1), T(hi / 2), T(lo + 1), T(hi / 2 + 1), T(lo / 2)};
    if constexpr (std::is_signed_v<T>) all.insert(all.begin() + 3, T(-1));
    std::vector<T> r;
    for (auto x : all)
        if (r.size() < k && std::find(r.begin(), r.end(), x) == r.end() && packs<T>(x, size)) r.push_back(x);
    return r;
}
// All the vectors over an alphabet of edge values.
template <typename T>
std::function<void(mc::Ctx &)> vectors(double max)
{
    return [max](mc::Ctx &ctx) {
        const auto n = ctx.choose(max_size<T>, "size") + 1u;
        unsigned k = 9;
        while (k > 2u && std::pow(double(k), double(n)) > max) --k;
        const auto al = alphabet<T>(n, k);
        // The first components are choices.
        std::vector<T> v(n, al[0]);
        unsigned fixed = std::min(n, 2u);
        for (unsigned i = 0; i < fixed; ++i) v[i] = ctx.pick(al, "component");
        std::map<T, std::vector<T>> seen;
        std::vector<unsigned> d(n, 0);
        for (;;) {
            for (unsigned i = fixed; i < n; ++i) v[i] = al[d[i]];
            check_vec(ctx, v, n <= 12u ? &seen : nullptr);
            unsigned i = fixed;
            while (i < n && ++d[i] == al.size()) d[i++] = 0;
            if (i >= n) break;
        }
        ctx.state(mc::cat(n, " ", vstr(v)));
    };
}
// All the vectors with up to three non-trivial components, over a background value.
template <typename T>
std::function<void(mc::Ctx &)> sparse()
{
    return [](mc::Ctx &ctx) {
        const auto n = ctx.choose(max_size<T>, "size") + 1u;
        const auto al = alphabet<T>(n, 9);
        const auto bg = ctx.pick(al, "background");
        const auto i = ctx.choose(n, "first");
        for (unsigned j = i; j < n; ++j)
            for (unsigned l = j; l < n; l += (ctx.thorough() ? 1u : 3u))
                for (auto x : al)
                    for (auto y : al)
                        for (auto z : al) {
                            std::vector<T> v(n, bg);
                            v[i] = x;
                            v[j] = y;
                            v[l] = z;
                            check_vec(ctx, v);
                            if (j == i) break;
                        }
        ctx.state(mc::cat(n, " ", bg, " ", i));
    };
}
// Additivity: all pairs of values at all pairs of positions.
template <typename T>
std::function<void(mc::Ctx &)> additive()
{
    return [](mc::Ctx &ctx) {
        const auto n = ctx.choose(max_size<T>, "size") + 1u;
        const auto al = alphabet<T>(n, 9);
        const auto [lo, hi] = pack_limits<T>(n);
        const auto bg = ctx.pick(std::vector<T>{T(0), T(hi / 2), T(lo / 2)}, "background");
        for (unsigned i = 0; i < n; ++i)
            for (unsigned j = 0; j < n; ++j)
                for (auto x : al)
                    for (auto y : al) {
                        std::vector<T> a(n, bg), b(n, T(0)), s(n, bg);
                        a[i] = x;
                        b[j] = y;
                        s[i] = x;
                        const i128 t = i128(s[j]) + y;
                        if (t < i128(lo) || t > i128(hi)) continue;
                        s[j] = static_cast<T>(t);
                        ctx.op();
                        ctx.validated();
                        using U = std::make_unsigned_t<T>;
                        const T sum = static_cast<T>(static_cast<U>(pack(a, n)) + static_cast<U>(pack(b, n)));
                        if (sum != pack(s, n)) ctx.fail(mc::cat("the codes of ", vstr(a), " and ", vstr(b), " do not add up to that of ", vstr(s)));
                        if (unpack(sum, n) != s) ctx.fail(mc::cat("the sum of the codes of ", vstr(a), " and ", vstr(b), " is unpacked wrongly"));
                        const T dif = static_cast<T>(static_cast<U>(sum) - static_cast<U>(pack(b, n)));
                        if (unpack(dif, n) != a) ctx.fail(mc::cat("the difference of the codes of ", vstr(s), " and ", vstr(b), " is unpacked wrongly"));
                    }
        ctx.state(mc::cat(n, " ", bg));
    };
}
// The limits, and what happens beyond.
template <typename T>
std::function<void(mc::Ctx &)> errors()
{
    return [](mc::Ctx &ctx) {
        using L = std::numeric_limits<T>;
        for (unsigned n = 0; n <= 130u; ++n) {
            ctx.op();
            bool thrown = false;
            try {
                obake::kpacker<T> k(n);
            } catch (const std::overflow_error &) {
                thrown = true;
            }
            bool thrown2 = false;
            try {
                obake::kunpacker<T> k(T(0), n);
            } catch (const std::overflow_error &) {
                thrown2 = true;
            }
            MC_CHECK(ctx, thrown == (n > max_size<T>) && thrown2 == thrown, "packing vectors of size ", n, " is ", thrown ? "rejected" : "accepted");
        }
        MC_THROWS(ctx, obake::kpacker<T>(std::numeric_limits<unsigned>::max()), std::overflow_error, "huge size");
        MC_THROWS(ctx, obake::kpacker<T>(0u) << T(0), std::out_of_range, "size zero");
        MC_CHECK(ctx, obake::kpacker<T>(0u).get() == T(0), "the code of the empty vector is not zero");
        for (const T x : {T(1), L::max(), L::min(), T(-1)})
            if (x != T(0)) MC_THROWS(ctx, obake::kunpacker<T>(x, 0u), std::invalid_argument, "size zero, code " + std::to_string(x));
        {
            T x;
            MC_THROWS(ctx, obake::kunpacker<T>(T(0), 0u) >> x, std::out_of_range, "size zero");
        }
        for (unsigned n = 1; n <= max_size<T>; ++n) {
            const auto [lo, hi] = pack_limits<T>(n);
            const auto rel = released<T>()[n - 1u];
            MC_CHECK(ctx, i128(hi) >= i128(rel) && (!std::is_signed_v<T> || i128(lo) <= -i128(rel)), "the limits for size ", n, " are [", lo, ", ", hi, "]: narrower than those of the library");
            // All the values around powers of two and the limits.
            std::set<i128> probes;
            for (int b = 0; b < 64; ++b)
                for (int d = -2; d <= 2; ++d) {
                    probes.insert((i128(1) << b) + d);
                    probes.insert(-(i128(1) << b) + d);
                }
            for (int d = -3; d <= 3; ++d) {
                probes.insert(i128(lo) + d);
                probes.insert(i128(hi) + d);
                probes.insert(i128(L::max()) + d);
                probes.insert(i128(L::min()) + d);
            }
            for (auto p : probes) {
                if (p < i128(L::min()) || p > i128(L::max())) continue;
                const T x = static_cast<T>(p);
                // At every position.
                for (unsigned pos = 0; pos < n; ++pos) {
                    obake::kpacker<T> k(n);
                    for (unsigned i = 0; i < pos; ++i) k << T(hi);
                    const T before = k.get();
                    bool thrown = false;
                    ctx.op();
                    try {
                        k << x;
                    } catch (const std::overflow_error &) {
                        thrown = true;
                    }
                    ctx.validated();
                    if (thrown != (p < i128(lo) || p > i128(hi))) ctx.fail(mc::cat("the value ", x, " is ", thrown ? "rejected" : "accepted", " at position ", pos, " of ", n, ", the limits are [", lo, ", ", hi, "]"));
                    if (thrown) {
                        // Nothing was pushed: the packer can be used further.
                        if (k.get() != before) ctx.fail("a rejected value changed the code");
                        for (unsigned i = pos; i < n; ++i) k << T(0);
                        std::vector<T> e(pos, hi);
                        e.resize(n, T(0));
                        if (unpack(k.get(), n) != e) ctx.fail("a packer cannot be used after it rejected a value");
                    } else {
                        // A partially filled packer: the rest is zero.
                        std::vector<T> e(pos, hi);
                        e.push_back(x);
                        e.resize(n, T(0));
                        if (unpack(k.get(), n) != e) ctx.fail(mc::cat("a partially filled packer with ", vstr(e), " gives ", vstr(unpack(k.get(), n))));
                    }
                }
            }
            // Too many values, whatever they are.
            for (unsigned m = 0; m < (n < 10u ? 1u << n : 1024u); ++m) {
                obake::kpacker<T> f(n);
                for (unsigned i = 0; i < n; ++i) f << T(m >> i % 10u & 1u);
                const T c = f.get();
                for (const T x : {T(0), T(1), lo, hi}) MC_THROWS(ctx, f << x, std::out_of_range, "too many values for size " + std::to_string(n));
                MC_CHECK(ctx, f.get() == c, "a failed push changed the code");
                obake::kunpacker<T> g(c, n);
                T x = 0;
                for (unsigned i = 0; i < n; ++i) g >> x;
                MC_THROWS(ctx, g >> x, std::out_of_range, "unpacking too many values for size " + std::to_string(n));
            }
            obake::kpacker<T> k(n);
            for (unsigned i = 0; i < n; ++i) k << T(1);
            const T c = k.get();
            for (int r = 0; r < 3; ++r) {
                MC_THROWS(ctx, k << T(0), std::out_of_range, "too many values for size " + std::to_string(n));
                MC_CHECK(ctx, k.get() == c, "a failed push changed the code");
            }
            obake::kunpacker<T> u(c, n);
            T x = 0;
            for (unsigned i = 0; i < n; ++i) u >> x;
            for (int r = 0; r < 3; ++r) MC_THROWS(ctx, u >> x, std::out_of_range, "unpacking too many values for size " + std::to_string(n));
            // Codes of no vector: those beyond the codes of the extreme vectors.
            const T cmin = pack(std::vector<T>(n, lo), n), cmax = pack(std::vector<T>(n, hi), n);
            for (auto p : probes)
                for (const i128 q : {p, i128(cmax) + p, i128(cmin) + p}) {
                    if (q < i128(L::min()) || q > i128(L::max())) continue;
                    const T y = static_cast<T>(q);
                    bool thrown = false;
                    ctx.op();
                    ctx.validated();
                    std::vector<T> v;
                    try {
                        v = unpack(y, n);
                    } catch (const std::overflow_error &) {
                        thrown = true;
                    }
                    if (thrown != (y < cmin || y > cmax)) ctx.fail(mc::cat("the code ", y, " is ", thrown ? "rejected" : "accepted", " for size ", n, ", codes are in [", cmin, ", ", cmax, "]"));
                    if (!thrown && pack(v, n) != y) ctx.fail(mc::cat("the code ", y, " is unpacked to ", vstr(v), " whose code is ", pack(v, n)));
                }
        }
        (void)ctx.choose(1);
        ctx.state("limits");
    };
}
// ALL the codes of a type and size, in slices.
template <typename T>
std::function<void(mc::Ctx &)> all_codes(std::vector<unsigned> sizes, unsigned slices)
{
    return [=](mc::Ctx &ctx) {
        const auto n = ctx.pick(sizes, "size");
        const auto s = ctx.choose(slices, "slice");
        const auto [lo, hi] = pack_limits<T>(n);
        const long long cmin = pack(std::vector<T>(n, lo), n), cmax = pack(std::vector<T>(n, hi), n);
        const long long tot = cmax - cmin + 1, b = cmin + tot / slices * s, e = s + 1u == slices ? cmax + 1 : cmin + tot / slices * (s + 1u);
        const long long base = static_cast<long long>(hi) - lo + 1;
        // The digits of the first code.
        T v[21], w[21];
        {
            long long c = b - cmin;
            for (unsigned i = 0; i < n; ++i) {
                v[i] = static_cast<T>(lo + c % base);
                c /= base;
            }
            if (c) ctx.fail(mc::cat("there are more codes of size ", n, " than vectors"));
        }
        for (long long c = b; c < e; ++c) {
            obake::kunpacker<T> u(static_cast<T>(c), n);
            bool ok = true;
            for (unsigned i = 0; i < n; ++i) {
                u >> w[i];
                ok = ok && w[i] == v[i];
            }
            if (!ok) ctx.fail(mc::cat("the code ", c, " of size ", n, " is unpacked to ", vstr(std::vector<T>(w, w + n)), " instead of ", vstr(std::vector<T>(v, v + n))));
            obake::kpacker<T> k(n);
            for (unsigned i = 0; i < n; ++i) k << v[i];
            if (k.get() != static_cast<T>(c)) ctx.fail(mc::cat(vstr(std::vector<T>(v, v + n)), " is packed to ", k.get(), " instead of ", c));
            unsigned i = 0;
            while (i < n && v[i] == hi) v[i++] = lo;
            if (i < n) ++v[i];
        }
        ctx.op(static_cast<unsigned>(e - b));
        ctx.validated(static_cast<unsigned>(e - b));
        ctx.state(mc::cat(n, " ", s));
    };
}

#if PART == 0
const mc::Reg reg({
    {"vectors of edge values, int32", vectors<std::int32_t>(1e5), 2},
    {"vectors of edge values, uint32", vectors<std::uint32_t>(1e5), 2},
    {"vectors of edge values, int64", vectors<std::int64_t>(5e5), 2},
    {"vectors of edge values, uint64", vectors<std::uint64_t>(5e5), 2},
    {"sparse vectors, int64", sparse<std::int64_t>(), 2},
    {"sparse vectors, uint64", sparse<std::uint64_t>(), 2},
    {"additivity, int32", additive<std::int32_t>(), 2},
    {"additivity, uint32", additive<std::uint32_t>(), 2},
    {"additivity, int64", additive<std::int64_t>(), 2},
    {"additivity, uint64", additive<std::uint64_t>(), 2},
    {"limits and errors, int32", errors<std::int32_t>()},
    {"limits and errors, uint32", errors<std::uint32_t>()},
    {"limits and errors, int64", errors<std::int64_t>()},
    {"limits and errors, uint64", errors<std::uint64_t>()},
    {"thorough vectors, int32", vectors<std::int32_t>(5e7), 2, 1},
    {"thorough vectors, uint32", vectors<std::uint32_t>(5e7), 2, 1},
    {"thorough vectors, int64", vectors<std::int64_t>(5e7), 2, 1},
    {"thorough vectors, uint64", vectors<std::uint64_t>(5e7), 2, 1},
});
#elif PART == 1
const mc::Reg reg({
    {"all codes, int32", all_codes<std::int32_t>({9, 10}, 64), 2},
    {"all codes, uint32", all_codes<std::uint32_t>({9, 10}, 64), 2},
    {"thorough: all codes, int32", all_codes<std::int32_t>({1, 2, 3, 4, 5, 6, 7, 8}, 256), 2, 1},
    {"thorough: all codes, uint32", all_codes<std::uint32_t>({1, 2, 3, 4, 5, 6, 7, 8}, 256), 2, 1},
});
#endif

} // namespace
