// P36: the pseudo-random generator.
#include <array>
#include <cstdint>
#include <limits>
#include <type_traits>
#include <vector>

#include "../mc/mc.hpp"

#include <obake/config.hpp>
#include <obake/detail/xoroshiro128_plus.hpp>

namespace
{
using u64 = std::uint64_t;
using u128 = unsigned __int128;
using rng_t = obake::detail::xoroshiro128_plus;

// The reference: bit by bit, on arrays of 64 bits.
struct RefRng {
    using Bits = std::array<bool, 64>;
    Bits a, b;
    static Bits bits(u64 x)
    {
        Bits r{};
        for (unsigned i = 0; i < 64u; ++i) r[i] = (x >> i) & 1u;
        return r;
    }
    RefRng(u64 s0, u64 s1) : a(bits(s0)), b(bits(s1)) {}
    u64 next()
    {
        u64 res = 0;
        bool c = false;
        for (unsigned i = 0; i < 64u; ++i) {
            const int s = a[i] + b[i] + c;
            if (s & 1) res |= u64(1) << i;
            c = s >= 2;
        }
        Bits x{}, na{}, nb{};
        for (unsigned i = 0; i < 64u; ++i) x[i] = a[i] != b[i];
        for (unsigned i = 0; i < 64u; ++i) {
            // Rotation by 24, xor, shift by 16.
            const bool rot = a[(i + 40u) % 64u];
            const bool sh = i >= 16u ? x[i - 16u] : false;
            na[i] = (rot != x[i]) != sh;
            nb[i] = x[(i + 27u) % 64u];
        }
        a = na;
        b = nb;
        return res;
    }
};

const std::vector<u64> &words(bool thorough)
{
    static const auto mk = [](bool th) {
        std::vector<u64> r{0, ~u64(0), 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x0123456789abcdefull, 0xfedcba9876543210ull,
                           0xbeac0467eba5facbull, 0xd86b048b86aa9922ull, 12724899751400538854ull, 9282269007213506749ull,
                           0x00000000ffffffffull, 0xffffffff00000000ull, 0x7fffffffffffffffull, 3};
        for (unsigned i = 0; i < 64u; i += 1u) r.push_back(u64(1) << i);
        if (th)
            for (unsigned i = 0; i < 64u; ++i) {
                r.push_back(~(u64(1) << i));
                r.push_back((u64(1) << i) - 1u);
                for (unsigned j = 0; j < i; ++j) r.push_back((u64(1) << i) | (u64(1) << j));
            }
        return r;
    };
    static const auto q = mk(false), t = mk(true);
    return thorough ? t : q;
}

std::string hex(u128 x)
{
    std::string r;
    for (int i = 31; i >= 0; --i) r += "0123456789abcdef"[static_cast<unsigned>(x >> (4 * i)) & 15u];
    return r;
}

// All pairs of words as seeds.
void b_seeds(mc::Ctx &ctx)
{
    const auto &w = words(ctx.thorough());
    const auto s0 = ctx.pick(w, "s0"), s1 = ctx.pick(w, "s1");
    rng_t r(s0, s1);
    RefRng f(s0, s1);
    for (int i = 0; i < 16; ++i) {
        const auto v = r.next();
        static_assert(std::is_same_v<const u64, decltype(v)>);
        const auto e = f.next();
        ctx.op();
        MC_CHECK(ctx, v == e, "output ", i, " from the seeds ", hex(s0), " ", hex(s1), " is ", hex(v), " instead of ", hex(e));
        ctx.state(mc::mix(v, s0 ^ i));
    }
}

// Histories of requests.
template <typename T>
void ask(mc::Ctx &ctx, rng_t &r, RefRng &f, const char *name, std::string &h)
{
    const auto v = r.random<T>();
    static_assert(std::is_same_v<const T, decltype(v)>);
    u128 e = f.next();
    if (sizeof(T) > 8u) e = (e << 64) + f.next();
    const T et = static_cast<T>(e);
    h += std::string(" ") + name;
    ctx.op();
    MC_CHECK(ctx, v == et, "after", h, ": ", hex(static_cast<u128>(v)), " instead of ", hex(static_cast<u128>(et)));
}
constexpr unsigned n_ops = 17;
void step(mc::Ctx &ctx, unsigned op, rng_t &r, RefRng &f, std::string &h)
{
    switch (op) {
        case 0: return ask<signed char>(ctx, r, f, "signed char", h);
        case 1: return ask<unsigned char>(ctx, r, f, "unsigned char", h);
        case 2: return ask<short>(ctx, r, f, "short", h);
        case 3: return ask<unsigned short>(ctx, r, f, "unsigned short", h);
        case 4: return ask<int>(ctx, r, f, "int", h);
        case 5: return ask<unsigned>(ctx, r, f, "unsigned", h);
        case 6: return ask<long>(ctx, r, f, "long", h);
        case 7: return ask<unsigned long>(ctx, r, f, "unsigned long", h);
        case 8: return ask<long long>(ctx, r, f, "long long", h);
        case 9: return ask<unsigned long long>(ctx, r, f, "unsigned long long", h);
        case 10: return ask<__int128>(ctx, r, f, "int128", h);
        case 11: return ask<unsigned __int128>(ctx, r, f, "uint128", h);
        case 12: return ask<char>(ctx, r, f, "char", h);
        case 13: {
            h += " next";
            const auto v = r.next();
            const auto e = f.next();
            ctx.op();
            MC_CHECK(ctx, v == e, "after", h, ": ", hex(v), " instead of ", hex(e));
            return;
        }
        case 14: {
            h += " call";
            const auto v = r();
            const auto e = f.next();
            ctx.op();
            MC_CHECK(ctx, v == e, "after", h, ": ", hex(v), " instead of ", hex(e));
            return;
        }
        case 15: {
            // A copy continues independently.
            h += " copy";
            auto r2 = r;
            auto f2 = f;
            for (int i = 0; i < 3; ++i) {
                const auto v = r2.next();
                const auto e = f2.next();
                ctx.op();
                MC_CHECK(ctx, v == e, "after", h, ": ", hex(v), " instead of ", hex(e));
            }
            return;
        }
        default: {
            h += " bounds";
            ctx.op(2);
            MC_CHECK(ctx, (rng_t::min)() == 0u && (rng_t::max)() == ~u64(0), "wrong range");
            static_assert(std::is_same_v<rng_t::result_type, u64>);
        }
    }
}
void b_hist(mc::Ctx &ctx)
{
    static const std::vector<std::pair<u64, u64>> seeds{{12724899751400538854ull, 9282269007213506749ull},
                                                        {~u64(0), ~u64(0)},
                                                        {0, 1},
                                                        {u64(1) << 63, 0},
                                                        {0x0123456789abcdefull, 0xfedcba9876543210ull}};
    const auto &s = ctx.pick(seeds, "seeds");
    rng_t r(s.first, s.second);
    RefRng f(s.first, s.second);
    std::string h = "(" + hex(s.first) + " " + hex(s.second) + ")";
    const unsigned n = ctx.thorough() ? 5 : 4;
    for (unsigned i = 0; i < n; ++i) step(ctx, ctx.choose(n_ops, "op"), r, f, h);
    // The state at the end.
    for (int i = 0; i < 2; ++i) {
        const auto v = r.next();
        const auto e = f.next();
        ctx.op();
        MC_CHECK(ctx, v == e, "after", h, " the next output is ", hex(v), " instead of ", hex(e));
        ctx.state(v);
    }
}

// One long run: 2^16 outputs (thorough: 2^20) from each of a few seeds.
void b_long(mc::Ctx &ctx)
{
    const auto &w = words(false);
    const auto s0 = w[ctx.choose(14, "s0")], s1 = w[1 + ctx.choose(13, "s1")];
    rng_t r(s0, s1);
    RefRng f(s0, s1);
    const unsigned n = ctx.thorough() ? 200000 : 20000;
    for (unsigned i = 0; i < n; ++i) {
        const auto v = r.next();
        const auto e = f.next();
        ctx.validated();
        if (v != e) ctx.fail(mc::cat("output ", i, " from the seeds ", hex(s0), " ", hex(s1), " is ", hex(v), " instead of ", hex(e)));
    }
    ctx.op(n);
    ctx.state(mc::mix(s0, s1));
}

// In constant expressions.
constexpr std::array<u64, 6> ct(u64 a, u64 b)
{
    rng_t r(a, b);
    std::array<u64, 6> out{};
    out[0] = r.next();
    out[1] = r();
    out[2] = static_cast<u64>(r.random<int>());
    out[3] = static_cast<u64>(r.random<unsigned __int128>() >> 64);
    out[4] = static_cast<u64>(r.random<signed char>());
    out[5] = r.next();
    return out;
}
template <u64 A, u64 B>
void ct_one(mc::Ctx &ctx)
{
    constexpr auto o = ct(A, B);
    RefRng f(A, B);
    u64 e[7];
    for (auto &x : e) x = f.next();
    ctx.op(6);
    MC_CHECK(ctx, o[0] == e[0] && o[1] == e[1] && o[2] == static_cast<u64>(static_cast<int>(e[2])) && o[3] == e[3]
                 && o[4] == static_cast<u64>(static_cast<signed char>(e[5])) && o[5] == e[6],
             "wrong outputs in a constant expression, seeds ", hex(A), " ", hex(B));
}
void b_ct(mc::Ctx &ctx)
{
    switch (ctx.choose(4, "seeds")) {
        case 0: return ct_one<1, 0>(ctx);
        case 1: return ct_one<12724899751400538854ull, 9282269007213506749ull>(ctx);
        case 2: return ct_one<~u64(0), ~u64(0)>(ctx);
        default: return ct_one<0, u64(1) << 63>(ctx);
    }
}

mc::Reg reg({{"seeds", b_seeds, 2, 0, false}, {"hist", b_hist, 2, 0, false}, {"long", b_long, 2, 0, false}, {"ct", b_ct, 1, 0, false}});
} // namespace
