// P32: printing of integers.
#include <functional>
#include <sstream>

#include "../mc/mc.hpp"
#include "ints.hpp"

#include <mp++/integer.hpp>

#include <obake/cf/cf_stream_insert.hpp>
#include <obake/cf/cf_tex_stream_insert.hpp>
#include <obake/config.hpp>
#include <obake/detail/to_string.hpp>

using namespace hv;

namespace
{
std::string mp_str(const Z &z)
{
    // In two halves, so as not to depend on the constructors from 128-bit values.
    const auto h = mppp::integer<1>(static_cast<unsigned long>(z.m >> 64)), l = mppp::integer<1>(static_cast<unsigned long>(z.m));
    auto r = h * mppp::integer<1>("18446744073709551616") + l;
    if (z.neg) r = -r;
    return r.to_string();
}
template <typename T>
void one(mc::Ctx &ctx, T x, bool more)
{
    const auto z = Z::of(x);
    const auto e = z.str();
    const auto s = obake::detail::to_string(x);
    ctx.op();
    ctx.validated();
    if (s != e) ctx.fail(tname<T>() + " " + e + " is printed as " + s);
    if (!more) return;
    ctx.validated(2);
    if (mp_str(z) != e) ctx.fail("the reference representation of " + e + " is wrong: " + mp_str(z));
    // As a coefficient. NOTE: characters are not numbers.
    if constexpr (sizeof(T) > 1u && !std::is_same_v<T, wchar_t> && !std::is_same_v<T, char16_t> && !std::is_same_v<T, char32_t>) {
        std::ostringstream o1, o2;
        o1 << "a";
        obake::cf_stream_insert(o1, x);
        obake::cf_stream_insert(o1, std::as_const(x));
        o1 << 7;
        ctx.op(2);
        ctx.validated();
        if (o1.str() != "a" + e + e + "7") ctx.fail("the coefficient " + tname<T>() + " " + e + " is printed as " + o1.str());
        if constexpr (obake::is_tex_stream_insertable_cf_v<T>) {
            obake::cf_tex_stream_insert(o2, x);
            ctx.op();
            ctx.validated();
            if (o2.str() != e) ctx.fail("the TeX coefficient " + tname<T>() + " " + e + " is printed as " + o2.str());
        }
    }
}
template <typename T>
void edge(mc::Ctx &ctx)
{
    const auto &vs = values<T>();
    const unsigned chunks = 16;
    const auto c = ctx.choose(chunks, "chunk");
    for (std::size_t i = c; i < vs.size(); i += chunks) one<T>(ctx, vs[i], sizeof(T) > 2u || i % 7u == 0u);
    ctx.state(mc::cat(tname<T>(), c));
}
// All numbers with up to two nonzero digits, and runs of nines, with an offset.
template <typename T>
void digits(mc::Ctx &ctx)
{
    const auto i = ctx.choose(39, "position");
    u128 p = 1;
    for (unsigned k = 0; k < i; ++k) p *= 10u;
    for (u128 q = 1; q <= p; q *= 10u)
        for (unsigned d = 1; d < 10u; ++d)
            for (unsigned e = 0; e < 10u; ++e)
                for (int off = -1; off <= 1; ++off)
                    for (int neg = 0; neg < 2; ++neg) {
                        if (p > ~u128(0) / d) continue;
                        const u128 a = p * d, b = q * e;
                        if (a + b < a) continue;
                        Z z;
                        z.m = a + b + static_cast<u128>(static_cast<i128>(off));
                        z.neg = neg && z.m;
                        if (z.fits<T>()) one<T>(ctx, z.to<T>(), e == 0u || e == 9u);
                    }
    ctx.state(mc::cat(tname<T>(), i));
}
// Every value of a 32-bit type, by an odometer.
template <typename T>
void every(mc::Ctx &ctx)
{
    const unsigned chunks = ctx.thorough() ? 1024u : 1024u;
    const auto c = ctx.choose(chunks, "chunk");
    // Quick: two chunks of each 32.
    if (!ctx.thorough() && c % 32u != 0u && c % 32u != 31u) ctx.prune();
    const std::uint64_t per = (std::uint64_t(1) << 32) / chunks;
    Z z = Z::of(static_cast<T>(static_cast<std::int64_t>(int_min<T>()) + static_cast<std::int64_t>(per * c)));
    std::string cur = z.str();
    T x = z.to<T>();
    for (std::uint64_t k = 0; k < per; ++k) {
        if (obake::detail::to_string(x) != cur) ctx.fail(tname<T>() + " " + cur + " is printed as " + obake::detail::to_string(x));
        if (k + 1u == per) break;
        ++x;
        // The odometer.
        if (cur[0] == '-') {
            std::size_t i = cur.size() - 1u;
            while (cur[i] == '0') cur[i--] = '9';
            --cur[i];
            if (i == 1u && cur[1] == '0' && cur.size() > 2u) cur.erase(1, 1);
            if (cur == "-0") cur = "0";
        } else {
            std::size_t i = cur.size();
            while (i && cur[i - 1u] == '9') cur[--i] = '0';
            if (i)
                ++cur[i - 1u];
            else
                cur.insert(cur.begin(), '1');
        }
    }
    MC_CHECK(ctx, cur == zs(x), "the odometer went astray");
    ctx.op(static_cast<unsigned>(per));
    ctx.validated(static_cast<unsigned>(per));
    ctx.state(mc::cat(tname<T>(), c));
}
#define E1(T) {"edges_" #T, edge<T>, 1},
#define D1(T) {"digits_" #T, digits<T>, 1},
mc::Reg reg({E1(char) E1(signed char) E1(unsigned char) E1(short) E1(unsigned short) E1(int) E1(unsigned) E1(long) E1(unsigned long) E1(long long) E1(unsigned long long) E1(i128) E1(u128) D1(int) D1(unsigned) D1(long) D1(unsigned long) D1(long long) D1(unsigned long long) D1(i128) D1(u128){"every_int", every<int>, 1}, {"every_unsigned", every<unsigned>, 1}});
} // namespace
