// Shared by the arithmetic harnesses: pairs of operands, result checks.
#ifndef VERIF_PAIRS_HPP
#define VERIF_PAIRS_HPP

#include <functional>
#include <memory>

#include "common.hpp"

#include <obake/polynomials/polynomial.hpp>

namespace hv
{

template <typename C>
Ref conv(const Ref &r)
{
    if constexpr (std::is_same_v<C, Int>) {
        // Term-by-term conversion of the coefficients.
        Ref o;
        for (const auto &[m, c] : r.t) o.add(m, Rat(Int(c)));
        return o;
    } else {
        return r;
    }
}

template <typename A, typename B>
struct prom {
    using type = std::conditional_t<std::is_same_v<A, B>, A,
                                    std::conditional_t<std::is_same_v<A, double> || std::is_same_v<B, double>, double,
                                                       std::conditional_t<std::is_same_v<A, Rat> || std::is_same_v<B, Rat>, Rat, Int>>>;
};
// The type of a binary operation on two polynomials with the same key type.
template <typename PA, typename PB>
using promoted = obake::polynomial<obake::series_key_t<PA>, typename prom<obake::series_cf_t<PA>, obake::series_cf_t<PB>>::type>;

template <typename Exp, typename R>
void check_res(mc::Ctx &ctx, const R &r, const Ref &exp, const Syms &us, const char *form, const Desc &a, const Desc &b)
{
    ctx.op();
    static_assert(std::is_same_v<R, Exp>);
    auto ctxt = [&]() { return mc::cat(form, " with a = ", a.str(), ", b = ", b.str(), " gave ", show(r), ", expected ", exp.str()); };
    const auto got = to_ref(r);
    ctx.validated();
    if (got != exp) ctx.fail(ctxt());
    if (to_syms(r.get_symbol_set()) != us) ctx.fail("wrong symbol set: " + ctxt());
    check_inv(ctx, r, form);
}

template <typename F>
std::function<void(mc::Ctx &)> all_pairs(const Univ &ua, const Univ &ub, F f)
{
    auto va = std::make_shared<std::vector<Desc>>(enumerate(ua));
    auto vb = std::make_shared<std::vector<Desc>>(enumerate(ub));
    return [va, vb, f](mc::Ctx &ctx) {
        const auto &da = ctx.pick(*va, "a");
        const auto &db = ctx.pick(*vb, "b");
        if (ctx.logging()) ctx.log("a = " + da.str() + ", b = " + db.str());
        f(ctx, da, db);
    };
}
template <typename F>
std::function<void(mc::Ctx &)> all_of(const Univ &u, F f)
{
    auto v = std::make_shared<std::vector<Desc>>(enumerate(u));
    return [v, f](mc::Ctx &ctx) {
        const auto &d = ctx.pick(*v, "a");
        if (ctx.logging()) ctx.log("a = " + d.str());
        f(ctx, d);
    };
}

} // namespace hv

#endif
