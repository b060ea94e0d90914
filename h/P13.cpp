// P13: evaluation and substitution of all members of bounded universes with all the assignments of a set of values to
// every subset of a set of names (present and absent ones), against direct computation.
#include "pairs.hpp"

#include <obake/math/evaluate.hpp>
#include <obake/math/subs.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

Ref rpow(const Ref &b, ll e)
{
    if (e >= 0) return b.pow(static_cast<unsigned>(e));
    // One term.
    const auto &[m, c] = *b.t.begin();
    Mono k(m);
    Rat q(1);
    for (auto &[s, v] : k) v *= e;
    for (ll i = 0; i < -e; ++i) q /= c;
    Ref r;
    r.add(k, q);
    return r;
}
struct Undefined {
};
// A negative power of zero or (for polynomials) of a sum.
Ref substitute(const Ref &a, const std::map<std::string, Ref> &v)
{
    Ref r;
    for (const auto &[m, c] : a.t) {
        Ref p(c);
        for (const auto &[s, e] : m) {
            const auto it = v.find(s);
            if (it == v.end()) {
                Ref x;
                x.add(Mono{{s, e}}, Rat(1));
                p = p * x;
            } else {
                if (e < 0 && it->second.t.size() != 1u) throw Undefined{};
                p = p * rpow(it->second, e);
            }
        }
        r = r + p;
    }
    return r;
}
template <typename U>
struct Val {
    U u;
    Ref r;
};

template <typename F>
auto lazy(F f)
{
    using T = decltype(f());
    auto p = std::make_shared<T *>(nullptr);
    return [p, f]() -> const T & {
        if (!*p) *p = new T(f());
        return **p;
    };
}

// All the partial assignments.
template <typename U>
std::vector<std::pair<obake::symbol_map<U>, std::map<std::string, Ref>>> assignments(const Syms &names, const std::vector<Val<U>> &vals)
{
    std::vector<std::pair<obake::symbol_map<U>, std::map<std::string, Ref>>> out;
    out.emplace_back();
    for (const auto &n : names) {
        const auto cur = out;
        for (const auto &[m, r] : cur)
            for (const auto &v : vals) {
                auto m2 = m;
                auto r2 = r;
                m2.emplace(n, v.u);
                r2.emplace(n, v.r);
                out.emplace_back(std::move(m2), std::move(r2));
            }
    }
    return out;
}
std::string show_map(const std::map<std::string, Ref> &m)
{
    std::string s;
    for (const auto &[k, v] : m) s += k + " -> " + v.str() + " ";
    return "{" + s + "}";
}
template <typename P>
std::set<std::string> all_syms(const P &p)
{
    std::set<std::string> r;
    if constexpr (obake::is_cvr_series_v<P>) {
        for (const auto &s : p.get_symbol_set()) r.insert(s);
        for (const auto &t : p) {
            const auto q = all_syms(t.second);
            r.insert(q.begin(), q.end());
        }
    }
    return r;
}
template <typename P, typename A>
void check_eval(mc::Ctx &ctx, const P &a, const Ref &ra, const A &as)
{
    const auto need = all_syms(a);
    for (const auto &[m, v] : as) {
        bool missing = false;
        for (const auto &s : need)
            if (!v.count(s)) missing = true;
        bool undef = false;
        Ref e;
        try {
            e = substitute(ra, v);
        } catch (const Undefined &) {
            undef = true;
        }
        if (undef && missing) continue;
        ctx.op();
        int o = 0;
        Ref got, got2;
        try {
            const auto r = obake::evaluate(a, m);
            got = to_ref(r);
            got2 = to_ref(obake::evaluate(P(a), m));
        } catch (const mppp::zero_division_error &) {
            o = 2;
        } catch (const std::invalid_argument &) {
            o = 1;
        }
        ctx.validated(2);
        if (undef && o != 0) continue;
        if (!undef && o != (missing ? 1 : 0)) ctx.fail(mc::cat("evaluate(", show(a), ", ", show_map(v), ") ended in state ", o, " (0: a value, 1: invalid_argument, 2: division by zero)"));
        if (!undef && o == 0 && (got != e || got2 != e)) ctx.fail(mc::cat("evaluate(", show(a), ", ", show_map(v), ") gave ", got.str(), ", expected ", e.str()));
        if (undef) ctx.fail(mc::cat("evaluate(", show(a), ", ", show_map(v), ") has a value although a negative power of zero occurs"));
    }
    if (to_ref(a) != ra) ctx.fail("the operand of evaluate() was modified");
}
template <typename P, typename A>
void check_subs(mc::Ctx &ctx, const P &a, const Ref &ra, const A &as)
{
    for (const auto &[m, v] : as) {
        Ref e;
        try {
            e = substitute(ra, v);
        } catch (const Undefined &) {
            bool thrown = false;
            try {
                (void)obake::subs(a, m);
            } catch (const mppp::zero_division_error &) {
                thrown = true;
            } catch (const std::invalid_argument &) {
                thrown = true;
            }
            MC_CHECK(ctx, thrown, "subs(", show(a), ", ", show_map(v), ") has a value although a negative power of a non-invertible object occurs");
            continue;
        }
        ctx.op();
        const auto r = obake::subs(a, m);
        ctx.validated();
        if (to_ref(r) != e) ctx.fail(mc::cat("subs(", show(a), ", ", show_map(v), ") gave ", show(r), ", expected ", e.str()));
        check_inv(ctx, r, "subs");
        if (to_ref(obake::subs(P(a), m)) != e) ctx.fail(mc::cat("subs(move(", show(a), "), ", show_map(v), ") is different"));
    }
    if (to_ref(a) != ra) ctx.fail("the operand of subs() was modified");
}
template <typename P, typename U>
std::function<void(mc::Ctx &)> ev(Univ u, Syms names, std::function<std::vector<Val<U>>()> vals)
{
    // NOTE: built at the first use, never destroyed (the values may be series).
    const auto as = lazy([names, vals] { return assignments<U>(names, vals()); });
    return all_of(u, [as](mc::Ctx &ctx, const Desc &d) {
        check_eval(ctx, d.make<P>(), d.ref(), as());
        ctx.state(d.str());
    });
}
template <typename P, typename U>
std::function<void(mc::Ctx &)> sub(Univ u, Syms names, std::function<std::vector<Val<U>>()> vals)
{
    // NOTE: built at the first use, never destroyed (the values may be series).
    const auto as = lazy([names, vals] { return assignments<U>(names, vals()); });
    return all_of(u, [as](mc::Ctx &ctx, const Desc &d) {
        check_subs(ctx, d.make<P>(), d.ref(), as());
        ctx.state(d.str());
    });
}
template <typename PP, typename P, typename U>
std::function<void(mc::Ctx &)> nested(Univ uo, Univ ui, Syms names, std::function<std::vector<Val<U>>()> vals)
{
    // NOTE: built at the first use, never destroyed (the values may be series).
    const auto as = lazy([names, vals] { return assignments<U>(names, vals()); });
    return all_pairs(uo, ui, [as](mc::Ctx &ctx, const Desc &o, const Desc &i) {
        PP q;
        q.set_n_segments(o.segs);
        q.set_symbol_set(to_ss(o.ss));
        for (const auto &t : o.ts) q.add_term(key_access<obake::series_key_t<PP>>::make(t.e), i.make<P>() * obake::series_cf_t<P>(t.c));
        const Ref r = o.ref() * i.ref();
        check_eval(ctx, q, r, as());
        check_subs(ctx, q, r, as());
        ctx.state(show(q));
    });
}

template <typename U>
std::function<std::vector<Val<U>>()> scal(std::vector<Rat> v)
{
    return [v] {
        std::vector<Val<U>> r;
        for (const auto &q : v) r.push_back({make_cf<U>(q), Ref(q)});
        return r;
    };
}
template <typename P>
std::function<std::vector<Val<P>>()> polys(std::vector<Desc> v)
{
    return [v] {
        std::vector<Val<P>> r;
        for (const auto &d : v) r.push_back({d.make<P>(), d.ref()});
        return r;
    };
}

using k32 = op::packed_monomial<std::int32_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using PR = obake::polynomial<k32, Rat>;
using WR = obake::polynomial<op::packed_monomial<std::int64_t>, Rat>;
using WD = obake::polynomial<op::d_packed_monomial<std::int64_t, 1>, Rat>;
using PI = obake::polynomial<k32, Int>;
using PF = obake::polynomial<k32, double>;
using PD = obake::polynomial<d32, Rat>;
using PP = obake::polynomial<k32, PR>;

const Desc dx{{"x"}, {{{1}, 1}}, 0}, dxy{{"x", "y"}, {{{1, 0}, 1}, {{0, 1}, -1}}, 1}, dz{{"z"}, {{{2}, 2}}, 0}, d0{{}, {}, 0}, d1{{"w"}, {{{0}, 1}, {{1}, 1}}, 0};
const Univ u1{{{}, {"x"}, {"x", "y"}, {"a", "x", "z"}}, {0, 1, 2}, {Rat(1), Rat(-3, 2)}, 2, {0}};
const Univ u2{{{"x"}, {"x", "y"}}, {-2, 0, 1}, {Rat(1)}, 2, {0, 1}};
const Univ u3{{{}, {"x"}, {"b", "x", "y"}}, {0, 1, 3}, {Rat(1), Rat(-2)}, 2, {0, 2}};
const Univ us{{{"x"}, {"x", "y"}}, {0, 1, 2}, {Rat(1), Rat(-2)}, 2, {0}};
// Exponents beyond 8 and 16 bits.
const Univ w1{{{"x"}, {"x", "y"}}, {-200, 0, 1, 131, 300, 40000}, {Rat(1)}, 1, {0}}, w2{{{"x"}}, {-200, 0, 1, 131, 300, 40001}, {Rat(1), Rat(-1)}, 2, {0}};
const Univ un{{{"x"}, {"x", "y"}}, {-1, 0, 2}, {Rat(1), Rat(-2)}, 2, {0}};

#if PART == 0
const mc::Reg reg({
    {"evaluate, rat at rat", ev<PR, Rat>(u1, {"a", "x", "y", "z"}, scal<Rat>({Rat(0), Rat(-1, 2)}))},
    {"evaluate, rat at rat, negative exponents", ev<PR, Rat>(u2, {"b", "x", "y"}, scal<Rat>({Rat(0), Rat(2), Rat(-1, 3)}))},
    {"evaluate, large exponents", ev<WR, Rat>(w1, {"x", "y"}, scal<Rat>({Rat(0), Rat(-1), Rat(2)}))},
    {"evaluate, large exponents, two terms", ev<WR, Rat>(w2, {"a", "x"}, scal<Rat>({Rat(1), Rat(-1), Rat(-2, 3)}))},
    {"evaluate, rat at integers", ev<PR, Int>(u1, {"a", "x", "y", "z"}, scal<Int>({Rat(0), Rat(-2)}))},
});
#elif PART == 1
const mc::Reg reg({
    {"evaluate, int at double", ev<PI, double>(u3, {"b", "x", "y"}, scal<double>({Rat(0), Rat(-1), Rat(3)}))},
    {"evaluate, double at double", ev<PF, double>(us, {"x", "y", "z"}, scal<double>({Rat(0), Rat(1), Rat(-1, 2)}))},
    {"evaluate, int at rat", ev<PI, Rat>(u3, {"b", "x", "y", "zz"}, scal<Rat>({Rat(0), Rat(1, 2)}))},
});
#elif PART == 2
const mc::Reg reg({
    {"evaluate, d_packed rat at rat", ev<PD, Rat>(u1, {"a", "x", "y", "z"}, scal<Rat>({Rat(0), Rat(-1, 2)}))},
    {"evaluate, d_packed rat at rat, negative exponents", ev<PD, Rat>(u2, {"b", "x", "y"}, scal<Rat>({Rat(0), Rat(2)}))},
    {"evaluate, unsigned packed64", ev<obake::polynomial<u64, Rat>, Rat>(u3, {"b", "x", "y"}, scal<Rat>({Rat(0), Rat(2, 3)}))},
    {"larger operands, evaluate", ev<PD, Rat>(scale({5, 33, 100}, {2, 5, 9}, {0, 5}, false), {"a", "x", "y", "b", "z", "c", "w", "u", "v"}, scal<Rat>({Rat(-1, 2)}))},
    {"evaluate, large exponents, d_packed", ev<WD, Rat>(w1, {"x", "y"}, scal<Rat>({Rat(0), Rat(-1), Rat(2)}))},
    {"substitute, large exponents, d_packed", sub<WD, Rat>(w1, {"x", "y"}, scal<Rat>({Rat(0), Rat(-1), Rat(2)}))},
    {"substitute, unsigned packed64", sub<obake::polynomial<u64, Rat>, Rat>(u3, {"b", "x", "y"}, scal<Rat>({Rat(0), Rat(2, 3)}))},
    {"substitute, d_packed rat by rat", sub<PD, Rat>(u1, {"a", "x", "y", "z"}, scal<Rat>({Rat(0), Rat(-1, 2)}))},
    {"substitute, d_packed rat by rat, negative exponents", sub<PD, Rat>(u2, {"b", "x", "y"}, scal<Rat>({Rat(0), Rat(2)}))},
});
#elif PART == 3
const mc::Reg reg({
    {"substitute, rat by rat", sub<PR, Rat>(u1, {"a", "x", "y", "z"}, scal<Rat>({Rat(0), Rat(-1, 2)}))},
    {"substitute, rat by rat, negative exponents", sub<PR, Rat>(u2, {"b", "x", "y"}, scal<Rat>({Rat(0), Rat(2)}))},
    {"substitute, large exponents", sub<WR, Rat>(w1, {"x", "y"}, scal<Rat>({Rat(0), Rat(-1), Rat(2)}))},
    {"substitute, large exponents, two terms", sub<WR, Rat>(w2, {"a", "x"}, scal<Rat>({Rat(1), Rat(-1), Rat(-2, 3)}))},
    {"substitute, int by integers", sub<PI, Int>(u3, {"b", "x", "y"}, scal<Int>({Rat(0), Rat(-2)}))},
    {"larger operands, substitute", sub<PR, Rat>(scale({5, 33, 100}, {2, 5}, {0, 5}, false), {"a", "x", "y", "z"}, scal<Rat>({Rat(0), Rat(-1, 2)}))},
    {"substitute, int by rat", sub<PI, Rat>(us, {"x", "y", "z"}, scal<Rat>({Rat(0), Rat(-1, 2)}))},
});
#elif PART == 4
const mc::Reg reg({
    {"substitute, rat by polynomials", sub<PR, PR>(us, {"x", "y", "z"}, polys<PR>({dx, dxy, d0}))},
    {"substitute, rat by polynomials, negative exponents", sub<PR, PR>(un, {"x", "y"}, polys<PR>({dz, dxy, d0, d1}))},
    {"thorough substitute, rat by polynomials", sub<PR, PR>(u1, {"a", "x", "y", "z"}, polys<PR>({dx, dxy, d1})), 2, 1},
});
#elif PART == 5
const mc::Reg reg({
    {"substitute, int by polynomials", sub<PI, PI>(us, {"x", "y"}, polys<PI>({dx, dxy, d0, d1}))},
    {"evaluate, rat at polynomials", ev<PR, PR>(us, {"x", "y", "z"}, polys<PR>({dx, dxy, d0}))},
    {"larger operands, substitute polynomials", sub<PI, PI>(scale({5, 33}, {2, 3}, {0, 5}, false), {"x", "y"}, polys<PI>({dx, dxy, d1}))},
});
#elif PART == 6
const Univ no{{{"x"}, {"a", "y"}}, {-1, 0, 1}, {Rat(1), Rat(-1)}, 2, {0}};
const Univ ni{{{}, {"x"}, {"b", "x"}}, {0, 1, 2}, {Rat(1), Rat(2)}, 2, {0}};
const mc::Reg reg({
    {"nested, by rat", nested<PP, PR, Rat>({{{"x"}, {"a", "y"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0}}, {{{}, {"x"}, {"b", "x"}}, {0, 2}, {Rat(1), Rat(2)}, 2, {0}}, {"a", "b", "x", "y"}, scal<Rat>({Rat(0), Rat(2)}))},
    {"thorough nested, by rat", nested<PP, PR, Rat>(no, ni, {"a", "b", "x", "y"}, scal<Rat>({Rat(0), Rat(2)})), 2, 1},
});
#endif

} // namespace
