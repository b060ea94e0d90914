// P10: copies, moves, swaps, assignments and conversions, over all (pairs of) members of bounded universes.
#include "pairs.hpp"

#include <obake/power_series/power_series.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

template <typename P>
void expect(mc::Ctx &ctx, const P &p, const Ref &r, const Syms &ss, int segs, const char *what, const Desc &a, const Desc &b)
{
    ctx.op();
    ctx.validated();
    if (to_ref(p) != r) ctx.fail(mc::cat(what, ": got ", show(p), ", expected ", r.str(), "; a = ", a.str(), ", b = ", b.str()));
    if (to_syms(p.get_symbol_set()) != ss) ctx.fail(mc::cat(what, ": got the symbols ", str(to_syms(p.get_symbol_set())), ", expected ", str(ss), "; a = ", a.str(), ", b = ", b.str()));
    if (segs >= 0 && static_cast<int>(p.get_s_size()) != segs) ctx.fail(mc::cat(what, ": got 2^", p.get_s_size(), " segments, expected 2^", segs, "; a = ", a.str(), ", b = ", b.str()));
    check_inv(ctx, p, what);
}
template <typename P>
void expect(mc::Ctx &ctx, const P &p, const Desc &d, const char *what, const Desc &a, const Desc &b)
{
    expect(ctx, p, d.ref(), d.ss, static_cast<int>(d.segs), what, a, b);
}

// Same type.
template <typename P>
std::function<void(mc::Ctx &)> same(Univ ua, Univ ub)
{
    return all_pairs(ua, ub, [](mc::Ctx &ctx, const Desc &da, const Desc &db) {
        const P a = da.make<P>(), b = db.make<P>();
        {
            P c(a);
            expect(ctx, c, da, "P(a)", da, db);
            c = b;
            expect(ctx, c, db, "c = b", da, db);
            // Independent of the source.
            c.clear();
            c = a;
            P d(std::move(c));
            expect(ctx, d, da, "P(move(c))", da, db);
            c = b;
            expect(ctx, c, db, "moved-from c = b", da, db);
            expect(ctx, d, da, "P(move(c)), c reassigned", da, db);
            d = std::move(c);
            expect(ctx, d, db, "d = move(c)", da, db);
            c = P(a);
            expect(ctx, c, da, "c moved from = P(a)", da, db);
            {
                P e(std::move(c));
            }
        }
        {
            P x(a), y(b);
            x.swap(y);
            expect(ctx, x, db, "x.swap(y)", da, db);
            expect(ctx, y, da, "x.swap(y)", da, db);
            using std::swap;
            swap(x, y);
            expect(ctx, x, da, "swap(x, y)", da, db);
            expect(ctx, y, db, "swap(x, y)", da, db);
            std::swap(x, y);
            expect(ctx, x, db, "std::swap(x, y)", da, db);
            expect(ctx, y, da, "std::swap(x, y)", da, db);
            auto &rx = x;
            x = rx;
            expect(ctx, x, db, "x = x", da, db);
            x.swap(rx);
            expect(ctx, x, db, "x.swap(x)", da, db);
            // In containers.
            std::vector<P> v{a, b, a};
            v.insert(v.begin(), b);
            v.erase(v.begin() + 1);
            expect(ctx, v[0], db, "vector", da, db);
            expect(ctx, v[1], db, "vector", da, db);
            expect(ctx, v[2], da, "vector", da, db);
        }
        {
            P x(a);
            x.clear_terms();
            expect(ctx, x, Ref(), da.ss, static_cast<int>(da.segs), "clear_terms", da, db);
            x = a;
            x.clear();
            expect(ctx, x, Ref(), {}, static_cast<int>(da.segs), "clear", da, db);
            x = b;
            expect(ctx, x, db, "assigned after clear", da, db);
        }
        expect(ctx, a, da, "a untouched", da, db);
        expect(ctx, b, db, "b untouched", da, db);
        ctx.state(mc::mix(mc::hstr(da.str()), mc::hstr(db.str())));
    });
}
// Between coefficient types.
template <typename To, typename From>
std::function<void(mc::Ctx &)> convert(Univ u)
{
    return all_of(u, [](mc::Ctx &ctx, const Desc &da) {
        using C = obake::series_cf_t<To>;
        const From a = da.make<From>();
        const Ref e = conv<C>(da.ref());
        const auto sg = static_cast<int>(da.segs);
        expect(ctx, To(a), e, da.ss, sg, "To(a)", da, da);
        expect(ctx, To(From(a)), e, da.ss, sg, "To(move(a))", da, da);
        Desc d2;
        d2.ss = {"q", "r"};
        d2.segs = 1;
        d2.ts = {{{1, 0}, 5}, {{0, 1}, 7}};
        for (const auto &d : {Desc{}, d2, da}) {
            To t = d.template make<To>();
            t = a;
            expect(ctx, t, e, da.ss, sg, "t = a", da, d);
            t = d.template make<To>();
            From f(a);
            t = std::move(f);
            expect(ctx, t, e, da.ss, sg, "t = move(a)", da, d);
            // The source can be assigned again.
            f = d.template make<From>();
            expect(ctx, f, d, "source of a converting move, reassigned", da, d);
        }
        expect(ctx, a, da, "a untouched", da, da);
        ctx.state(da.str());
    });
}
// Scalars.
template <typename P, typename T>
void scal(mc::Ctx &ctx, const T &x, const Rat &v, const std::vector<Desc> &ds)
{
    using C = obake::series_cf_t<P>;
    const Ref e = conv<C>(Ref(v));
    for (const auto &d : ds) {
        P p = d.make<P>();
        p = x;
        expect(ctx, p, e, {}, 0, "p = scalar", d, d);
        p = d.make<P>();
        p = T(x);
        expect(ctx, p, e, {}, 0, "p = move(scalar)", d, d);
        expect(ctx, P(x, to_ss(d.ss)), e, d.ss, 0, "P(scalar, symbols)", d, d);
    }
    expect(ctx, P(x), e, {}, 0, "P(scalar)", Desc{}, Desc{});
    expect(ctx, P(T(x)), e, {}, 0, "P(move(scalar))", Desc{}, Desc{});
    // And back.
    const P p(x);
    if constexpr (std::is_constructible_v<T, const C &>) {
        ctx.validated();
        if (to_ref(static_cast<T>(p)) != conv<T>(e)) ctx.fail(mc::cat("conversion of ", show(p), " back to a scalar"));
    }
}
template <typename P>
std::function<void(mc::Ctx &)> scalars(Univ u)
{
    return [v = enumerate(u)](mc::Ctx &ctx) {
        const int k = static_cast<int>(ctx.choose(9)) - 4;
        scal<P>(ctx, k, Rat(k), v);
        scal<P>(ctx, Int(k), Rat(k), v);
        scal<P>(ctx, Rat(k, 8), Rat(k, 8), v);
        scal<P>(ctx, k / 4., Rat(k, 4), v);
        ctx.state(std::to_string(k));
    };
}
template <typename T, typename P>
void back(mc::Ctx &ctx, const P &a, const Desc &d, const char *tn)
{
    const Ref r = d.ref();
    const bool single = r.t.empty() || (r.t.size() == 1u && r.t.begin()->first.empty());
    const Rat v = r.t.empty() ? Rat(0) : r.t.begin()->second;
    ctx.op();
    bool ok = true;
    Ref got;
    try {
        got = to_ref(static_cast<T>(a));
    } catch (const std::invalid_argument &) {
        ok = false;
    }
    ctx.validated();
    if (ok != single) ctx.fail(mc::cat("conversion of ", d.str(), " to ", tn, ok ? " succeeds" : " is rejected"));
    if (ok && got != conv<std::conditional_t<std::is_same_v<T, int>, Int, T>>(Ref(v))) ctx.fail(mc::cat("conversion of ", d.str(), " to ", tn, " gives ", got.str()));
}
template <typename P>
std::function<void(mc::Ctx &)> to_scalar(Univ u)
{
    return all_of(u, [](mc::Ctx &ctx, const Desc &d) {
        const P a = d.make<P>();
        back<int>(ctx, a, d, "int");
        back<Int>(ctx, a, d, "integer");
        back<Rat>(ctx, a, d, "rational");
        back<double>(ctx, a, d, "double");
        expect(ctx, a, d, "a untouched", d, d);
        ctx.state(d.str());
    });
}
// Between ranks.
template <typename PP, typename P>
std::function<void(mc::Ctx &)> ranks(Univ uo, Univ ui)
{
    return all_pairs(uo, ui, [](mc::Ctx &ctx, const Desc &o, const Desc &i) {
        using K = obake::series_key_t<PP>;
        const P p = i.make<P>();
        // Up: one term.
        expect(ctx, PP(p), i.ref(), {}, 0, "PP(p)", i, i);
        expect(ctx, PP(P(p)), i.ref(), {}, 0, "PP(move(p))", i, i);
        expect(ctx, PP(p, to_ss(o.ss)), i.ref(), o.ss, 0, "PP(p, symbols)", i, o);
        auto mk = [&]() {
            PP q;
            q.set_n_segments(o.segs);
            q.set_symbol_set(to_ss(o.ss));
            for (const auto &t : o.ts) q.add_term(key_access<K>::make(t.e), p * obake::series_cf_t<P>(t.c));
            return q;
        };
        const PP q = mk();
        const Ref rq = o.ref() * i.ref();
        PP q2 = mk();
        q2 = p;
        expect(ctx, q2, i.ref(), {}, 0, "q = p", i, o);
        expect(ctx, p, i, "p untouched", i, o);
        // Down.
        const bool single = q.empty() || (o.ts.size() == 1u && o.ref().t.begin()->first.empty());
        for (int form = 0; form < 4; ++form) {
            bool ok = true;
            P r;
            r.set_symbol_set(to_ss({"w"}));
            PP c = mk();
            ctx.op();
            try {
                if (form == 0)
                    r = P(c);
                else if (form == 1)
                    r = P(std::move(c));
                else if (form == 2)
                    r = c;
                else
                    r = std::move(c);
            } catch (const std::invalid_argument &) {
                ok = false;
            }
            ctx.validated();
            if (ok != single) ctx.fail(mc::cat("conversion of ", show(q), " to lower rank ", ok ? "succeeds" : "is rejected"));
            if (ok) expect(ctx, r, rq, q.empty() ? Syms{} : i.ss, -1, "P(q)", i, o);
            if (form == 0 || form == 2) {
                if (to_ref(c) != rq) ctx.fail("conversion to lower rank modified its argument " + show(q));
            }
            c = mk();
            if (to_ref(c) != rq) ctx.fail("the source of a conversion cannot be reassigned");
        }
        ctx.state(mc::mix(mc::hstr(o.str()), mc::hstr(i.str())));
    });
}
// Tags and truncation limits are carried along.
template <typename P1, typename P2>
std::function<void(mc::Ctx &)> tags(Univ u)
{
    return all_of(u, [](mc::Ctx &ctx, const Desc &d) {
        const auto lim = static_cast<std::int32_t>(ctx.choose(4)) - 1;
        const bool partial = ctx.flag("partial");
        const obake::symbol_set sub{"x", "z"};
        P1 a = d.make<P1>();
        if (partial)
            obake::set_truncation(a, lim, sub);
        else
            obake::set_truncation(a, lim);
        const Ref e = partial ? d.ref().truncated(lim, {"x", "z"}) : d.ref().truncated(lim);
        const auto tag = a.tag();
        const auto sg = static_cast<int>(d.segs);
        auto chk = [&](const auto &s, const Ref &r, const Syms &ss, const char *what) {
            expect(ctx, s, r, ss, -1, what, d, d);
            ctx.validated();
            if (!(s.tag() == tag)) ctx.fail(mc::cat(what, ": the truncation is lost, ", d.str(), " limit ", lim));
        };
        expect(ctx, a, e, d.ss, sg, "truncated", d, d);
        P1 b(a), c;
        chk(b, e, d.ss, "P(a)");
        c = a;
        chk(c, e, d.ss, "c = a");
        P1 m(std::move(b));
        chk(m, e, d.ss, "P(move(a))");
        c = P1{};
        c = std::move(m);
        chk(c, e, d.ss, "c = move(a)");
        P1 s;
        s.swap(c);
        chk(s, e, d.ss, "swap");
        ctx.validated();
        if (!(c.tag() == P1{}.tag())) ctx.fail("swap does not exchange the tags");
        using C2 = obake::series_cf_t<P2>;
        P2 t(a);
        chk(t, conv<C2>(e), d.ss, "P2(a)");
        P2 t2;
        t2 = a;
        chk(t2, conv<C2>(e), d.ss, "t = a");
        P2 t3(P1{a});
        chk(t3, conv<C2>(e), d.ss, "P2(move(a))");
        chk(a, e, d.ss, "a untouched");
        // To and from a polynomial: the tag types differ.
        using K = obake::series_key_t<P1>;
        using Pol = obake::polynomial<K, obake::series_cf_t<P1>>;
        expect(ctx, Pol(a), e, d.ss, sg, "polynomial(a)", d, d);
        P1 u(d.make<Pol>());
        expect(ctx, u, d.ref(), d.ss, sg, "power series(polynomial)", d, d);
        ctx.validated();
        if (!(u.tag() == P1{}.tag())) ctx.fail("a power series made from a polynomial is truncated");
        s.clear_terms();
        chk(s, Ref(), d.ss, "clear_terms");
        s = a;
        s.clear();
        ctx.validated();
        if (!(s.tag() == P1{}.tag())) ctx.fail("clear() does not reset the tag");
        ctx.state(mc::cat(d.str(), lim, partial));
    });
}

using k32 = op::packed_monomial<std::int32_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using PR = obake::polynomial<k32, Rat>;
using PI = obake::polynomial<k32, Int>;
using PF = obake::polynomial<k32, double>;
using PD = obake::polynomial<d32, Rat>;
using PDI = obake::polynomial<d32, Int>;
using PP = obake::polynomial<k32, PR>;
using SR = obake::p_series<k32, Rat>;
using SI = obake::p_series<k32, Int>;
using SD = obake::p_series<d32, Rat>;
using SDF = obake::p_series<d32, double>;

const Univ u1{{{}, {"x"}, {"a", "y"}}, {0, 1}, {Rat(1), Rat(-2)}, 2, {0, 2}};
const Univ u2{{{"x"}, {"x", "z"}}, {0, 2}, {Rat(1)}, 2, {0, 1}};
const Univ u3{{{}, {"x"}, {"x", "y"}}, {-1, 0, 1}, {Rat(1), Rat(1, 2), Rat(-3, 2), Rat(-2)}, 2, {0, 1, 3}};
const Univ u3t{{{}, {"x"}, {"x", "y"}}, {-1, 0, 1}, {Rat(1), Rat(1, 2), Rat(-3, 2), Rat(-2)}, 3, {0, 3}};

#if PART == 0
const mc::Reg reg({
    {"packed rat", same<PR>(u1, u2)},
    {"packed int", same<PI>(u2, u1)},
    {"larger operands", same<PR>(scale({5, 33, 300}, {1, 5}, {0, 5, 8}, true), scale({9, 100}, {2}, {0, 3, 10}, true))},
    {"thorough packed rat", same<PR>(u1, u3), 2, 1},
});
#elif PART == 1
const mc::Reg reg({
    {"d_packed rat", same<PD>(u2, u1)},
    {"nested scalars", same<PP>(u2, u1)},
    {"larger operands, d_packed", same<PD>(scale({5, 33}, {5, 11}, {0, 5}, true), scale({9, 100}, {2, 9}, {0, 3}, true))},
});
#elif PART == 2
const mc::Reg reg({
    {"rat from int", convert<PR, PI>({{{}, {"x"}, {"x", "y"}}, {-1, 0, 1}, {Rat(1), Rat(-2)}, 2, {0, 1, 3}})},
    {"int from rat", convert<PI, PR>(u3)},
    {"double from rat", convert<PF, PR>(u3)},
    {"int from double", convert<PI, PF>(u3)},
    {"d_packed int from rat", convert<PDI, PD>(u3)},
    {"larger operands, int from rat", convert<PI, PR>(scale({5, 33, 300, 1500}, {1, 5}, {0, 5, 8}, true))},
    {"larger operands, d_packed double from int", convert<obake::polynomial<obake::series_key_t<PD>, double>, PDI>(scale({5, 33, 300}, {5, 11}, {0, 5}, true))},
    {"thorough int from rat", convert<PI, PR>(u3t), 2, 1},
    {"thorough d_packed int from rat", convert<PDI, PD>(u3t), 2, 1},
});
#elif PART == 3
const mc::Reg reg({
    {"scalars, rat", scalars<PR>(u1)},
    {"scalars, int", scalars<PI>(u1)},
    {"scalars, double", scalars<PF>(u1)},
    {"scalars, d_packed rat", scalars<PD>(u1)},
    {"to scalar, rat", to_scalar<PR>(u3)},
    {"to scalar, d_packed rat", to_scalar<PD>(u3)},
    {"to scalar, double", to_scalar<PF>(u3)},
});
#elif PART == 4
const mc::Reg reg({
    {"ranks", ranks<PP, PR>({{{}, {"y"}, {"a", "y"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0, 1}}, u1)},
});
#elif PART == 5
const mc::Reg reg({
    {"tags, packed", tags<SR, SI>(u3)},
    {"tags, d_packed", tags<SD, SDF>(u3)},
});
#endif

} // namespace
