// P18: serialization of all members of bounded universes into all (empty and non-empty) destinations, all short sequences
// of objects in one archive, and archives cut at every position.
#include "limits.hpp"
#include "pairs.hpp"

#include <optional>
#include <sstream>
#include <variant>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>

#include <obake/power_series/power_series.hpp>

using namespace hv;
namespace op = obake::polynomials;
using boost::archive::binary_iarchive;
using boost::archive::binary_oarchive;
using boost::archive::text_iarchive;
using boost::archive::text_oarchive;

namespace
{

template <typename T>
std::string tag_str(const T &x)
{
    if constexpr (requires { x.tag().trunc; }) {
        std::ostringstream o;
        o << x.tag();
        return o.str();
    } else {
        return "";
    }
}
// Everything that can be observed about an object.
template <typename T>
std::string view(const T &x)
{
    if constexpr (obake::is_cvr_series_v<T>) {
        return show(x) + tag_str(x) + std::to_string(x.size()) + obake::type_name<T>();
    } else if constexpr (std::is_same_v<T, obake::symbol_set>) {
        return str(to_syms(x));
    } else if constexpr (requires { x._container(); }) {
        std::string r = "m";
        for (const auto &c : x._container()) r += " " + std::to_string(c);
        return r;
    } else {
        return std::to_string(x.get_value());
    }
}
template <typename OA, typename T>
std::string save(const T &x)
{
    std::ostringstream o;
    {
        OA oa(o);
        oa << x;
    }
    return o.str();
}
template <typename IA, typename T>
void load(const std::string &s, T &x)
{
    std::istringstream i(s);
    IA ia(i);
    ia >> x;
}
template <typename P>
void equal(mc::Ctx &ctx, const P &a, const P &b, const std::string &va, const char *what)
{
    ctx.op();
    ctx.validated();
    if (view(b) != va) ctx.fail(mc::cat(what, ": ", va, " was restored as ", view(b)));
    if constexpr (obake::is_cvr_series_v<P>) {
        check_inv(ctx, b, what);
        // NOTE: also the coefficients.
        for (const auto &t : a) {
            const auto it = b.find(t.first);
            MC_CHECK(ctx, it != b.end(), what, ": a term is lost");
            if constexpr (obake::is_cvr_series_v<obake::series_cf_t<P>>) {
                MC_CHECK(ctx, view(it->second) == view(t.second), what, ": a coefficient ", view(t.second), " was restored as ", view(it->second));
            } else {
                MC_CHECK(ctx, it->second == t.second, what, ": a coefficient was restored wrongly");
            }
        }
        MC_CHECK(ctx, a == b, what, ": the restored object is different");
    }
}
// A saved object, and a destination.
template <typename P>
void pair_check(mc::Ctx &ctx, const P &p, const P &dst)
{
    const auto vp = view(p), vd = view(dst);
    {
        P q(dst);
        load<binary_iarchive>(save<binary_oarchive>(p), q);
        equal(ctx, p, q, vp, "binary archive");
        // The restored object can be used, and saved again.
        P r;
        load<text_iarchive>(save<text_oarchive>(q), r);
        equal(ctx, p, r, vp, "text archive");
    }
    MC_CHECK(ctx, view(p) == vp && view(dst) == vd, "serialization modified another object");
}
template <typename P>
P retag(const P &p0, int mode)
{
    P p(p0);
    if constexpr (requires { p.tag().trunc; }) {
        if (mode == 1) obake::set_truncation(p, 2);
        if (mode == 2) obake::set_truncation(p, 1, obake::symbol_set{"x"});
        if (mode == 3) obake::set_truncation(p, -1, obake::symbol_set{});
    }
    return p;
}
template <typename P>
std::function<void(mc::Ctx &)> pairs(Univ ua, Univ ub, int modes = 1)
{
    return all_pairs(ua, ub, [modes](mc::Ctx &ctx, const Desc &a, const Desc &b) {
        const auto p = a.make<P>();
        const auto d = b.make<P>();
        for (int i = 0; i < modes; ++i)
            for (int j = 0; j < modes; ++j) pair_check(ctx, retag(p, i), retag(d, j));
        ctx.state(a.str() + b.str());
    });
}
template <typename PP, typename P>
std::function<void(mc::Ctx &)> nested(Univ uo, Univ ui)
{
    return all_pairs(ui, ui, [uo = enumerate(uo)](mc::Ctx &ctx, const Desc &x, const Desc &y) {
        const Desc *cf[] = {&x, &y};
        PP prev;
        for (const auto &o : uo) {
            PP q;
            q.set_n_segments(o.segs);
            q.set_symbol_set(to_ss(o.ss));
            for (std::size_t i = 0; i < o.ts.size(); ++i) q.add_term(key_access<obake::series_key_t<PP>>::make(o.ts[i].e), cf[i % 2u]->make<P>());
            pair_check(ctx, q, prev);
            prev = q;
        }
        ctx.state(x.str() + y.str());
    });
}
// Archives cut at every position.
template <typename P>
std::function<void(mc::Ctx &)> cuts(Univ u, int modes = 1)
{
    return all_of(u, [modes](mc::Ctx &ctx, const Desc &d) {
        for (int m = 0; m < modes; ++m) {
            const auto p = retag(d.make<P>(), m);
            const auto s = save<binary_oarchive>(p);
            for (std::size_t n = 0; n < s.size(); ++n) {
                auto q = retag(build<P>({"x", "y"}, {{{1, 0}, Rat(1)}, {{0, 2}, Rat(-1)}}, 1), 1);
                ctx.op();
                ctx.validated();
                const auto vq = view(q);
                bool thrown = false;
                try {
                    std::istringstream i(s.substr(0, n));
                    binary_iarchive ia(i);
                    ia >> q;
                } catch (const std::exception &) {
                    thrown = true;
                }
                MC_CHECK(ctx, thrown, "loading an incomplete archive (", n, " of ", s.size(), " bytes) of ", show(p), " succeeded");
                check_inv(ctx, q, "failed load");
                // Empty, or (failure in the headers written by Boost) untouched.
                MC_CHECK(ctx, q.empty() || view(q) == vq, "a failed load left ", show(q));
                // And usable.
                load<binary_iarchive>(s, q);
                MC_CHECK(ctx, view(q) == view(p), "after a failed load, a successful one gave ", view(q), ", expected ", view(p));
            }
        }
        ctx.state(d.str());
    });
}

using k32 = op::packed_monomial<std::int32_t>;
using k64 = op::packed_monomial<std::int64_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using PI = obake::polynomial<k32, Int>;
using PR = obake::polynomial<k32, Rat>;
using PD = obake::polynomial<d32, Rat>;
using PP = obake::polynomial<k32, PI>;
using PS = obake::p_series<k32, Rat>;

// Sequences of objects of several kinds in one archive. Each object is a temporary.
using Obj = std::variant<PI, PD, PP, PS, k64, d32, obake::symbol_set>;
const std::vector<std::function<Obj()>> &kit()
{
    static const auto *k = new std::vector<std::function<Obj()>>{
        [] { return Obj(PI{}); },
        [] { return Obj(build<PI>({"x", "y"}, {{{1, 0}, Rat(3)}, {{0, -2}, Rat(-1)}}, 1)); },
        [] { return Obj(build<PI>({"x"}, {{{1}, Rat(3)}, {{0}, Rat(-1)}}, 2)); },
        [] { return Obj(build<PD>({"a", "b", "c"}, {{{1, 0, 4}, Rat(1, 2)}}, 0)); },
        [] {
            PP p;
            p.set_symbol_set(obake::symbol_set{"z"});
            p.add_term(k32{1}, build<PI>({"x"}, {{{1}, Rat(3)}}, 1));
            p.add_term(k32{0}, build<PI>({"y"}, {{{1}, Rat(3)}, {{2}, Rat(-7)}}, 0));
            return Obj(p);
        },
        [] { return Obj(retag(build<PS>({"x"}, {{{1}, Rat(1, 3)}}, 0), 1)); },
        [] { return Obj(retag(build<PS>({"x"}, {{{1}, Rat(1, 3)}, {{5}, Rat(1)}}, 1), 2)); },
        [] { return Obj(build<PS>({"x"}, {{{1}, Rat(1, 3)}}, 0)); },
        [] { return Obj(k64{1, -2, 3}); },
        [] { return Obj(d32{1, -2, 3}); },
        [] { return Obj(d32{}); },
        [] { return Obj(obake::symbol_set{"x", "", "a b"}); },
        [] { return Obj(obake::symbol_set{}); },
    };
    return *k;
}
template <typename OA, typename IA>
void sequence(mc::Ctx &ctx)
{
    const unsigned n = ctx.thorough() ? 4u : 3u;
    std::vector<unsigned> ids;
    for (unsigned i = 0; i < n; ++i) {
        const auto c = ctx.choose(static_cast<unsigned>(kit().size()) + (i ? 1u : 0u), "object");
        if (c == kit().size()) break;
        ids.push_back(c);
    }
    const bool reuse = ctx.flag("reuse the destination");
    std::ostringstream o;
    std::vector<std::string> views;
    std::string lg;
    {
        OA oa(o);
        std::optional<Obj> tmp;
        for (auto id : ids) {
            tmp.emplace(kit()[id]());
            std::visit(
                [&](const auto &x) {
                    oa << x;
                    views.push_back(view(x));
                },
                *tmp);
            lg += views.back() + "; ";
        }
    }
    if (ctx.logging()) ctx.log(lg);
    {
        std::istringstream i(o.str());
        IA ia(i);
        std::optional<Obj> tmp;
        std::vector<Obj> all;
        all.reserve(n);
        for (std::size_t k = 0; k < ids.size(); ++k) {
            // The destination: the previous object if it has the right type, or a fresh one.
            const auto proto = kit()[ids[k]]();
            if (!(reuse && tmp && tmp->index() == proto.index())) {
                std::visit([&](const auto &x) { tmp.emplace(std::in_place_type<std::decay_t<decltype(x)>>); }, proto);
            }
            std::visit([&](auto &x) { ia >> x; }, *tmp);
            ctx.op();
            all.push_back(*tmp);
            ctx.validated();
            std::visit([&](const auto &x) { MC_CHECK(ctx, view(x) == views[k], "object ", k, " of the archive was restored as ", view(x), ", expected ", views[k]); }, *tmp);
        }
        for (std::size_t k = 0; k < ids.size(); ++k) {
            std::visit([&](const auto &x) { MC_CHECK(ctx, view(x) == views[k], "object ", k, " changed while loading the others"); }, all[k]);
            std::visit(
                [&](const auto &x) {
                    if constexpr (obake::is_cvr_series_v<std::decay_t<decltype(x)>>) check_inv(ctx, x, "sequence");
                },
                all[k]);
        }
    }
    ctx.state(lg);
}
// Monomials with exponents at the limits.
template <typename K>
void edges(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    const unsigned n = ctx.choose(4, "size");
    const auto al = n ? edge_values<T>(group_size<K>::get(n)) : std::vector<T>{};
    std::vector<T> e;
    for (unsigned i = 0; i < n; ++i) e.push_back(ctx.pick(al, "exponent"));
    K k;
    try {
        k = K(e.begin(), e.end());
    } catch (const std::overflow_error &) {
        ctx.prune();
    }
    K q{T(1)};
    load<binary_iarchive>(save<binary_oarchive>(k), q);
    equal(ctx, k, q, view(k), "binary archive");
    MC_CHECK(ctx, q == k, "the restored monomial is different");
    K r{T(1), T(0), T(0)};
    load<text_iarchive>(save<text_oarchive>(k), r);
    equal(ctx, k, r, view(k), "text archive");
    MC_CHECK(ctx, r == k, "the restored monomial is different");
    ctx.state(vstr(e));
}
// Symbol sets.
void sets(mc::Ctx &ctx)
{
    const Syms names{"", " ", "a", "a b", "x\ny", "x_1", std::string("z\0z", 3), "\xc3\xa9"};
    auto mk = [&](unsigned m) {
        obake::symbol_set s;
        for (std::size_t i = 0; i < names.size(); ++i)
            if (m & (1u << i)) s.insert(names[i]);
        return s;
    };
    const auto a = mk(ctx.choose(1u << names.size(), "set"));
    for (unsigned m : {0u, 1u, 170u, 255u}) {
        auto d = mk(m), e = mk(m);
        load<binary_iarchive>(save<binary_oarchive>(a), d);
        load<text_iarchive>(save<text_oarchive>(a), e);
        ctx.op(2);
        ctx.validated(2);
        MC_CHECK(ctx, d == a && e == a, "the symbol set ", str(to_syms(a)), " was restored as ", str(to_syms(d)), " / ", str(to_syms(e)));
        MC_CHECK(ctx, std::is_sorted(d.begin(), d.end()), "a restored symbol set is not sorted");
    }
    ctx.state(str(to_syms(a)));
}

const Univ u1{{{}, {"x"}, {"x", "y"}}, {-2, 0, 1}, {Rat(1), Rat(-3, 2)}, 1, {0, 1}};
const Univ u2{{{"x"}, {"x", "y"}}, {0, 3}, {Rat(1), Rat(-2)}, 2, {0, 2}};
const Univ ud{{{}, {"x"}, {"b", "z"}}, {0, 1}, {Rat(1)}, 2, {0, 3}};
const Univ u5{{{"a", "b", "x", "y", "z"}}, {0, 1}, {Rat(1)}, 1, {0}};

#if PART == 0
const mc::Reg reg({
    {"packed32, rational", pairs<PR>(u1, ud)},
    {"packed64, integer", pairs<obake::polynomial<u64, Int>>(u2, ud)},
    {"larger operands", pairs<obake::polynomial<k64, Int>>(scale({33, 300, 1100}, {1, 3}, {0, 2, 9}, true), ud)},
    {"more than 65536 terms", pairs<obake::polynomial<k64, Int>>(scale({70000}, {1}, {0, 1}, true), {{{"x"}}, {0}, {Rat(1)}, 1, {0}})},
    {"large exponents", pairs<obake::polynomial<k64, Int>>({{{"x"}, {"x", "y"}}, {-300, 0, 70000}, {Rat(1), Rat(100000)}, 1, {0}}, ud)},
    {"packed64, double", pairs<obake::polynomial<k64, double>>(u1, ud)},
    {"archives cut at every position", cuts<PR>(u2)},
});
#elif PART == 1
const mc::Reg reg({
    {"d_packed32, rational", pairs<PD>(u1, ud)},
    {"d_packed32, five symbols", pairs<obake::polynomial<d32, Int>>(u5, u5)},
    {"archives cut at every position, d_packed", cuts<PD>(u5)},
});
#elif PART == 2
const mc::Reg reg({
    {"nested", nested<PP, PI>({{{"y"}, {"x", "z"}}, {0, 1}, {Rat(1)}, 2, {0, 1}}, {{{}, {"x"}, {"b", "x"}}, {0, 2}, {Rat(1), Rat(2)}, 2, {0}})},
    {"power series", pairs<PS>(u1, ud, 4)},
    {"archives cut at every position, power series", cuts<PS>(u1, 4)},
});
#elif PART == 3
const mc::Reg reg({
    {"sequences, binary", sequence<binary_oarchive, binary_iarchive>},
    {"sequences, text", sequence<text_oarchive, text_iarchive>},
    {"monomials, packed32", edges<k32>},
    {"monomials, packed64", edges<k64>},
    {"monomials, unsigned packed64", edges<u64>},
    {"monomials, d_packed32", edges<d32>},
    {"monomials, d_packed64", edges<op::d_packed_monomial<std::int64_t, 1>>},
    {"symbol sets", sets},
});
#endif

} // namespace
