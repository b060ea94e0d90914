// P23: the truncation setting: all histories of set/unset/copy/move/... on bounded universes.
#include "ps.hpp"

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>

#include <obake/hash.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/tex_stream_insert.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

template <typename P>
void same(mc::Ctx &ctx, const P &p, const Ref &r, const Trunc &t, const Syms &ss, const char *what)
{
    ctx.validated(3);
    if (to_ref(p) != r || !(trunc_of(p) == t) || to_syms(p.get_symbol_set()) != ss)
        ctx.fail(mc::cat(what, " gave ", show(p), ", ", trunc_of(p).str(), "; expected ", r.str(), " over ", str(ss), ", ", t.str()));
    check_inv(ctx, p, what);
}
template <typename P>
std::string header(const P &p)
{
    std::ostringstream o;
    o << p.tag();
    return o.str();
}
std::string expected_header(const Trunc &t)
{
    std::string s = "Series type: power series\n";
    if (t.kind == 0) return s + "Truncation: none";
    if (t.kind == 1) return s + mc::cat("Truncation degree: ", t.lim);
    s += mc::cat("Partial truncation degree: ", t.lim, ", {");
    for (std::size_t i = 0; i < t.names.size(); ++i) s += (i ? ", '" : "'") + t.names[i] + "'";
    return s + "}";
}
std::string expected_tex(const Trunc &t)
{
    if (t.kind == 0) return "";
    std::string s = mc::cat(" + \\mathcal{O}\\left( > ", t.lim);
    if (t.kind == 2) {
        s += " ; ";
        for (std::size_t i = 0; i < t.names.size(); ++i) s += (i ? ", " : "") + t.names[i];
    }
    return s + " \\right)";
}
template <typename OA, typename IA, typename P>
void round_trip(mc::Ctx &ctx, const P &p, const Ref &r, const Trunc &t, const Syms &ss, P dst)
{
    std::stringstream s;
    {
        OA o(s);
        o << p;
    }
    {
        IA i(s);
        i >> dst;
    }
    same(ctx, dst, r, t, ss, "loading");
    MC_CHECK(ctx, dst == p, "a loaded series differs from the saved one, ", show(p));
}

// Everything that observes or carries the setting, for one state.
template <typename P>
void observe(mc::Ctx &ctx, const P &p, const Ref &r, const Trunc &t, const Syms &ss, const std::vector<Trunc> &ts)
{
    ctx.op();
    same(ctx, p, r, t, ss, "the operation");
    MC_CHECK(ctx, header(p) == expected_header(t), "the text is ", header(p), " for ", t.str());
    std::ostringstream o;
    o << p;
    MC_CHECK(ctx, o.str().find(expected_header(t) + "\n") != std::string::npos, "the text of the series is ", o.str(), ", it should contain ", expected_header(t));
    std::ostringstream x;
    obake::tex_stream_insert(x, p);
    const auto et = expected_tex(t);
    const auto xs = x.str();
    MC_CHECK(ctx, t.kind == 0 ? xs.find("mathcal") == std::string::npos : xs.size() > et.size() && xs.substr(xs.size() - et.size()) == et && xs.find("mathcal") + et.size() > xs.size(), "the TeX form is ",
             xs, ", it should end with ", et);
    P c(p);
    same(ctx, c, r, t, ss, "copying");
    MC_CHECK(ctx, c == p && !(c != p), "a copy differs");
    MC_CHECK(ctx, obake::hash(c.tag()) == obake::hash(p.tag()), "a copy's setting has another hash");
    P m(std::move(c));
    same(ctx, m, r, t, ss, "moving");
    for (const auto &u : ts) {
        // Assignments over a series with any other setting.
        P d = build<P>({"q", "x"}, {{{1, 1}, Rat(3)}}, 1);
        set_trunc(d, u);
        const auto rd = to_ref(d);
        P e(d);
        d = p;
        same(ctx, d, r, t, ss, "copy assignment");
        d = std::move(e);
        same(ctx, d, rd, u, {"q", "x"}, "move assignment");
        P f(p);
        swap(d, f);
        same(ctx, d, r, t, ss, "swapping");
        same(ctx, f, rd, u, {"q", "x"}, "swapping");
        MC_CHECK(ctx, (d.tag() == f.tag()) == (t == u) && (d.tag() != f.tag()) == !(t == u), "the settings ", t.str(), " and ", u.str(), " compare wrongly");
        if (t == u) MC_CHECK(ctx, obake::hash(d.tag()) == obake::hash(f.tag()), "equal settings have different hashes");
        P g(f);
        round_trip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(ctx, p, r, t, ss, std::move(g));
    }
    round_trip<boost::archive::text_oarchive, boost::archive::text_iarchive>(ctx, p, r, t, ss, P());
    // Querying does not change anything; truncating again neither.
    P n(p);
    obake::truncate(n);
    same(ctx, n, r, t, ss, "truncating again");
    // The explicit truncations of any series.
    for (const auto &u : ts) {
        if (u.kind == 0) continue;
        P k(p);
        if (u.kind == 1)
            obake::truncate_degree(k, u.lim);
        else
            obake::truncate_p_degree(k, u.lim, to_ss(u.names));
        same(ctx, k, u.apply(r), t, ss, "explicit truncation");
    }
    P w(p);
    w.clear();
    same(ctx, w, Ref(), Trunc{}, {}, "clearing");
}
// All the histories of settings on the series of a universe.
template <typename P>
std::function<void(mc::Ctx &)> histories(Univ u, std::vector<Trunc> ts, unsigned depth)
{
    auto ds = std::make_shared<std::vector<Desc>>(enumerate(u));
    return [=](mc::Ctx &ctx) {
        const auto &d = ctx.pick(*ds, "series");
        if (ctx.logging()) ctx.log(d.str());
        auto p = d.make<P>();
        auto r = d.ref();
        Trunc t;
        for (unsigned i = 0; i < depth; ++i) {
            t = ctx.pick(ts, "setting");
            if (ctx.logging()) ctx.log(t.str());
            r = t.apply(r);
            // The setter returns its argument.
            const auto *q = &p;
            if (t.kind == 0)
                q = &obake::unset_truncation(p);
            else if (t.kind == 1)
                q = &obake::set_truncation(p, t.lim);
            else
                q = &obake::set_truncation(p, t.lim, to_ss(t.names));
            MC_CHECK(ctx, q == &p, "the setter returns another object");
            same(ctx, p, r, t, d.ss, "setting the truncation");
        }
        observe(ctx, p, r, t, d.ss, ts);
        ctx.state(show(p) + t.str());
    };
}
// Limits of several types at the ends of the degree type.
template <typename P>
std::function<void(mc::Ctx &)> limits()
{
    return [](mc::Ctx &ctx) {
        using D = obake::detail::psk_deg_t<obake::series_key_t<P>>;
        std::vector<Int> ls;
        for (const Int &x : {Int(0), Int(std::numeric_limits<std::int32_t>::min()), Int(std::numeric_limits<std::int32_t>::max()), Int(std::numeric_limits<std::uint32_t>::max()),
                             Int(std::numeric_limits<std::int64_t>::min()), Int(std::numeric_limits<std::int64_t>::max()), Int(std::numeric_limits<std::uint64_t>::max())})
            for (int d = -1; d <= 1; ++d) ls.push_back(x + d);
        const auto &l = ctx.pick(ls, "limit");
        const bool partial = ctx.flag("partial");
        const auto &ty = ctx.choose(3, "type");
        const bool pre = ctx.flag("already truncated");
        if (ctx.logging()) ctx.log("limit " + l.to_string());
        P p = build<P>({"x", "y"}, {{{1, 0}, Rat(1)}, {{2, 3}, Rat(2)}, {{0, 0}, Rat(5)}});
        if (pre) obake::set_truncation(p, 4);
        const auto r = to_ref(p);
        bool fits = true;
        if constexpr (std::is_integral_v<D>) fits = l >= Int(std::numeric_limits<D>::min()) && l <= Int(std::numeric_limits<D>::max());
        bool thrown = false;
        ctx.op();
        try {
            if (ty == 0u) {
                partial ? obake::set_truncation(p, l, obake::symbol_set{"y"}) : obake::set_truncation(p, l);
            } else if (ty == 1u) {
                const Rat q(l);
                partial ? obake::set_truncation(p, q, obake::symbol_set{"y"}) : obake::set_truncation(p, q);
            } else {
                // Not an integer at all.
                fits = false;
                const Rat q = Rat(l) + Rat(1, 2);
                partial ? obake::set_truncation(p, q, obake::symbol_set{"y"}) : obake::set_truncation(p, q);
            }
        } catch (const obake::safe_cast_failure &) {
            thrown = true;
        }
        MC_CHECK(ctx, thrown == !fits, "a limit of ", l, " of kind ", ty, " was ", thrown ? "rejected" : "accepted");
        if (thrown) {
            same(ctx, p, r, pre ? Trunc{1, 4, {}} : Trunc{}, {"x", "y"}, "a rejected limit");
        } else {
            Ref e;
            for (const auto &[m, c] : r.t)
                if (Int(partial ? Ref::mdeg(m, {"y"}) : Ref::mdeg(m)) <= l) e.t.emplace(m, c);
            MC_CHECK(ctx, to_ref(p) == e, "truncation at ", l, " gave ", show(p));
            const auto &tr = obake::get_truncation(p);
            MC_CHECK(ctx, tr.index() == (partial ? 2u : 1u) && Int(partial ? std::get<2>(tr).first : std::get<1>(tr)) == l, "the limit ", l, " is not reported back");
        }
        ctx.state(mc::cat(l, partial, ty, pre));
    };
}

using k32 = op::packed_monomial<std::int32_t>;
using u32 = op::packed_monomial<std::uint32_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using d2 = op::d_packed_monomial<std::int64_t, 2>;
using PI = obake::p_series<k32, Int>;
using DR = obake::p_series<d2, Rat>;
using UI = obake::p_series<u64, Int>;
using U3 = obake::p_series<u32, Int>;

const std::vector<Trunc> TS = {{0, 0, {}}, {1, -1, {}}, {1, 1, {}}, {1, 2, {}}, {2, 0, {}}, {2, 1, {"x"}}, {2, -1, {"x", "y"}}, {2, 1, {"w", "x"}}, {2, 2, {"w", "x"}}};
const std::vector<Trunc> TU = {{0, 0, {}}, {1, 0, {}}, {1, 1, {}}, {2, 1, {"x"}}, {2, 0, {"x", "y", "z"}}};
const Univ u2{{{}, {"x"}, {"x", "y"}}, {-1, 0, 1, 2}, {Rat(1)}, 2, {0, 1}};
const Univ u3{{{"x", "y"}}, {0, 1, 2}, {Rat(-7)}, 3, {1}};

#if PART == 0
const mc::Reg reg({
    {"histories, packed int32", histories<PI>(u2, TS, 2), 2},
    {"histories, packed int32, three terms", histories<PI>(u3, TS, 1), 2},
    {"limits, packed int32", limits<PI>()},
    {"thorough histories, packed int32", histories<PI>(u2, TS, 3), 2, 1},
});
#elif PART == 1
const mc::Reg reg({
    {"histories, d_packed int64", histories<DR>(u2, TS, 1), 2},
    {"histories, d_packed int64, three terms", histories<DR>(u3, TS, 2), 2},
    {"limits, d_packed int64", limits<DR>()},
});
#elif PART == 2
const mc::Reg reg({
    {"histories, packed uint64", histories<UI>({{{}, {"x"}, {"x", "y"}}, {0, 1, 2}, {Rat(1)}, 2, {0, 1}}, TU, 2), 2},
    {"limits, packed uint64", limits<UI>()},
    {"limits, packed uint32", limits<U3>()},
});
#endif

} // namespace
