// P16: trimming, addition of symbols and filtering of all members of bounded universes, flat, nested and truncated.
#include "pairs.hpp"

#include <obake/math/trim.hpp>
#include <obake/power_series/power_series.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

// The terms, with the names of the symbols.
template <typename P>
bool trimmed_symbols_ok(const P &p)
{
    // All the symbols of p occur in its keys, recursively.
    std::set<std::string> seen;
    const Syms names = to_syms(p.get_symbol_set());
    for (const auto &t : p) {
        const auto e = key_access<obake::series_key_t<P>>::get(t.first, static_cast<unsigned>(names.size()));
        for (std::size_t i = 0; i < names.size(); ++i)
            if (e[i] != 0) seen.insert(names[i]);
        if constexpr (obake::is_cvr_series_v<obake::series_cf_t<P>>) {
            if (!trimmed_symbols_ok(t.second)) return false;
        }
    }
    return seen.size() == names.size();
}
// A canonical description of a nested series (the reference of a nested series flattens it).
template <typename P>
std::map<Mono, Ref> structure(const P &p)
{
    std::map<Mono, Ref> r;
    const Syms names = to_syms(p.get_symbol_set());
    for (const auto &t : p) {
        const auto e = key_access<obake::series_key_t<P>>::get(t.first, static_cast<unsigned>(names.size()));
        Mono m;
        for (std::size_t i = 0; i < names.size(); ++i)
            if (e[i]) m.emplace(names[i], e[i]);
        r.emplace(m, to_ref(t.second));
    }
    return r;
}
template <typename Tag>
std::string tag_str(const Tag &t)
{
    if constexpr (requires { t.trunc; }) {
        std::ostringstream o;
        o << t;
        return o.str();
    } else {
        return "";
    }
}
template <typename P>
void same(mc::Ctx &ctx, const P &p, const P &r, const std::map<Mono, Ref> &terms, const std::string &what)
{
    ctx.op();
    ctx.validated();
    if (structure(r) != terms) ctx.fail(mc::cat(what, " of ", show(p), " gave ", show(r)));
    if (r.get_s_size() != p.get_s_size()) ctx.fail(mc::cat(what, " of ", show(p), " changed the segmentation: ", show(r)));
    if (tag_str(r.tag()) != tag_str(p.tag())) ctx.fail(mc::cat(what, " of ", show(p), " changed the tag"));
    check_inv(ctx, r, what);
}

template <typename P>
void check(mc::Ctx &ctx, const P &p, const std::vector<Syms> &adds)
{
    const auto terms = structure(p);
    const auto flat = to_ref(p);
    const auto names = to_syms(p.get_symbol_set());
    // Trimming.
    auto trim = [&](const P &r, const char *what) {
        same(ctx, p, r, terms, what);
        if (!trimmed_symbols_ok(r)) ctx.fail(mc::cat(what, " of ", show(p), " left unused symbols: ", show(r)));
        const auto rn = to_syms(r.get_symbol_set());
        if (!std::includes(names.begin(), names.end(), rn.begin(), rn.end())) ctx.fail(mc::cat(what, " of ", show(p), " added symbols: ", show(r)));
    };
    const P t = obake::trim(p);
    trim(t, "trim");
    trim(obake::trim(P(p)), "trim (rvalue)");
    trim(obake::trim(t), "repeated trim");
    MC_CHECK(ctx, t == p, "the trimmed ", show(p), " compares different from the original");
    // Addition of symbols.
    for (const auto &ad : adds) {
        const auto r = obake::add_symbols(p, to_ss(ad));
        same(ctx, p, r, terms, "add_symbols");
        if (to_syms(r.get_symbol_set()) != syms_union(names, ad)) ctx.fail(mc::cat("adding ", hv::str(ad), " to ", show(p), " gave ", show(r)));
        trim(obake::trim(r), "trim after add_symbols");
        if (to_syms(obake::trim(r).get_symbol_set()) != to_syms(t.get_symbol_set())) ctx.fail(mc::cat("adding symbols to ", show(p), " and trimming is not the same as trimming"));
    }
    // Filtering: every subset of the terms.
    std::vector<const void *> addr;
    std::vector<Mono> keys;
    for (const auto &kv : terms) keys.push_back(kv.first);
    // (Of more than eight terms: those that keep a period of eight.)
    for (unsigned m = 0; m < (1u << std::min<std::size_t>(keys.size(), 8u)); m += keys.size() > 8u ? 5u : 1u) {
        std::map<Mono, Ref> sub;
        std::set<Mono> keep;
        for (std::size_t i = 0; i < keys.size(); ++i)
            if (m & (1u << (i % 8u))) {
                sub.emplace(keys[i], terms.at(keys[i]));
                keep.insert(keys[i]);
            }
        std::map<Mono, int> calls;
        auto pred = [&](const obake::series_term_t<P> &x) {
            const auto e = key_access<obake::series_key_t<P>>::get(x.first, static_cast<unsigned>(names.size()));
            Mono k;
            for (std::size_t i = 0; i < names.size(); ++i)
                if (e[i]) k.emplace(names[i], e[i]);
            ++calls[k];
            return keep.count(k) != 0u;
        };
        const P f = obake::filtered(p, pred);
        same(ctx, p, f, sub, "filtered");
        P g(p);
        obake::filter(g, pred);
        same(ctx, p, g, sub, "filter");
        if (to_syms(f.get_symbol_set()) != names || to_syms(g.get_symbol_set()) != names) ctx.fail("filtering changed the symbols of " + show(p));
        for (const auto &[k, n] : calls) MC_CHECK(ctx, n == 2, "the predicate was not called once per term");
        MC_CHECK(ctx, calls.size() == keys.size(), "the predicate was not called for all the terms");
        if (g.size() == f.size()) MC_CHECK(ctx, f == g, "filter() and filtered() differ on ", show(p));
    }
    // A predicate that fails: the series is left valid.
    for (unsigned n = 0; n < keys.size(); ++n) {
        P g(p);
        unsigned k = 0;
        bool thrown = false;
        try {
            obake::filter(g, [&](const obake::series_term_t<P> &) -> bool {
                if (k++ == n) throw std::runtime_error("predicate");
                return k % 2u != 0u;
            });
        } catch (const std::runtime_error &) {
            thrown = true;
        }
        MC_CHECK(ctx, thrown, "the failure of a predicate is lost");
        check_inv(ctx, g, "filter with a failing predicate");
        ctx.op();
    }
    if (structure(p) != terms || to_ref(p) != flat || to_syms(p.get_symbol_set()) != names) ctx.fail("an operation modified its operand");
}
std::vector<Syms> subsets(const Syms &names)
{
    std::vector<Syms> r{{}};
    for (const auto &n : names) {
        const auto c = r;
        for (auto s : c) {
            s.push_back(n);
            r.push_back(s);
        }
    }
    return r;
}
template <typename P>
std::function<void(mc::Ctx &)> flat(Univ u, Syms names)
{
    return all_of(u, [a = subsets(names)](mc::Ctx &ctx, const Desc &d) {
        check(ctx, d.make<P>(), a);
        ctx.state(d.str());
    });
}
template <typename PP, typename P>
std::function<void(mc::Ctx &)> nested(Univ uo, Univ ui, Syms names)
{
    return all_pairs(ui, ui, [a = subsets(names), uo = enumerate(uo)](mc::Ctx &ctx, const Desc &x, const Desc &y) {
        const Desc *cf[] = {&x, &y};
        for (const auto &o : uo) {
            PP q;
            q.set_n_segments(o.segs);
            q.set_symbol_set(to_ss(o.ss));
            for (std::size_t i = 0; i < o.ts.size(); ++i) q.add_term(key_access<obake::series_key_t<PP>>::make(o.ts[i].e), cf[i % 2u]->make<P>());
            check(ctx, q, a);
        }
        ctx.state(x.str() + y.str());
    });
}
// Truncated power series.
template <typename K>
std::function<void(mc::Ctx &)> tagged(Univ u, Syms names)
{
    return all_of(u, [a = subsets(names)](mc::Ctx &ctx, const Desc &d) {
        using P = obake::p_series<K, Int>;
        for (int mode = 0; mode < 4; ++mode) {
            auto p = d.make<P>();
            if (mode == 1) obake::set_truncation(p, 5);
            if (mode == 2) obake::set_truncation(p, 5, obake::symbol_set{"x"});
            if (mode == 3) obake::set_truncation(p, 4, obake::symbol_set{"q", "y"});
            check(ctx, p, a);
        }
        ctx.state(d.str());
    });
}

using k32 = op::packed_monomial<std::int32_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using d64 = op::d_packed_monomial<std::int64_t, 1>;
using e8 = op::d_packed_monomial<std::uint64_t, 8>;

const Univ u1{{{}, {"x"}, {"x", "y"}, {"a", "x", "z"}}, {-2, 0, 1}, {Rat(1)}, 2, {0, 1}};
const Univ u2{{{}, {"x"}, {"x", "y"}}, {0, 3}, {Rat(1), Rat(-2)}, 4, {0, 1, 3}};
const Univ u3{{{"a", "b", "x", "y", "z"}}, {0, 1}, {Rat(1)}, 2, {0}};
const Univ no{{{"x"}, {"a", "y"}}, {0, 1}, {Rat(1)}, 2, {0, 1}};
const Univ ni{{{"x"}, {"b", "x"}}, {0, 2}, {Rat(1)}, 2, {0}};
const Syms n4{"a", "b", "x", "zz"};

#if PART == 0
const mc::Reg reg({
    {"packed32", flat<obake::polynomial<k32, Rat>>(u1, n4)},
    {"packed64, many terms", flat<obake::polynomial<u64, Int>>(u2, {"a", "x"})},
    {"large exponents", flat<obake::polynomial<op::packed_monomial<std::int64_t>, Rat>>({{{"x"}, {"x", "y"}}, {-300, 0, 70000}, {Rat(1)}, 2, {0}}, {"a", "x", "y"})},
    {"larger operands", flat<obake::polynomial<u64, Int>>(scale({5, 9, 33, 130}, {1, 2, 5, 9}, {0, 4}, false), {"a", "bb", "x"})},
    {"thorough packed32, three terms", flat<obake::polynomial<k32, Int>>({{{"x", "y"}, {"a", "x", "z"}}, {0, 1, 2}, {Rat(1)}, 3, {0, 2}}, {"a", "b", "zz"}), 2, 1},
});
#elif PART == 1
const mc::Reg reg({
    {"d_packed32, by two", flat<obake::polynomial<d32, Rat>>(u1, n4)},
    {"d_packed32, by two, five symbols", flat<obake::polynomial<d32, Int>>(u3, {"b", "c", "zz"})},
    {"d_packed64, by one", flat<obake::polynomial<d64, Int>>(u3, {"b", "c", "zz"})},
    {"larger operands, d_packed", flat<obake::polynomial<d32, Int>>(scale({5, 9, 33}, {1, 5, 9, 12}, {0, 4}, true), {"a", "bb", "q"})},
    {"unsigned d_packed64, by eight", flat<obake::polynomial<e8, double>>(u3, {"b", "c", "zz"})},
});
#elif PART == 2
using PI = obake::polynomial<k32, Int>;
const mc::Reg reg({
    {"nested", nested<obake::polynomial<k32, PI>, PI>(no, ni, {"a", "b"})},
});
#elif PART == 3
using PD = obake::polynomial<d32, Rat>;
const mc::Reg reg({
    {"nested, d_packed", nested<obake::polynomial<u64, PD>, PD>(no, ni, {"a", "b"})},
});
#elif PART == 4
const mc::Reg reg({
    {"power series", tagged<k32>({{{}, {"x"}, {"x", "y"}, {"a", "x", "z"}}, {0, 1}, {Rat(1)}, 2, {0, 1}}, {"a", "q"})},
    {"power series, d_packed", tagged<d32>({{{"x", "y"}, {"a", "x", "z"}}, {-1, 0, 1}, {Rat(1)}, 2, {0}}, {"a", "q"})},
});
#endif

} // namespace
