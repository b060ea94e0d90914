// P17: text and TeX output of all members of bounded universes (flat, nested up to rank 3, power series), read back by a
// parser of the printed notation.
#include "limits.hpp"
#include "pairs.hpp"

#include <cctype>

#include <obake/cf/cf_stream_insert.hpp>
#include <obake/cf/cf_tex_stream_insert.hpp>
#include <obake/power_series/power_series.hpp>
#include <obake/tex_stream_insert.hpp>

using namespace hv;
namespace op = obake::polynomials;

namespace
{

struct ParseError {
    std::string msg;
};

// expr := ['-'] term (('+'|'-') term)*, reading the juxtaposition of factors (TeX) or '*' (text) as a product.
class Parser
{
    const std::string &s;
    std::size_t i = 0;
    const bool tex;

public:
    unsigned top_terms = 0;
    bool ellipsis = false;
    Parser(const std::string &str, bool t) : s(str), tex(t) {}
    Ref parse()
    {
        const auto r = expr(true);
        if (i != s.size()) throw ParseError{"unexpected text at position " + std::to_string(i)};
        return r;
    }

private:
    bool at(const std::string &x) const
    {
        return s.compare(i, x.size(), x) == 0;
    }
    bool eat(const std::string &x)
    {
        if (!at(x)) return false;
        i += x.size();
        return true;
    }
    void need(const std::string &x)
    {
        if (!eat(x)) throw ParseError{"'" + x + "' is missing at position " + std::to_string(i)};
    }
    bool dots()
    {
        return eat(tex ? "\\ldots" : "...");
    }
    Ref expr(bool top)
    {
        Ref r;
        bool neg = eat("-");
        while (true) {
            const auto t = term();
            r = neg ? r - t : r + t;
            if (top) ++top_terms;
            if (eat("+")) {
                if (dots()) {
                    if (top) ellipsis = true;
                    return r;
                }
                // NOTE: "+-" is to be printed as "-".
                neg = false;
            } else if (eat("-")) {
                neg = true;
            } else {
                return r;
            }
        }
    }
    bool factor_ahead() const
    {
        if (i >= s.size()) return false;
        if (tex) return at("{") || at("\\frac") || at("\\left(") || std::isdigit(static_cast<unsigned char>(s[i]));
        return false;
    }
    Ref term()
    {
        const auto beg = i;
        auto r = factor();
        // NOTE: a unit coefficient is not listed before a monomial.
        if (s.compare(beg, i - beg, "1") == 0 && ((!tex && at("*")) || (tex && factor_ahead()))) throw ParseError{"a unit coefficient is listed"};
        while (true) {
            if (!tex && at("*")) {
                ++i;
                r = r * factor();
            } else if (tex && factor_ahead()) {
                // NOTE: a number can only come first.
                if (std::isdigit(static_cast<unsigned char>(s[i]))) throw ParseError{"a number follows another factor"};
                r = r * factor();
            } else {
                return r;
            }
        }
    }
    Int integer()
    {
        const auto b = i;
        while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i]))) ++i;
        if (b == i) throw ParseError{"a number is missing at position " + std::to_string(i)};
        return Int(s.substr(b, i - b));
    }
    ll exponent()
    {
        const bool neg = eat("-");
        if (neg && tex) throw ParseError{"a negative exponent in TeX"};
        // NOTE: 64-bit exponents wrap around in the reference polynomials too.
        const auto e = static_cast<unsigned long long>(integer());
        return static_cast<ll>(neg ? -e : e);
    }
    std::string name()
    {
        const auto b = i;
        while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_')) ++i;
        if (b == i) throw ParseError{"a name is missing at position " + std::to_string(i)};
        return s.substr(b, i - b);
    }
    Ref power(const std::string &n, ll e)
    {
        if (e == 0) throw ParseError{"a null exponent is printed"};
        if (e == 1) throw ParseError{"a unitary exponent is printed"};
        Ref r;
        r.add(Mono{{n, e}}, Rat(1));
        return r;
    }
    Ref var(const std::string &n)
    {
        Ref r;
        r.add(Mono{{n, 1}}, Rat(1));
        return r;
    }
    Ref number()
    {
        const Int a = integer();
        if (!tex && eat("/")) return Ref(Rat(a) / Rat(integer()));
        if (eat(".")) {
            // The decimals of a double.
            const auto b = i;
            const Int d = integer();
            Rat q(d);
            for (std::size_t k = b; k < i; ++k) q /= Rat(10);
            return Ref(Rat(a) + q);
        }
        return Ref(Rat(a));
    }
    Ref factor()
    {
        if (i >= s.size()) throw ParseError{"unexpected end"};
        if (std::isdigit(static_cast<unsigned char>(s[i]))) return number();
        if (!tex) {
            if (eat("(")) {
                const auto r = expr(false);
                need(")");
                return r;
            }
            const auto n = name();
            if (eat("**")) return power(n, exponent());
            return var(n);
        }
        if (eat("\\left(")) {
            const auto r = expr(false);
            need("\\right)");
            return r;
        }
        if (eat("\\frac{")) {
            const auto a = term();
            need("}{");
            const auto b = term();
            need("}");
            if (b.t.size() != 1u) throw ParseError{"bad denominator"};
            const auto &[m, c] = *b.t.begin();
            Mono inv;
            for (const auto &[n, e] : m) {
                inv.emplace(n, static_cast<ll>(-static_cast<unsigned long long>(e)));
            }
            Ref r;
            r.add(inv, Rat(1) / c);
            return a * r;
        }
        need("{");
        const auto n = name();
        need("}");
        if (eat("^{")) {
            const auto e = exponent();
            need("}");
            return power(n, e);
        }
        return var(n);
    }
};

template <typename P>
std::string text_of(const P &p)
{
    std::ostringstream o;
    o << p;
    return o.str();
}

template <typename P>
void check(mc::Ctx &ctx, const P &p, const Ref &r)
{
    const auto names = to_syms(p.get_symbol_set());
    std::string tag;
    auto read = [&](const std::string &s, bool tex, const char *what) {
        ctx.op();
        ctx.validated();
        try {
            Parser ps(s, tex);
            const auto got = ps.parse();
            const auto n = p.empty() ? 1u : static_cast<unsigned>(std::min<std::size_t>(p.size(), 50u));
            MC_CHECK(ctx, ps.ellipsis == (p.size() > 50u), what, ": the ellipsis is wrong in ", s);
            // NOTE: a composite coefficient of the term without symbols loses its parentheses.
            if (obake::series_rank<P> == 1u) MC_CHECK(ctx, ps.top_terms == n, what, ": ", ps.top_terms, " terms are listed, not ", n, ": ", s);
            if (p.size() <= 50u) {
                MC_CHECK(ctx, got == r, what, " of ", show(p), " reads ", s);
            } else {
                // The listed terms are terms of the series.
                MC_CHECK(ctx, got.t.size() == 50u, what, ": the terms listed are not different: ", s);
                for (const auto &[m, c] : got.t) MC_CHECK(ctx, r.t.count(m) && r.t.at(m) == c, what, ": a term is not one of the series: ", s);
            }
        } catch (const ParseError &e) {
            ctx.fail(mc::cat(what, " of ", show(p), " cannot be read back: ", s, " (", e.msg, ")"));
        }
    };
    // The text, with its header.
    const auto txt = text_of(p);
    std::vector<std::string> lines;
    {
        std::istringstream in(txt);
        std::string l;
        while (std::getline(in, l)) lines.push_back(l);
    }
    auto has = [&](const std::string &l) { return std::find(lines.begin(), lines.end(), l) != lines.end(); };
    std::string syms = "{";
    for (const auto &n : names) syms += (syms.size() > 1u ? ", '" : "'") + n + "'";
    syms += "}";
    MC_CHECK(ctx, has("Symbol set: " + syms) && has("Number of terms: " + std::to_string(p.size())) && has("Rank: " + std::to_string(obake::series_rank<P>))
                      && has("Key type: " + obake::type_name<obake::series_key_t<P>>()) && has("Coefficient type: " + obake::type_name<obake::series_cf_t<P>>()),
             "wrong header: ", txt);
    if constexpr (requires { p.tag().trunc; }) {
        std::ostringstream o;
        o << p.tag();
        tag = o.str();
        MC_CHECK(ctx, txt.compare(0, tag.size(), tag) == 0, "the tag is not printed: ", txt);
    }
    MC_CHECK(ctx, !lines.empty() && txt.back() != '\n', "the terms are missing: ", txt);
    read(lines.back(), false, "text");
    MC_CHECK(ctx, fmt::format("{}", p) == txt, "fmt::format() differs from the stream output: ", txt);
    // As a coefficient: in parentheses if there are more terms.
    {
        std::ostringstream o;
        obake::cf_stream_insert(o, p);
        const auto s = o.str();
        MC_CHECK(ctx, s == (p.size() > 1u ? "(" + lines.back() + ")" : lines.back()) || obake::series_rank<P> > 1u, "wrong text as a coefficient: ", s);
    }
    {
        std::ostringstream o;
        obake::tex_stream_insert(o, p);
        auto s = o.str();
        // The truncation of a power series.
        const auto pos = s.find(" + \\mathcal{O}");
        std::string tail;
        if (pos != std::string::npos) {
            tail = s.substr(pos);
            s.resize(pos);
        }
        if constexpr (requires { p.tag().trunc; }) {
            const auto first_nl = tag.find('\n');
            const auto t2 = first_nl == std::string::npos ? tag : tag.substr(first_nl + 1u);
            std::string e;
            if (t2.compare(0, 19, "Truncation degree: ") == 0) {
                e = " + \\mathcal{O}\\left( > " + t2.substr(19) + " \\right)";
            } else if (t2.compare(0, 27, "Partial truncation degree: ") == 0) {
                auto x = t2.substr(27);
                std::string y;
                for (auto ch : x)
                    if (ch != '\'' && ch != '{' && ch != '}') y += ch;
                y.replace(y.find(", "), 2, " ; ");
                e = " + \\mathcal{O}\\left( > " + y + " \\right)";
            } else {
                MC_CHECK(ctx, t2 == "Truncation: none", "unknown tag: ", t2);
            }
            MC_CHECK(ctx, tail == e, "the truncation is printed as '", tail, "', expected '", e, "'");
        } else {
            MC_CHECK(ctx, tail.empty(), "a truncation is printed: ", tail);
        }
        read(s, true, "TeX");
        if constexpr (!requires { p.tag().trunc; }) {
            std::ostringstream o2;
            obake::cf_tex_stream_insert(o2, p);
            MC_CHECK(ctx, o2.str() == (p.size() > 1u ? "\\left(" + s + "\\right)" : s), "wrong TeX as a coefficient: ", o2.str());
        }
    }
    if (to_ref(p) != r) ctx.fail("printing modified " + show(p));
}
template <typename P>
std::function<void(mc::Ctx &)> flat(Univ u)
{
    return all_of(u, [](mc::Ctx &ctx, const Desc &d) {
        check(ctx, d.make<P>(), d.ref());
        ctx.state(d.str());
    });
}
template <typename PP, typename P>
std::function<void(mc::Ctx &)> nested(Univ uo, Univ ui)
{
    return all_pairs(ui, ui, [uo = enumerate(uo)](mc::Ctx &ctx, const Desc &x, const Desc &y) {
        const Desc *cf[] = {&x, &y};
        for (const auto &o : uo) {
            PP q;
            q.set_symbol_set(to_ss(o.ss));
            for (std::size_t i = 0; i < o.ts.size(); ++i) q.add_term(key_access<obake::series_key_t<PP>>::make(o.ts[i].e), cf[i % 2u]->make<P>());
            check(ctx, q, to_ref(q));
        }
        ctx.state(x.str() + y.str());
    });
}
// Rank 3: all the combinations of an inner, a middle and an outer structure.
template <typename P3, typename P2, typename P1>
std::function<void(mc::Ctx &)> rank3(Univ uo, Univ um, Univ ui)
{
    return all_pairs(um, ui, [uo = enumerate(uo), ui2 = enumerate(ui)](mc::Ctx &ctx, const Desc &m, const Desc &x) {
        for (const auto &y : ui2) {
            const Desc *cf[] = {&x, &y};
            P2 q;
            q.set_symbol_set(to_ss(m.ss));
            for (std::size_t i = 0; i < m.ts.size(); ++i) q.add_term(key_access<obake::series_key_t<P2>>::make(m.ts[i].e), cf[i % 2u]->make<P1>());
            if (q.empty()) continue;
            for (const auto &o : uo) {
                P3 r;
                r.set_symbol_set(to_ss(o.ss));
                for (std::size_t i = 0; i < o.ts.size(); ++i) r.add_term(key_access<obake::series_key_t<P3>>::make(o.ts[i].e), q);
                check(ctx, r, to_ref(r));
            }
        }
        ctx.state(m.str() + x.str());
    });
}
template <typename K>
std::function<void(mc::Ctx &)> tagged(Univ u)
{
    return all_of(u, [](mc::Ctx &ctx, const Desc &d) {
        using P = obake::p_series<K, Rat>;
        for (int mode = 0; mode < 5; ++mode) {
            auto p = d.make<P>();
            if (mode == 1) obake::set_truncation(p, 1);
            if (mode == 2) obake::set_truncation(p, 0, obake::symbol_set{"x"});
            if (mode == 3) obake::set_truncation(p, 4, obake::symbol_set{"q", "y"});
            if (mode == 4) obake::set_truncation(p, -1);
            check(ctx, p, to_ref(p));
        }
        ctx.state(d.str());
    });
}
// Many terms, around the number of terms listed.
template <typename P>
void many(mc::Ctx &ctx)
{
    const auto n = ctx.pick(std::vector<unsigned>{1, 2, 48, 49, 50, 51, 52, 99, 100, 101, 200}, "terms");
    const auto segs = ctx.choose(5, "segments");
    const auto sg = ctx.choose(3, "signs");
    P p;
    p.set_n_segments(segs);
    p.set_symbol_set(obake::symbol_set{"x", "y"});
    Ref r;
    for (unsigned k = 0; k < n; ++k) {
        const Rat c(sg == 0u ? 1 : (sg == 1u ? -static_cast<int>(k) - 1 : (k % 2u ? 2 : -1)));
        const Exps e{static_cast<ll>(k / 10u), static_cast<ll>(k % 10u)};
        p.add_term(key_access<obake::series_key_t<P>>::make(e), make_cf<obake::series_cf_t<P>>(c));
        r = r + build_ref({"x", "y"}, {{e, c}});
    }
    check(ctx, p, r);
    ctx.state(mc::cat(n, " ", segs, " ", sg));
}
// One term with exponents at the limits.
template <typename K>
void edges(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    using P = obake::polynomial<K, Int>;
    const unsigned n = 1u + ctx.choose(3, "symbols");
    const auto al = edge_values<T>(group_size<K>::get(n));
    std::vector<T> e;
    Syms names;
    for (unsigned i = 0; i < n; ++i) {
        e.push_back(ctx.pick(al, "exponent"));
        names.push_back(std::string(1, static_cast<char>('a' + i)));
    }
    P p;
    p.set_symbol_set(to_ss(names));
    try {
        p.add_term(K(e.begin(), e.end()), -3);
    } catch (const std::overflow_error &) {
        ctx.prune();
    }
    check(ctx, p, to_ref(p));
    ctx.state(vstr(e));
}

using k32 = op::packed_monomial<std::int32_t>;
using k64 = op::packed_monomial<std::int64_t>;
using u64 = op::packed_monomial<std::uint64_t>;
using u32 = op::packed_monomial<std::uint32_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using d64 = op::d_packed_monomial<std::int64_t, 1>;
using e32 = op::d_packed_monomial<std::uint32_t, 3>;
using e64 = op::d_packed_monomial<std::uint64_t, 8>;
using PI = obake::polynomial<k32, Int>;
using PR = obake::polynomial<k32, Rat>;

const std::vector<Rat> C = {Rat(1), Rat(-1), Rat(2), Rat(-3, 2)};
const Univ u1{{{}, {"x"}, {"x", "y_1"}, {"a", "x", "z"}}, {-2, 0, 1}, C, 2, {0}};
const Univ u2{{{"x"}, {"x", "y"}}, {0, 1, 2}, {Rat(1), Rat(-1), Rat(10)}, 3, {0}};
const Univ ui{{{"x"}, {"a", "b"}}, {0, 1}, {Rat(1), Rat(-1), Rat(5, 2)}, 2, {0}};
const Univ uo{{{"y"}, {"x", "z"}}, {-1, 0}, {Rat(1)}, 2, {0}};

// -10^30 - 1
inline Rat big_rat()
{
    Int n(1);
    for (int i = 0; i < 30; ++i) n *= 10;
    return Rat(-n - 1);
}

#if PART == 0
const mc::Reg reg({
    {"packed32, rational", flat<PR>(u1)},
    {"unsigned packed64, integer", flat<obake::polynomial<u64, Int>>(u2)},
    {"packed64, double", flat<obake::polynomial<k64, double>>(u1)},
    {"unsigned packed32, int", flat<obake::polynomial<u32, int>>(u2)},
    {"packed32, 128-bit integers", flat<obake::polynomial<k32, __int128>>({{{}, {"x"}, {"x", "y_1"}}, {-1, 0, 2}, {Rat(1), Rat(-1), Rat(7), big_rat()}, 2, {0}})},
    {"packed64, unsigned long", flat<obake::polynomial<k64, unsigned long>>({{{"x"}, {"x", "y"}}, {-1, 0, 1, 2}, {Rat(1), Rat(10)}, 3, {0}})},
    {"thorough packed32, rational, three terms", flat<PR>({{{"x"}, {"x", "y"}}, {-1, 0, 2}, C, 3, {0, 1}}), 2, 1},
});
#elif PART == 1
const mc::Reg reg({
    {"d_packed32, rational", flat<obake::polynomial<d32, Rat>>(u1)},
    {"unsigned d_packed64, integer", flat<obake::polynomial<e64, Int>>(u2)},
    {"many terms", many<PI>},
    {"many terms, d_packed", many<obake::polynomial<d32, Int>>},
    {"limits, packed32", edges<k32>},
    {"limits, packed64", edges<k64>},
    {"limits, unsigned packed64", edges<u64>},
    {"limits, unsigned packed32", edges<u32>},
    {"limits, d_packed32", edges<d32>},
    {"limits, d_packed64", edges<d64>},
    {"limits, unsigned d_packed32", edges<e32>},
    {"limits, unsigned d_packed64", edges<e64>},
});
#elif PART == 2
const mc::Reg reg({
    {"nested", nested<obake::polynomial<k32, PR>, PR>(uo, ui)},
    {"thorough nested, d_packed", nested<obake::polynomial<k32, obake::polynomial<d32, Rat>>, obake::polynomial<d32, Rat>>(uo, ui), 2, 1},
});
#elif PART == 3
using P2 = obake::polynomial<k32, PI>;
const mc::Reg reg({
    {"rank 3", rank3<obake::polynomial<k32, P2>, P2, PI>({{{"y"}}, {0, 2}, {Rat(1)}, 2, {0}}, {{{}, {"z"}}, {0, 1}, {Rat(1)}, 2, {0}}, {{{"x"}}, {0, 1, 2}, {Rat(1), Rat(-1)}, 2, {0}})},
});
#elif PART == 4
const mc::Reg reg({
    {"power series", tagged<k32>({{{}, {"x"}, {"x", "y"}}, {-1, 0, 1, 2}, C, 2, {0}})},
    {"power series, d_packed", tagged<d32>({{{"x"}, {"x", "y"}}, {-1, 0, 2}, C, 2, {0}})},
});
#endif

} // namespace
