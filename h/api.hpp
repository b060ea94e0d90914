// The public operations of series as steps on two operands (P09, P44).
#ifndef VERIF_API_HPP
#define VERIF_API_HPP

#include <sstream>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>

#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>

#include "pairs.hpp"
#include "ps.hpp"

namespace hv
{

// A step on (a, b); false: does not apply.
template <typename P>
struct Step {
    std::string name;
    std::function<bool(P &, P &)> f;
};
template <typename P>
std::vector<Step<P>> api()
{
    using K = obake::series_key_t<P>;
    using C = obake::series_cf_t<P>;
    using Tag = obake::series_tag_t<P>;
    std::vector<Step<P>> v;
    auto add = [&](std::string n, auto f) {
        v.push_back({std::move(n), [f](P &a, P &b) {
                         if constexpr (std::is_same_v<decltype(f(a, b)), bool>) {
                             return f(a, b);
                         } else {
                             f(a, b);
                             return true;
                         }
                     }});
    };
    // Conversions of the coefficients, both ways, and mixed arithmetic.
    auto mixed = [&]<typename D>(D *, const std::string &n) {
        if constexpr (!std::is_same_v<C, D>) {
            using Q = obake::series<K, D, Tag>;
            add("a = P(Q(a)), Q over " + n, [](P &a, P &) { const Q q(a); a = P(q); });
            add("a = P(move(Q(move(a)))), Q over " + n, [](P &a, P &) { Q q(std::move(a)); a = P(std::move(q)); });
            add("a = Q(b), Q over " + n, [](P &a, P &b) { const Q q(b); a = q; });
            add("a = P(b, symbols), through " + n, [](P &a, P &b) { Q q(b); const auto c = P(q); a = c + b; });
            if constexpr (std::is_same_v<D, Int> || (std::is_same_v<D, Rat> && std::is_same_v<C, double>)) {
                add("a += Q(b), Q over " + n, [](P &a, P &b) { a += Q(b); });
                add("a -= Q(b), Q over " + n, [](P &a, P &b) { a -= Q(b); });
                add("a = Q(a) - b, Q over " + n, [](P &a, P &b) { a = Q(a) - b; });
                add("a = a - move(Q(b)), Q over " + n, [](P &a, P &b) { Q q(b); a = a - std::move(q); });
                add("a = Q(a) * b, Q over " + n, [](P &a, P &b) { a = Q(a) * b; });
                add("a *= Q(b), Q over " + n, [](P &a, P &b) { a *= Q(b); });
            } else {
                add("a += Q(b) / 2, Q over " + n, [](P &a, P &b) { a += Q(b) / 2; });
                add("a -= Q(b) / 3, Q over " + n, [](P &a, P &b) { a -= Q(b) / 3; });
                add("a *= Q(b) / 2, Q over " + n, [](P &a, P &b) { a *= Q(b) / 2; });
                add("a = P(Q(a) / 2), Q over " + n, [](P &a, P &) { a = P(Q(a) / 2); });
                add("a *= half, over " + n, [](P &a, P &) { a *= D(1) / 2; });
                add("a += half, over " + n, [](P &a, P &) { a += D(1) / 2; });
                add("a -= 3 halves, over " + n, [](P &a, P &) { a -= D(3) / 2; });
            }
        }
    };
    mixed(static_cast<Int *>(nullptr), "int");
    mixed(static_cast<Rat *>(nullptr), "rat");
    mixed(static_cast<double *>(nullptr), "double");
    // Scalars.
    add("a /= 2", [](P &a, P &) { a /= 2; });
    add("a = a / -3", [](P &a, P &) { a = a / -3; });
    add("a = move(a) / 2", [](P &a, P &) { a = std::move(a) / 2; });
    add("a *= 0", [](P &a, P &) { a *= 0; });
    add("a = 0 * move(a)", [](P &a, P &) { a = 0 * std::move(a); });
    add("a = a - a", [](P &a, P &) { a = a - a; });
    add("a = move(a) - b", [](P &a, P &b) { a = std::move(a) - b; });
    add("a = b - move(a)", [](P &a, P &b) { a = b - std::move(a); });
    add("a = -a; b = +a", [](P &a, P &b) { a = -a; b = +a; });
    add("a = a * b", [](P &a, P &b) { a = a * b; return obake::degree(a) < 12; });
    add("a = (a + b) * (a - b)", [](P &a, P &b) { a = (a + b) * (a - b); return obake::degree(a) < 12; });
    add("a = pow(a, 2)", [](P &a, P &) { a = obake::pow(a, 2); return obake::degree(a) < 12; });
    add("a = pow(a, 0)", [](P &a, P &) { a = obake::pow(a, 0); });
    add("a = 1 - a; a -= 1", [](P &a, P &) { a = 1 - a; a -= 1; });
    // Calculus.
    add("a = diff(a, x)", [](P &a, P &) { a = obake::diff(a, "x"); });
    add("a = diff(a, y)", [](P &a, P &) { a = obake::diff(a, "y"); });
    add("a = integrate(a, x)", [](P &a, P &) { a = obake::integrate(a, "x"); });
    add("a = integrate(a, w)", [](P &a, P &) { a = obake::integrate(a, "w"); });
    if constexpr (obake::is_polynomial_v<P>) {
        add("a = subs(a, x: 0)", [](P &a, P &) { a = obake::subs(a, obake::symbol_map<C>{{"x", C(0)}}); });
        add("a = subs(a, y: -1)", [](P &a, P &) { a = obake::subs(a, obake::symbol_map<C>{{"y", C(-1)}}); });
        add("a = subs(a, x: b)", [](P &a, P &b) { a = obake::subs(a, obake::symbol_map<P>{{"x", b}}); return obake::degree(a) < 12; });
        for (int l : {0, 1, 2}) {
            add(mc::cat("a = truncated_mul(a, b, ", l, ")"), [l](P &a, P &b) { a = truncated_mul(a, b, l); });
            add(mc::cat("a = truncated_mul(a, b, ", l, ", {y})"), [l](P &a, P &b) { a = truncated_mul(a, b, l, obake::symbol_set{"y"}); return obake::degree(a) < 12; });
            add(mc::cat("truncate_degree(a, ", l, ")"), [l](P &a, P &) { obake::truncate_degree(a, l); });
            add(mc::cat("truncate_p_degree(a, ", l, ", {x})"), [l](P &a, P &) { obake::truncate_p_degree(a, l, obake::symbol_set{"x"}); });
        }
    } else {
        for (int l : {0, 1, 2}) {
            add(mc::cat("set_truncation(a, ", l, ")"), [l](P &a, P &) { obake::set_truncation(a, l); });
            add(mc::cat("set_truncation(a, ", l, ", {y})"), [l](P &a, P &) { obake::set_truncation(a, l, obake::symbol_set{"y"}); });
        }
        add("unset_truncation(a)", [](P &a, P &) { obake::unset_truncation(a); });
        add("set_truncation(b, 2)", [](P &, P &b) { obake::set_truncation(b, 2); });
    }
    // Symbols.
    add("a = trim(a)", [](P &a, P &) { a = obake::trim(a); });
    add("a = trim(move(a))", [](P &a, P &) { a = obake::trim(std::move(a)); });
    add("a = add_symbols(a, {a, w})", [](P &a, P &) { a = obake::add_symbols(a, obake::symbol_set{"a", "w"}); return a.get_symbol_set().size() <= 3u; });
    add("a = add_symbols(move(a), {b, y})", [](P &a, P &) { a = obake::add_symbols(std::move(a), obake::symbol_set{"b", "y"}); return a.get_symbol_set().size() <= 3u; });
    // Filters.
    add("filter(a, positive)", [](P &a, P &) { obake::filter(a, [](const auto &t) { return t.second > C(0); }); });
    add("a = filtered(a, negative)", [](P &a, P &) { a = obake::filtered(a, [](const auto &t) { return t.second < C(0); }); });
    add("filter(a, nothing)", [](P &a, P &) { obake::filter(a, [](const auto &) { return false; }); });
    // Archives: into the object itself and into another one.
    auto copy_through = [](const P &from, P &to) {
        std::stringstream st;
        {
            boost::archive::binary_oarchive o(st);
            o << from;
        }
        boost::archive::binary_iarchive i(st);
        i >> to;
    };
    add("load(a, save(a))", [copy_through](P &a, P &) { copy_through(a, a); });
    add("load(b, save(a)); a += b", [copy_through](P &a, P &b) { copy_through(a, b); a += b; });
    add("load(a, save(b))", [copy_through](P &a, P &b) { copy_through(b, a); });
    // Storage.
    add("a.set_n_segments(2), terms of b inserted", [](P &a, P &b) {
        a.clear();
        a.set_n_segments(2);
        a.set_symbol_set(b.get_symbol_set());
        for (const auto &t : b) a.add_term(t.first, t.second);
        for (const auto &t : b) a.template add_term<false>(t.first, t.second);
        for (const auto &t : b) a.add_term(t.first, t.second);
    });
    add("swap(a, b)", [](P &a, P &b) { swap(a, b); });
    add("a = P(b, {x, y, z})", [](P &a, P &b) {
        if (!b.is_single_cf() || b.empty()) return false;
        const C c = b.cbegin()->second;
        a = P(c, obake::symbol_set{"x", "y", "z"});
        return true;
    });
    return v;
}

} // namespace hv

#endif
