// Shared by the harnesses: reference polynomials, universes of operands, invariants.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP

#include <algorithm>
#include <cstdint>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/config.hpp>
#include <obake/kpack.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/series.hpp>
#include <obake/symbols.hpp>

#include "../mc/mc.hpp"

namespace hv
{

using ll = long long;
using Int = mppp::integer<1>;
using Rat = mppp::rational<1>;
using Exps = std::vector<ll>;
using Syms = std::vector<std::string>;

// ---- Reference polynomials: sparse maps from sparse exponent maps to rational coefficients. ----
using Mono = std::map<std::string, ll>;

inline Mono mono_mul(const Mono &a, const Mono &b)
{
    Mono r(a);
    for (const auto &[s, e] : b) {
        auto &x = r[s];
        x += e;
        if (x == 0) r.erase(s);
    }
    return r;
}

struct Ref {
    std::map<Mono, Rat> t;

    Ref() = default;
    Ref(const Rat &c)
    {
        add(Mono{}, c);
    }
    void add(const Mono &m, const Rat &c)
    {
        auto it = t.find(m);
        if (it == t.end()) {
            if (!c.is_zero()) t.emplace(m, c);
        } else {
            it->second += c;
            if (it->second.is_zero()) t.erase(it);
        }
    }
    friend Ref operator+(const Ref &a, const Ref &b)
    {
        Ref r(a);
        for (const auto &[m, c] : b.t) r.add(m, c);
        return r;
    }
    friend Ref operator-(const Ref &a)
    {
        Ref r;
        for (const auto &[m, c] : a.t) r.add(m, -c);
        return r;
    }
    friend Ref operator-(const Ref &a, const Ref &b)
    {
        return a + (-b);
    }
    friend Ref operator*(const Ref &a, const Ref &b)
    {
        Ref r;
        for (const auto &[m, c] : a.t)
            for (const auto &[n, d] : b.t) r.add(mono_mul(m, n), c * d);
        return r;
    }
    friend bool operator==(const Ref &a, const Ref &b)
    {
        return a.t == b.t;
    }
    friend bool operator!=(const Ref &a, const Ref &b)
    {
        return !(a == b);
    }
    Ref pow(unsigned n) const
    {
        Ref r(Rat(1));
        for (unsigned i = 0; i < n; ++i) r = r * *this;
        return r;
    }
    Ref diff(const std::string &s) const
    {
        Ref r;
        for (const auto &[m, c] : t) {
            auto it = m.find(s);
            if (it == m.end()) continue;
            Mono n(m);
            if ((n[s] -= 1) == 0) n.erase(s);
            r.add(n, c * Rat(it->second));
        }
        return r;
    }
    // Null terms with exponent -1 are up to the caller.
    Ref integrate(const std::string &s) const
    {
        Ref r;
        for (const auto &[m, c] : t) {
            Mono n(m);
            const ll e = n[s] + 1;
            if (e == 0) throw std::domain_error("logarithm");
            n[s] = e;
            r.add(n, c / Rat(e));
        }
        return r;
    }
    static ll mdeg(const Mono &m)
    {
        ll d = 0;
        for (const auto &[s, e] : m) d += e;
        return d;
    }
    static ll mdeg(const Mono &m, const std::set<std::string> &ss)
    {
        ll d = 0;
        for (const auto &[s, e] : m)
            if (ss.count(s)) d += e;
        return d;
    }
    Ref truncated(ll lim) const
    {
        Ref r;
        for (const auto &[m, c] : t)
            if (mdeg(m) <= lim) r.t.emplace(m, c);
        return r;
    }
    Ref truncated(ll lim, const std::set<std::string> &ss) const
    {
        Ref r;
        for (const auto &[m, c] : t)
            if (mdeg(m, ss) <= lim) r.t.emplace(m, c);
        return r;
    }
    std::string str() const
    {
        std::string r = "{";
        for (const auto &[m, c] : t) {
            if (r.size() > 1u) r += " + ";
            r += c.to_string();
            for (const auto &[s, e] : m) r += "*" + s + "^" + std::to_string(e);
        }
        return r + "}";
    }
    std::set<std::string> used() const
    {
        std::set<std::string> r;
        for (const auto &[m, c] : t)
            for (const auto &[s, e] : m) r.insert(s);
        return r;
    }
};

inline std::ostream &operator<<(std::ostream &os, const Ref &r)
{
    return os << r.str();
}

// ---- Access to keys ----
template <typename K>
struct key_access;

template <typename T>
struct key_access<obake::polynomials::packed_monomial<T>> {
    using K = obake::polynomials::packed_monomial<T>;
    using value_type = T;
    static K make(const Exps &e)
    {
        std::vector<T> v;
        for (auto x : e) v.push_back(static_cast<T>(x));
        return K(v.begin(), v.end());
    }
    static Exps get(const K &k, unsigned n)
    {
        Exps r;
        obake::kunpacker<T> u(k.get_value(), n);
        for (unsigned i = 0; i < n; ++i) {
            T t;
            u >> t;
            r.push_back(static_cast<ll>(t));
        }
        return r;
    }
};
template <typename T, unsigned P>
struct key_access<obake::polynomials::d_packed_monomial<T, P>> {
    using K = obake::polynomials::d_packed_monomial<T, P>;
    using value_type = T;
    static K make(const Exps &e)
    {
        std::vector<T> v;
        for (auto x : e) v.push_back(static_cast<T>(x));
        return K(v.begin(), v.end());
    }
    static Exps get(const K &k, unsigned n)
    {
        Exps r;
        for (const auto &c : k._container()) {
            obake::kunpacker<T> u(c, P);
            for (unsigned i = 0; i < P; ++i) {
                T t;
                u >> t;
                // NOTE: the padding of the last group must be null.
                if (r.size() < n) {
                    r.push_back(static_cast<ll>(t));
                } else if (t != T(0)) {
                    r.push_back(static_cast<ll>(t));
                }
            }
        }
        return r;
    }
};

// ---- Series -> reference ----
inline Ref to_ref(const Rat &q)
{
    return Ref(q);
}
inline Ref to_ref(const Int &q)
{
    return Ref(Rat(q));
}
inline Ref to_ref(const double &q)
{
    return Ref(Rat(q));
}
inline Ref to_ref(const int &q)
{
    return Ref(Rat(q));
}
inline Ref to_ref(const long &q)
{
    return Ref(Rat(q));
}
inline Ref to_ref(const unsigned long &q)
{
    return Ref(Rat(q));
}
inline Ref to_ref(const __int128 &q)
{
    return Ref(Rat(Int(q)));
}
// User-defined coefficients.
template <typename T>
    requires requires(const T &x) {
        {
            x.hv_value()
        } -> std::same_as<Rat>;
    }
Ref to_ref(const T &x)
{
    return Ref(x.hv_value());
}
template <typename K, typename C, typename Tag>
Ref to_ref(const obake::series<K, C, Tag> &s)
{
    Ref r;
    const auto &ss = s.get_symbol_set();
    const Syms names(ss.begin(), ss.end());
    for (const auto &p : s) {
        const auto e = key_access<K>::get(p.first, static_cast<unsigned>(names.size()));
        if (e.size() != names.size()) throw mc::Violation{"a key is larger than the symbol set of its series"};
        Mono m;
        for (std::size_t i = 0; i < e.size(); ++i)
            if (e[i]) m.emplace(names[i], e[i]);
        const Ref c = to_ref(p.second);
        for (const auto &[cm, cc] : c.t) r.add(mono_mul(m, cm), cc);
    }
    return r;
}
inline Syms to_syms(const obake::symbol_set &s)
{
    return Syms(s.begin(), s.end());
}
inline obake::symbol_set to_ss(const Syms &s)
{
    return obake::symbol_set(s.begin(), s.end());
}
inline Syms syms_union(const Syms &a, const Syms &b)
{
    std::set<std::string> r(a.begin(), a.end());
    r.insert(b.begin(), b.end());
    return Syms(r.begin(), r.end());
}
inline std::string str(const Syms &s)
{
    std::string r = "[";
    for (const auto &x : s) r += (r.size() > 1u ? "," : "") + x;
    return r + "]";
}
template <typename T>
std::string vstr(const std::vector<T> &v)
{
    std::ostringstream o;
    o << "[";
    for (std::size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << +v[i];
    o << "]";
    return o.str();
}
template <typename S>
std::string show(const S &s)
{
    return to_ref(s).str() + " over " + str(to_syms(s.get_symbol_set())) + " in " + std::to_string(1u << s.get_s_size()) + " segment(s)";
}

// ---- Invariants of a series, through its public interface. ----
template <typename C>
inline bool cf_is_zero(const C &c)
{
    return to_ref(c).t.empty();
}
template <typename K, typename C, typename Tag>
void check_inv(mc::Ctx &ctx, const obake::series<K, C, Tag> &s, const std::string &what)
{
    const auto &ss = s.get_symbol_set();
    const auto n = static_cast<unsigned>(ss.size());
    std::set<Exps> seen;
    std::size_t cnt = 0;
    for (auto it = s.begin(); it != s.end(); ++it) {
        ++cnt;
        const auto e = key_access<K>::get(it->first, n);
        MC_CHECK(ctx, e.size() == n, what, ": a key does not fit the symbol set: ", show(s));
        MC_CHECK(ctx, obake::key_is_compatible(it->first, ss), what, ": incompatible key in ", show(s));
        MC_CHECK(ctx, seen.insert(e).second, what, ": duplicate key ", vstr(e), " in ", show(s));
        MC_CHECK(ctx, !cf_is_zero(it->second), what, ": null coefficient in ", show(s));
        const auto f = s.find(it->first);
        MC_CHECK(ctx, f != s.end() && &*f == &*it, what, ": term ", vstr(e), " cannot be found in ", show(s));
        if constexpr (obake::is_cvr_series_v<C>) {
            check_inv(ctx, it->second, what + " (coefficient)");
        }
    }
    MC_CHECK(ctx, cnt == s.size(), what, ": size() is ", s.size(), " but there are ", cnt, " terms");
    MC_CHECK(ctx, s.empty() == (cnt == 0u), what, ": empty() disagrees with the number of terms");
    // Per-segment placement.
    const auto &st = s._get_s_table();
    MC_CHECK(ctx, st.size() == (std::size_t(1) << s.get_s_size()), what, ": the number of segments is not a power of two consistent with the setting");
    std::size_t cnt2 = 0;
    for (const auto &t : st) cnt2 += t.size();
    MC_CHECK(ctx, cnt2 == cnt, what, ": the segments hold ", cnt2, " terms, iteration visits ", cnt);
}

// ---- Builders ----
struct Term {
    Exps e;
    Rat c;
};
template <typename C>
C make_cf(const Rat &q)
{
    if constexpr (std::is_same_v<C, Rat>) {
        return q;
    } else if constexpr (std::is_same_v<C, double>) {
        return static_cast<double>(q);
    } else {
        return C(q.get_num());
    }
}
template <typename P>
P build(const Syms &ss, const std::vector<Term> &ts, unsigned log2_segs = 0)
{
    using K = obake::series_key_t<P>;
    using C = obake::series_cf_t<P>;
    P p;
    p.set_n_segments(log2_segs);
    p.set_symbol_set(to_ss(ss));
    for (const auto &t : ts) p.add_term(key_access<K>::make(t.e), make_cf<C>(t.c));
    return p;
}
inline Ref build_ref(const Syms &ss, const std::vector<Term> &ts)
{
    Ref r;
    for (const auto &t : ts) {
        Mono m;
        for (std::size_t i = 0; i < ss.size(); ++i)
            if (t.e[i]) m.emplace(ss[i], t.e[i]);
        r.add(m, t.c);
    }
    return r;
}

// ---- Universes ----
struct Desc {
    Syms ss;
    std::vector<Term> ts;
    unsigned segs = 0;
    Ref ref() const
    {
        return build_ref(ss, ts);
    }
    template <typename P>
    P make() const
    {
        return build<P>(ss, ts, segs);
    }
    std::string str() const
    {
        return ref().str() + " over " + hv::str(ss) + " in 2^" + std::to_string(segs) + " segments";
    }
};
struct Univ {
    std::vector<Syms> sets;
    Exps exps;
    std::vector<Rat> cfs;
    unsigned max_terms = 2;
    std::vector<unsigned> segs = {0};
    // Members listed one by one.
    std::vector<Desc> extra = {};
};
inline std::uint64_t ipow(std::uint64_t b, unsigned e)
{
    std::uint64_t r = 1;
    while (e--) r *= b;
    return r;
}
inline Exps exps_at(std::uint64_t i, const Exps &alpha, unsigned n)
{
    Exps e;
    for (unsigned k = 0; k < n; ++k) {
        e.push_back(alpha[i % alpha.size()]);
        i /= alpha.size();
    }
    return e;
}
// All the series of a universe, one choice at a time: symbol set, segments, terms in increasing order.
inline Desc gen(mc::Ctx &c, const Univ &u)
{
    Desc d;
    d.ss = c.pick(u.sets, "symbols");
    d.segs = u.segs.size() > 1u ? c.pick(u.segs, "segments") : u.segs[0];
    const auto nm = static_cast<unsigned>(ipow(u.exps.size(), static_cast<unsigned>(d.ss.size())));
    unsigned nxt = 0;
    for (unsigned k = 0; k < u.max_terms && nxt < nm; ++k) {
        const unsigned j = c.choose(nm - nxt + 1u, "monomial");
        if (j == 0u) break;
        nxt += j;
        Term t;
        t.e = exps_at(nxt - 1u, u.exps, static_cast<unsigned>(d.ss.size()));
        t.c = c.pick(u.cfs, "coefficient");
        d.ts.push_back(std::move(t));
    }
    return d;
}
// The same, materialised: all the descriptions of the universe.
inline std::vector<Desc> enumerate(const Univ &u)
{
    std::vector<Desc> out;
    for (const auto &ss : u.sets) {
        for (auto sg : u.segs) {
            const auto nm = ipow(u.exps.size(), static_cast<unsigned>(ss.size()));
            std::vector<std::pair<Desc, std::uint64_t>> cur;
            Desc d0;
            d0.ss = ss;
            d0.segs = sg;
            cur.emplace_back(d0, 0u);
            out.push_back(d0);
            for (unsigned k = 0; k < u.max_terms; ++k) {
                std::vector<std::pair<Desc, std::uint64_t>> nx;
                for (const auto &[d, n] : cur)
                    for (auto i = n; i < nm; ++i)
                        for (const auto &cf : u.cfs) {
                            Desc e(d);
                            e.ts.push_back(Term{exps_at(i, u.exps, static_cast<unsigned>(ss.size())), cf});
                            out.push_back(e);
                            nx.emplace_back(std::move(e), i + 1u);
                        }
                cur = std::move(nx);
            }
        }
    }
#ifdef THIN
    // A fixed part of the universe.
    std::vector<Desc> part;
    for (std::size_t i = 0; i < out.size(); ++i)
        if (mc::mix(i, out.size()) % THIN == 0u || i == 0u) part.push_back(std::move(out[i]));
    out.swap(part);
#endif
    out.insert(out.end(), u.extra.begin(), u.extra.end());
    return out;
}
// Larger members: n terms in k symbols, for all the combinations of a few sizes, numbers of symbols and of segments.
// The exponents of a term are the digits of its index (moved below zero if neg); the coefficients are all the
// different ones, or alternating signs (then several products of terms cancel).
inline Univ scale(const std::vector<unsigned> &ns, const std::vector<unsigned> &ks, const std::vector<unsigned> &segs, bool neg)
{
    static const char *names[] = {"x", "a", "y", "b", "z", "c", "w", "u", "v", "d", "e", "f"};
    Univ u;
    for (auto k : ks)
        for (auto n : ns)
            for (auto sg : segs)
                for (int cf = 0; cf < 2; ++cf) {
                    Desc d;
                    for (auto i = 0u; i < k; ++i) d.ss.emplace_back(names[i]);
                    std::sort(d.ss.begin(), d.ss.end());
                    d.segs = sg;
                    unsigned base = 2;
                    while (ipow(base, k) < n) ++base;
                    for (auto i = 0u; i < n; ++i) {
                        Term t;
                        auto x = i;
                        for (auto j = 0u; j < k; ++j) {
                            t.e.push_back(static_cast<ll>((x + j) % base) - (neg ? static_cast<ll>(base / 2u) : 0));
                            x /= base;
                        }
                        t.c = cf ? Rat(i % 2u ? -1 : 1) : Rat(i % 3u == 2u ? -static_cast<int>(i) - 1 : static_cast<int>(i) + 1);
                        d.ts.push_back(std::move(t));
                    }
                    u.extra.push_back(std::move(d));
                }
    return u;
}

} // namespace hv

#endif
