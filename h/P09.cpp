// P09: all the histories (up to a length) of public mutating operations on two series, compared after each step to a
// model; and every operation interrupted by a failure of the coefficient at every possible point.
#include "wcf.hpp"

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>

#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>

#include "pairs.hpp"
#include "ps.hpp"

#if PART >= 6
#include "api.hpp"
#endif

using namespace hv;
namespace op = obake::polynomials;

namespace
{

struct Model {
    Syms ss;
    unsigned segs = 0;
    std::map<Exps, Rat> t;
    void add(const Exps &e, const Rat &c)
    {
        auto it = t.emplace(e, Rat(0)).first;
        it->second += c;
        if (it->second.is_zero()) t.erase(it);
    }
    Ref ref() const
    {
        Ref r;
        for (const auto &[e, c] : t) {
            Mono m;
            for (std::size_t i = 0; i < ss.size(); ++i)
                if (e[i]) m.emplace(ss[i], e[i]);
            r.add(m, c);
        }
        return r;
    }
    // From a reference value and a symbol set.
    void assign(const Ref &r, const Syms &s)
    {
        ss = s;
        t.clear();
        for (const auto &[m, c] : r.t) {
            Exps e;
            for (const auto &n : s) {
                const auto it = m.find(n);
                e.push_back(it == m.end() ? 0 : it->second);
            }
            t.emplace(e, c);
        }
    }
};
template <typename P>
void compare(mc::Ctx &ctx, const P &p, const Model &m, const std::string &h, const char *which, bool segs = true)
{
    using K = obake::series_key_t<P>;
    check_inv(ctx, p, h + which);
    if (to_syms(p.get_symbol_set()) != m.ss) ctx.fail(mc::cat(h, which, " has the symbols ", str(to_syms(p.get_symbol_set())), ", expected ", str(m.ss)));
    if (segs && p.get_s_size() != m.segs) ctx.fail(mc::cat(h, which, " has 2^", p.get_s_size(), " segments, expected 2^", m.segs));
    if (p.size() != m.t.size() || p.empty() != m.t.empty()) ctx.fail(mc::cat(h, which, " has ", p.size(), " terms, expected ", m.t.size(), ": ", show(p)));
    const auto n = static_cast<unsigned>(m.ss.size());
    // Iteration, const and mutable.
    std::map<Exps, Rat> s1, s2;
    for (const auto &t : p)
        if (!s1.emplace(key_access<K>::get(t.first, n), to_ref(t.second).t.begin()->second).second) ctx.fail(h + which + ": a term is visited twice");
    auto &q = const_cast<P &>(p);
    for (auto it = q.begin(); it != q.end(); it++) s2.emplace(key_access<K>::get(it->first, n), to_ref(it->second).t.begin()->second);
    ctx.validated(3);
    if (s1 != m.t || s2 != m.t) ctx.fail(mc::cat(h, which, " is ", show(p), ", expected ", m.ref().str()));
    // Lookup of present and absent keys.
    for (unsigned i = 0; i < (n == 0 ? 1u : n == 1 ? 4u : 16u); ++i) {
        const Exps e = exps_at(i, {0, 1, 2, 3}, n);
        const K k = key_access<K>::make(e);
        const auto it = p.find(k);
        const auto jt = q.find(k);
        ctx.validated(2);
        const bool in = m.t.count(e) != 0u;
        if (in != (it != p.end()) || in != (jt != q.end())) ctx.fail(mc::cat(h, which, ": find(", vstr(e), ") answers ", it != p.end(), " in ", show(p)));
        if (in && (to_ref(it->second).t.begin()->second != m.t.at(e) || &*it != &*jt)) ctx.fail(h + which + ": find() gives the wrong term");
    }
    ctx.validated();
    const bool single = m.t.empty() || (m.t.size() == 1u && Ref::mdeg(m.ref().t.begin()->first) == 0 && m.ref().t.begin()->first.empty());
    if (p.is_single_cf() != single) ctx.fail(mc::cat(h, which, ": is_single_cf() is wrong for ", show(p)));
}

// The operations.
template <typename P>
struct Sys {
    using K = obake::series_key_t<P>;
    using C = obake::series_cf_t<P>;
    P a, b;
    Model ma, mb;
};
template <typename P>
struct HOp {
    std::string name;
    // Returns false if not applicable.
    std::function<bool(mc::Ctx &, Sys<P> &, const std::string &)> f;
};
template <typename F>
int outcome(F f)
{
    try {
        f();
    } catch (const std::invalid_argument &) {
        return 1;
    } catch (const std::overflow_error &) {
        return 2;
    }
    return 0;
}
template <typename P>
std::vector<HOp<P>> ops(bool many)
{
    using S = Sys<P>;
    using K = obake::series_key_t<P>;
    using C = obake::series_cf_t<P>;
    std::vector<HOp<P>> v;
    for (int e : {0, 1, 2}) {
        for (int c : {1, -1, 0}) {
            if (c == 0 && e != 1) continue;
            v.push_back({mc::cat("a.add_term(x^", e, ", ", c, ")"), [e, c](mc::Ctx &ctx, S &s, const std::string &h) {
                             const auto n = s.ma.ss.size();
                             Exps ex(n, 0);
                             if (n) ex[0] = e;
                             if (n == 0 && e) {
                                 // Incompatible with the symbol set.
                                 const K k = key_access<K>::make({e});
                                 const int o = outcome([&]() { s.a.add_term(k, C(c)); });
                                 ctx.validated();
                                 if (o != 1) ctx.fail(h + ": an incompatible key is not rejected");
                                 return true;
                             }
                             const K k = key_access<K>::make(ex);
                             s.a.add_term(k, C(c));
                             s.ma.add(ex, Rat(c));
                             return true;
                         }});
        }
    }
    v.push_back({"a.add_term<false>(x, 1)", [](mc::Ctx &, S &s, const std::string &) {
                     if (s.ma.ss.empty()) return false;
                     Exps ex(s.ma.ss.size(), 0);
                     ex[0] = 1;
                     const C one(1);
                     s.a.template add_term<false>(key_access<K>::make(ex), one);
                     s.ma.add(ex, Rat(-1));
                     return true;
                 }});
    v.push_back({"a.add_term<false>(1, int 2)", [](mc::Ctx &, S &s, const std::string &) {
                     Exps ex(s.ma.ss.size(), 0);
                     s.a.template add_term<false>(key_access<K>::make(ex), 2);
                     s.ma.add(ex, Rat(-2));
                     return true;
                 }});
    v.push_back({"a.add_term(last, int 1), a.add_term(1)", [](mc::Ctx &, S &s, const std::string &) {
                     if (s.ma.ss.size() < 2u) return false;
                     Exps ex(s.ma.ss.size(), 0);
                     ex.back() = 3;
                     s.a.add_term(key_access<K>::make(ex), 1);
                     s.ma.add(ex, Rat(1));
                     // Without arguments: a default-constructed, thus null, coefficient.
                     s.a.add_term(key_access<K>::make(ex));
                     ex.back() = 1;
                     s.a.add_term(key_access<K>::make(ex));
                     return true;
                 }});
    for (unsigned l : {0u, 1u, 3u})
        v.push_back({mc::cat("a.set_n_segments(", l, ")"), [l](mc::Ctx &, S &s, const std::string &) {
                         s.a.set_n_segments(l);
                         s.ma.segs = l;
                         s.ma.t.clear();
                         return true;
                     }});
    v.push_back({"a.set_n_segments(max + 1)", [](mc::Ctx &ctx, S &s, const std::string &h) {
                     ctx.validated();
                     if (outcome([&]() { s.a.set_n_segments(P::get_max_s_size() + 1u); }) != 1) ctx.fail(h + ": not rejected");
                     return true;
                 }});
    for (const auto &ss : std::vector<Syms>{{}, {"x"}, {"x", "y"}})
        v.push_back({"a.set_symbol_set(" + str(ss) + ")", [ss](mc::Ctx &ctx, S &s, const std::string &h) {
                         const int o = outcome([&]() { s.a.set_symbol_set(to_ss(ss)); });
                         ctx.validated();
                         if (o != (s.ma.t.empty() ? 0 : 1)) ctx.fail(mc::cat(h, ": outcome ", o));
                         if (o == 0) s.ma.ss = ss;
                         return true;
                     }});
    v.push_back({"a.clear()", [](mc::Ctx &, S &s, const std::string &) {
                     s.a.clear();
                     s.ma.t.clear();
                     s.ma.ss.clear();
                     return true;
                 }});
    v.push_back({"a.clear_terms()", [](mc::Ctx &, S &s, const std::string &) {
                     s.a.clear_terms();
                     s.ma.t.clear();
                     return true;
                 }});
    v.push_back({"swap(a, b)", [](mc::Ctx &, S &s, const std::string &) {
                     swap(s.a, s.b);
                     std::swap(s.ma, s.mb);
                     return true;
                 }});
    v.push_back({"b = a", [](mc::Ctx &, S &s, const std::string &) {
                     s.b = s.a;
                     s.mb = s.ma;
                     return true;
                 }});
    v.push_back({"b = move(a); a = {}", [](mc::Ctx &, S &s, const std::string &) {
                     s.b = std::move(s.a);
                     s.a = P{};
                     s.mb = s.ma;
                     s.ma = Model{};
                     return true;
                 }});
    v.push_back({"a += b", [](mc::Ctx &, S &s, const std::string &) {
                     s.a += s.b;
                     s.ma.assign(s.ma.ref() + s.mb.ref(), syms_union(s.ma.ss, s.mb.ss));
                     s.ma.segs = s.a.get_s_size();
                     return true;
                 }});
    v.push_back({"a -= b", [](mc::Ctx &, S &s, const std::string &) {
                     s.a -= s.b;
                     s.ma.assign(s.ma.ref() - s.mb.ref(), syms_union(s.ma.ss, s.mb.ss));
                     s.ma.segs = s.a.get_s_size();
                     return true;
                 }});
    v.push_back({"negate(a)", [](mc::Ctx &, S &s, const std::string &) {
                     obake::negate(s.a);
                     for (auto &t : s.ma.t) t.second.neg();
                     return true;
                 }});
    if (many) {
        v.push_back({"b.add_term(1, 1)", [](mc::Ctx &, S &s, const std::string &) {
                         Exps ex(s.mb.ss.size(), 0);
                         s.b.add_term(key_access<K>::make(ex), C(1));
                         s.mb.add(ex, Rat(1));
                         return true;
                     }});
        v.push_back({"a.reserve(100)", [](mc::Ctx &, S &s, const std::string &) {
                         s.a.reserve(100);
                         return true;
                     }});
        v.push_back({"a = a", [](mc::Ctx &, S &s, const std::string &) {
                         auto &r = s.a;
                         s.a = r;
                         return true;
                     }});
        v.push_back({"a -= a", [](mc::Ctx &, S &s, const std::string &) {
                         s.a -= s.a;
                         s.ma.t.clear();
                         return true;
                     }});
        v.push_back({"a *= b", [](mc::Ctx &, S &s, const std::string &) {
                         s.a *= s.b;
                         s.ma.assign(s.ma.ref() * s.mb.ref(), syms_union(s.ma.ss, s.mb.ss));
                         s.ma.segs = s.a.get_s_size();
                         // Bounded.
                         for (const auto &t : s.ma.t)
                             for (auto e : t.first)
                                 if (e > 3) return false;
                         return true;
                     }});
        v.push_back({"a *= -2", [](mc::Ctx &, S &s, const std::string &) {
                         s.a *= -2;
                         for (auto &t : s.ma.t) t.second *= Rat(-2);
                         s.ma.segs = s.a.get_s_size();
                         return true;
                     }});
        v.push_back({"coefficients of a changed through iterators", [](mc::Ctx &, S &s, const std::string &) {
                         for (auto it = s.a.begin(); it != s.a.end(); ++it) it->second = C(7);
                         for (auto &t : s.ma.t) t.second = Rat(7);
                         return true;
                     }});
        v.push_back({"a = 3", [](mc::Ctx &, S &s, const std::string &) {
                         s.a = 3;
                         s.ma = Model{};
                         s.ma.t.emplace(Exps{}, Rat(3));
                         return true;
                     }});
        v.push_back({"a = 0", [](mc::Ctx &, S &s, const std::string &) {
                         s.a = 0;
                         s.ma = Model{};
                         return true;
                     }});
        v.push_back({"a += 1, b -= Rat(1)", [](mc::Ctx &, S &s, const std::string &) {
                         s.a += 1;
                         s.ma.add(Exps(s.ma.ss.size(), 0), Rat(1));
                         s.ma.segs = s.a.get_s_size();
                         s.b -= C(1);
                         s.mb.add(Exps(s.mb.ss.size(), 0), Rat(-1));
                         s.mb.segs = s.b.get_s_size();
                         return true;
                     }});
    }
    return v;
}
template <typename P>
std::function<void(mc::Ctx &)> histories(bool many, unsigned len, unsigned start)
{
    auto v = std::make_shared<std::vector<HOp<P>>>(ops<P>(many));
    return [v, len, start](mc::Ctx &ctx) {
        Sys<P> s;
        const auto st = start < 3u ? start : ctx.choose(3u, "initial state");
        if (st >= 1u) {
            s.ma.ss = {"x", "y"};
            s.ma.segs = st == 2u ? 2u : 0u;
            s.a.set_n_segments(s.ma.segs);
            s.a.set_symbol_set(to_ss(s.ma.ss));
            s.mb.ss = {"x"};
            s.b.set_symbol_set(to_ss(s.mb.ss));
            using K = obake::series_key_t<P>;
            s.b.add_term(key_access<K>::make({1}), 1);
            s.mb.add({1}, Rat(1));
            s.a.add_term(key_access<K>::make({1, 0}), 1);
            s.ma.add({1, 0}, Rat(1));
            s.a.add_term(key_access<K>::make({2, 1}), 3);
            s.ma.add({2, 1}, Rat(3));
        }
        std::string h = mc::cat("state ", st);
        for (unsigned i = 0; i < len; ++i) {
            const auto k = ctx.choose(static_cast<unsigned>(v->size()), "operation");
            const auto &o = (*v)[k];
            h += "; " + o.name;
            if (ctx.logging()) ctx.log(o.name);
            ctx.op();
            if (!o.f(ctx, s, h)) ctx.prune();
            compare(ctx, s.a, s.ma, h, " -> a");
            compare(ctx, s.b, s.mb, h, " -> b");
            ctx.state(mc::cat(s.ma.ref().str(), str(s.ma.ss), s.ma.segs, "|", s.mb.ref().str(), str(s.mb.ss), s.mb.segs));
        }
    };
}

// ---- A coefficient that fails at the n-th of its operations. ----
int countdown = -1;
struct Fail : std::runtime_error {
    Fail() : std::runtime_error("coefficient failure") {}
};
void tick()
{
    if (countdown > 0 && --countdown == 0) {
        countdown = -1;
        throw Fail{};
    }
}
struct fcf {
    long long v = 0;
    fcf() = default;
    fcf(int n) : v(n)
    {
        tick();
    }
    explicit fcf(const Int &n) : v(static_cast<long long>(n)) {}
    fcf(const fcf &o) : v(o.v)
    {
        tick();
    }
    fcf(fcf &&o) noexcept : v(o.v)
    {
        o.v = 0;
    }
    fcf &operator=(const fcf &o)
    {
        tick();
        v = o.v;
        return *this;
    }
    fcf &operator=(fcf &&o) noexcept
    {
        v = o.v;
        o.v = 0;
        return *this;
    }
    Rat hv_value() const
    {
        return Rat(v);
    }
    static fcf mk(long long x)
    {
        fcf r;
        r.v = x;
        return r;
    }
    friend fcf operator+(const fcf &a, const fcf &b)
    {
        tick();
        return mk(a.v + b.v);
    }
    friend fcf operator-(const fcf &a, const fcf &b)
    {
        tick();
        return mk(a.v - b.v);
    }
    friend fcf operator*(const fcf &a, const fcf &b)
    {
        tick();
        return mk(a.v * b.v);
    }
    friend fcf operator/(const fcf &a, const fcf &b)
    {
        tick();
        return mk(a.v / b.v);
    }
    fcf operator-() const
    {
        return mk(-v);
    }
    // The value is spoiled before the failure is reported.
    fcf &operator+=(const fcf &b)
    {
        const auto r = v + b.v;
        v = 0;
        tick();
        v = r;
        return *this;
    }
    fcf &operator-=(const fcf &b)
    {
        const auto r = v - b.v;
        v = 0;
        tick();
        v = r;
        return *this;
    }
    fcf &operator*=(const fcf &b)
    {
        const auto r = v * b.v;
        v = 0;
        tick();
        v = r;
        return *this;
    }
    fcf &operator/=(const fcf &b)
    {
        const auto r = v / b.v;
        v = 0;
        tick();
        v = r;
        return *this;
    }
    friend bool operator==(const fcf &a, const fcf &b)
    {
        return a.v == b.v;
    }
    friend bool operator!=(const fcf &a, const fcf &b)
    {
        return a.v != b.v;
    }
    friend std::ostream &operator<<(std::ostream &os, const fcf &a)
    {
        return os << a.v;
    }
};
bool is_zero(const fcf &a)
{
    return a.v == 0;
}
void negate(fcf &a)
{
    a.v = -a.v;
}
std::size_t fweight = 8;
std::size_t byte_size(const fcf &)
{
    return fweight;
}

template <typename K>
std::function<void(mc::Ctx &)> faults(Univ ua, Univ ub, std::size_t weight)
{
    using P = obake::polynomial<K, fcf>;
    return all_pairs(ua, ub, [weight](mc::Ctx &ctx, const Desc &da, const Desc &db) {
        static const std::vector<std::pair<const char *, std::function<void(P &, P &)>>> fs = {
            {"a += b", [](P &a, P &b) { a += b; }},
            {"a -= b", [](P &a, P &b) { a -= b; }},
            {"a += move(b)", [](P &a, P &b) { a += std::move(b); }},
            {"a -= move(b)", [](P &a, P &b) { a -= std::move(b); }},
            {"a = a + b", [](P &a, P &b) { a = a + b; }},
            {"a = move(a) - move(b)", [](P &a, P &b) { a = std::move(a) - std::move(b); }},
            {"a = move(a) + b", [](P &a, P &b) { a = std::move(a) + b; }},
            {"a *= b", [](P &a, P &b) { a *= b; }},
            {"a = move(a) * move(b)", [](P &a, P &b) { a = std::move(a) * std::move(b); }},
            {"a *= 2", [](P &a, P &) { a *= fcf::mk(2); }},
            {"a = move(a) / 2", [](P &a, P &) { a = std::move(a) / fcf::mk(2); }},
            {"a = b", [](P &a, P &b) { a = b; }},
            {"a = P(b)", [](P &a, P &b) { a = P(b); }},
            {"a += 1", [](P &a, P &) { a += fcf::mk(1); }},
            {"insert the terms of b", [](P &a, P &b) {
                 if (a.get_symbol_set() != b.get_symbol_set()) return;
                 for (const auto &t : b) a.add_term(t.first, t.second);
             }},
            {"remove the terms of b", [](P &a, P &b) {
                 if (a.get_symbol_set() != b.get_symbol_set()) return;
                 for (const auto &t : b) a.template add_term<false>(t.first, t.second);
             }},
        };
        const auto &f = ctx.pick(fs, "operation");
        if (ctx.logging()) ctx.log(f.first);
        fweight = weight;
        countdown = -1;
        for (int k = 1;; ++k) {
            P a = da.make<P>(), b = db.make<P>();
            countdown = k;
            bool failed = false;
            ctx.op();
            try {
                f.second(a, b);
            } catch (const Fail &) {
                failed = true;
            }
            countdown = -1;
            const auto h = mc::cat(f.first, " with a = ", da.str(), ", b = ", db.str(), failed ? mc::cat(", failing at coefficient operation ", k) : std::string());
            // NOTE: an operand given as an rvalue needs only be destructible and assignable.
            const std::string nm(f.first);
            if (nm.find("move(a)") == std::string::npos || !failed) check_inv(ctx, a, h);
            if (nm.find("move(b)") == std::string::npos) check_inv(ctx, b, h);
            // Still usable.
            a = da.make<P>();
            b = db.make<P>();
            MC_CHECK(ctx, to_ref(a + b) == da.ref() + db.ref(), h, ": the operands cannot be reused");
            if (!failed) break;
            if (k > 400) ctx.fail("too many coefficient operations");
        }
        ctx.state(mc::mix(mc::mix(mc::hstr(da.str()), mc::hstr(db.str())), mc::hstr(f.first)));
    });
}


// ---- The rest of the public operations: the invariants of everything they touch or return. ----
#if PART >= 6
template <typename P>
std::function<void(mc::Ctx &)> sweep(Univ ua, Univ ub, unsigned len)
{
    auto v = std::make_shared<std::vector<Step<P>>>(api<P>());
    return all_pairs(ua, ub, [v, len](mc::Ctx &ctx, const Desc &da, const Desc &db) {
        P a = da.make<P>(), b = db.make<P>();
        std::string h = mc::cat("a = ", da.str(), ", b = ", db.str());
        for (unsigned i = 0; i < len; ++i) {
            const auto &o = (*v)[ctx.choose(static_cast<unsigned>(v->size()), "operation")];
            h += "; " + o.name;
            if (ctx.logging()) ctx.log(o.name);
            ctx.op();
            try {
                if (!o.f(a, b)) ctx.prune();
            } catch (const std::exception &) {
                // NOTE: a rejected operation; the operands may have been given away.
                if (h.find("move(") != std::string::npos) ctx.prune();
            }
            check_inv(ctx, a, h + " -> a");
            check_inv(ctx, b, h + " -> b");
            ctx.state(mc::mix(mc::mix(mc::hstr(to_ref(a).str()), mc::hstr(to_ref(b).str())), a.get_s_size() * 64u + b.get_s_size() * 8u + a.get_symbol_set().size()));
        }
    });
}
template <typename K>
using PSR = obake::p_series<K, Rat>;
const Univ w1{{{"x"}, {"x", "y"}}, {0, 1, 2}, {Rat(1), Rat(-3, 2)}, 2, {0, 2}};
const Univ w2{{{}, {"y"}, {"a", "x"}}, {0, 1}, {Rat(1), Rat(1, 2)}, 1, {0, 2}};
const Univ w3{{{"x", "y"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0, 2}};
const Univ w5{{{"x"}}, {1}, {Rat(1), Rat(-1)}, 1, {0}};
const Univ w4{{{"x"}, {"x", "y"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {2}};
const Univ i1{{{"x"}, {"x", "y"}}, {0, 1, 2}, {Rat(1), Rat(-2), Rat(3)}, 2, {0, 2}};
const Univ i2{{{}, {"y"}, {"a", "x"}}, {0, 1}, {Rat(1), Rat(-3)}, 1, {0, 2}};
#endif

using k32 = op::packed_monomial<std::int32_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using d1 = op::d_packed_monomial<std::int64_t, 1>;
using PR = obake::polynomial<k32, Rat>;
using PI = obake::polynomial<k32, Int>;
using PD = obake::polynomial<d32, Rat>;
using PDI = obake::polynomial<d1, Int>;

const Univ f1{{{"x"}, {"x", "y"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0}};
const Univ f2{{{"x"}, {"a", "x"}}, {0, 1}, {Rat(1)}, 2, {0, 1}};
const Univ f3{{{"x", "y"}}, {0, 1}, {Rat(1)}, 3, {0, 2}};

#if PART == 0
const mc::Reg reg({
    {"histories, packed rat, all operations", histories<PR>(true, 3, 3)},
    {"thorough histories, packed rat, all operations", histories<PR>(true, 4, 3), 2, 1},
});
#elif PART == 1
const mc::Reg reg({
    {"histories, packed int, from a filled series", histories<PI>(false, 3, 1)},
    {"histories, packed int, from a filled segmented series", histories<PI>(false, 3, 2)},
    {"thorough histories, packed int", histories<PI>(false, 5, 1), 2, 1},
});
#elif PART == 2
const mc::Reg reg({
    {"histories, d_packed rat", histories<PD>(true, 3, 3)},
    {"thorough histories, d_packed rat", histories<PD>(true, 4, 3), 2, 1},
});
#elif PART == 3
const mc::Reg reg({
    {"histories, d_packed64 int", histories<PDI>(false, 3, 3)},
});
#elif PART == 4
const mc::Reg reg({
    {"faults, packed", faults<k32>(f1, f2, 8)},
    {"faults, packed, multi-threaded", faults<k32>(f3, f3, 400000)},
    {"thorough faults, packed, multi-threaded", faults<k32>(f1, f3, 1600000), 2, 1},
});
#elif PART == 5
const mc::Reg reg({
    {"faults, d_packed", faults<d32>(f1, f2, 8)},
    {"faults, d_packed, three terms", faults<d32>(f3, f1, 8)},
});
#elif PART == 6
const mc::Reg reg({
    {"all operations, packed int", sweep<PI>(i1, i2, 1)},
    {"two operations, packed int", sweep<PI>(w3, w5, 2)},
    {"thorough two operations, packed int", sweep<PI>(w4, w4, 2), 2, 1},
});
#elif PART == 7
const mc::Reg reg({
    {"all operations, d_packed rat", sweep<PD>(w1, w2, 1)},
    {"two operations, d_packed rat", sweep<PD>(w3, w5, 2)},
    {"thorough two operations, d_packed rat", sweep<PD>(w4, w4, 2), 2, 1},
});
#elif PART == 8
const mc::Reg reg({
    {"all operations, packed double", sweep<obake::polynomial<k32, double>>(w1, w2, 1)},
    {"two operations, packed double", sweep<obake::polynomial<k32, double>>(w3, w5, 2)},
    {"thorough two operations, packed double", sweep<obake::polynomial<k32, double>>(w4, w4, 2), 2, 1},
});
#elif PART == 9
const mc::Reg reg({
    {"all operations, power series", sweep<PSR<k32>>(w1, w2, 1)},
    {"two operations, power series", sweep<PSR<d32>>(w3, w5, 2)},
    {"thorough two operations, power series", sweep<PSR<k32>>(w4, w4, 2), 2, 1},
});
#endif

} // namespace
