// P44: every operation with a failure of every one of its memory allocations (only that one, or that one and all the
// later ones).
#include "P44_mem.hpp"

#include "api.hpp"

#include <obake/byte_size.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/tex_stream_insert.hpp>

using namespace hv;
using namespace mem;
namespace op = obake::polynomials;

namespace hv
{

// A coefficient on the heap, of a claimed size.
inline std::size_t oweight = 8;
struct ocf {
    std::unique_ptr<long long> p;
    ocf() : p(std::make_unique<long long>(0)) {}
    ocf(long long n) : p(std::make_unique<long long>(n)) {}
    ocf(int n) : p(std::make_unique<long long>(n)) {}
    explicit ocf(const Int &n) : p(std::make_unique<long long>(static_cast<long long>(n))) {}
    ocf(const ocf &o) : p(std::make_unique<long long>(o.get())) {}
    ocf(ocf &&) = default;
    ocf &operator=(const ocf &o)
    {
        auto q = std::make_unique<long long>(o.get());
        p = std::move(q);
        return *this;
    }
    ocf &operator=(ocf &&) = default;
    long long get() const
    {
        if (!p) throw std::runtime_error("a moved-from coefficient is used");
        return *p;
    }
    Rat hv_value() const
    {
        return Rat(get());
    }
    friend ocf operator*(const ocf &a, const ocf &b)
    {
        return ocf(a.get() * b.get());
    }
    ocf &operator*=(const ocf &b)
    {
        return *this = ocf(get() * b.get());
    }
    ocf &operator+=(const ocf &b)
    {
        return *this = ocf(get() + b.get());
    }
    ocf &operator-=(const ocf &b)
    {
        return *this = ocf(get() - b.get());
    }
    friend ocf operator+(const ocf &a, const ocf &b)
    {
        return ocf(a.get() + b.get());
    }
    friend ocf operator-(const ocf &a, const ocf &b)
    {
        return ocf(a.get() - b.get());
    }
    ocf operator-() const
    {
        return ocf(-get());
    }
    friend bool operator==(const ocf &a, const ocf &b)
    {
        return a.get() == b.get();
    }
    friend bool operator!=(const ocf &a, const ocf &b)
    {
        return a.get() != b.get();
    }
    friend std::ostream &operator<<(std::ostream &os, const ocf &a)
    {
        return os << a.get();
    }
};
inline bool is_zero(const ocf &a)
{
    return a.get() == 0;
}
// In place: a failure midway leaves the value.
inline void negate(ocf &a)
{
    *a.p = -a.get();
}
inline void negate(ocf &&a)
{
    *a.p = -a.get();
}
inline ocf pow(const ocf &a, int n)
{
    ocf r(1);
    for (; n > 0; --n) r *= a;
    return r;
}
inline std::size_t byte_size(const ocf &)
{
    return oweight;
}

} // namespace hv

namespace
{

void arm(long k, bool per)
{
    mem::count = 0;
    tbb_mc::hooks.plain = true;
    fail_at = k;
    persistent = per;
    tripped = false;
    armed = true;
}
// NOTE: clear() and moves are noexcept and need the shared empty symbol set and the default tag: while any empty series
// exists, they do not allocate. Without one, running out of memory there ends the program (by design).
template <typename P>
void keep_defaults()
{
    static const P *const p = new P;
    (void)p;
}
void clear_caches()
{
    obake::customisation::internal::clear_series_pow_map();
}
// What a series is, in a form that can be compared.
template <typename P>
struct Snap {
    Ref r;
    Syms ss;
    std::string tag;
    template <typename Q>
    static std::string tag_of(const Q &p)
    {
        if constexpr (obake::any_p_series<Q>)
            return trunc_of(p).str();
        else
            return "";
    }
    explicit Snap(const P &p) : r(to_ref(p)), ss(to_syms(p.get_symbol_set())), tag(tag_of(p)) {}
    friend bool operator==(const Snap &a, const Snap &b)
    {
        return a.r == b.r && a.ss == b.ss && a.tag == b.tag;
    }
    std::string str() const
    {
        return mc::cat(r.str(), " over ", hv::str(ss), tag.empty() ? "" : ", ", tag);
    }
};
enum { done, no_memory, rejected };

// The steps of api(): (a, b) may be modified.
template <typename P>
std::function<void(mc::Ctx &)> steps(Univ ua, Univ ub, std::vector<Step<P>> list, std::size_t weight = 8)
{
    // NOTE: moves and swaps are noexcept, and may need memory (for a table that was moved from): without it, the program
    // ends there, as it must.
    std::erase_if(list, [](const auto &o) { return o.name.find("swap") != std::string::npos; });
    auto v = std::make_shared<std::vector<Step<P>>>(std::move(list));
    return all_pairs(ua, ub, [v, weight](mc::Ctx &ctx, const Desc &da, const Desc &db) {
        const auto &o = (*v)[ctx.choose(static_cast<unsigned>(v->size()), "operation")];
        if (ctx.logging()) ctx.log(o.name);
        oweight = weight;
        keep_defaults<P>();
        auto run = [&](P &a, P &b, long k, bool per) {
            int r = done;
            arm(k, per);
            try {
                o.f(a, b);
            } catch (const std::bad_alloc &) {
                r = no_memory;
            } catch (const std::exception &) {
                r = rejected;
            }
            armed = false;
            return r;
        };
        const bool ma = o.name.find("move(a)") != std::string::npos || o.name.find("move(Q(move(a)))") != std::string::npos;
        const bool mb = o.name.find("move(b)") != std::string::npos;
        // Without failures, twice: the second one counts.
        std::optional<Snap<P>> ea, eb;
        int eo = done;
        long n = 0, l0 = 0;
        for (int i = 0; i < 2; ++i) {
            P a = da.make<P>(), b = db.make<P>();
            eo = run(a, b, -1, false);
            n = mem::count;
            if (eo == done || !ma) ea.emplace(a);
            if (!mb) eb.emplace(b);
            clear_caches();
        }
        ctx.op(2);
        if (eo == no_memory) ctx.fail(o.name + " throws std::bad_alloc");
        n = std::min(n, 5000l);
        for (int per = 0; per < 2; ++per)
            for (long k = 1; k <= n; ++k) {
                auto h = [&, k, per] { return mc::cat(o.name, " with a = ", da.str(), ", b = ", db.str(), ", out of memory at allocation ", k, " of ", n, per ? " and after it" : ""); };
                l0 = live;
                {
                    P a = da.make<P>(), b = db.make<P>();
                    const int r = run(a, b, k, per != 0);
                    ctx.op();
                    ctx.validated(2);
                    if (tripped && r == rejected && eo != rejected) ctx.fail(h() + ": another error is reported");
                    if (r == done) {
                        if (eo == rejected) ctx.fail(h() + " was accepted");
                        if (!(Snap<P>(a) == *ea)) ctx.fail(mc::cat(h(), " went on, and a is ", Snap<P>(a).str(), ", expected ", ea->str()));
                        if (!mb && !(Snap<P>(b) == *eb)) ctx.fail(mc::cat(h(), " went on, and b is ", Snap<P>(b).str(), ", expected ", eb->str()));
                    } else {
                        // An operand given as an rvalue needs only be destructible and assignable.
                        auto valid = [&](P &x, const char *w) {
                            check_inv(ctx, x, h() + w);
                            // It is a series like any other one.
                            const auto rx = to_ref(x);
                            P y(x);
                            P one(1);
                            if constexpr (obake::any_p_series<P>) {
                                obake::unset_truncation(y);
                                obake::unset_truncation(one);
                            }
                            if (!(y == y) || to_ref(y) != rx) ctx.fail(h() + w + " cannot be copied");
                            y += one;
                            if (to_ref(y) != rx + Ref(Rat(1))) ctx.fail(h() + w + " is not usable");
                            x.clear();
                            if (!x.empty() || x.size() || x.get_symbol_set().size()) ctx.fail(h() + w + " cannot be cleared");
                        };
                        if (!ma) valid(a, " -> a");
                        if (!mb) valid(b, " -> b");
                    }
                    // Again, on new operands (or none of it).
                    a = da.make<P>();
                    b = db.make<P>();
                    const int r2 = run(a, b, -1, false);
                    if (r2 != eo || ((eo == done || !ma) && !(Snap<P>(a) == *ea)) || (!mb && !(Snap<P>(b) == *eb))) ctx.fail(h() + ": done again, the result is another one");
                    clear_caches();
                }
                if (live != l0) ctx.fail(mc::cat(h(), ": ", live - l0, " blocks of memory are lost"));
            }
        ctx.state(mc::mix(mc::mix(mc::hstr(da.str()), mc::hstr(db.str())), mc::hstr(o.name)));
    });
}

// The operations in place, whatever the coefficients.
template <typename P>
std::vector<Step<P>> in_place()
{
    using C = obake::series_cf_t<P>;
    std::vector<Step<P>> v;
    auto add = [&](std::string n, auto f) {
        v.push_back({std::move(n), [f](P &a, P &b) {
                         f(a, b);
                         return true;
                     }});
    };
    add("a += b", [](P &a, P &b) { a += b; });
    add("a -= b", [](P &a, P &b) { a -= b; });
    add("a *= b", [](P &a, P &b) { a *= b; });
    add("a += a", [](P &a, P &) { a += a; });
    add("a -= a", [](P &a, P &) { a -= a; });
    add("a *= a", [](P &a, P &) { a *= a; });
    add("a += move(b)", [](P &a, P &b) { a += std::move(b); });
    add("a -= move(b)", [](P &a, P &b) { a -= std::move(b); });
    add("a = move(a) + a's copy", [](P &a, P &) { P c(a); a = std::move(a) + c; });
    add("a = a + a", [](P &a, P &) { a = a + a; });
    add("a = a - a", [](P &a, P &) { a = a - a; });
    add("a = b", [](P &a, P &b) { a = b; });
    add("a = a", [](P &a, P &) { const P &c = a; a = c; });
    add("a = 3", [](P &a, P &) { a = C(3); });
    add("a = 0", [](P &a, P &) { a = C(0); });
    add("a += 1", [](P &a, P &) { a += C(1); });
    add("a -= 2", [](P &a, P &) { a -= C(2); });
    add("a *= 3", [](P &a, P &) { a *= C(3); });
    add("a *= 0", [](P &a, P &) { a *= C(0); });
    add("a += a's own coefficient", [](P &a, P &) { if (!a.empty()) a += a.begin()->second; });
    add("a *= a's own coefficient", [](P &a, P &) { if (!a.empty()) a *= a.begin()->second; });
    add("negate(a)", [](P &a, P &) { obake::negate(a); });
    add("a = -move(a)", [](P &a, P &) { a = -std::move(a); });
    add("a = trim(move(a))", [](P &a, P &) { a = obake::trim(std::move(a)); });
    add("a = add_symbols(move(a), {b, y})", [](P &a, P &) { a = obake::add_symbols(std::move(a), obake::symbol_set{"b", "y"}); });
    add("filter(a)", [](P &a, P &) { obake::filter(a, [](const auto &t) { return !(t.second == C(1)); }); });
    add("a.reserve(100)", [](P &a, P &) { a.reserve(100); });
    add("a.set_n_segments(2)", [](P &a, P &) { a.clear(); a.set_n_segments(2); });
    add("a.add_term(terms of b)", [](P &a, P &b) {
        if (a.get_symbol_set() == b.get_symbol_set())
            for (const auto &t : b) a.add_term(t.first, t.second);
    });
    add("a's coefficients *= 2", [](P &a, P &) { for (auto &t : a) t.second *= C(2); });
    return v;
}

// Operations that do not modify their operands. The result is described as text.
template <typename P>
struct Pure {
    std::string name;
    std::function<std::string(const P &, const P &, const std::function<void()> &)> f;
};
template <typename R>
std::string describe(const R &r)
{
    if constexpr (obake::is_cvr_series_v<R>) {
        return Snap<R>(r).str();
    } else if constexpr (std::is_same_v<R, std::string>) {
        return r;
    } else {
        std::ostringstream os;
        os << r;
        return os.str();
    }
}
template <typename P>
std::vector<Pure<P>> pure(bool full)
{
    using C = obake::series_cf_t<P>;
    std::vector<Pure<P>> v;
    auto add = [&](std::string n, auto f) {
        v.push_back({std::move(n), [f](const P &a, const P &b, const std::function<void()> &disarm) {
                         const auto r = f(a, b);
                         disarm();
                         return describe(r);
                     }});
    };
    add("P(a)", [](const P &a, const P &) { return P(a); });
    add("P(a) assigned to P(b)", [](const P &a, const P &b) { P r(b); r = a; return r; });
    add("a + b", [](const P &a, const P &b) { return a + b; });
    add("a - b", [](const P &a, const P &b) { return a - b; });
    add("a * b", [](const P &a, const P &b) { return a * b; });
    add("b * a", [](const P &a, const P &b) { return b * a; });
    add("P(a) + P(b)", [](const P &a, const P &b) { return P(a) + P(b); });
    add("P(a) - b", [](const P &a, const P &b) { return P(a) - b; });
    add("a - P(b)", [](const P &a, const P &b) { return a - P(b); });
    add("a + 1", [](const P &a, const P &) { return a + C(1); });
    add("2 - a", [](const P &a, const P &) { return C(2) - a; });
    add("a * 3", [](const P &a, const P &) { return a * C(3); });
    add("-a", [](const P &a, const P &) { return -a; });
    add("a == b", [](const P &a, const P &b) { return a == b; });
    add("a != 1", [](const P &a, const P &) { return a != C(1); });
    add("pow(a, 3)", [](const P &a, const P &) { return obake::pow(a, 3); });
    add("pow(a, 1) * pow(b, 2)", [](const P &a, const P &b) { return obake::pow(a, 1) * obake::pow(b, 2); });
    add("degree(a)", [](const P &a, const P &) { return obake::degree(a); });
    add("p_degree(a, {x, z})", [](const P &a, const P &) { return obake::p_degree(a, obake::symbol_set{"x", "z"}); });
    add("byte_size(a)", [](const P &a, const P &) { return obake::byte_size(a) > 0u; });
    add("trim(a)", [](const P &a, const P &) { return obake::trim(a); });
    add("add_symbols(a)", [](const P &a, const P &) { return obake::add_symbols(a, obake::symbol_set{"a", "xx", "z"}); });
    add("filtered(a)", [](const P &a, const P &) { return obake::filtered(a, [](const auto &t) { return !(t.second == C(1)); }); });
    add("stream << a", [](const P &a, const P &) {
        std::ostringstream os;
        os.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        os << a;
        return os.str();
    });
    add("tex of a", [](const P &a, const P &) {
        std::ostringstream os;
        os.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        obake::tex_stream_insert(os, a);
        return os.str();
    });
    add("lookup of the terms of b", [](const P &a, const P &b) {
        int n = 0;
        if (a.get_symbol_set() == b.get_symbol_set())
            for (const auto &t : b) n += a.find(t.first) != a.end();
        return n;
    });
    if constexpr (!std::is_same_v<C, ocf>) {
        if (full) {
            add("diff(a, x)", [](const P &a, const P &) { return obake::diff(a, "x"); });
            add("diff(a, a symbol with a rather long name)", [](const P &a, const P &) { return obake::diff(a, "a symbol with a rather long name"); });
            add("integrate(a, x)", [](const P &a, const P &) { return obake::integrate(a, "x"); });
            add("integrate(a, u)", [](const P &a, const P &) { return obake::integrate(a, "u"); });
            add("evaluate(a)", [](const P &a, const P &) { return obake::evaluate(a, obake::symbol_map<double>{{"x", 2.}, {"y", 3.}, {"a", -1.}}); });
            add("evaluate(a), incomplete", [](const P &a, const P &) { return obake::evaluate(a, obake::symbol_map<double>{{"y", 3.}}); });
            add("subs(a, x: 2)", [](const P &a, const P &) { return obake::subs(a, obake::symbol_map<Int>{{"x", Int(2)}}); });
            if constexpr (obake::is_polynomial_v<P>) {
                add("subs(a, x: b)", [](const P &a, const P &b) { return obake::subs(a, obake::symbol_map<P>{{"x", b}}); });
                add("truncated_mul(a, b, 2)", [](const P &a, const P &b) { return truncated_mul(a, b, 2); });
                add("truncated_mul(a, b, 1, {x})", [](const P &a, const P &b) { return truncated_mul(a, b, 1, obake::symbol_set{"x"}); });
                add("truncate_degree(P(a), 1)", [](const P &a, const P &) { P r(a); obake::truncate_degree(r, 1); return r; });
                add("make_polynomials", [](const P &, const P &) { auto [x, y] = obake::make_polynomials<P>("x", "yy"); return x + y; });
                add("make_polynomials, symbols", [](const P &, const P &) { auto [x, y] = obake::make_polynomials<P>(obake::symbol_set{"u", "x", "yy"}, "x", "yy"); return x - y; });
            } else {
                add("set_truncation(P(a), 1)", [](const P &a, const P &) { P r(a); obake::set_truncation(r, 1); return r; });
                add("set_truncation(P(a), 1, {x, w})", [](const P &a, const P &) { P r(a); obake::set_truncation(r, 1, obake::symbol_set{"x", "w"}); return r; });
                add("a truncated * b", [](const P &a, const P &b) { P r(a); obake::set_truncation(r, 2, obake::symbol_set{"y"}); return r * b; });
                add("make_p_series_t", [](const P &, const P &) { auto [x, y] = obake::make_p_series_t<P>(3, "x", "yy"); return x + y; });
                add("make_p_series_p", [](const P &, const P &) { auto [x, y] = obake::make_p_series_p<P>(3, obake::symbol_set{"x"}, "x", "yy"); return x + y; });
            }
        }
    } else if constexpr (obake::is_polynomial_v<P>) {
        add("truncated_mul(a, b, 2)", [](const P &a, const P &b) { return truncated_mul(a, b, 2); });
        add("truncated_mul(a, b, 1, {x})", [](const P &a, const P &b) { return truncated_mul(a, b, 1, obake::symbol_set{"x"}); });
    }
    return v;
}
template <typename P>
std::function<void(mc::Ctx &)> pures(Univ ua, Univ ub, bool full, std::size_t weight = 8)
{
    auto v = std::make_shared<std::vector<Pure<P>>>(pure<P>(full));
    return all_pairs(ua, ub, [v, weight](mc::Ctx &ctx, const Desc &da, const Desc &db) {
        const auto &o = (*v)[ctx.choose(static_cast<unsigned>(v->size()), "operation")];
        if (ctx.logging()) ctx.log(o.name);
        oweight = weight;
        keep_defaults<P>();
        auto run = [&](const P &a, const P &b, long k, bool per, std::string &out) {
            int r = done;
            arm(k, per);
            try {
                out = o.f(a, b, [] { armed = false; });
            } catch (const std::bad_alloc &) {
                r = no_memory;
            } catch (const std::ios_base::failure &) {
                // Streams report it so.
                r = no_memory;
            } catch (const std::exception &) {
                r = rejected;
            }
            armed = false;
            return r;
        };
        std::string want, got;
        want.reserve(1000);
        got.reserve(1000);
        int eo = done;
        long n = 0;
        for (int i = 0; i < 2; ++i) {
            const P a = da.make<P>(), b = db.make<P>();
            eo = run(a, b, -1, false, want);
            n = mem::count;
            clear_caches();
        }
        ctx.op(2);
        if (eo == no_memory) ctx.fail(o.name + " throws std::bad_alloc");
        n = std::min(n, 5000l);
        for (int per = 0; per < 2; ++per)
            for (long k = 1; k <= n; ++k) {
                auto h = [&, k, per] { return mc::cat(o.name, " with a = ", da.str(), ", b = ", db.str(), ", out of memory at allocation ", k, " of ", n, per ? " and after it" : ""); };
                got.clear();
                const auto l0 = live;
                {
                    const P a = da.make<P>(), b = db.make<P>();
                    const Snap<P> sa(a), sb(b);
                    const int r = run(a, b, k, per != 0, got);
                    ctx.op();
                    ctx.validated(3);
                    if (r == done && (eo != done || got != want)) ctx.fail(mc::cat(h(), " went on and gave ", got, ", expected ", want));
                    if (r == rejected && eo != rejected) ctx.fail(h() + ": another error is reported");
                    check_inv(ctx, a, "a");
                    check_inv(ctx, b, "b");
                    if (!(Snap<P>(a) == sa) || !(Snap<P>(b) == sb)) ctx.fail(h() + " modified an operand");
                    // Again, with the same operands (and caches).
                    got.clear();
                    const int r2 = run(a, b, -1, false, got);
                    if (r2 != eo || (eo == done && got != want)) ctx.fail(mc::cat(h(), ": done again, it gave ", got, ", expected ", want));
                    clear_caches();
                }
                if (got.capacity() > 1000u || want.capacity() > 1000u) {
                    got = std::string();
                    want = std::string(want);
                }
                if (live != l0 && got.capacity() <= 1000u) ctx.fail(mc::cat(h(), ": ", live - l0, " blocks of memory are lost"));
            }
        ctx.state(mc::mix(mc::mix(mc::hstr(da.str()), mc::hstr(db.str())), mc::hstr(o.name)));
    });
}

using k32 = op::packed_monomial<std::int32_t>;
using d1 = op::d_packed_monomial<std::int64_t, 1>;
using PI = obake::polynomial<k32, Int>;
using PR = obake::polynomial<k32, Rat>;
using DI = obake::polynomial<d1, Int>;
using PO = obake::polynomial<k32, ocf>;
using DO = obake::polynomial<d1, ocf>;
using SI = obake::p_series<k32, Int>;
using SD = obake::p_series<d1, Rat>;
using NI = obake::polynomial<d1, PI>;

const Univ a1{{{"x"}, {"x", "y"}}, {0, 2}, {Rat(1), Rat(-2)}, 2, {0, 2}};
const Univ b1{{{}, {"x"}, {"a", "x"}}, {0, 1}, {Rat(1)}, 2, {0}};
const Univ a2{{{"x", "y"}}, {0, 1}, {Rat(1)}, 2, {0, 1}};
const Univ b2{{{"x"}, {"a", "y"}}, {1, 2}, {Rat(-1)}, 2, {0}};
const Univ a3{{{"x", "y"}}, {0, 1}, {Rat(1)}, 3, {0, 1}};
const Univ b3{{{"a", "y"}, {"x", "y"}}, {0, 1}, {Rat(1), Rat(-1)}, 2, {0}};

#if PART == 0
const mc::Reg reg({
    {"packed", pures<PI>(a1, b1, true), 2},
    {"packed, heap", pures<PO>(a2, b2, true), 2},
    {"packed, heap, multi-threaded", pures<PO>(a3, b3, true, 400000), 2},
});
#elif PART == 1
const mc::Reg reg({
    {"d_packed", pures<DI>(a1, b1, true), 2},
    {"d_packed, heap", pures<DO>(a2, b2, true), 2},
    {"d_packed, heap, multi-threaded", pures<DO>(a2, b2, true, 400000), 2},
});
#elif PART == 2
const mc::Reg reg({
    {"power series", pures<SI>(a1, b1, true), 2},
    {"power series, d_packed", pures<SD>(a2, b2, true), 2},
});
#elif PART == 3
const mc::Reg reg({
    {"steps, packed", steps<PI>(a2, b2, api<PI>()), 2},
    {"steps, packed, rationals", steps<PR>(a2, b2, api<PR>()), 2},
});
#elif PART == 4
const mc::Reg reg({
    {"steps, d_packed", steps<DI>(a1, b2, api<DI>()), 2},
    {"steps, power series", steps<SI>(a2, b2, api<SI>()), 2},
});
#elif PART == 5
const mc::Reg reg({
    {"steps, heap", steps<PO>(a2, b2, in_place<PO>()), 2},
    {"steps, heap, multi-threaded", steps<PO>(a3, b3, in_place<PO>(), 400000), 2},
    {"steps, d_packed, heap", steps<DO>(a1, b1, in_place<DO>()), 2},
});
#endif

} // namespace
