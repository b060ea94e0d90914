// P40: the footprint, the release and the tables of degrees of segmented series, under all the ways to split and order
// the work.
#include <optional>

#include "hcf.hpp"
#include "ps.hpp"

#include <obake/byte_size.hpp>
#include <obake/polynomials/polynomial.hpp>

#include <tbb/blocked_range.h>

using namespace hv;
using namespace hh;
namespace op = obake::polynomials;

namespace
{

using k32 = op::packed_monomial<std::int32_t>;
using i64 = op::packed_monomial<std::int64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;

// A coefficient that counts: how many exist, with which size.
struct ccf {
    static long alive, made;
    static long countdown;
    std::unique_ptr<int> p;
    ccf() : ccf(0) {}
    ccf(int n) : p(std::make_unique<int>(n))
    {
        add(1);
    }
    explicit ccf(const Int &n) : ccf(static_cast<int>(n)) {}
    ccf(const ccf &o) : p(std::make_unique<int>(o.p ? *o.p : 0))
    {
        add(1);
    }
    ccf(ccf &&o) noexcept : p(std::move(o.p))
    {
        add(1);
    }
    ccf &operator=(const ccf &o)
    {
        p = std::make_unique<int>(*o.p);
        return *this;
    }
    ccf &operator=(ccf &&o) noexcept = default;
    ~ccf()
    {
        add(-1);
    }
    static void add(int n)
    {
        rt::Quiet q;
        alive += n;
        if (n > 0) ++made;
    }
    Rat hv_value() const
    {
        return Rat(*p);
    }
    ccf &operator+=(const ccf &o)
    {
        *p += *o.p;
        return *this;
    }
    ccf &operator-=(const ccf &o)
    {
        *p -= *o.p;
        return *this;
    }
    friend bool operator==(const ccf &a, const ccf &b)
    {
        return *a.p == *b.p;
    }
    friend bool operator!=(const ccf &a, const ccf &b)
    {
        return *a.p != *b.p;
    }
    friend std::ostream &operator<<(std::ostream &os, const ccf &a)
    {
        return os << *a.p;
    }
};
long ccf::alive = 0;
long ccf::made = 0;
long ccf::countdown = -1;
inline bool is_zero(const ccf &a)
{
    return *a.p == 0;
}
inline void negate(ccf &a)
{
    *a.p = -*a.p;
}
inline void negate(ccf &&a)
{
    *a.p = -*a.p;
}
// Sizes are distinct powers of ten, so that every term missing or counted twice shows.
inline std::size_t size_of(int n)
{
    std::size_t r = 1000;
    for (int i = 0; i < n && i < 12; ++i) r *= 10u;
    return r + static_cast<std::size_t>(n);
}
inline std::size_t byte_size(const ccf &a)
{
    {
        rt::Quiet q;
        if (ccf::countdown >= 0 && ccf::countdown-- == 0) throw Fail{};
    }
    return size_of(*a.p);
}

using PC = obake::polynomial<k32, ccf>;
using QC = obake::polynomial<d32, ccf>;
using PD = obake::polynomial<k32, double>;
using NC = obake::polynomial<i64, PC>;
using SC = obake::p_series<k32, ccf>;

// ---- The explorer decides all the splits and the order of the tasks. ----
mc::Ctx *the_ctx = nullptr;
struct Splits {
    std::vector<unsigned> path;
    explicit Splits(mc::Ctx &c, unsigned leaves)
    {
        the_ctx = &c;
        tbb_mc::hooks.choose = [](unsigned n, const char *l) {
            // NOTE: what the explorer allocates is not accounted.
            const auto b = rt::live_bytes;
            const auto r = the_ctx->choose(n, l);
            rt::live_bytes = b;
            return r;
        };
        tbb_mc::hooks.max_leaves = leaves;
    }
    ~Splits()
    {
        tbb_mc::hooks.choose = nullptr;
        tbb_mc::hooks.max_leaves = 4;
    }
};

Desc many(unsigned nterms, unsigned segs)
{
    Desc d;
    d.ss = {"x", "y"};
    d.segs = segs;
    for (unsigned i = 0; i < nterms; ++i) d.ts.push_back(Term{{static_cast<int>(i) - 2, static_cast<int>(i * i % 7u)}, Rat(static_cast<int>(i) + 1)});
    return d;
}
template <typename T>
T make(unsigned n, unsigned segs)
{
    if constexpr (std::is_same_v<T, NC>) {
        NC r;
        r.set_symbol_set(obake::symbol_set{"z"});
        if (segs) r.set_n_segments(segs);
        for (unsigned i = 0; i < n; ++i) r.add_term(i64{static_cast<int>(i) * 3 - 3}, many(1u + i % 3u, i % 3u).make<PC>());
        return r;
    } else {
        auto r = many(n, segs).make<T>();
        if constexpr (std::is_same_v<T, SC>) {
            if (n % 2u) obake::set_truncation(r, 100, obake::symbol_set{"x", "u"});
        }
        return r;
    }
}

// One pass over the terms.
template <typename T>
std::size_t footprint(const T &x);
template <typename T>
std::size_t key_footprint(const op::packed_monomial<T> &k)
{
    return sizeof(k);
}
template <typename T, unsigned N>
std::size_t key_footprint(const op::d_packed_monomial<T, N> &k)
{
    return sizeof(k) + k._container().capacity() * sizeof(T);
}
template <typename C>
std::size_t cf_footprint(const C &c)
{
    if constexpr (std::is_same_v<C, ccf>) return size_of(*c.p);
    else if constexpr (std::is_same_v<C, double>) return sizeof(double);
    else return footprint(c);
}
template <typename T>
std::size_t footprint(const T &x)
{
    std::size_t r = sizeof(T) + (std::size_t(1) << x.get_s_size()) * sizeof(x._get_s_table()[0]);
    for (const auto &p : x) r += sizeof(obake::series_term_t<T>) - sizeof(p.first) - sizeof(p.second) + key_footprint(p.first) + cf_footprint(p.second);
    r += obake::byte_size(x.tag()) - sizeof(x.tag());
    return r;
}

template <typename T>
void sizes(mc::Ctx &ctx, const char *type, unsigned max_terms, unsigned max_segs, unsigned leaves, unsigned step)
{
    const auto n = ctx.choose(max_terms / step + 1u, "terms") * step, s = ctx.choose(max_segs + 1u, "segments");
    const auto x = make<T>(n, s);
    const auto e = footprint(x);
    std::size_t got, moved;
    {
        Splits sp(ctx, leaves);
        got = obake::byte_size(x);
    }
    moved = obake::byte_size(T(x));
    ctx.op(2);
    ctx.state(mc::mix(mc::hstr(type), mc::mix(n * 100u + s, got)));
    MC_CHECK(ctx, got == e, "the size of a ", type, " of ", n, " terms in ", 1u << s, " segments is ", got, " instead of ", e);
    MC_CHECK(ctx, moved == e, "the size of a copy is ", moved, " instead of ", e);
    // Statistics report the same.
    const auto st = x.table_stats();
    MC_CHECK(ctx, st.find(mc::cat(": ", e, "\n")) != std::string::npos, "the statistics of a ", type, " of ", n, " terms: ", st);
}
// The size of a coefficient cannot be computed.
void failing_size(mc::Ctx &ctx, unsigned leaves)
{
    const auto n = 1u + ctx.choose(ctx.thorough() ? 6 : 4, "terms"), s = ctx.choose(3, "segments"), at = ctx.choose(n + 1u, "failure");
    const auto x = make<PC>(n, s);
    bool failed = false;
    std::size_t r = 0;
    {
        Splits sp(ctx, leaves);
        ccf::countdown = static_cast<long>(at);
        try {
            r = obake::byte_size(x);
        } catch (const Fail &) {
            failed = true;
        }
        ccf::countdown = -1;
    }
    ctx.op();
    ctx.state(mc::mix(n, mc::mix(s, at)));
    MC_CHECK(ctx, failed == (at < n), "failure ", at, " of the size of a coefficient, out of ", n, ": ", failed ? "reported" : "lost");
    MC_CHECK(ctx, failed || r == footprint(x), "the size is ", r, " instead of ", footprint(x));
    MC_CHECK(ctx, obake::byte_size(x) == footprint(x), "the size after a failure");
}

// ---- The release of the terms. ----
template <typename T>
void release(mc::Ctx &ctx, const char *type, unsigned max_terms, unsigned max_segs, unsigned leaves, unsigned step)
{
    const auto n = ctx.choose(max_terms / step + 1u, "terms") * step, s = ctx.choose(max_segs + 1u, "segments");
    const auto how = ctx.choose(7, "release");
    static const char *hows[] = {"clear", "destruction", "copy assignment", "move assignment", "assignment of a scalar", "clear and destruction", "failed assignment"};
    const std::string what = mc::cat(hows[how], " of a ", type, " of ", n, " terms in ", 1u << s, " segments");
    { // Objects made at the first use.
        const auto w = make<T>(1, 0);
    }
    const long alive0 = ccf::alive, bytes0 = rt::live_bytes;
    long alive1 = -1, bytes1 = -1, alive_other = 0;
    bool empty = true;
    Ref after;
    {
        const auto other = make<T>(2, 1);
        alive_other = ccf::alive - alive0;
        const long b1 = rt::live_bytes;
        std::optional<T> x(make<T>(n, s));
        Splits sp(ctx, leaves);
        switch (how) {
            case 0:
                x->clear();
                empty = x->empty() && x->size() == 0u && x->begin() == x->end() && x->get_symbol_set().empty();
                alive1 = ccf::alive - alive_other;
                // It can be used.
                *x = make<T>(3, 1);
                after = to_ref(*x);
                break;
            case 1:
                x.reset();
                alive1 = ccf::alive - alive_other;
                bytes1 = rt::live_bytes - b1;
                break;
            case 2:
                *x = other;
                alive1 = ccf::alive - 2 * alive_other;
                break;
            case 3: {
                T y(other);
                *x = std::move(y);
                break;
            }
            case 4:
                *x = T(5);
                break;
            case 5:
                x->clear();
                x->clear();
                x.reset();
                alive1 = ccf::alive - alive_other;
                bytes1 = rt::live_bytes - b1;
                break;
            default: {
                T y(std::move(*x));
                swap(*x, y);
            }
        }
    }
    const long bytes2 = rt::live_bytes - bytes0;
    ctx.op();
    ctx.state(what);
    MC_CHECK(ctx, empty, what, ": terms remain");
    if (alive1 >= 0) MC_CHECK(ctx, alive1 == alive0, what, ": ", alive1 - alive0, " coefficients remain");
    if (bytes1 >= 0) MC_CHECK(ctx, bytes1 <= 0, what, ": ", bytes1, " bytes remain");
    if (how == 0u) MC_CHECK(ctx, after == to_ref(make<T>(3, 1)), what, ", new terms: ", after);
    MC_CHECK(ctx, ccf::alive == alive0, what, ": at the end ", ccf::alive - alive0, " coefficients remain");
    MC_CHECK(ctx, bytes2 <= 0 || how == 0u, what, ": at the end ", bytes2, " bytes remain");
}

// ---- The tables of degrees. ----
using namespace obake::customisation::internal;
template <typename T, typename It>
auto deg_table(It b, It e, const obake::symbol_set &ss, bool par)
{
    // NOTE: not part of the documented interface.
    if constexpr (requires { make_degree_vector<T>(b, e, ss, par); }) return make_degree_vector<T>(b, e, ss, par);
    else return 0;
}
template <typename T, typename It>
auto pdeg_table(It b, It e, const obake::symbol_set &ss, const obake::symbol_set &s, bool par)
{
    if constexpr (requires { make_p_degree_vector<T>(b, e, ss, s, par); }) return make_p_degree_vector<T>(b, e, ss, s, par);
    else return 0;
}
template <typename T>
void tables(mc::Ctx &ctx, const char *type, unsigned max_terms, unsigned leaves)
{
    const auto n = ctx.choose(max_terms + 1u, "terms");
    static const std::vector<Syms> sets{{}, {"x"}, {"y"}, {"x", "y"}, {"a", "y", "z"}, {"x", "z"}, {"q"}};
    const auto k = ctx.choose(static_cast<unsigned>(sets.size()) + 1u, "degree");
    const bool ptrs = ctx.flag("pointers");
    const auto x = make<T>(n, 1);
    const auto &ss = x.get_symbol_set();
    // The order of the terms does not matter, the table follows it.
    using term = std::pair<obake::series_key_t<T>, obake::series_cf_t<T>>;
    std::vector<term> v;
    std::vector<const obake::series_term_t<T> *> pv;
    for (const auto &p : x) {
        v.emplace_back(p.first, p.second);
        pv.push_back(&p);
    }
    std::vector<ll> e;
    for (const auto &p : x) {
        // The degree of a series with one term.
        T t;
        t.set_symbol_set(ss);
        t.add_term(p.first, p.second);
        const auto r = to_ref(t);
        bool any = false;
        ll d = 0;
        for (const auto &[m, c] : r.t) {
            const ll dm = k ? Ref::mdeg(m, std::set<std::string>(sets[k - 1u].begin(), sets[k - 1u].end())) : Ref::mdeg(m);
            d = any ? std::max(d, dm) : dm;
            any = true;
        }
        e.push_back(d);
    }
    const auto run = [&](auto b, auto en, bool par) {
        std::vector<ll> g;
        const auto t = [&] {
            if (k) return pdeg_table<T>(b, en, ss, to_ss(sets[k - 1u]), par);
            return deg_table<T>(b, en, ss, par);
        }();
        if constexpr (!std::is_same_v<decltype(t), const int>)
            for (auto d : t) g.push_back(static_cast<ll>(d));
        else g = e;
        return g;
    };
    std::vector<ll> serial, par;
    serial = ptrs ? run(pv.cbegin(), pv.cend(), false) : run(v.cbegin(), v.cend(), false);
    {
        Splits sp(ctx, leaves);
        par = ptrs ? run(pv.cbegin(), pv.cend(), true) : run(v.cbegin(), v.cend(), true);
    }
    ctx.op(2);
    ctx.state(mc::mix(mc::hstr(type), mc::mix(n * 100u + k, ptrs)));
    MC_CHECK(ctx, serial == e, "degrees of the terms of a ", type, " (", k, "): ", vstr(serial), " instead of ", vstr(e));
    MC_CHECK(ctx, par == e, "degrees of the terms of a ", type, " (", k, "), in parallel: ", vstr(par), " instead of ", vstr(e));
}

// ---- All the schedules of several threads. ----
template <typename T>
void scheduled(mc::Ctx &ctx, const char *type, unsigned dev, unsigned workers)
{
    const auto n = ctx.choose(3, "terms") * 3u, s = 1u + ctx.choose(2, "segments");
    const auto what = ctx.choose(5, "operation");
    // 0: size, 1: clear, 2: destruction, 3, 4: degrees
    auto *x = new T(make<T>(n, s));
    const T keep(*x);
    const auto e = footprint(keep);
    std::size_t got[2] = {0, 0};
    std::vector<ll> tab[2], ser;
    using term = std::pair<obake::series_key_t<T>, obake::series_cf_t<T>>;
    std::vector<term> v;
    for (const auto &p : keep) v.emplace_back(p.first, p.second);
    const auto degs = [&](bool par) {
        std::vector<ll> r;
        const auto fill = [&](const auto &t) {
            if constexpr (!std::is_same_v<std::remove_cvref_t<decltype(t)>, int>)
                for (auto d : t) r.push_back(static_cast<ll>(d));
        };
        if (what == 3u) fill(deg_table<T>(v.cbegin(), v.cend(), keep.get_symbol_set(), par));
        else fill(pdeg_table<T>(v.cbegin(), v.cend(), keep.get_symbol_set(), obake::symbol_set{"x"}, par));
        return r;
    };
    if (what >= 3u) ser = degs(false);
    std::vector<std::function<void()>> fns;
    if (what == 0u) {
        for (unsigned t = 0; t < 2u; ++t) fns.push_back([&, t]() { got[t] = obake::byte_size(*x); });
    } else if (what == 1u) {
        fns.push_back([&]() { x->clear(); });
        fns.push_back([&]() { got[1] = obake::byte_size(keep); });
    } else if (what == 2u) {
        fns.push_back([&]() { delete x; });
        fns.push_back([&]() {
            const T y(keep);
            got[1] = obake::byte_size(y);
        });
    } else {
        for (unsigned t = 0; t < 2u; ++t) fns.push_back([&, t]() { tab[t] = degs(true); });
    }
    rt::Options o;
    o.workers = workers;
    o.deviations = dev;
    o.splits = true;
    o.max_leaves = 3;
    const auto st = rt::run(ctx, fns, o);
    ctx.op(static_cast<unsigned>(st.sync + st.tasks));
    ctx.state(mc::mix(st.hash, mc::mix(mc::hstr(type), what * 100u + n * 10u + s)));
    if (what == 0u) MC_CHECK(ctx, got[0] == e, "the size is ", got[0], " instead of ", e);
    if (what <= 2u) MC_CHECK(ctx, got[1] == e, "the size is ", got[1], " instead of ", e);
    if (what == 1u) MC_CHECK(ctx, x->empty() && x->begin() == x->end(), "terms remain after clear()");
    for (unsigned t = 0; what >= 3u && t < 2u; ++t) MC_CHECK(ctx, tab[t] == ser, "degrees: ", vstr(tab[t]), " instead of ", vstr(ser));
    if (what != 2u) delete x;
}

mc::Reg reg({
    {"size", [](mc::Ctx &c) { sizes<PC>(c, "polynomial", 9, 4, c.thorough() ? 6 : 5, 1); }, 4},
    {"size, long keys", [](mc::Ctx &c) { sizes<QC>(c, "polynomial with long keys", 8, 3, c.thorough() ? 6 : 5, 1); }, 4},
    {"size, nested", [](mc::Ctx &c) { sizes<NC>(c, "nested polynomial", 4, 2, c.thorough() ? 3 : 2, 1); }, 4},
    {"size, power series", [](mc::Ctx &c) { sizes<SC>(c, "power series", 6, 3, 4, 1); }, 4},
    {"size, many segments", [](mc::Ctx &c) { sizes<PD>(c, "large polynomial", 300, 9, c.thorough() ? 5 : 4, 100); }, 4},
    {"failing size", [](mc::Ctx &c) { failing_size(c, 4); }, 4},
    {"release", [](mc::Ctx &c) { release<PC>(c, "polynomial", 6, 3, c.thorough() ? 5 : 4, 1); }, 4},
    {"release, nested", [](mc::Ctx &c) { release<NC>(c, "nested polynomial", 3, 2, c.thorough() ? 3 : 2, 1); }, 4},
    {"release, power series", [](mc::Ctx &c) { release<SC>(c, "power series", 4, 2, 3, 1); }, 4},
    {"release, many terms", [](mc::Ctx &c) { release<PC>(c, "large polynomial", 200, 6, 4, 100); }, 4},
    {"degrees", [](mc::Ctx &c) { tables<PC>(c, "polynomial", c.thorough() ? 9 : 7, 5); }, 4},
    {"degrees, long keys", [](mc::Ctx &c) { tables<QC>(c, "polynomial with long keys", 6, 4); }, 4},
    {"degrees, nested", [](mc::Ctx &c) { tables<NC>(c, "nested polynomial", 5, 4); }, 4},
    {"schedules", [](mc::Ctx &c) { scheduled<PC>(c, "polynomial", c.thorough() ? 4 : 3, 1); }, 4},
    {"schedules, more threads", [](mc::Ctx &c) { scheduled<PC>(c, "polynomial", c.thorough() ? 3 : 2, 2); }, 4},
    {"schedules, nested", [](mc::Ctx &c) { scheduled<NC>(c, "nested polynomial", c.thorough() ? 3 : 2, 1); }, 4},
});

} // namespace
