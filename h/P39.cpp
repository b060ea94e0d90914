// P39: several threads read the same series.
#include <functional>
#include <optional>

#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_oarchive.hpp>

#include "hcf.hpp"
#include "ps.hpp"

#include <obake/byte_size.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/s11n.hpp>
#include <obake/tex_stream_insert.hpp>

using namespace hv;
using namespace hh;
namespace op = obake::polynomials;

namespace
{

using k32 = op::packed_monomial<std::int32_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using PH = obake::polynomial<k32, hcf>;
using PD = obake::polynomial<k32, double>;
using QD = obake::polynomial<d32, double>;
using NP = obake::polynomial<k32, PD>;
using SD = obake::p_series<k32, double>;

// The text of a result.
template <typename T>
std::string text(const T &x)
{
    if constexpr (std::is_same_v<T, std::string>) {
        return x;
    } else if constexpr (obake::is_cvr_series_v<T>) {
        // Representation included (the number of segments of multi-threaded products depends on the schedule).
        std::string r = weight > 8u ? to_ref(x).str() + " over " + str(to_syms(x.get_symbol_set())) : show(x);
        if constexpr (std::is_same_v<T, SD>) r += trunc_of(x).str();
        return r;
    } else {
        std::ostringstream o;
        o.precision(17);
        o << x;
        return o.str();
    }
}

using Late = std::function<std::string()>;
template <typename T>
struct Op {
    const char *name;
    std::function<Late(const T &)> run;
};
// What a thread got is turned into text (and destroyed) later, by the main thread.
template <typename R>
Late late(R &&r)
{
    auto p = std::make_shared<std::remove_cvref_t<R>>(std::forward<R>(r));
    return [p]() { return text(*p); };
}

#define OP(NAME, ...)                                                                                                  \
    if constexpr (requires(const T &x) { __VA_ARGS__; }) v.push_back({NAME, [](const T &x) { return late(__VA_ARGS__); }})

template <typename T>
std::string collect(const T &x)
{
    std::string r;
    for (auto it = x.begin(); it != x.end(); ++it) r += mc::cat(text(it->second), "*", vstr(key_access<obake::series_key_t<T>>::get(it->first, static_cast<unsigned>(x.get_symbol_set().size()))), " ");
    return r;
}
template <typename T>
std::string lookup(const T &x)
{
    std::string r;
    const auto &c = x;
    for (const auto &p : x) {
        const auto it = c.find(p.first);
        r += it == c.end() ? "?" : text(it->second);
    }
    const auto n = static_cast<unsigned>(x.get_symbol_set().size());
    r += c.find(key_access<obake::series_key_t<T>>::make(Exps(n, 7))) == c.end() ? "-" : "!";
    return r;
}
template <typename T>
std::size_t hashes(const T &x)
{
    std::size_t h = 0;
    for (const auto &p : x) h += obake::hash(p.first);
    return h;
}
template <typename A, typename T>
std::string archive(const T &x)
{
    std::ostringstream o;
    {
        A a(o);
        a << x;
    }
    return o.str();
}
template <typename T>
std::string printed(const T &x)
{
    std::ostringstream o;
    o << x;
    return o.str();
}
template <typename T>
std::string tex(const T &x)
{
    std::ostringstream o;
    obake::tex_stream_insert(o, x);
    return o.str();
}
// The message of an error.
template <typename F>
std::string error_of(const F &f)
{
    std::string m;
    try {
        f();
        return "no error";
    } catch (const std::exception &e) {
        m = e.what();
    }
    // Without the stack trace.
    const auto p = m.find("Exception message");
    return p == std::string::npos ? m : m.substr(p);
}
template <typename T>
std::string bad_eval(const T &x)
    requires requires(const obake::symbol_map<double> &m) { obake::evaluate(x, m); }
{
    return error_of([&] { (void)obake::evaluate(x, obake::symbol_map<double>{{"x", 2.}}); });
}
template <typename T>
std::string bad_conversion(const T &x)
{
    return error_of([&] { (void)static_cast<obake::series_cf_t<T>>(x); });
}
template <typename T>
    requires requires(T &r) {
        obake::truncate_degree(r, 1);
        obake::truncate_p_degree(r, 0, obake::symbol_set{});
    }
T truncated(const T &x, bool partial)
{
    T r(x);
    if (partial) obake::truncate_p_degree(r, 0, obake::symbol_set{"x"});
    else obake::truncate_degree(r, 1);
    return r;
}
template <typename T>
T assigned(const T &x, bool filled)
{
    T r;
    if (filled) r = T(3);
    r = x;
    return r;
}
const obake::symbol_map<double> &values()
{
    static const obake::symbol_map<double> m{{"x", 2.}, {"y", -1.}, {"z", 3.}};
    return m;
}

template <typename T>
std::vector<Op<T>> ops()
{
    std::vector<Op<T>> v;
    OP("iteration", collect(x));
    OP("find", lookup(x));
    OP("copy", T(x));
    OP("assignment", assigned(x, false));
    OP("assignment over", assigned(x, true));
    OP("==", x == x);
    OP("!= copy", x != T(x));
    OP("== scalar", x == 3);
    OP("text", printed(x));
    OP("tex", tex(x));
    OP("size", x.size() * 2u + (x.empty() ? 1u : 0u));
    OP("is_zero", obake::is_zero(x));
    OP("symbols", obake::symbol_set(x.get_symbol_set()).size() + x.get_s_size());
    OP("evaluate", obake::evaluate(x, values()));
    OP("subs", obake::subs(x, obake::symbol_map<double>{{"x", 2.}}));
    OP("degree", obake::degree(x));
    OP("p_degree", obake::p_degree(x, obake::symbol_set{"x", "u"}));
    OP("byte_size", obake::byte_size(x));
    OP("table_stats", x.table_stats());
    OP("+", x + x);
    OP("-", x - T(2));
    OP("+ other symbols", x + obake::make_polynomials<T>("u")[0]);
    OP("*", x * x);
    OP("* scalar", x * 2);
    OP("+= on a copy", T(x) += x);
    OP("*= on a copy", T(x) *= x);
    OP("truncated_mul", obake::polynomials::truncated_mul(x, x, 1));
    OP("truncated_mul, partial", obake::polynomials::truncated_mul(x, x, 1, obake::symbol_set{"x"}));
    OP("negation", -x);
    OP("identity", +x);
    OP("diff", obake::diff(x, "x"));
    OP("integrate", obake::integrate(x, "y"));
    OP("pow", obake::pow(x, 2));
    OP("trim", obake::trim(x));
    OP("filtered", obake::filtered(x, [](const auto &p) { return !(p.second == obake::series_cf_t<T>(1)); }));
    OP("add_symbols", obake::add_symbols(x, obake::symbol_set{"a", "t"}));
    OP("truncate_degree of a copy", truncated(x, false));
    OP("truncate_p_degree of a copy", truncated(x, true));
    if constexpr (!std::is_same_v<T, PH>) OP("binary archive", archive<boost::archive::binary_oarchive>(x));
    if constexpr (!std::is_same_v<T, PH>) OP("text archive", archive<boost::archive::text_oarchive>(x));
    if constexpr (std::is_same_v<T, SD>) OP("get_truncation", trunc_of(x).str());
    if constexpr (!std::is_same_v<T, NP>) OP("conversion", PD(x));
    OP("failing evaluation", bad_eval(x));
    OP("failing conversion", bad_conversion(x));
    OP("hash of the keys", hashes(x));
    return v;
}

Desc desc(Syms ss, std::vector<std::pair<Exps, int>> ts, unsigned segs)
{
    Desc r;
    r.ss = ss;
    r.segs = segs;
    for (auto &t : ts) r.ts.push_back(Term{t.first, Rat(t.second)});
    return r;
}
template <typename T>
T subject(unsigned k)
{
    if constexpr (std::is_same_v<T, NP>) {
        NP r;
        r.set_symbol_set(obake::symbol_set{"y"});
        if (k) r.set_n_segments(k);
        r.add_term(k32{0}, desc({"x", "z"}, {{{1, 0}, 1}, {{0, 1}, 2}}, 0).make<PD>());
        r.add_term(k32{1}, desc({"x"}, {{{1}, 3}}, 1).make<PD>());
        return r;
    } else {
        auto r = desc({"x", "y", "z"}, {{{1, 0, 0}, 1}, {{0, 2, 0}, -1}, {{-1, 3, 0}, 2}, {{0, 0, 0}, 5}}, k).make<T>();
        if constexpr (std::is_same_v<T, SD>) {
            if (k) obake::set_truncation(r, 3, obake::symbol_set{"x", "y"});
            else obake::set_truncation(r, 2);
        }
        return r;
    }
}

template <typename T>
const std::vector<Op<T>> &all()
{
    static const auto v = ops<T>();
    return v;
}

template <typename T>
void readers(mc::Ctx &ctx, const char *type, unsigned nt, std::vector<unsigned> kinds, std::size_t w, unsigned workers, unsigned dev, unsigned step)
{
    const auto &v = all<T>();
    const auto n = static_cast<unsigned>(v.size());
    const auto kind = ctx.pick(kinds, "series");
    std::vector<unsigned> o;
    std::string what = mc::cat("a ", type, " (", kind, ")");
    // Each set of operations once.
    unsigned lo = 0;
    for (unsigned t = 0; t < nt; ++t) {
        o.push_back(lo + ctx.choose((n - lo + step - 1u) / step, "operation") * step);
        lo = o.back();
        what += mc::cat(t ? " | " : ": ", v[o[t]].name);
    }
    weight = w;
    obake::customisation::internal::clear_series_pow_map();
    const T x(subject<T>(kind));
    // What one thread gets, once.
    static std::map<std::tuple<unsigned, unsigned, std::size_t>, std::string> memo;
    for (auto i : o) {
        auto &e = memo[std::make_tuple(kind, i, w)];
        if (e.empty()) {
            e = "=" + v[i].run(x)();
            obake::customisation::internal::clear_series_pow_map();
        }
    }
    const auto before = memo.emplace(std::make_tuple(kind, 1000u, w), std::string()).first;
    if (before->second.empty()) before->second = text(x);
    std::vector<Late> r(nt);
    std::vector<std::function<void()>> fns;
    for (unsigned t = 0; t < nt; ++t) fns.push_back([&, t]() { r[t] = v[o[t]].run(x); });
    rt::Options opt;
    opt.workers = workers;
    opt.deviations = dev;
    opt.max_leaves = 2;
    const auto st = rt::run(ctx, fns, opt);
    ctx.op(static_cast<unsigned>(st.sync + st.tasks));
    ctx.state(mc::mix(st.hash, mc::hstr(what)));
    if (ctx.logging()) ctx.log(mc::cat(what, ": ", st.sync, " synchronisation operations, ", st.tasks, " tasks, ", st.switches, " switches"));
    for (unsigned t = 0; t < nt; ++t) {
        MC_CHECK(ctx, static_cast<bool>(r[t]), what, ": no result");
        const auto got = "=" + r[t](), &e = memo[std::make_tuple(kind, o[t], w)];
        MC_CHECK(ctx, got == e, what, ": ", v[o[t]].name, " gave ", got, " instead of ", e);
    }
    MC_CHECK(ctx, text(x) == before->second, what, ": the series became ", text(x));
    r.clear();
    weight = 8;
    obake::customisation::internal::clear_series_pow_map();
}

// The first operations of the process.
template <typename T>
void first_readers(mc::Ctx &ctx, const char *type, unsigned dev)
{
    const auto &v = all<T>();
    const auto n = static_cast<unsigned>(v.size());
    const auto a = ctx.choose(n, "operation"), b = a + ctx.choose(n - a, "operation");
    const std::string what = mc::cat("first operations on a ", type, ": ", v[a].name, " | ", v[b].name);
    const T x(subject<T>(0));
    std::vector<Late> r(2);
    rt::Options opt;
    opt.workers = 0;
    opt.deviations = dev;
    const auto st = rt::run(ctx, {[&]() { r[0] = v[a].run(x); }, [&]() { r[1] = v[b].run(x); }}, opt);
    ctx.op(static_cast<unsigned>(st.sync));
    ctx.state(mc::mix(st.hash, mc::hstr(what)));
    const auto ra = r[0](), rb = r[1]();
    obake::customisation::internal::clear_series_pow_map();
    const auto ea = v[a].run(x)(), eb = v[b].run(x)();
    MC_CHECK(ctx, ra == ea, what, ": ", ra, " instead of ", ea);
    MC_CHECK(ctx, rb == eb, what, ": ", rb, " instead of ", eb);
}

#define S(NAME, ...) {NAME, [](mc::Ctx &c) { [[maybe_unused]] const bool th = c.thorough(); __VA_ARGS__; }, 3}

mc::Reg reg({
#if PART == 0
    S("polynomial", readers<PD>(c, "polynomial", 2, {0}, 8, 0, 2, 1)),
    S("segmented polynomial", readers<PD>(c, "polynomial", 2, {2}, 8, 1, th ? 2 : 1, 1)),
    S("three threads", readers<PD>(c, "polynomial", 3, {0, 1}, 8, 0, th ? 1 : 0, 1)),
    {"first operations", [](mc::Ctx &c) { first_readers<PD>(c, "polynomial", c.thorough() ? 2 : 1); }, 3, 0, true},
#elif PART == 1
    S("heap coefficients", readers<PH>(c, "polynomial with heap coefficients", 2, {0, 2}, 8, 0, th ? 2 : 1, 1)),
    S("heavy coefficients", readers<PH>(c, "polynomial with heavy coefficients", 2, {0, 2}, 400000, 1, 1, 1)),
#elif PART == 2
    S("d_packed", readers<QD>(c, "polynomial with long keys", 2, {0, 1}, 8, 0, th ? 2 : 1, 1)),
#elif PART == 3
    S("nested", readers<NP>(c, "nested polynomial", 2, {0, 1}, 8, 0, th ? 2 : 1, 1)),
#else
    S("power series", readers<SD>(c, "power series", 2, {0, 1}, 8, 0, th ? 2 : 1, 1)),
    {"first operations, power series", [](mc::Ctx &c) { first_readers<SD>(c, "power series", c.thorough() ? 2 : 1); }, 3, 0, true},
#endif
});

} // namespace
