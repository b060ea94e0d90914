// P03: the multi-threaded product under all the schedules.
#include <optional>

#include "hcf.hpp"

#include <obake/polynomials/polynomial.hpp>

using namespace hv;
using namespace hh;
namespace op = obake::polynomials;

namespace
{

// Families of operands.
Desc uni(unsigned n, int first, int step, int pattern, const char *sym = "x")
{
    Desc d;
    d.ss = {sym};
    for (unsigned i = 0; i < n; ++i) {
        const int c = pattern == 0 ? 1 : pattern == 1 ? (i % 2u ? -1 : 1) : static_cast<int>(i) - 2 ? static_cast<int>(i) - 2 : 7;
        d.ts.push_back(Term{{first + static_cast<int>(i) * step}, Rat(c)});
    }
    return d;
}
Desc grid(const Syms &ss, const Exps &alpha, unsigned take, unsigned stride, int pattern)
{
    Desc d;
    d.ss = ss;
    const auto nm = ipow(alpha.size(), static_cast<unsigned>(ss.size()));
    for (unsigned i = 0, k = 0; k < take && i < nm; i += stride, ++k)
        d.ts.push_back(Term{exps_at(i, alpha, static_cast<unsigned>(ss.size())), Rat(pattern == 0 ? 1 : pattern == 1 ? (k % 2u ? -1 : 1) : static_cast<int>(k * 3u % 7u) - 3 ? static_cast<int>(k * 3u % 7u) - 3 : 5)});
    return d;
}
Desc segmented(Desc d, unsigned s)
{
    d.segs = s;
    return d;
}
std::vector<Desc> small_ops(bool thorough)
{
    std::vector<Desc> r{uni(2, 0, 1, 1), uni(3, 0, 1, 2), grid({"x", "y"}, {0, 1}, 3, 1, 1), segmented(uni(4, -2, 3, 2), 2)};
    if (thorough) {
        r.push_back(uni(2, 0, 1, 0));
        r.push_back(grid({"y", "z"}, {-1, 0}, 3, 1, 0));
        r.push_back(uni(3, -1, 1, 1));
        r.push_back(grid({"x", "y"}, {0, 2}, 4, 1, 2));
    }
    return r;
}
std::vector<Desc> large_ops(bool thorough)
{
    std::vector<Desc> r{uni(1, 3, 1, 2), uni(9, 0, 1, 0), uni(10, 0, 1, 1), segmented(uni(17, -3, 1, 2), 3), grid({"x", "y"}, {0, 1, 2}, 9, 1, 2), grid({"x", "z"}, {-2, 0, 1, 5}, 8, 2, 1), grid({"x", "y", "z"}, {0, 1}, 8, 1, 1)};
    if (thorough) {
        r.push_back(uni(40, 0, 2, 1));
        r.push_back(uni(33, -16, 1, 0));
        r.push_back(grid({"x", "y", "z"}, {0, 1, 3}, 27, 1, 2));
    }
    return r;
}

struct Lim {
    int kind = 0; // 0: none, 1: total, 2: partial
    int max = 0;
    std::set<std::string> ss;
    std::string str() const
    {
        return kind == 0 ? "no truncation" : kind == 1 ? mc::cat("total degree <= ", max) : mc::cat("degree in ", hv::str(Syms(ss.begin(), ss.end())), " <= ", max);
    }
    Ref apply(const Ref &r) const
    {
        return kind == 0 ? r : kind == 1 ? r.truncated(max) : r.truncated(max, ss);
    }
};
const std::vector<Lim> lims{{0, 0, {}}, {1, 1, {}}, {2, 1, {"x"}}, {1, 3, {}}, {2, 2, {"x", "z"}}, {1, 100, {}}, {1, -100, {}}, {2, 0, {}}, {2, -1, {"y"}}};

template <typename P>
P product(const P &a, const P &b, const Lim &l)
{
    const obake::symbol_set ss(l.ss.begin(), l.ss.end());
    if (l.kind == 0) return a * b;
    if (l.kind == 1) return truncated_mul(a, b, l.max);
    return truncated_mul(a, b, l.max, ss);
}

struct Cfg {
    unsigned workers, dev, leaves;
    bool splits;
};

template <typename K>
void one(mc::Ctx &ctx, unsigned id, const Desc &da, const Desc &db, std::size_t w, const Lim &l, const Cfg &cf, long fail_at)
{
    // What is expected, once for all the schedules.
    struct Expected {
        Ref a, b, r;
        std::string what;
        std::uint64_t h;
    };
    static std::map<std::tuple<unsigned, std::size_t, const Lim *>, Expected> memo;
    auto &ex = memo[std::make_tuple(id, w, &l)];
    if (ex.what.empty()) {
        ex.a = da.ref();
        ex.b = db.ref();
        ex.r = l.apply(ex.a * ex.b);
        ex.what = mc::cat("(", da.str(), ") * (", db.str(), "), coefficients of ", w, " bytes, ", l.str());
        ex.h = mc::hstr(ex.what);
    }
    using P = obake::polynomial<K, hcf>;
    weight = w;
    const auto a = da.make<P>(), b = db.make<P>();
    std::optional<P> r;
    bool failed = false;
    rt::Options o;
    o.workers = cf.workers;
    o.deviations = cf.dev;
    o.splits = cf.splits;
    o.max_leaves = cf.leaves;
    countdown = fail_at;
    const auto st = rt::run(ctx,
                            {[&]() {
                                try {
                                    r.emplace(product(a, b, l));
                                } catch (const Fail &) {
                                    rt::Quiet q;
                                    failed = true;
                                }
                            }},
                            o);
    const bool fired = fail_at >= 0 && countdown < 0;
    countdown = -1;
    ctx.op(static_cast<unsigned>(st.tasks) + 1u);
    const auto what = [&]() -> const std::string & { return ex.what; };
    ctx.state(mc::mix(mc::mix(st.hash, ex.h), st.tasks));
    if (ctx.logging()) ctx.log(mc::cat(what(), ": ", st.tasks, " tasks in ", st.groups, " loops, ", st.switches, " switches, ", st.accesses, " accesses"));
    if (fired) {
        MC_CHECK(ctx, failed, what(), ": the failure of a coefficient was lost");
    } else {
        MC_CHECK(ctx, !failed && r, what(), ": no result");
        const auto &e = ex.r;
        const auto got = to_ref(*r);
        MC_CHECK(ctx, got == e, what(), " gave ", show(*r), ", expected ", e);
        MC_CHECK(ctx, to_syms(r->get_symbol_set()) == syms_union(da.ss, db.ss), what(), ": wrong symbols");
        check_inv(ctx, *r, what());
    }
    MC_CHECK(ctx, to_ref(a) == ex.a && to_ref(b) == ex.b && a.get_s_size() == da.segs && b.get_s_size() == db.segs, what(), ": an operand was modified");
    // Whether the parallel algorithm was used at all (for products of at least two terms with heavy coefficients).
    weight = 8;
}

template <typename K>
void schedules(mc::Ctx &ctx, bool large, Cfg cf, const std::vector<std::size_t> &ws, unsigned nl)
{
    static const auto lops = large_ops(ctx.thorough()), sops = small_ops(ctx.thorough());
    const auto &ops = large ? lops : sops;
    const auto i = ctx.choose(static_cast<unsigned>(ops.size()), "a"), j = ctx.choose(static_cast<unsigned>(ops.size()), "b");
    const auto w = ctx.pick(ws, "weight");
    const auto l = ctx.choose(nl, "limit");
    one<K>(ctx, (large ? 10000u : 0u) + i * 100u + j, ops[i], ops[j], w, lims[l], cf, -1);
}
// A coefficient product that fails, at every possible moment.
template <typename K>
void failures(mc::Ctx &ctx, Cfg cf)
{
    static const auto ops = small_ops(false);
    const auto i = ctx.choose(static_cast<unsigned>(ops.size()), "a"), j = ctx.choose(static_cast<unsigned>(ops.size()), "b");
    const std::vector<std::size_t> ws{40000, 1600000};
    const auto w = ctx.pick(ws, "weight");
    const auto l = ctx.choose(2, "limit");
    const auto n = static_cast<unsigned>(ops[i].ts.size() * ops[j].ts.size());
    const auto f = ctx.choose(n + 1u, "failure");
    one<K>(ctx, i * 100u + j, ops[i], ops[j], w, lims[l], cf, f);
}

// Operands so large that the check of the ranges is parallel too.
template <typename K>
void many_terms(mc::Ctx &ctx)
{
    static const std::vector<Desc> big{uni(5002, 0, 1, 1), grid({"x", "y"}, [] { Exps e; for (int i = 0; i < 71; ++i) e.push_back(i); return e; }(), 5020, 1, 2)};
    static const std::vector<Desc> sops{uni(2, 0, 1, 1), grid({"x", "y"}, {0, 1}, 3, 1, 1)};
    const auto i = ctx.choose(static_cast<unsigned>(big.size()), "a"), j = ctx.choose(static_cast<unsigned>(sops.size()), "b");
    const auto l = ctx.choose(ctx.thorough() ? 3 : 2, "limit");
    if (!ctx.thorough() && i != j) ctx.prune();
    one<K>(ctx, 20000u + i * 100u + j, big[i], sops[j], 40, lims[l], {1, 0, 3, false}, -1);
}
// The check alone.
template <typename K>
void range_check(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    const unsigned n = ctx.choose(2, "symbols") + 1u;
    obake::symbol_set ss;
    for (unsigned k = 0; k < n; ++k) ss.insert(ss.end(), std::string(1, static_cast<char>('x' + k)));
    const std::size_t s1 = ctx.pick(std::vector<std::size_t>{1, 5002}, "size"), s2 = ctx.pick(std::vector<std::size_t>{3, 5001}, "other size");
    if (s1 == 1u && s2 == 3u) ctx.prune();
    // The k-th exponents, the largest one at the given place. Nothing else gets close to the limits.
    const auto big = ctx.choose(3, "place");
    auto make = [&](std::size_t s, int most, int least) {
        std::vector<K> r;
        for (std::size_t k = 0; k < s; ++k) {
            std::vector<T> v(n, static_cast<T>(k % 5u));
            if (k == (big == 0u ? 0u : big == 1u ? s / 2u : s - 1u)) v[n - 1u] = static_cast<T>(most);
            if (k == s / 3u && s > 1u) v[0] = static_cast<T>(least);
            r.emplace_back(v.begin(), v.end());
        }
        return r;
    };
    const auto r1 = make(s1, 100, -3), r2 = make(s2, 3, -100);
    bool got = false;
    rt::Options o;
    o.workers = 2;
    o.deviations = ctx.thorough() ? 2 : 1;
    o.splits = true;
    o.max_leaves = 3;
    const auto st = rt::run(ctx, {[&]() { got = obake::monomial_range_overflow_check(r1, r2, ss); }}, o);
    ctx.op(static_cast<unsigned>(st.tasks) + 1u);
    ctx.state(mc::mix(st.hash, mc::hstr(mc::cat(n, s1, " ", s2, " ", big, " ", st.tasks))));
    MC_CHECK(ctx, got, "the check of ranges of ", s1, " and ", s2, " monomials of ", n, " symbols rejected them");
}

using k32 = op::packed_monomial<std::int32_t>;
using k64 = op::packed_monomial<std::int64_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
const std::vector<std::size_t> W{40000, 400000, 1600000};
const std::vector<std::size_t> W2{100000, 3000000};

#if PART == 0
mc::Reg reg({
    {"packed, one worker, two deviations", [](mc::Ctx &c) { schedules<k32>(c, false, {1, 2, 3, true}, c.thorough() ? W : std::vector<std::size_t>{700000}, c.thorough() ? 9 : 2); }, 4},
    {"packed, two workers", [](mc::Ctx &c) { schedules<k32>(c, false, {2, c.thorough() ? 2u : 1u, 4, true}, W, c.thorough() ? 5 : 9); }, 4},
});
#elif PART == 1
mc::Reg reg({
    {"packed, large operands", [](mc::Ctx &c) { schedules<k64>(c, true, {1, 1, c.thorough() ? 4u : 3u, true}, c.thorough() ? std::vector<std::size_t>{40000, 300000, 1000000, 7000000} : W2, c.thorough() ? 9 : 5); }, 4},
    {"packed, many terms", many_terms<k64>, 3},
    {"packed, check of the ranges", range_check<k64>, 3},
    {"thorough packed, large operands, two deviations", [](mc::Ctx &c) { schedules<k64>(c, true, {1, 2, 2, true}, W2, 4); }, 4, 1},
});
#elif PART == 2
mc::Reg reg({
    {"d_packed", [](mc::Ctx &c) { schedules<d32>(c, false, {1, c.thorough() ? 2u : 1u, 3, true}, W, 9); }, 4},
    {"d_packed, large operands", [](mc::Ctx &c) { schedules<d32>(c, true, {1, 1, 3, true}, W2, c.thorough() ? 5 : 2); }, 4},
    {"d_packed, many terms", many_terms<d32>, 3},
    {"d_packed, check of the ranges", range_check<d32>, 3},
    {"failures", [](mc::Ctx &c) { failures<k32>(c, {1, c.thorough() ? 2u : 1u, 3, true}); }, 4},
});
#endif

} // namespace
