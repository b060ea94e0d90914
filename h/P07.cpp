// P07: powers computed by several threads at once, and from within parallel loops.
#include <optional>

#include "hcf.hpp"

#include <obake/math/pow.hpp>
#include <obake/polynomials/polynomial.hpp>

#include <tbb/blocked_range.h>
#include <tbb/parallel_for.h>

using namespace hv;
using namespace hh;
namespace op = obake::polynomials;

namespace
{

using k32 = op::packed_monomial<std::int32_t>;
using d32 = op::d_packed_monomial<std::int32_t, 2>;
using P = obake::polynomial<k32, hcf>;
using Q = obake::polynomial<d32, hcf>;
using PD = obake::polynomial<k32, double>;

// Bases that collide in the cache: same keys with other coefficients, other segmentation, permuted roles, and one of
// another size.
std::vector<Desc> bases()
{
    auto d = [](Syms ss, std::vector<std::pair<Exps, int>> ts, unsigned segs = 0) {
        Desc r;
        r.ss = ss;
        r.segs = segs;
        for (auto &t : ts) r.ts.push_back(Term{t.first, Rat(t.second)});
        return r;
    };
    return {d({"x"}, {{{0}, 1}, {{1}, 1}}), d({"x"}, {{{0}, 1}, {{1}, -1}}), d({"x"}, {{{0}, 1}, {{1}, 1}}, 2), d({"x", "y"}, {{{1, 0}, 1}, {{0, 1}, 2}}), d({"x"}, {{{2}, 3}})};
}
const std::vector<Desc> &B()
{
    static const auto b = bases();
    return b;
}
const Ref &powref(unsigned b, unsigned n)
{
    static std::map<std::pair<unsigned, unsigned>, Ref> m;
    auto it = m.find({b, n});
    if (it == m.end()) it = m.emplace(std::make_pair(b, n), B()[b].ref().pow(n)).first;
    return it->second;
}

struct Req {
    unsigned base, exp;
    // 0: P, 1: Q, 2: PD; 3: clear the cache; 4: square the shared base
    unsigned what;
};
struct Res {
    Req q;
    std::optional<P> p;
    std::optional<Q> pq;
    std::optional<PD> pd;
};
struct Shared {
    std::vector<P> p;
    std::vector<Q> q;
    std::vector<PD> d;
    void init(unsigned n)
    {
        for (unsigned i = 0; i < n; ++i) {
            p.push_back(B()[i].make<P>());
            q.push_back(B()[i].make<Q>());
            d.push_back(B()[i].make<PD>());
        }
    }
};
// Executed by the threads.
void serve(const Shared &s, Res &r)
{
    switch (r.q.what) {
        case 0:
            r.p.emplace(obake::pow(s.p[r.q.base], r.q.exp));
            break;
        case 1:
            r.pq.emplace(obake::pow(s.q[r.q.base], static_cast<int>(r.q.exp)));
            break;
        case 2:
            r.pd.emplace(obake::pow(s.d[r.q.base], r.q.exp));
            break;
        case 3:
            obake::customisation::internal::clear_series_pow_map();
            break;
        default:
            r.p.emplace(s.p[r.q.base] * s.p[r.q.base]);
    }
}
std::string rstr(const Req &q)
{
    static const char *n[] = {"", " (d_packed)", " (double)"};
    return q.what == 3u ? std::string("clear") : q.what == 4u ? mc::cat("b", q.base, "*b", q.base) : mc::cat("b", q.base, "**", q.exp, n[q.what]);
}
void verify(mc::Ctx &ctx, const Res &r, const std::string &what)
{
    if (r.q.what == 3u) return;
    const auto &e = powref(r.q.base, r.q.what == 4u ? 2u : r.q.exp);
    const auto chk = [&](const auto &o) {
        MC_CHECK(ctx, static_cast<bool>(o), what, ": ", rstr(r.q), " gave no result");
        MC_CHECK(ctx, to_ref(*o) == e, what, ": ", rstr(r.q), " gave ", show(*o), ", expected ", e);
        check_inv(ctx, *o, what);
    };
    if (r.q.what == 1u) chk(r.pq);
    else if (r.q.what == 2u) chk(r.pd);
    else chk(r.p);
}

void finish(mc::Ctx &ctx, const Shared &s, const std::vector<std::vector<Res>> &rs, const rt::Stats &st, const std::string &what)
{
    ctx.op(static_cast<unsigned>(st.sync + st.tasks));
    ctx.state(mc::mix(st.hash, mc::hstr(what)));
    if (ctx.logging()) ctx.log(mc::cat(what, ": ", st.sync, " synchronisation operations, ", st.tasks, " tasks, ", st.switches, " switches"));
    for (const auto &v : rs)
        for (const auto &r : v) verify(ctx, r, what);
    for (std::size_t i = 0; i < s.p.size(); ++i) MC_CHECK(ctx, to_ref(s.p[i]) == powref(static_cast<unsigned>(i), 1), what, ": the base ", i, " was modified");
    weight = 8;
    obake::customisation::internal::clear_series_pow_map();
}

// Several threads.
void threads(mc::Ctx &ctx, unsigned nt, unsigned nreq, unsigned nb, unsigned nwhat, unsigned nexp, std::vector<std::size_t> ws, unsigned workers, unsigned dev)
{
    std::vector<std::vector<Res>> rs(nt);
    std::string what;
    for (unsigned t = 0; t < nt; ++t) {
        what += t ? " | " : "";
        for (unsigned i = 0; i < nreq; ++i) {
            Req q;
            q.what = ctx.choose(nwhat, "operation");
            // The first base used is the first one.
            q.base = q.what == 3u ? 0u : ctx.choose(nb, "base");
            q.exp = q.what >= 3u ? 2u : 3u - ctx.choose(nexp, "exponent");
            what += (i ? ", " : "") + rstr(q);
            rs[t].push_back(Res{q, {}, {}, {}});
        }
    }
    weight = ctx.pick(ws, "weight");
    what += mc::cat(", coefficients of ", weight, " bytes");
    obake::customisation::internal::clear_series_pow_map();
    // A cache that knows already something.
    Shared s;
    s.init(nb);
    if (ctx.flag("warm")) {
        (void)obake::pow(s.p[0], 2);
        what += ", warm cache";
    }
    std::vector<std::function<void()>> fns;
    for (unsigned t = 0; t < nt; ++t)
        fns.push_back([&, t]() {
            for (auto &r : rs[t]) serve(s, r);
        });
    rt::Options o;
    o.workers = workers;
    o.deviations = dev;
    o.max_leaves = 2;
    finish(ctx, s, rs, rt::run(ctx, fns, o), what);
}

// Powers from the tasks of a parallel loop.
void nested(mc::Ctx &ctx, unsigned tasks, unsigned workers, unsigned dev, unsigned nb)
{
    std::vector<std::vector<Res>> rs(1);
    std::string what = "parallel loop:";
    for (unsigned i = 0; i < tasks; ++i) {
        Req q;
        static const unsigned order[] = {0, 2, 1, 3, 4};
        const auto k = ctx.choose(nb * 2u + 1u, "request");
        q.what = k == nb * 2u ? 3u : 0u;
        q.base = order[k / 2u % nb];
        q.exp = 2u + k % 2u;
        what += " " + rstr(q);
        rs[0].push_back(Res{q, {}, {}, {}});
    }
    weight = ctx.flag("heavy") ? 400000 : 8;
    const bool twice = (dev < 2u || ctx.thorough()) && ctx.flag("another thread");
    what += mc::cat(", coefficients of ", weight, " bytes", twice ? ", and a thread" : "");
    obake::customisation::internal::clear_series_pow_map();
    Shared s;
    s.init(5);
    const bool warm = ctx.flag("warm");
    if (warm) {
        for (unsigned i = 0; i < 3u; ++i) (void)obake::pow(s.p[i], 2);
        what += ", warm cache";
    }
    auto loop = [&]() {
        tbb::parallel_for(tbb::blocked_range<unsigned>(0, tasks), [&](const auto &r) {
            for (auto i = r.begin(); i != r.end(); ++i) serve(s, rs[0][i]);
        });
    };
    std::vector<std::function<void()>> fns{loop};
    if (twice) {
        rs.push_back({Res{{0, 3, 0}, {}, {}, {}}});
        fns.push_back([&]() { serve(s, rs[1][0]); });
    }
    rt::Options o;
    o.workers = workers;
    o.deviations = dev;
    o.max_leaves = 3;
    finish(ctx, s, rs, rt::run(ctx, fns, o), what);
}

// The first use of the cache in the process.
void first_use(mc::Ctx &ctx, unsigned nt, unsigned dev)
{
    std::vector<std::vector<Res>> rs(nt);
    std::string what = "first use: ";
    for (unsigned t = 0; t < nt; ++t) {
        Req q{0, 2, ctx.choose(t ? 4u : 1u, "operation")};
        what += " " + rstr(q);
        rs[t].push_back(Res{q, {}, {}, {}});
    }
    Shared s;
    s.init(1);
    std::vector<std::function<void()>> fns;
    for (unsigned t = 0; t < nt; ++t) fns.push_back([&, t]() { serve(s, rs[t][0]); });
    rt::Options o;
    o.workers = 0;
    o.deviations = dev;
    finish(ctx, s, rs, rt::run(ctx, fns, o), what);
}

mc::Reg reg({
    {"two threads", [](mc::Ctx &c) { threads(c, 2, 1, c.thorough() ? 5u : 4u, 5, 2, {8}, 0, c.thorough() ? 2 : 1); }, 4},
    {"two threads, two requests", [](mc::Ctx &c) { threads(c, 2, 2, 2, c.thorough() ? 4u : 1u, 2, {8}, 0, c.thorough() ? 2 : 1); }, 4},
    {"two threads, two deviations", [](mc::Ctx &c) { threads(c, 2, 1, 2, 1, 1, {8}, 0, c.thorough() ? 3 : 2); }, 4},
    {"three threads", [](mc::Ctx &c) { threads(c, 3, 1, 2, 1, 1, {8}, 0, c.thorough() ? 2 : 1); }, 4},
    {"parallel products", [](mc::Ctx &c) { threads(c, 2, 1, 2, 1, 2, {40000, 400000}, 1, c.thorough() ? 2 : 1); }, 4},
    {"parallel loops", [](mc::Ctx &c) { nested(c, 2, 1, c.thorough() ? 2 : 1, c.thorough() ? 5 : 3); }, 4},
    {"parallel loops, two deviations", [](mc::Ctx &c) { nested(c, 2, 1, c.thorough() ? 3 : 2, 1); }, 4},
    {"parallel loops, more tasks", [](mc::Ctx &c) { nested(c, 3, 2, 1, 1); }, 4},
    {"first use", [](mc::Ctx &c) { first_use(c, 2, c.thorough() ? 2 : 1); }, 2, 0, true},
});

} // namespace
