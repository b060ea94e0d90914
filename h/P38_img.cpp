// One image of the process. Its static initialisation is not run at startup, but by load().
#include <optional>

#include <obake/math/pow.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/power_series/power_series.hpp>
#include <obake/series.hpp>
#include <obake/symbols.hpp>

#include "P38_img.hpp"

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

extern "C" {
extern void (*const CAT(__start_init_of_image, IMG)[])() __attribute__((visibility("hidden")));
extern void (*const CAT(__stop_init_of_image, IMG)[])() __attribute__((visibility("hidden")));
}

namespace p38
{

using K = obake::polynomials::packed_monomial<std::int32_t>;
using P = obake::polynomial<K, double>;
using S = obake::p_series<K, double>;

struct Slot {
    std::optional<P> p;
    std::optional<S> s;
    std::optional<obake::detail::ss_fw> fw;
    const Witness<0> *w0 = nullptr;
    const Witness<1> *w1 = nullptr;
    int v0 = 0, v1 = 0;
};

namespace
{

void load()
{
    for (auto *f = CAT(__start_init_of_image, IMG); f != CAT(__stop_init_of_image, IMG); ++f) (*f)();
}
Slot *make()
{
    return new Slot;
}
void destroy(Slot *s)
{
    delete s;
}
obake::symbol_set sset(const Names &v)
{
    return obake::symbol_set(v.begin(), v.end());
}
void poly(Slot &s, const Names &v)
{
    const auto ss = sset(v);
    P r;
    r.set_symbol_set(ss);
    r.add_term(K(ss.size()), 2.);
    s.p.emplace(std::move(r));
}
void pseries(Slot &s, const Names &v, int limit)
{
    const auto ss = sset(v);
    S r;
    r.set_symbol_set(ss);
    r.add_term(K(ss.size()), 3.);
    obake::set_truncation(r, limit);
    s.s.emplace(std::move(r));
}
void symbols(Slot &s, const Names &v)
{
    s.fw.emplace(sset(v));
}
void copy(Slot &d, const Slot &s)
{
    // NOTE: what was there goes away.
    if (s.p) d.p = s.p;
    if (s.s) d.s = s.s;
    if (s.fw) d.fw = s.fw;
}
bool equal(const Slot &a, const Slot &b)
{
    if (a.p.has_value() != b.p.has_value() || a.s.has_value() != b.s.has_value() || a.fw.has_value() != b.fw.has_value()) return false;
    if (a.p && (a.p->get_symbol_set() != b.p->get_symbol_set() || a.p->get_symbol_set_fw() != b.p->get_symbol_set_fw())) return false;
    if (a.s && (a.s->get_symbol_set() != b.s->get_symbol_set() || obake::get_truncation(*a.s) != obake::get_truncation(*b.s) || a.s->tag() != b.s->tag())) return false;
    if (a.fw && (*a.fw != *b.fw || a.fw->get() != b.fw->get())) return false;
    return true;
}
void drop(Slot &s)
{
    s.p.reset();
    s.s.reset();
    s.fw.reset();
}
void witness(Slot &s, unsigned i)
{
    if (i) {
        s.w1 = &obake::detail::fw_holder::apply<Witness<1>>::type::get();
        s.v1 = s.w1->a + s.w1->b;
    } else {
        s.w0 = &obake::detail::fw_holder::apply<Witness<0>>::type::get();
        s.v0 = s.w0->a + s.w0->b;
    }
}
void truncate(Slot &s, int limit)
{
    if (s.s) obake::set_truncation(*s.s, limit);
}
bool good(const Slot &s, const Content &c)
{
    const auto same = [](const obake::symbol_set &ss, int i) {
        const auto &v = sets[static_cast<unsigned>(i)];
        if (ss.size() != v.size()) return false;
        unsigned k = 0;
        for (const auto &n : ss)
            if (n != v[k++]) return false;
        return true;
    };
    if (s.p.has_value() != (c.poly >= 0) || s.s.has_value() != (c.ps >= 0) || s.fw.has_value() != (c.fw >= 0) || (s.w0 != nullptr) != c.witness[0] || (s.w1 != nullptr) != c.witness[1]) return false;
    if (s.p && (!same(s.p->get_symbol_set(), c.poly) || s.p->size() != 1u || s.p->begin()->second != 2.)) return false;
    if (s.s) {
        if (!same(s.s->get_symbol_set(), c.ps) || s.s->size() != 1u || s.s->begin()->second != 3.) return false;
        const auto &t = obake::get_truncation(*s.s);
        if (t.index() != 1u || std::get<1>(t) != c.limit) return false;
    }
    if (s.fw && !same(s.fw->get(), c.fw)) return false;
    return (!s.w0 || s.v0 == 42) && (!s.w1 || s.v1 == 43);
}
Addresses where(const Slot &s)
{
    Addresses r;
    if (s.p) r.poly = &s.p->get_symbol_set();
    if (s.s) r.ps = &s.s->get_symbol_set();
    if (s.fw) r.fw = &s.fw->get();
    r.witness[0] = s.w0;
    r.witness[1] = s.w1;
    return r;
}
// Objects of static storage duration.
void statics()
{
    static P p;
    static S q;
    static Slot st;
    poly(st, {"a"});
    pseries(st, {"a", "b"}, 3);
    p = *st.p;
    q = *st.s;
    (void)obake::pow(p, 2);
}

} // namespace

// NOTE: defined in the executable.
extern __attribute__((visibility("default"))) Count count[2];
__attribute__((visibility("default"))) void point();
extern __attribute__((visibility("default"))) const Image CAT(image, IMG);
constinit const Image CAT(image, IMG){load, make, destroy, poly, pseries, symbols, copy, equal, drop, witness, truncate, good, where, statics};

} // namespace p38
