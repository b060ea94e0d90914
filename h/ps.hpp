// Shared by the power series harnesses.
#ifndef VERIF_PS_HPP
#define VERIF_PS_HPP

#include <optional>
#include <variant>

#include "pairs.hpp"

#include <obake/power_series/power_series.hpp>

namespace hv
{

// No truncation, total, partial.
struct Trunc {
    int kind = 0;
    ll lim = 0;
    Syms names;
    friend bool operator==(const Trunc &a, const Trunc &b)
    {
        return a.kind == b.kind && (a.kind == 0 || a.lim == b.lim) && (a.kind != 2 || a.names == b.names);
    }
    std::string str() const
    {
        return kind == 0 ? "untruncated" : mc::cat("truncated at ", lim, kind == 2 ? " in " + hv::str(names) : std::string());
    }
    Ref apply(const Ref &r) const
    {
        return kind == 0 ? r : kind == 1 ? r.truncated(lim) : r.truncated(lim, std::set<std::string>(names.begin(), names.end()));
    }
};
template <typename P>
Trunc trunc_of(const P &p)
{
    const auto &t = obake::get_truncation(p);
    Trunc r;
    r.kind = static_cast<int>(t.index());
    if (r.kind == 1) r.lim = static_cast<ll>(std::get<1>(t));
    if (r.kind == 2) {
        r.lim = static_cast<ll>(std::get<2>(t).first);
        r.names = to_syms(std::get<2>(t).second);
    }
    return r;
}
template <typename P>
void set_trunc(P &p, const Trunc &t)
{
    if (t.kind == 0)
        obake::unset_truncation(p);
    else if (t.kind == 1)
        obake::set_truncation(p, t.lim);
    else
        obake::set_truncation(p, t.lim, to_ss(t.names));
}
// The truncation of the result of an operation; nothing if it is rejected.
inline std::optional<Trunc> merged(const Trunc &a, const Trunc &b)
{
    if (a == b || b.kind == 0) return a;
    if (a.kind == 0) return b;
    return {};
}
// A power series with its reference value.
template <typename P>
struct PItem {
    P p;
    Ref r;
    Trunc t;
    std::string str() const
    {
        return show(p) + ", " + t.str();
    }
};
// All the combinations of a universe and truncations, dropping those that repeat an earlier one.
template <typename P>
std::vector<PItem<P>> ps_items(const Univ &u, const std::vector<Trunc> &ts, unsigned stride = 1)
{
    std::vector<PItem<P>> v;
    unsigned n = 0;
    for (const auto &d : enumerate(u))
        for (const auto &t : ts) {
            const auto r = d.ref();
            const auto tr = t.apply(r);
            // Nothing is truncated of single terms and empty series, or the same as of another one.
            if (u.extra.empty() && tr != r && d.ts.size() > 1u && tr.t.size() != 1u) continue;
            if (n++ % stride) continue;
            auto p = d.make<P>();
            set_trunc(p, t);
            v.push_back({std::move(p), tr, t});
        }
    return v;
}
// The usual truncations.
inline std::vector<Trunc> truncs(std::vector<ll> lims, std::vector<Syms> sets)
{
    std::vector<Trunc> v{Trunc{}};
    for (auto l : lims) {
        v.push_back({1, l, {}});
        for (const auto &s : sets) v.push_back({2, l, s});
    }
    return v;
}
template <typename F>
auto lazy(F f)
{
    using T = decltype(f());
    auto p = std::make_shared<T *>(nullptr);
    return [p, f]() -> const T & {
        if (!*p) *p = new T(f());
        return **p;
    };
}

} // namespace hv

#endif
