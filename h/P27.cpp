// P27: construction, equality, hashing, compatibility of monomials.
#include "mono.hpp"

#include <forward_list>

using namespace hv;

namespace
{

// Outcome of a construction.
template <typename K, typename F>
std::pair<std::string, std::vector<typename K::value_type>> outcome(unsigned n, const F &f)
{
    try {
        const K k = f();
        if (!obake::key_is_compatible(k, sym_set(n))) return {"incompatible", {}};
        return {"", expos(k, n)};
    } catch (const std::overflow_error &) {
        return {"overflow_error", {}};
    } catch (const std::invalid_argument &) {
        return {"invalid_argument", {}};
    } catch (const std::exception &e) {
        return {std::string("another exception: ") + e.what(), {}};
    }
}
// A one-pass iterator.
template <typename U>
struct one_pass {
    using iterator_category = std::input_iterator_tag;
    using value_type = U;
    using difference_type = std::ptrdiff_t;
    using pointer = const U *;
    using reference = const U &;
    const std::vector<U> *v = nullptr;
    std::shared_ptr<std::size_t> pos;
    reference operator*() const
    {
        // NOTE: at() detects reads beyond the end.
        return v->at(*pos);
    }
    pointer operator->() const
    {
        return &v->at(*pos);
    }
    one_pass &operator++()
    {
        ++*pos;
        return *this;
    }
    one_pass operator++(int)
    {
        one_pass r(*this);
        ++*pos;
        return r;
    }
    friend bool operator==(const one_pass &a, const one_pass &b)
    {
        const bool ea = !a.pos || *a.pos == a.v->size(), eb = !b.pos || *b.pos == b.v->size();
        return ea == eb;
    }
    friend bool operator!=(const one_pass &a, const one_pass &b)
    {
        return !(a == b);
    }
};

template <typename K, typename U>
void construct_from(mc::Ctx &ctx, const std::vector<U> &v, const std::string &ut)
{
    using T = typename K::value_type;
    using V = std::vector<T>;
    const auto n = static_cast<unsigned>(v.size());
    // What is expected.
    std::string err;
    V e;
    if (!is_dpacked<K> && n > max_packed<T>) {
        err = "overflow_error";
    } else {
        const auto lims = mono_info<K>::lims(n);
        for (const auto &x : v) {
            const Int y(x);
            if (y < Int(lims.first) || y > Int(lims.second)) {
                // Either the value does not fit the type (a failed safe_cast), or it does not fit the group.
                if (err.empty())
                    err = (y < Int(std::numeric_limits<T>::min()) || y > Int(std::numeric_limits<T>::max())) ? "cast" : "overflow_error";
            } else if (err.empty()) {
                e.push_back(static_cast<T>(y));
            }
        }
    }
    const auto check = [&](const std::string &how, const std::pair<std::string, V> &o) {
        ctx.op();
        if (err == "cast") {
            MC_CHECK(ctx, !o.first.empty() && o.first != "incompatible", kname<K>(), " from ", n, " values of type ", ut, " by ", how, ": a value that does not fit the type is accepted: ", vstr(o.second));
            return;
        }
        MC_CHECK(ctx, o.first == err, kname<K>(), " from ", n, " values of type ", ut, " by ", how, ": ", o.first.empty() ? "accepted" : o.first, ", expected ", err.empty() ? "success" : err);
        if (err.empty()) MC_CHECK(ctx, o.second == e, kname<K>(), " from ", vstr(e), " (", ut, ") by ", how, " has exponents ", vstr(o.second));
    };
    check("a pair of iterators", outcome<K>(n, [&]() { return K(v.begin(), v.end()); }));
    check("an iterator and a size", outcome<K>(n, [&]() { return K(v.begin(), n); }));
    check("a range", outcome<K>(n, [&]() { return K(v); }));
    check("an rvalue range", outcome<K>(n, [&]() { return K(std::vector<U>(v)); }));
    const std::list<U> l(v.begin(), v.end());
    check("a pair of list iterators", outcome<K>(n, [&]() { return K(l.begin(), l.end()); }));
    check("a list", outcome<K>(n, [&]() { return K(l); }));
    const std::forward_list<U> fl(v.begin(), v.end());
    check("a forward list", outcome<K>(n, [&]() { return K(fl); }));
    using O = one_pass<U>;
    const auto op = [&]() { return O{&v, std::make_shared<std::size_t>(0)}; };
    check("an input iterator and a size", outcome<K>(n, [&]() { return K(op(), n); }));
    if constexpr (is_dpacked<K>) {
        check("a pair of input iterators", outcome<K>(n, [&]() { return K(op(), O{&v, {}}); }));
    }
    const auto il = [&](auto... i) { return outcome<K>(n, [&]() { return K(std::initializer_list<U>{v[static_cast<std::size_t>(i)]...}); }); };
    const std::string ils = "an initializer list";
    if (n == 1u) check(ils, il(0));
    if (n == 2u) check(ils, il(0, 1));
    if (n == 3u) check(ils, il(0, 1, 2));
    if (n == 4u) check(ils, il(0, 1, 2, 3));
    if (n == 5u) check(ils, il(0, 1, 2, 3, 4));
    if (n == 9u) check(ils, il(0, 1, 2, 3, 4, 5, 6, 7, 8));
}
template <typename U, typename T>
bool conv(const std::vector<i128> &v, std::vector<U> &out, T)
{
    out.clear();
    for (auto x : v) {
        if constexpr (std::is_integral_v<U>) {
            if (x < i128(std::numeric_limits<U>::min()) || x > i128(std::numeric_limits<U>::max())) return false;
            out.push_back(static_cast<U>(x));
        } else {
            out.push_back(U(to_int(x)));
        }
    }
    return true;
}

template <typename K>
void construction(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    const auto n = ctx.choose(mono_info<K>::max_symbols() + 3u, "symbols");
    const auto over = !is_dpacked<K> && n > max_packed<T>;
    std::vector<std::vector<i128>> vs;
    if (over) {
        vs.push_back(std::vector<i128>(n, 0));
        vs.push_back(std::vector<i128>(n, 1));
    } else {
        for (const auto &v : mono_vecs<K>(n, ctx.thorough() ? 3000 : 150)) vs.emplace_back(v.begin(), v.end());
        // Values beyond the limits, at every position.
        const auto [lo, hi] = mono_info<K>::lims(n);
        std::vector<i128> bad{i128(hi) + 1, i128(lo) - 1, std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), i128(std::numeric_limits<T>::max()) + 1, i128(std::numeric_limits<T>::min()) - 1, (i128(1) << 32) + 1, i128(1) << 63, i128(1) << 64, -(i128(1) << 64), (i128(1) << 64) + 3};
        for (unsigned i = 0; i < n; ++i)
            for (auto b : bad) {
                std::vector<i128> v(n, 0);
                v[i] = b;
                vs.push_back(v);
                if (n > 1u) {
                    v[(i + 1u) % n] = hi;
                    vs.push_back(v);
                }
            }
    }
    const auto &v = vs[ctx.choose(static_cast<unsigned>(vs.size()), "exponents")];
    const auto go = [&](auto u, const char *name) {
        using U = decltype(u);
        std::vector<U> w;
        if (conv<U>(v, w, T{})) construct_from<K>(ctx, w, name);
    };
    go(int{}, "int");
    go(static_cast<signed char>(0), "signed char");
    go(static_cast<unsigned short>(0), "unsigned short");
    go(0u, "unsigned");
    go(0ll, "long long");
    go(0ull, "unsigned long long");
    go(Int{}, "integer");
    ctx.state(mc::cat(kname<K>(), v.size(), " ", v.empty() ? "" : istr(v[0])));
}

// Equality, hash, unity, over all pairs.
template <typename K>
void pairs(mc::Ctx &ctx)
{
    const auto n = ctx.choose(mono_info<K>::max_symbols() + 1u, "symbols");
    const auto &ss = sym_set(n);
    const auto vs = mono_vecs<K>(n, ctx.thorough() ? 4000 : 300);
    const auto &a = ctx.pick(vs, "first");
    using T = typename K::value_type;
    const K ka(a.begin(), a.end());
    const auto ha = obake::hash(ka);
    const bool one = std::all_of(a.begin(), a.end(), [](T x) { return x == T(0); });
    MC_CHECK(ctx, obake::key_is_one(ka, ss) == one, kname<K>(), vstr(a), ": key_is_one() is wrong");
    MC_CHECK(ctx, !obake::key_is_zero(ka, ss), kname<K>(), vstr(a), ": key_is_zero() is true");
    MC_CHECK(ctx, obake::key_is_one(K(ss), ss) && obake::key_is_compatible(K(ss), ss) && expos(K(ss), n) == std::vector<T>(n, T(0)), kname<K>(), " from ", n, " symbols is not one");
    if (n == 0u || !is_dpacked<K>) MC_CHECK(ctx, obake::key_is_one(K(), ss) && obake::key_is_compatible(K(), ss), kname<K>(), ": the default monomial is not one");
    const auto &lims = mono_info<K>::lims(n);
    for (const auto &b : vs) {
        // Same value in different objects, made in different ways.
        const K kb = mono_of<K>(b);
        ctx.op(2);
        const bool eq = (a == b);
        ctx.validated(3);
        if ((ka == kb) != eq || (ka != kb) == eq || (kb == ka) != eq) ctx.fail(mc::cat(kname<K>(), ": the comparison of ", vstr(a), " and ", vstr(b), " is wrong"));
        const auto hb = obake::hash(kb);
        if (eq && ha != hb) ctx.fail(mc::cat(kname<K>(), ": different hashes of ", vstr(a)));
        bool fits = true;
        for (unsigned i = 0; i < n; ++i) fits = fits && in_range(i128(a[i]) + i128(b[i]), lims);
        if (fits) {
            std::vector<T> s;
            for (unsigned i = 0; i < n; ++i) s.push_back(static_cast<T>(a[i] + b[i]));
            const auto hs = obake::hash(mono_of<K>(s));
            if (hs != static_cast<std::size_t>(ha + hb)) ctx.fail(mc::cat(kname<K>(), ": the hash of the product of ", vstr(a), " and ", vstr(b), " is ", hs, " instead of ", static_cast<std::size_t>(ha + hb)));
        }
    }
    if constexpr (is_dpacked<K>) {
        // Monomials of other numbers of groups.
        const std::vector<T> ga(ka._container().begin(), ka._container().end());
        for (unsigned sz = 0; sz <= ga.size() + 2u; ++sz)
            for (auto fill : {T(0), T(1), ga.empty() ? T(0) : ga.back()}) {
                K kb;
                for (unsigned i = 0; i < sz; ++i) kb._container().push_back(i < ga.size() ? ga[i] : fill);
                const bool eq = sz == ga.size();
                ctx.op(2);
                ctx.validated(3);
                if ((ka == kb) != eq || (ka != kb) == eq || (kb == ka) != eq) ctx.fail(mc::cat(kname<K>(), ": the comparison of ", vstr(a), " and a monomial of ", sz, " groups is wrong"));
                if (eq && obake::hash(kb) != ha) ctx.fail(mc::cat(kname<K>(), ": different hashes of ", vstr(a)));
            }
    }
    // Copies and moves.
    K c(ka), d;
    d = ka;
    K m(std::move(c));
    MC_CHECK(ctx, m == ka && d == ka && obake::hash(m) == ha && std::hash<std::string>{}("") == std::hash<std::string>{}(""), "a copy differs");
    MC_CHECK(ctx, obake::monomial_hash_is_homomorphic<K>, kname<K>(), " has no homomorphic hash any more");
    ctx.state(mc::cat(kname<K>(), vstr(a)));
}

// Compatibility of arbitrary codes with symbol sets.
template <typename K>
void compat(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    const auto nmax = mono_info<K>::max_symbols();
    const auto n = ctx.choose(nmax + 4u, "symbols");
    const auto &ss = sym_set(n);
    // Codes around the limits of every size, and plain numbers.
    std::vector<T> codes{T(0), T(1), static_cast<T>(-1), std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), static_cast<T>(std::numeric_limits<T>::min() + 1), static_cast<T>(std::numeric_limits<T>::max() - 1)};
    const auto klims = [](unsigned size) {
        const auto [lo, hi] = pack_limits<T>(size);
        obake::kpacker<T> a(size), b(size);
        for (unsigned i = 0; i < size; ++i) {
            a << lo;
            b << hi;
        }
        return std::make_pair(a.get(), b.get());
    };
    for (unsigned s = 1; s <= max_packed<T>; ++s) {
        const auto [a, b] = klims(s);
        for (auto c : {a, b}) {
            codes.push_back(c);
            if (c != std::numeric_limits<T>::max()) codes.push_back(static_cast<T>(c + 1));
            if (c != std::numeric_limits<T>::min()) codes.push_back(static_cast<T>(c - 1));
        }
    }
    const auto c = ctx.pick(codes, "code");
    if constexpr (is_dpacked<K>) {
        const auto [lo, hi] = klims(K::psize);
        // Containers of all sizes around the right one, with the code at each position.
        const auto want = mono_info<K>::n_groups(n);
        for (unsigned sz = 0; sz <= want + 2u; ++sz)
            for (unsigned pos = 0; pos < std::max(sz, 1u); ++pos) {
                K k;
                for (unsigned i = 0; i < sz; ++i) k._container().push_back(i == pos ? c : T(0));
                const bool ok = sz == want && (sz == 0u || (c >= lo && c <= hi));
                ctx.op();
                MC_CHECK(ctx, obake::key_is_compatible(k, ss) == ok, kname<K>(), " with ", sz, " groups and code ", +c, " in group ", pos, ": compatibility with ", n, " symbols should be ", ok);
            }
    } else {
        bool ok;
        if (n == 0u) {
            ok = c == T(0);
        } else if (n > max_packed<T>) {
            ok = false;
        } else {
            const auto [lo, hi] = klims(n);
            ok = c >= lo && c <= hi;
        }
        ctx.op();
        MC_CHECK(ctx, obake::key_is_compatible(K(c), ss) == ok, kname<K>(), " with code ", +c, ": compatibility with ", n, " symbols should be ", ok);
        K s;
        s._set_value(c);
        MC_CHECK(ctx, s.get_value() == c && s == K(c) && obake::key_is_compatible(s, ss) == ok && obake::key_is_one(s, ss) == (c == T(0)), "a monomial whose value was set differs from one made of it");
    }
    ctx.state(mc::cat(kname<K>(), n, " ", +c));
}

#define S1(K, N) {"construct_" N, construction<K>, 2}, {"pairs_" N, pairs<K>, 2}, {"compat_" N, compat<K>, 2},
mc::Reg reg({MONO_TYPES(S1)});

} // namespace
