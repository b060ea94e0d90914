// P29: inserting and removing symbols in monomials.
#include "mono.hpp"

using namespace hv;

namespace
{

// New symbols.
inline obake::symbol_set extra(unsigned c, char x)
{
    obake::symbol_set r;
    for (unsigned i = 0; i < c; ++i) r.insert(std::string(1, x) + std::string(1, static_cast<char>('0' + i)));
    return r;
}
// Insertions: every combination of 0..max new symbols at every position (at most two positions when there are many).
using Ins = std::vector<unsigned>;
inline std::vector<Ins> insertions(unsigned n, unsigned room, bool thorough)
{
    std::vector<Ins> r;
    const unsigned slots = n + 1u;
    const auto put = [&](const Ins &i) {
        unsigned t = 0;
        for (auto x : i) t += x;
        if (t <= room) r.push_back(i);
    };
    if (slots <= (thorough ? 5u : 4u)) {
        const unsigned b = thorough ? 4u : 3u;
        Ins d(slots, 0);
        for (;;) {
            put(d);
            unsigned i = 0;
            while (i < slots && ++d[i] == b) d[i++] = 0;
            if (i == slots) break;
        }
    } else {
        put(Ins(slots, 0));
        for (unsigned i = 0; i < slots; ++i)
            for (unsigned c : {1u, 2u, 3u, 9u}) {
                Ins d(slots, 0);
                d[i] = c;
                put(d);
            }
        for (unsigned i = 0; i < slots; ++i)
            for (unsigned j = i + 1u; j < slots; ++j)
                for (unsigned c : {1u, 2u})
                    for (unsigned e : {1u, 3u}) {
                        Ins d(slots, 0);
                        d[i] = c;
                        d[j] = e;
                        put(d);
                    }
        put(Ins(slots, 1));
    }
    return r;
}

template <typename K>
void merge(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    const auto n = ctx.choose(mono_info<K>::max_symbols() + 1u, "symbols");
    const auto &ss = sym_set(n);
    const unsigned room = is_dpacked<K> ? 40u : max_packed<T> + 2u - n;
    const auto ins = insertions(n, room, ctx.thorough());
    const auto &in = ctx.pick(ins, "insertion");
    obake::symbol_idx_map<obake::symbol_set> im;
    Syms full;
    const auto old = sym_names(n);
    unsigned total = 0;
    std::vector<bool> is_new;
    for (unsigned i = 0; i <= n; ++i) {
        obake::symbol_set add;
        for (unsigned j = 0; j < in[i]; ++j) {
            // Names that sort before symbol i and after symbol i - 1.
            const std::string nm = (i ? old[i - 1u] : std::string("a")) + "_" + static_cast<char>('a' + j);
            add.insert(nm);
            full.push_back(nm);
            is_new.push_back(true);
        }
        total += in[i];
        if (in[i]) im.emplace(i, add);
        if (i < n) {
            full.push_back(old[i]);
            is_new.push_back(false);
        }
    }
    const auto fss = to_ss(full);
    const auto m = n + total;
    const auto vs = mono_vecs<K>(n, ctx.thorough() ? 1000 : 120);
    for (const auto &a : vs) {
        // The expected result.
        std::vector<T> e;
        unsigned k = 0;
        for (unsigned i = 0; i < m; ++i) e.push_back(is_new[i] ? T(0) : a[k++]);
        bool fits = is_dpacked<K> || m <= max_packed<T>;
        if (fits)
            for (auto x : e) fits = fits && packs<T>(x, std::max(mono_info<K>::group(m), 1u));
        const auto ka = mono_of<K>(a);
        ctx.op();
        std::vector<T> r;
        K km;
        bool thrown = false;
        try {
            km = obake::key_merge_symbols(ka, im, ss);
            r = expos(km, m);
        } catch (const std::overflow_error &) {
            thrown = true;
        }
        MC_CHECK(ctx, thrown == !fits, kname<K>(), ": extending ", vstr(a), " to ", str(full), thrown ? " is rejected" : " is accepted although it does not fit");
        if (!fits) continue;
        MC_CHECK(ctx, r == e, kname<K>(), ": ", vstr(a), " extended to ", str(full), " has exponents ", vstr(r), " instead of ", vstr(e));
        MC_CHECK(ctx, obake::key_is_compatible(km, fss) && km == mono_of<K>(e), kname<K>(), ": ", vstr(a), " extended to ", str(full), " is not a proper monomial");
        // And back.
        obake::symbol_idx_set si;
        for (unsigned i = 0; i < m; ++i)
            if (is_new[i]) si.insert(i);
        const auto kt = obake::key_trim(km, si, fss);
        MC_CHECK(ctx, kt == ka && expos(kt, n) == a, kname<K>(), ": ", vstr(a), " extended to ", str(full), " and trimmed back has exponents ", vstr(expos(kt, n)));
    }
    ctx.state(mc::cat(kname<K>(), n, " ", str(full)));
}

template <typename K>
void trim(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    const auto n = ctx.choose(mono_info<K>::max_symbols() + 1u, "symbols");
    const auto &ss = sym_set(n);
    const auto vs = mono_vecs<K>(n, ctx.thorough() ? 2000 : 250);
    const auto &a = ctx.pick(vs, "monomial");
    const auto ka = mono_of<K>(a);
    // Identification, starting from several states of the flags: they are only ever cleared.
    for (unsigned st = 0; st < 3u; ++st) {
        std::vector<int> f(n), e(n);
        for (unsigned i = 0; i < n; ++i) {
            f[i] = st == 0u ? 1 : st == 1u ? 0 : static_cast<int>(i % 2u);
            e[i] = (f[i] && a[i] == T(0)) ? 1 : 0;
        }
        obake::key_trim_identify(f, ka, ss);
        ctx.op();
        MC_CHECK(ctx, f.size() == n, "the number of flags changed");
        for (unsigned i = 0; i < n; ++i) MC_CHECK(ctx, (f[i] != 0) == (e[i] != 0), kname<K>(), ": ", vstr(a), ": symbol ", i, " is flagged as ", f[i] ? "unused" : "used");
    }
    // Removal of all subsets (those with at most three elements, and their complements, if there are many symbols).
    std::vector<std::vector<bool>> subs;
    if (n <= 8u) {
        for (unsigned m = 0; m < (1u << n); ++m) {
            std::vector<bool> s(n);
            for (unsigned i = 0; i < n; ++i) s[i] = (m >> i) & 1u;
            subs.push_back(s);
        }
    } else {
        for (int comp = 0; comp < 2; ++comp)
            for (unsigned i = 0; i < n; ++i)
                for (unsigned j = i; j < n; ++j) {
                    std::vector<bool> s(n, comp != 0);
                    s[i] = !comp;
                    s[j] = !comp;
                    subs.push_back(s);
                }
        subs.emplace_back(n, false);
        subs.emplace_back(n, true);
    }
    for (const auto &s : subs) {
        obake::symbol_idx_set si;
        std::vector<T> e;
        for (unsigned i = 0; i < n; ++i) {
            if (s[i])
                si.insert(i);
            else
                e.push_back(a[i]);
        }
        const auto m = static_cast<unsigned>(e.size());
        // NOTE: fewer exponents always fit.
        const auto kt = obake::key_trim(ka, si, ss);
        ctx.op();
        const auto r = expos(kt, m);
        MC_CHECK(ctx, r == e, kname<K>(), ": removing ", si.size(), " symbols from ", vstr(a), " gives ", vstr(r), " instead of ", vstr(e));
        MC_CHECK(ctx, obake::key_is_compatible(kt, sym_set(m)) && kt == mono_of<K>(e), kname<K>(), ": ", vstr(a), " without ", si.size(), " symbols is not a proper monomial");
    }
    MC_CHECK(ctx, expos(ka, n) == a, "the operand was changed");
    ctx.state(mc::cat(kname<K>(), vstr(a)));
}

// Many symbols (the monomials that hold any number of them).
template <typename K>
void many(mc::Ctx &ctx)
{
    using T = typename K::value_type;
    if constexpr (requires(K k) { k._container(); }) {
        const auto n = ctx.pick(std::vector<unsigned>{31, 33, 63, 65, 129, 257, 300}, "symbols");
        const auto ss = sym_set(n);
        if (ss.size() != n) ctx.fail("wrong number of symbols");
        for (unsigned p = 0; p < n; ++p) {
            std::vector<T> a(n, T(0));
            a[p] = T(1);
            if (p % 3u == 0u) a[n - 1u] = T(1);
            const auto ka = mono_of<K>(a);
            std::vector<int> f(n, 1);
            obake::key_trim_identify(f, ka, ss);
            ctx.op();
            for (unsigned i = 0; i < n; ++i)
                if ((f[i] != 0) != (a[i] == T(0))) ctx.fail(mc::cat(kname<K>(), ": ", n, " symbols, exponents at ", p, ": symbol ", i, " is flagged as ", f[i]));
            // Without one symbol, with only one of them, with a new one.
            for (unsigned q : {p, 0u, n - 1u, (p + 1u) % n}) {
                auto e = a;
                e.erase(e.begin() + q);
                if (obake::key_trim(ka, obake::symbol_idx_set{q}, ss) != mono_of<K>(e)) ctx.fail(mc::cat(kname<K>(), ": ", n, " symbols, exponents at ", p, ", without ", q));
                obake::symbol_idx_set si;
                for (unsigned i = 0; i < n; ++i)
                    if (i != q) si.insert(si.end(), i);
                if (obake::key_trim(ka, si, ss) != mono_of<K>(std::vector<T>{a[q]})) ctx.fail(mc::cat(kname<K>(), ": ", n, " symbols, exponents at ", p, ", only ", q));
                for (unsigned c : {1u, 2u, 40u}) {
                    e = a;
                    e.insert(e.begin() + q, c, T(0));
                    e.insert(e.end(), c, T(0));
                    obake::symbol_idx_map<obake::symbol_set> im;
                    im.emplace(q, extra(c, 'A'));
                    im.emplace(n, extra(c, 'B'));
                    if (obake::key_merge_symbols(ka, im, ss) != mono_of<K>(e)) ctx.fail(mc::cat(kname<K>(), ": ", n, " symbols, exponents at ", p, ", ", c, " more at ", q));
                }
                ctx.op(5);
                ctx.validated(5);
            }
        }
        ctx.state(mc::cat(kname<K>(), n));
    }
}

#define S1(K, N) {"merge_" N, merge<K>, 2}, {"trim_" N, trim<K>, 2}, {"many_" N, many<K>},
mc::Reg reg({MONO_TYPES(S1)});

} // namespace
