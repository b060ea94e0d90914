// P41: errors and stack traces. Compiled without optimisation, so that every function has its frame.
#include <climits>
#include <exception>
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <vector>

#include "common.hpp"

#include <obake/detail/safe_integral_arith.hpp>
#include <obake/exceptions.hpp>
#include <obake/kpack.hpp>
#include <obake/math/safe_cast.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/power_series/power_series.hpp>
#include <obake/stack_trace.hpp>
#include <obake/type_name.hpp>

namespace user
{
// What the constructor of an exception received.
struct Rec {
    std::string text;
    std::string args;
};
struct Plain : Rec {
    explicit Plain(const std::string &s) : Rec{s, "c"} {}
};
struct Sink : Rec {
    explicit Sink(std::string s) : Rec{std::move(s), "v"} {}
};
struct View : Rec {
    explicit View(std::string_view s) : Rec{std::string(s), "sv"} {}
};
struct CStr : Rec {
    // Cannot be constructed from a std::string.
    explicit CStr(const char *s) : Rec{s, "char*"} {}
};
struct Coded : Rec {
    Coded(const std::string &s, int n) : Rec{s, std::to_string(n)} {}
};
// Tracks how an argument arrives.
struct Arg {
    std::string how = "d";
    Arg() = default;
    Arg(const Arg &o) : how(o.how + "c") {}
    Arg(Arg &&o) noexcept : how(o.how + "m")
    {
        o.how = "moved-from";
    }
};
struct Fwd : Rec {
    template <typename A, typename B>
    Fwd(std::string s, A &&, B &&) : Rec{std::move(s), cat<A>() + cat<B>()}
    {
    }
    template <typename A>
    static std::string cat()
    {
        std::string r = std::is_const_v<std::remove_reference_t<A>> ? "const " : "";
        return r + (std::is_lvalue_reference_v<A> ? "l;" : "r;");
    }
};
struct Own : Rec {
    std::unique_ptr<int> p;
    Own(const std::string &s, std::unique_ptr<int> q) : Rec{s, "own"}, p(std::move(q)) {}
    Own(const Own &o) : Rec(o), p(o.p ? new int(*o.p) : nullptr) {}
};
struct Text2 : Rec {
    Text2(const std::string &a, const std::string &b) : Rec{a, b} {}
};
struct Num : Rec {
    explicit Num(int n) : Rec{"", std::to_string(n)} {}
};
struct NumText : Rec {
    NumText(int n, const std::string &s) : Rec{s, std::to_string(n)} {}
};
struct None : Rec {
    None() : Rec{"", "none"} {}
};
struct Any : Rec {
    template <typename... A>
    explicit Any(A &&...) : Rec{"", std::to_string(sizeof...(A))}
    {
    }
};
template <typename T, int>
struct Templ : Rec {
    explicit Templ(const std::string &s) : Rec{s, "templ"} {}
};
} // namespace user

using namespace hv;

namespace
{
const std::vector<std::string> &contents()
{
    static const std::vector<std::string> v = []() {
        std::vector<std::string> r{"", "a", "dsadsada", " ", "\n", "two\nlines\n", "100% {} %s %n {0} {{}}", "\"quoted\" 'text' \\", "\xc3\xa8\xc3\xa9 \xe2\x88\x9e", "\xff\xfe\x80",
                                   "\nException type   : other", "\nException message: ", std::string("nul\0inside", 10), std::string(1, '\0'), std::string("\0start", 6), "tab\t", "trailing ",
                                   "# 0 | x | y"};
        for (std::size_t n : {15u, 16u, 255u, 256u, 4095u, 4096u, 65536u}) r.push_back(std::string(n, 'x') + "end");
        for (int c = 0; c < 256; ++c) r.push_back(std::string(1, static_cast<char>(c)) + "c");
        return r;
    }();
    return v;
}

struct Restore {
    bool s = obake::stack_trace_enabled();
    ~Restore()
    {
        obake::set_stack_trace_enabled(s);
    }
};
const std::string disabled = "<Stack trace generation has been disabled at runtime>";

// The text of an error of type E whose original message is msg.
template <typename E>
void text_ok(mc::Ctx &ctx, const std::string &text, const std::string &msg, const std::string &w, bool traced)
{
    ctx.validated(4);
    const auto tn = obake::type_name<E>();
    const auto p = text.find("Exception type");
    if (p == std::string::npos || text.find(tn, p) == std::string::npos) ctx.fail(w + ": the text does not name the type " + tn + ": " + text);
    const auto q = text.find("Exception message", p);
    if (q == std::string::npos || text.find(msg, q) == std::string::npos) ctx.fail(w + ": the text does not contain the message: " + text);
    if ((text.find(disabled) == 0u) != !traced) ctx.fail(w + mc::cat(": stack traces ", traced ? "enabled" : "disabled", " but the text starts with ") + text.substr(0, 80));
    if (traced && p < 20u) ctx.fail(w + ": there is no stack trace");
    ctx.state(mc::mix(mc::hstr(msg), mc::hstr(tn)));
}

template <typename E, typename F>
E catch_as(mc::Ctx &ctx, const std::string &w, const F &f)
{
    ctx.op();
    try {
        f();
    } catch (const E &e) {
        ctx.validated();
        if (typeid(e) != typeid(E)) ctx.fail(w + ": another type is thrown");
        return e;
    } catch (const user::Rec &) {
        ctx.fail(w + ": another type is thrown");
    } catch (const std::exception &e) {
        ctx.fail(w + ": another type is thrown: " + e.what());
    }
    ctx.fail(w + ": nothing is thrown");
}
template <typename E>
std::string text_of(const E &e)
{
    if constexpr (std::is_base_of_v<std::exception, E>) return e.what();
    else return e.text;
}
// Exceptions of the standard store text up to the first NUL only when it is read through what().
template <typename E>
std::string cut(const std::string &s)
{
    if constexpr (std::is_base_of_v<std::exception, E>) return s.c_str();
    else return s;
}

// One message in every kind of string.
template <typename E>
void b_kinds(mc::Ctx &ctx)
{
    Restore rs;
    const bool traced = ctx.flag("traced");
    obake::set_stack_trace_enabled(traced);
    const auto &c = ctx.pick(contents(), "content");
    const auto z = std::string(c.c_str());
    const auto one = [&](const char *kind, const std::string &msg, const auto &f) {
        const auto w = obake::type_name<E>() + " thrown with " + kind;
        const auto e = catch_as<E>(ctx, w, f);
        text_ok<E>(ctx, text_of(e), cut<E>(msg), w, traced);
    };
    {
        std::string s(c);
        one("a std::string lvalue", c, [&]() { obake_throw(E, s); });
        MC_CHECK(ctx, s == c, "the message was changed by throwing");
        const std::string t(c);
        one("a const std::string", c, [&]() { obake_throw(E, t); });
        one("a moved const std::string", c, [&]() { obake_throw(E, std::move(t)); });
        MC_CHECK(ctx, t == c, "the message was changed by throwing");
        one("a std::string rvalue", c, [&]() { obake_throw(E, std::string(c)); });
        one("a std::string concatenation", "<" + c + ">", [&]() { obake_throw(E, "<" + c + ">"); });
    }
    {
        std::string_view s(c);
        const std::string_view t(c);
        one("a string view lvalue", c, [&]() { obake_throw(E, s); });
        one("a const string view", c, [&]() { obake_throw(E, t); });
        one("a string view rvalue", c, [&]() { obake_throw(E, std::string_view(c)); });
    }
    {
        std::vector<char> buf(c.begin(), c.end());
        buf.push_back('\0');
        char *p = buf.data();
        const char *q = c.c_str();
        char *const pc = p;
        const char *const qc = q;
        one("a char pointer", z, [&]() { obake_throw(E, p); });
        one("a pointer to const char", z, [&]() { obake_throw(E, q); });
        one("a const char pointer", z, [&]() { obake_throw(E, pc); });
        one("a const pointer to const char", z, [&]() { obake_throw(E, qc); });
        one("a char pointer rvalue", z, [&]() { obake_throw(E, static_cast<char *>(p)); });
        one("a pointer to const char rvalue", z, [&]() { obake_throw(E, c.c_str()); });
        char a[300] = {};
        for (std::size_t i = 0; i < z.size() && i < 299u; ++i) a[i] = z[i];
        one("a char array", z.substr(0, 299), [&]() { obake_throw(E, a); });
        one("a const char array", z.substr(0, 299), [&]() { obake_throw(E, static_cast<const char(&)[300]>(a)); });
    }
    one("a literal", "literal", [&]() { obake_throw(E, "literal"); });
    one("an empty literal", "", [&]() { obake_throw(E, ""); });
}

// Extra arguments; types that do not take a text.
void b_args(mc::Ctx &ctx)
{
    using namespace user;
    Restore rs;
    const bool traced = ctx.flag("traced");
    obake::set_stack_trace_enabled(traced);
    const auto &c = ctx.pick(contents(), "content");
    const auto ok = [&](const auto &e, const std::string &args, const char *w, const std::string &msg) {
        text_ok<obake::remove_cvref_t<decltype(e)>>(ctx, e.text, msg, w, traced);
        ctx.validated();
        if (e.args != args) ctx.fail(std::string(w) + ": the extra arguments arrive as " + e.args + " instead of " + args);
    };
    const auto undecorated = [&](const auto &e, const std::string &text, const std::string &args, const char *w) {
        ctx.validated();
        if (e.text != text || e.args != args) ctx.fail(std::string(w) + ": constructed with '" + e.text + "', '" + e.args + "'");
    };
    switch (ctx.choose(14, "exception")) {
        case 0: return ok(catch_as<Coded>(ctx, "Coded", [&]() { obake_throw(Coded, c, -42); }), "-42", "Coded", c);
        case 1: {
            Arg a;
            const Arg b;
            return ok(catch_as<Fwd>(ctx, "Fwd", [&]() { obake_throw(Fwd, c, a, b); }), "l;const l;", "Fwd(lvalues)", c);
        }
        case 2: {
            Arg a;
            const Arg b;
            return ok(catch_as<Fwd>(ctx, "Fwd", [&]() { obake_throw(Fwd, std::string(c), std::move(a), std::move(b)); }), "r;const r;", "Fwd(rvalues)", c);
        }
        case 3: {
            Arg a;
            return ok(catch_as<Fwd>(ctx, "Fwd", [&]() { obake_throw(Fwd, c.c_str(), Arg{}, a); }), "r;l;", "Fwd(mixed)", c.c_str());
        }
        case 4: {
            auto p = std::make_unique<int>(7);
            const auto e = catch_as<Own>(ctx, "Own", [&]() { obake_throw(Own, c, std::move(p)); });
            MC_CHECK(ctx, e.p && *e.p == 7 && !p, "a move-only argument is lost");
            return ok(e, "own", "Own", c);
        }
        case 5: return ok(catch_as<Text2>(ctx, "Text2", [&]() { obake_throw(Text2, c, c + c); }), c + c, "Text2", c);
        case 6: return undecorated(catch_as<Num>(ctx, "Num", [&]() { obake_throw(Num, 5); }), "", "5", "Num");
        case 7: return undecorated(catch_as<NumText>(ctx, "NumText", [&]() { obake_throw(NumText, 5, c); }), c, "5", "NumText");
        case 8: return undecorated(catch_as<None>(ctx, "None", [&]() { obake_throw(None, ); }), "", "none", "None");
        case 9: return undecorated(catch_as<CStr>(ctx, "CStr", [&]() { obake_throw(CStr, c.c_str()); }), c.c_str(), "char*", "CStr");
        case 10: {
            // No arguments at all, with a type that takes anything.
            return undecorated(catch_as<Any>(ctx, "Any", [&]() { obake_throw(Any, ); }), "", "0", "Any");
        }
        case 11: return undecorated(catch_as<Any>(ctx, "Any", [&]() { obake_throw(Any, 1, c); }), "", "2", "Any");
        case 12: {
            const auto ec = std::make_error_code(std::errc::io_error);
            ctx.op();
            try {
                // First argument not a string: as it is.
                obake_throw(std::system_error, ec, c);
            } catch (const std::system_error &e) {
                MC_CHECK(ctx, e.code() == ec, "the error code is lost");
                MC_CHECK(ctx, std::string(e.what()) == std::system_error(ec, c).what(), "the text is changed");
                return;
            }
        }
        default: {
            ctx.op();
            bool t = false;
            try {
                obake_throw(std::bad_alloc, );
            } catch (const std::bad_alloc &e) {
                t = std::string(e.what()) == std::bad_alloc().what();
            }
            MC_CHECK(ctx, t, "std::bad_alloc is not thrown as it is");
        }
    }
}

// Stack traces.
struct Row {
    unsigned idx;
    std::string file, name;
};
std::vector<Row> parse(mc::Ctx &ctx, const std::string &t)
{
    std::vector<Row> r;
    if (t.empty()) return r;
    std::size_t b = 0, c1 = 0, c2 = 0;
    while (b <= t.size()) {
        auto e = t.find('\n', b);
        if (e == std::string::npos) e = t.size();
        const auto l = t.substr(b, e - b);
        b = e + 1u;
        const auto p = l.find(" | ");
        const auto q = p == std::string::npos ? p : l.find(" | ", p + 3u);
        MC_CHECK(ctx, l.substr(0, 2) == "# " && q != std::string::npos, "malformed line in the stack trace: ", l);
        // Aligned columns.
        if (r.empty()) c1 = p, c2 = q;
        MC_CHECK(ctx, p == c1 && q == c2, "misaligned columns in the stack trace:\n", t);
        r.push_back({static_cast<unsigned>(std::stoul(l.substr(2, p - 2u))), l.substr(p + 3u, q - p - 3u), l.substr(q + 3u)});
    }
    return r;
}
} // namespace

namespace user
{
__attribute__((noinline)) std::vector<std::string> traces(const std::vector<unsigned> &skips)
{
    std::vector<std::string> r;
    for (auto s : skips) r.push_back(obake::stack_trace(s));
    return r;
}
template <int N>
__attribute__((noinline)) std::vector<std::string> level(unsigned n, const std::vector<unsigned> &skips)
{
    if (n == 0u) return traces(skips);
    auto r = level<(N + 1) % 4>(n - 1u, skips);
    r.shrink_to_fit();
    return r;
}
__attribute__((noinline)) std::string thrower()
{
    try {
        obake_throw(Plain, "thrown here");
    } catch (const Plain &p) {
        return p.text;
    }
}
} // namespace user

namespace
{
void b_trace(mc::Ctx &ctx)
{
    Restore rs;
    obake::set_stack_trace_enabled(true);
    const unsigned depth = ctx.choose(ctx.thorough() ? 60 : 30, "depth");
    const bool thread = ctx.flag("thread");
    std::vector<unsigned> skips;
    for (unsigned i = 0; i < depth + 80u; ++i) skips.push_back(i);
    for (unsigned s : {1000u, static_cast<unsigned>(INT_MAX), INT_MAX + 1u, UINT_MAX - 2u, UINT_MAX - 1u, UINT_MAX}) skips.push_back(s);
    std::vector<std::string> t;
    if (thread) {
        std::thread th([&]() { t = user::level<0>(depth, skips); });
        th.join();
    } else {
        t = user::level<0>(depth, skips);
    }
    ctx.op(static_cast<unsigned>(t.size()));
    const auto full = parse(ctx, t[0]);
    ctx.log(t[0]);
    MC_CHECK(ctx, full.size() > depth, "only ", full.size(), " frames at depth ", depth);
    MC_CHECK(ctx, full.back().name.find("traces") != std::string::npos, "the trace does not end at its caller but at ", full.back().name);
    for (unsigned i = 0; i < depth + 1u; ++i) {
        MC_CHECK(ctx, full[full.size() - 2u - i].name.find("level<" + std::to_string((depth - i) % 4u) + ">") != std::string::npos, "frame ", i + 1u, " is ",
                 full[full.size() - 2u - i].name, " at depth ", depth);
    }
    for (std::size_t k = 0; k < t.size(); ++k) {
        const auto r = parse(ctx, t[k]);
        const std::size_t e = skips[k] < full.size() ? full.size() - skips[k] : 0u;
        MC_CHECK(ctx, r.size() == e, r.size(), " frames instead of ", e, " when skipping ", skips[k]);
        for (std::size_t i = 0; i < r.size(); ++i) {
            MC_CHECK(ctx, r[i].idx == r.size() - 1u - i, "frame ", i, " has number ", r[i].idx);
            // (The last frame sits at its own call of stack_trace(); unnamed frames are printed as addresses.)
            MC_CHECK(ctx, r[i].name == full[i].name || full[i].name.substr(0, 2) == "0x" || i + 1u == full.size(), "frame ", i, " is ", r[i].name, " instead of ", full[i].name, " when skipping ",
                     skips[k]);
        }
        ctx.state(mc::mix(mc::mix(depth, skips[k]), r.size()));
    }
    obake::set_stack_trace_enabled(false);
    MC_CHECK(ctx, !obake::stack_trace_enabled(), "not disabled");
    for (const auto &x : user::level<0>(depth, skips)) MC_CHECK(ctx, x == disabled, "a stack trace is generated although disabled: ", x);
    // The trace of an error ends where it was thrown.
    obake::set_stack_trace_enabled(true);
    MC_CHECK(ctx, obake::stack_trace_enabled(), "not enabled");
    const auto x = user::thrower();
    ctx.op();
    const auto p = x.find("\nException type");
    MC_CHECK(ctx, p != std::string::npos, "no type in ", x);
    auto tr = x.substr(0, p);
    while (!tr.empty() && tr.back() == '\n') tr.pop_back();
    const auto rows = parse(ctx, tr);
    bool found = false;
    for (const auto &row : rows) found = found || row.name.find("user::thrower") != std::string::npos;
    MC_CHECK(ctx, found, "the stack trace of an error lacks the function that throws it:\n", x);
}

// All histories of enabling and disabling.
void b_toggle(mc::Ctx &ctx)
{
    Restore rs;
    bool m = obake::stack_trace_enabled();
    for (unsigned i = 0; i < (ctx.thorough() ? 8u : 6u); ++i) {
        switch (ctx.choose(4, "op")) {
            case 0: obake::set_stack_trace_enabled(true), m = true; break;
            case 1: obake::set_stack_trace_enabled(false), m = false; break;
            case 2: {
                const auto t = obake::stack_trace();
                MC_CHECK(ctx, (t == disabled) == !m, "stack traces ", m ? "enabled" : "disabled", ": ", t);
                break;
            }
            default: {
                const auto e = catch_as<user::Plain>(ctx, "Plain", []() { obake_throw(user::Plain, "msg"); });
                text_ok<user::Plain>(ctx, e.text, "msg", "Plain", m);
            }
        }
        ctx.op();
        MC_CHECK(ctx, obake::stack_trace_enabled() == m, "stack traces should be ", m ? "enabled" : "disabled");
    }
}

// The errors of the library: type and text, with the values they report.
struct Err {
    const char *what;
    const std::type_info *type;
    std::string tname;
    std::vector<std::string> frags;
    std::function<void()> f;
};
template <typename E>
Err err(const char *w, std::vector<std::string> fr, std::function<void()> f)
{
    return Err{w, &typeid(E), obake::type_name<E>(), std::move(fr), std::move(f)};
}
const std::vector<Err> &errors()
{
    using namespace obake;
    using PM = packed_monomial<int>;
    using DM = d_packed_monomial<long, 8>;
    using P = polynomial<PM, Int>;
    using PD = polynomial<DM, Rat>;
    using PP = polynomial<PM, P>;
    using PS = p_series<PM, Rat>;
    static const auto str = [](auto x) { return std::to_string(x); };
    static const std::vector<Err> v = []() {
        std::vector<Err> r;
        using OE = std::overflow_error;
        using IA = std::invalid_argument;
        using OR = std::out_of_range;
        using DE = std::domain_error;
        r.push_back(err<OE>("int addition", {str(INT_MAX), "addition"}, []() { detail::safe_int_add(INT_MAX, 1); }));
        r.push_back(err<OE>("int addition", {str(INT_MIN), "-12345", "addition"}, []() { detail::safe_int_add(-12345, INT_MIN); }));
        r.push_back(err<OE>("unsigned addition", {str(UINT_MAX), "54321", "addition"}, []() { detail::safe_int_add(UINT_MAX, 54321u); }));
        r.push_back(err<OE>("int subtraction", {str(INT_MIN), "77", "subtraction"}, []() { detail::safe_int_sub(INT_MIN, 77); }));
        r.push_back(err<OE>("unsigned subtraction", {"42", "1000042", "subtraction"}, []() { detail::safe_int_sub(42ul, 1000042ul); }));
        r.push_back(err<OE>("128-bit addition", {"170141183460469231731687303715884105727", "99", "addition"},
                            []() { detail::safe_int_add(static_cast<__int128>(~static_cast<unsigned __int128>(0) >> 1), static_cast<__int128>(99)); }));
        r.push_back(err<safe_cast_failure>("safe_cast", {type_name<int>(), type_name<unsigned>(), "could not be safely converted"}, []() { safe_cast<unsigned>(-1); }));
        r.push_back(err<safe_cast_failure>("safe_cast", {type_name<Int>(), type_name<int>()}, []() { safe_cast<int>(Int("100000000000000000000")); }));
        r.push_back(err<OE>("packer size", {type_name<int>(), "100", "Kronecker packer"}, []() { kpacker<int>(100); }));
        r.push_back(err<OR>("packer overfull", {type_name<int>(), "2", "Kronecker packer"}, []() {
                        kpacker<int> k(2);
                        k << 1 << 2 << 3;
                    }));
        r.push_back(err<OE>("packer value", {type_name<int>(), str(INT_MAX)}, []() {
                        kpacker<int> k(3);
                        k << INT_MAX;
                    }));
        r.push_back(err<IA>("unpacker of size zero", {"size of zero", "71"}, []() { kunpacker<int>(71, 0); }));
        r.push_back(err<OE>("unpacker size", {type_name<int>(), "100"}, []() { kunpacker<int>(1, 100); }));
        r.push_back(err<OE>("unpacker value", {type_name<unsigned>(), str(UINT_MAX)}, []() { kunpacker<unsigned>(UINT_MAX, 5); }));
        r.push_back(err<OR>("unpacker exhausted", {"2"}, []() {
                        kunpacker<int> k(0, 2);
                        int a;
                        k >> a >> a >> a;
                    }));
        r.push_back(err<IA>("incompatible key", {"not compatible", "'x'", "'yy'"}, []() {
                        PD p;
                        p.set_symbol_set(symbol_set{"x", "yy"});
                        p.add_term(DM{1, 2, 3, 4, 5, 6, 7, 8, 9}, 1);
                    }));
        r.push_back(err<IA>("rank reduction", {type_name<P>(), type_name<PP>(), "single coefficient"}, []() {
                        auto [x] = make_polynomials<PP>("x");
                        P p(x);
                    }));
        r.push_back(err<IA>("conversion", {type_name<P>(), type_name<int>(), "single coefficient"}, []() {
                        auto [x] = make_polynomials<P>("x");
                        (void)static_cast<int>(x);
                    }));
        r.push_back(err<IA>("symbol set of a nonempty series", {"1 terms"}, []() {
                        auto [x] = make_polynomials<P>("x");
                        x.set_symbol_set(symbol_set{"y"});
                    }));
        r.push_back(err<IA>("too many segments", {"2**255"}, []() {
                        P p;
                        p.set_n_segments(255);
                    }));
        r.push_back(err<IA>("negative power", {"non-negative"}, []() {
                        auto [x, y] = make_polynomials<P>("x", "y");
                        (void)obake::pow(x + y, -1);
                    }));
        r.push_back(err<IA>("missing symbol in an evaluation", {"'x'", "'y'"}, []() {
                        auto [x, y] = make_polynomials<P>("x", "y");
                        (void)evaluate(x + y, symbol_map<Int>{{"x", Int(1)}});
                    }));
        r.push_back(err<IA>("missing generator", {"'qwe'", "'x'", "'y'"}, []() { (void)make_polynomials<P>(symbol_set{"x", "y"}, "qwe"); }));
        r.push_back(err<IA>("missing generator of a power series", {"'qwe'", "'x'", "'y'"}, []() { (void)make_p_series<PS>(symbol_set{"x", "y"}, "qwe"); }));
        r.push_back(err<IA>("missing generator of a truncated power series", {"'qwe'", "'x'"}, []() { (void)make_p_series_t<PS>(symbol_set{"x"}, 3, "qwe"); }));
        r.push_back(err<IA>("missing generator of a partially truncated power series", {"'qwe'", "'x'"}, []() { (void)make_p_series_p<PS>(symbol_set{"x"}, 3, symbol_set{"x"}, "qwe"); }));
        r.push_back(err<OE>("overflowing product", {"overflow", "polynomials"}, []() {
                        auto [x, y] = make_polynomials<P>("x", "y");
                        auto a = obake::pow(x * y, 10000);
                        (void)(obake::pow(a, 2) * obake::pow(a, 2));
                    }));
        r.push_back(err<DE>("logarithm", {"'x'", "-1"}, []() { monomial_integrate(PM{-1, 2}, symbol_idx(0), symbol_set{"x", "y"}); }));
        r.push_back(err<DE>("logarithm (dynamic)", {"'y'", "-1"}, []() { monomial_integrate(DM{1, -1}, symbol_idx(1), symbol_set{"x", "y"}); }));
        r.push_back(err<IA>("power of a monomial", {"integral"}, []() { monomial_pow(PM{1, 2}, Rat(1, 2), symbol_set{"x", "y"}); }));
        r.push_back(err<IA>("power of a monomial (dynamic)", {"integral"}, []() { monomial_pow(DM{1, 2}, Rat(1, 2), symbol_set{"x", "y"}); }));
        return r;
    }();
    return v;
}
void b_errors(mc::Ctx &ctx)
{
    Restore rs;
    const bool traced = ctx.flag("traced");
    obake::set_stack_trace_enabled(traced);
    const auto &e = errors()[ctx.choose(static_cast<unsigned>(errors().size()), "error")];
    ctx.op();
    try {
        e.f();
    } catch (const std::exception &x) {
        const std::string t = x.what();
        MC_CHECK(ctx, typeid(x) == *e.type, e.what, ": thrown as ", typeid(x).name());
        MC_CHECK(ctx, t.find(e.tname) != std::string::npos, e.what, ": the type is not in ", t);
        for (const auto &f : e.frags) MC_CHECK(ctx, t.find(f, t.find("Exception message")) != std::string::npos, e.what, ": '", f, "' is not in ", t);
        MC_CHECK(ctx, (t.find(disabled) == 0u) == !traced, e.what, ": stack traces ", traced ? "enabled" : "disabled", " but ", t);
        ctx.state(mc::hstr(e.what));
        return;
    }
    ctx.fail(std::string(e.what) + ": nothing is thrown");
}

mc::Reg reg({{"kinds/invalid_argument", b_kinds<std::invalid_argument>, 2, 0, false},
             {"kinds/overflow_error", b_kinds<std::overflow_error>, 2, 0, false},
             {"kinds/runtime_error", b_kinds<std::runtime_error>, 2, 0, false},
             {"kinds/plain", b_kinds<user::Plain>, 2, 0, false},
             {"kinds/sink", b_kinds<user::Sink>, 2, 0, false},
             {"kinds/view", b_kinds<user::View>, 2, 0, false},
             {"kinds/template", b_kinds<user::Templ<std::vector<int>, 5>>, 2, 0, false},
             {"args", b_args, 2, 0, false},
             {"trace", b_trace, 1, 0, false},
             {"toggle", b_toggle, 2, 0, false},
             {"errors", b_errors, 2, 0, false}});
} // namespace
