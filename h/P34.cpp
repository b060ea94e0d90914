// P34: dispatch of the customisation points.
//
// Every customisation point x every combination of implementations that its argument may provide (an override in the
// customisation namespace, a function next to the type, what the default needs), each absent, fine, with a wrong return
// type, or for rvalues/lvalues only x every value category of the arguments. PART selects the points.
#include <cstddef>
#include <functional>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "../mc/mc.hpp"

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/byte_size.hpp>
#include <obake/cf/cf_stream_insert.hpp>
#include <obake/cf/cf_tex_stream_insert.hpp>
#include <obake/hash.hpp>
#include <obake/key/key_degree.hpp>
#include <obake/key/key_evaluate.hpp>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/key/key_p_degree.hpp>
#include <obake/key/key_stream_insert.hpp>
#include <obake/key/key_tex_stream_insert.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/fma3.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/safe_cast.hpp>
#include <obake/math/safe_convert.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_homomorphic_hash.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/monomial_subs.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/series.hpp>
#include <obake/symbols.hpp>
#include <obake/tex_stream_insert.hpp>

#if !defined(PART)
#define PART 0
#endif
#if !defined(PARTS)
#define PARTS 8
#endif

namespace pv
{
// States of an implementation.
enum : int { none = 0, fine = 1, bad = 2, rv = 3, lv = 4, crv = 5 };
enum class kind { any, same, size, boolean, voids, self, pair, ref_same, real };

// Value categories: lvalue, const lvalue, rvalue, const rvalue.
template <typename T>
constexpr int cat_of = (std::is_lvalue_reference_v<T &&> ? 0 : 2) + (std::is_const_v<std::remove_reference_t<T>> ? 1 : 0);
const char *const cat_name[] = {"&", "const &", "&&", "const &&"};

constexpr bool accepts(int st, int c)
{
    return st == fine || st == bad || (st == rv && c == 2) || (st == lv && c == 0) || (st == crv && c == 3);
}

struct arg {
    const void *p;
    int c;
};
struct call {
    char level;
    const char *op;
    std::vector<arg> args;
};
inline std::vector<call> calls;
inline bool truth, boom;
struct bang {
};
template <typename... A>
inline void record(char level, const char *op, const A &...a)
{
    calls.push_back(call{level, op, {a...}});
}
template <typename T>
arg mk_arg(T &&x)
{
    return arg{static_cast<const void *>(std::addressof(x)), cat_of<T>};
}

struct mk {
    char level;
};
struct ret_any {
    char level;
    int pad = 0;
};
inline ret_any the_any{'?'};
struct ebool {
    bool b;
    explicit operator bool() const
    {
        return b;
    }
};
struct no_bool {
};

// The subject: for the operation Op, with the implementations E (external override), A (next to the type), D (what the
// default needs).
template <typename Op, int E, int A, int D>
struct V {
    char from = 0;
    V() requires(D == 1) = default;
    explicit V(mk m) : from(m.level) {}
    explicit V(int) requires(D == 1) : from('0') {}
    V(const V &o) requires(D == 1) : from(o.from)
    {
        record('D', "copy", mk_arg(o));
    }
    V(V &&o) noexcept requires(D == 1) : from(o.from)
    {
        record('D', "copy", mk_arg(std::move(o)));
    }
    V(const V &) requires(D != 1) = delete;
    V(V &&) requires(D != 1) = delete;
    V &operator=(const V &o) requires(D == 1)
    {
        from = o.from;
        record('D', "assign", mk_arg(*this), mk_arg(o));
        return *this;
    }
    V &operator=(V &&o) noexcept requires(D == 1)
    {
        from = o.from;
        record('D', "assign", mk_arg(*this), mk_arg(std::move(o)));
        return *this;
    }
    V &operator=(const V &) requires(D != 1) = delete;
    V &operator=(V &&) requires(D != 1) = delete;
};
// The tag that makes a subject of a series.
template <typename Op, int E, int A>
struct stag {
};

template <typename T>
struct info {
    static constexpr bool is = false, ser = false;
    using op = void;
    static constexpr int E = 0, A = 0, D = 0;
};
template <typename Op, int E_, int A_, int D_>
struct info<V<Op, E_, A_, D_>> {
    static constexpr bool is = true, ser = false;
    using op = Op;
    static constexpr int E = E_, A = A_, D = D_;
};
template <typename K, typename C, typename Op, int E_, int A_>
struct info<obake::series<K, C, stag<Op, E_, A_>>> {
    static constexpr bool is = true, ser = true;
    using op = Op;
    static constexpr int E = E_, A = A_, D = 0;
};
template <typename T>
using info_t = info<std::remove_cvref_t<T>>;

// The first subject of a list of arguments.
template <typename... Args>
struct first_subject {
    using type = void;
};
template <typename T, typename... Args>
struct first_subject<T, Args...> : std::conditional_t<info_t<T>::is, std::type_identity<T>, first_subject<Args...>> {
};
template <typename... Args>
using subj = typename first_subject<Args...>::type;

template <typename Op, bool Ext, typename... Args>
constexpr bool provided()
{
    using T = subj<Args...>;
    // NOTE: the tags of the overrides are not arguments.
    if constexpr (std::is_void_v<T> || (std::is_empty_v<std::remove_cvref_t<Args>> || ...)) {
        return false;
    } else {
        using I = info_t<T>;
        if constexpr (!std::is_same_v<typename I::op, Op>) return false;
        else return accepts(Ext ? I::E : I::A, cat_of<T>);
    }
}

// What an implementation does: records the call and returns the kind of thing that the operation should return (or not).
template <typename Op, bool Ext>
struct impl {
    template <typename... Args>
        requires(provided<Op, Ext, Args...>())
    decltype(auto) operator()(Args &&...args) const noexcept((Ext ? info_t<subj<Args...>>::E : info_t<subj<Args...>>::A) == fine)
    {
        using T = std::remove_cvref_t<subj<Args...>>;
        constexpr char L = Ext ? 'E' : 'A';
        constexpr bool isbad = (Ext ? info_t<T>::E : info_t<T>::A) == bad;
        record(L, Op::name, mk_arg(std::forward<Args>(args))...);
        if constexpr ((Ext ? info_t<T>::E : info_t<T>::A) != fine) {
            if (boom) throw bang{};
        }
        constexpr auto k = Op::k;
        if constexpr (k == kind::any || k == kind::self || k == kind::voids) {
            the_any.level = L;
            if constexpr (isbad) return std::as_const(the_any);
            else return ret_any{L};
        } else if constexpr (k == kind::same) {
            if constexpr (isbad && Op::variant == 0) return static_cast<const T &>(*static_cast<const T *>(nullptr));
            else if constexpr (isbad) return ret_any{L};
            else if constexpr (info_t<T>::ser) return T{};
            else return T(mk{L});
        } else if constexpr (k == kind::size) {
            static const std::size_t s = 7;
            if constexpr (isbad && Op::variant == 0) return static_cast<const std::size_t &>(s);
            else if constexpr (isbad) return 7;
            else return static_cast<std::size_t>(Ext ? 111 : 222);
        } else if constexpr (k == kind::boolean) {
            if constexpr (isbad) return no_bool{};
            else if constexpr (Ext) return ebool{truth};
            else return truth;
        } else if constexpr (k == kind::pair) {
            if constexpr (isbad && Op::variant == 0) return std::pair<T *, int>(nullptr, 1);
            else if constexpr (isbad) return ret_any{L};
            else return std::pair<int, T>(Ext ? 111 : 222, mk{L});
        } else if constexpr (k == kind::ref_same) {
            if constexpr (isbad) {
                return no_bool{};
            } else {
                auto &x = std::get<0>(std::tie(args...));
                return const_cast<T &>(x);
            }
        }
    }
};

} // namespace pv

// The defaults of the subjects.
namespace pv
{
template <typename T>
concept Subj = info_t<T>::is && !info_t<T>::ser;

template <Subj T>
    requires(info_t<T>::D == 1 && info_t<T>::op::def == 1)
bool operator==(T &&a, std::remove_cvref_t<T> &&b)
{
    record('D', "==", mk_arg(std::forward<T>(a)));
    if (b.from != '0') record('?', "==", mk_arg(b));
    return truth;
}
template <Subj T>
    requires(info_t<T>::D == 1 && info_t<T>::op::def == 2)
auto operator-(T &&a)
{
    record('D', "-", mk_arg(std::forward<T>(a)));
    return std::remove_cvref_t<T>(mk{'-'});
}
template <Subj T>
    requires(info_t<T>::D == 1 && info_t<T>::op::def == 3)
std::ostream &operator<<(std::ostream &os, T &&a)
{
    record('D', "<<", mk_arg(os), mk_arg(std::forward<T>(a)));
    return os;
}
} // namespace pv
template <typename Op, int E, int A, int D>
    requires(D != 0 && Op::def == 4)
struct std::hash<pv::V<Op, E, A, D>> {
    auto operator()(const pv::V<Op, E, A, D> &a) const
    {
        pv::record('D', "std::hash", pv::mk_arg(a));
        if constexpr (D == 1) return static_cast<std::size_t>(333);
        else return 333;
    }
};

// The points. FX, FY, FZ: the forwarded arguments.
#define FX std::forward<T>(x)
#define FY std::forward<U>(y)
#define FZ std::forward<W>(z)
namespace pv
{
inline obake::symbol_set g_ss{"a", "b"};
inline obake::symbol_idx_set g_si{0, 1};
inline obake::symbol_map<double> g_sm{{"a", 2.}, {"b", 3.}};
inline obake::symbol_idx_map<double> g_sim;
inline obake::symbol_idx_map<obake::symbol_set> g_ins;
inline obake::symbol_idx g_idx = 1;
inline std::string g_str = "a";
inline std::vector<int> g_vec{1, 2};
inline std::ostringstream g_os;
inline int g_int = 3;
inline std::size_t g_big = 77;
inline const obake::symbol_set &c_ss = g_ss;
inline const obake::symbol_idx_set &c_si = g_si;
inline const obake::symbol_map<double> &c_sm = g_sm;
inline const obake::symbol_idx_map<double> &c_sim = g_sim;
inline const obake::symbol_idx_map<obake::symbol_set> &c_ins = g_ins;
inline const obake::symbol_idx &c_idx = g_idx;
inline const std::string &c_str = g_str;
inline std::ostream &c_os = g_os;

// NAME, number of subjects, kind, default, CALL, EXPECTED ARGUMENTS (for the record), trait, concept.
#define POINT(ID, NAME, NS, KIND, VAR, DEF, CALL, ARGS, TRAIT, CONCEPT)                                               \
    struct op_##ID {                                                                                                   \
        static constexpr const char *name = #NAME;                                                                     \
        static constexpr const char *id = #ID;                                                                         \
        static constexpr int ns = NS;                                                                                  \
        static constexpr kind k = kind::KIND;                                                                          \
        static constexpr int variant = VAR;                                                                            \
        static constexpr int def = DEF;                                                                                \
        template <typename T, typename U, typename W>                                                                  \
        static constexpr bool compiles = requires(T &&x, U &&y, W &&z)                                                 \
        {                                                                                                              \
            CALL;                                                                                                      \
        };                                                                                                             \
        template <typename T, typename U, typename W>                                                                  \
        static constexpr bool trait = TRAIT;                                                                           \
        template <typename T, typename U, typename W>                                                                  \
        static constexpr bool conc = CONCEPT;                                                                          \
        template <typename T, typename U, typename W>                                                                  \
        static constexpr bool nothrow(T &&x, U &&y, W &&z)                                                             \
        {                                                                                                              \
            return noexcept(CALL);                                                                                     \
        }                                                                                                              \
        template <typename T, typename U, typename W>                                                                  \
        static decltype(auto) run([[maybe_unused]] T &&x, [[maybe_unused]] U &&y, [[maybe_unused]] W &&z)              \
        {                                                                                                              \
            return CALL;                                                                                               \
        }                                                                                                              \
        template <typename T, typename U, typename W>                                                                  \
        static std::vector<arg> args([[maybe_unused]] T &&x, [[maybe_unused]] U &&y, [[maybe_unused]] W &&z)           \
        {                                                                                                              \
            return {UNP ARGS};                                                                                             \
        }                                                                                                              \
    };
#define UNP(...) __VA_ARGS__
#define GX mk_arg(FX)
#define GY mk_arg(FY)
#define GZ mk_arg(FZ)
// The function next to the type.
#define NEXT(ID, NAME)                                                                                                 \
    template <typename... Args>                                                                                        \
        requires(provided<op_##ID, false, Args...>())                                                                  \
    auto NAME(Args &&...args) noexcept(noexcept(impl<op_##ID, false>{}(std::forward<Args>(args)...)))                  \
        ->decltype(impl<op_##ID, false>{}(std::forward<Args>(args)...))                                                \
    {                                                                                                                  \
        return impl<op_##ID, false>{}(std::forward<Args>(args)...);                                                    \
    }
// The override, as a variable template of N type parameters ...
#define OVER1(ID, NAME)                                                                                                \
    template <typename T>                                                                                              \
        requires(::pv::info_t<T>::E != 0 && std::is_same_v<typename ::pv::info_t<T>::op, ::pv::op_##ID>                \
                 && std::is_reference_v<T>)                                                                            \
    inline constexpr auto NAME<T> = ::pv::impl<::pv::op_##ID, true>{};
#define OVER2(ID, NAME)                                                                                                \
    template <typename T, typename U>                                                                                  \
        requires(::pv::info_t<T>::E != 0 && std::is_same_v<typename ::pv::info_t<T>::op, ::pv::op_##ID>                \
                 && std::is_reference_v<T> && std::is_reference_v<U>)                                                  \
    inline constexpr auto NAME<T, U> = ::pv::impl<::pv::op_##ID, true>{};
#define OVERM(ID, NAME)                                                                                                \
    template <typename T>                                                                                              \
        requires(::pv::info_t<T>::E != 0 && std::is_same_v<typename ::pv::info_t<T>::op, ::pv::op_##ID>                \
                 && std::is_reference_v<T>)                                                                            \
    inline constexpr auto NAME<T, double> = ::pv::impl<::pv::op_##ID, true>{};
#define OVER3(ID, NAME)                                                                                                \
    template <typename T, typename U, typename V>                                                                      \
        requires(::pv::info_t<T>::E != 0 && std::is_same_v<typename ::pv::info_t<T>::op, ::pv::op_##ID>                \
                 && std::is_reference_v<T> && std::is_reference_v<U> && std::is_reference_v<V>)                        \
    inline constexpr auto NAME<T, U, V> = ::pv::impl<::pv::op_##ID, true>{};
// ... or as a function with a tag.
#define OVERT(ID, NAME)                                                                                                \
    template <typename... Args>                                                                                        \
        requires(::pv::provided<::pv::op_##ID, true, Args...>())                                                       \
    auto NAME(NAME##_t, Args &&...args) noexcept(noexcept(::pv::impl<::pv::op_##ID, true>{}(std::forward<Args>(args)...))) \
        ->decltype(::pv::impl<::pv::op_##ID, true>{}(std::forward<Args>(args)...))                                     \
    {                                                                                                                  \
        return ::pv::impl<::pv::op_##ID, true>{}(std::forward<Args>(args)...);                                         \
    }
#define BOTH(ID, NAME, OVER)                                                                                           \
    namespace pv                                                                                                       \
    {                                                                                                                  \
    NEXT(ID, NAME)                                                                                                     \
    }                                                                                                                  \
    namespace obake::customisation                                                                                     \
    {                                                                                                                  \
    OVER(ID, NAME)                                                                                                     \
    }

// Defaults: 0 none, 1 ==, 2 -, 3 <<, 4 std::hash, 5 copy, 6 size, 7 assignment, 8 key_stream_insert.
POINT(is_zero, is_zero, 1, boolean, 0, 1, ::obake::is_zero(FX), (GX), (::obake::is_zero_testable_v<T>), (::obake::ZeroTestable<T>))
POINT(negate, negate, 1, self, 0, 2, ::obake::negate(FX), (GX), (::obake::is_negatable_v<T>), (::obake::Negatable<T>))
POINT(trim, trim, 1, same, 0, 5, ::obake::trim(FX), (GX), (::obake::is_trimmable_v<T>), (::obake::Trimmable<T>))
POINT(trim2, trim, 1, same, 1, 5, ::obake::trim(FX), (GX), (::obake::is_trimmable_v<T>), (::obake::Trimmable<T>))
POINT(evaluate, evaluate, 1, any, 0, 5, ::obake::evaluate(FX, c_sm), (GX, mk_arg(c_sm)), (::obake::is_evaluable_v<T, double>), (::obake::Evaluable<T, double>))
POINT(subs, subs, 1, any, 0, 5, ::obake::subs(FX, c_sm), (GX, mk_arg(c_sm)), (::obake::is_substitutable_v<T, double>), (::obake::Substitutable<T, double>))
POINT(byte_size, byte_size, 1, size, 0, 6, ::obake::byte_size(FX), (GX), (::obake::is_size_measurable_v<T>), (::obake::SizeMeasurable<T>))
POINT(byte_size2, byte_size, 1, size, 1, 6, ::obake::byte_size(FX), (GX), (::obake::is_size_measurable_v<T>), (::obake::SizeMeasurable<T>))
POINT(hash, hash, 1, size, 0, 4, ::obake::hash(FX), (GX), (::obake::is_hashable_v<T>), (::obake::Hashable<T>))
POINT(hash2, hash, 1, size, 1, 4, ::obake::hash(FX), (GX), (::obake::is_hashable_v<T>), (::obake::Hashable<T>))
POINT(safe_convert, safe_convert, 2, boolean, 0, 7, ::obake::safe_convert(FX, FY), (GX, GY), (::obake::is_safely_convertible_v<U, T>), (::obake::SafelyConvertible<U, T>))
POINT(safe_convert2, safe_convert, 1, boolean, 0, 0, ::obake::safe_convert(FX, g_int), (GX, mk_arg(g_int)), (::obake::is_safely_convertible_v<int &, T>), (::obake::SafelyConvertible<int &, T>))
POINT(safe_convert3, safe_convert, 1, boolean, 0, 0, ::obake::safe_convert(g_int, FX), (mk_arg(g_int), GX), (::obake::is_safely_convertible_v<T, int &>), (::obake::SafelyConvertible<T, int &>))
POINT(cf_stream_insert, cf_stream_insert, 1, voids, 0, 3, ::obake::cf_stream_insert(c_os, FX), (mk_arg(c_os), GX), (::obake::is_stream_insertable_cf_v<T>), (::obake::StreamInsertableCf<T>))
POINT(tex_stream_insert, tex_stream_insert, 1, voids, 0, 3, ::obake::tex_stream_insert(c_os, FX), (mk_arg(c_os), GX), (::obake::is_tex_stream_insertable_v<T>), (::obake::tex_stream_insertable<T>))
POINT(cf_tex, cf_tex_stream_insert, 1, voids, 0, 3, ::obake::cf_tex_stream_insert(c_os, FX), (mk_arg(c_os), GX), (::obake::is_tex_stream_insertable_cf_v<T>), (::obake::tex_stream_insertable_cf<T>))
POINT(key_tex, key_tex_stream_insert, 1, voids, 0, 8, ::obake::key_tex_stream_insert(c_os, FX, c_ss), (mk_arg(c_os), GX, mk_arg(c_ss)), (::obake::is_tex_stream_insertable_key_v<T>), (::obake::tex_stream_insertable_key<T>))
POINT(degree, degree, 1, any, 0, 0, ::obake::degree(FX), (GX), (::obake::is_with_degree_v<T>), (::obake::WithDegree<T>))
POINT(p_degree, p_degree, 1, any, 0, 0, ::obake::p_degree(FX, c_ss), (GX, mk_arg(c_ss)), (::obake::is_with_p_degree_v<T>), (::obake::WithPDegree<T>))
POINT(diff, diff, 1, any, 0, 0, ::obake::diff(FX, c_str), (GX, mk_arg(c_str)), (::obake::is_differentiable_v<T>), (::obake::Differentiable<T>))
POINT(integrate, integrate, 1, any, 0, 0, ::obake::integrate(FX, c_str), (GX, mk_arg(c_str)), (::obake::is_integrable_v<T>), (::obake::Integrable<T>))
POINT(pow, pow, 2, any, 0, 0, ::obake::pow(FX, FY), (GX, GY), (::obake::is_exponentiable_v<T, U>), (::obake::Exponentiable<T, U>))
POINT(pow2, pow, 1, any, 0, 0, ::obake::pow(FX, g_int), (GX, mk_arg(g_int)), (::obake::is_exponentiable_v<T, int &>), (::obake::Exponentiable<T, int &>))
POINT(fma3, fma3, 3, voids, 0, 0, ::obake::fma3(FX, FY, FZ), (GX, GY, GZ), (::obake::is_mult_addable_v<T, U, W>), (::obake::MultAddable<T, U, W>))
POINT(truncate_degree, truncate_degree, 2, voids, 0, 0, ::obake::truncate_degree(FX, FY), (GX, GY), (::obake::is_degree_truncatable_v<T, U>), (::obake::DegreeTruncatable<T, U>))
POINT(truncate_p_degree, truncate_p_degree, 2, voids, 0, 0, ::obake::truncate_p_degree(FX, FY, c_ss), (GX, GY, mk_arg(c_ss)), (::obake::is_p_degree_truncatable_v<T, U>), (::obake::PDegreeTruncatable<T, U>))
POINT(key_is_zero, key_is_zero, 1, boolean, 0, 0, ::obake::key_is_zero(FX, c_ss), (GX, mk_arg(c_ss)), (::obake::is_zero_testable_key_v<T>), (::obake::ZeroTestableKey<T>))
POINT(key_is_one, key_is_one, 1, boolean, 0, 0, ::obake::key_is_one(FX, c_ss), (GX, mk_arg(c_ss)), (::obake::is_one_testable_key_v<T>), (::obake::OneTestableKey<T>))
POINT(key_is_compatible, key_is_compatible, 1, boolean, 0, 0, ::obake::key_is_compatible(FX, c_ss), (GX, mk_arg(c_ss)), (::obake::is_compatibility_testable_key_v<T>), (::obake::CompatibilityTestableKey<T>))
POINT(key_degree, key_degree, 1, any, 0, 0, ::obake::key_degree(FX, c_ss), (GX, mk_arg(c_ss)), (::obake::is_key_with_degree_v<T>), (::obake::KeyWithDegree<T>))
POINT(key_p_degree, key_p_degree, 1, any, 0, 0, ::obake::key_p_degree(FX, c_si, c_ss), (GX, mk_arg(c_si), mk_arg(c_ss)), (::obake::is_key_with_p_degree_v<T>), (::obake::KeyWithPDegree<T>))
POINT(key_evaluate, key_evaluate, 1, any, 0, 0, ::obake::key_evaluate(FX, c_sim, c_ss), (GX, mk_arg(c_sim), mk_arg(c_ss)), (::obake::is_evaluable_key_v<T, double>), (::obake::EvaluableKey<T, double>))
POINT(key_merge_symbols, key_merge_symbols, 1, same, 0, 0, ::obake::key_merge_symbols(FX, c_ins, c_ss), (GX, mk_arg(c_ins), mk_arg(c_ss)), (::obake::is_symbols_mergeable_key_v<T>), (::obake::SymbolsMergeableKey<T>))
POINT(key_trim, key_trim, 1, same, 1, 0, ::obake::key_trim(FX, c_si, c_ss), (GX, mk_arg(c_si), mk_arg(c_ss)), (::obake::is_trimmable_key_v<T>), (::obake::TrimmableKey<T>))
POINT(key_trim_identify, key_trim_identify, 1, voids, 0, 0, ::obake::key_trim_identify(g_vec, FX, c_ss), (mk_arg(g_vec), GX, mk_arg(c_ss)), (::obake::is_trim_identifiable_key_v<T>), (::obake::TrimIdentifiableKey<T>))
POINT(key_stream_insert, key_stream_insert, 1, voids, 0, 0, ::obake::key_stream_insert(c_os, FX, c_ss), (mk_arg(c_os), GX, mk_arg(c_ss)), (::obake::is_stream_insertable_key_v<T>), (::obake::StreamInsertableKey<T>))
POINT(monomial_mul, monomial_mul, 3, voids, 0, 0, ::obake::monomial_mul(FX, FY, FZ, c_ss), (GX, GY, GZ, mk_arg(c_ss)), (::obake::is_multipliable_monomial_v<T, U, W>), (::obake::MultipliableMonomial<T, U, W>))
POINT(monomial_pow, monomial_pow, 1, same, 0, 0, ::obake::monomial_pow(FX, g_int, c_ss), (GX, mk_arg(g_int), mk_arg(c_ss)), (::obake::is_exponentiable_monomial_v<T, int &>), (::obake::ExponentiableMonomial<T, int &>))
POINT(monomial_check, monomial_range_overflow_check, 2, boolean, 0, 0, ::obake::monomial_range_overflow_check(FX, FY, c_ss), (GX, GY, mk_arg(c_ss)), (::obake::are_overflow_testable_monomial_ranges_v<T, U>), (::obake::OverflowTestableMonomialRanges<T, U>))
POINT(monomial_diff, monomial_diff, 1, pair, 0, 0, ::obake::monomial_diff(FX, c_idx, c_ss), (GX, mk_arg(c_idx), mk_arg(c_ss)), (::obake::is_differentiable_monomial_v<T>), (::obake::DifferentiableMonomial<T>))
POINT(monomial_integrate, monomial_integrate, 1, pair, 1, 0, ::obake::monomial_integrate(FX, c_idx, c_ss), (GX, mk_arg(c_idx), mk_arg(c_ss)), (::obake::is_integrable_monomial_v<T>), (::obake::IntegrableMonomial<T>))
POINT(monomial_subs, monomial_subs, 1, pair, 0, 0, ::obake::monomial_subs(FX, c_sim, c_ss), (GX, mk_arg(c_sim), mk_arg(c_ss)), (::obake::is_substitutable_monomial_v<T, double>), (::obake::SubstitutableMonomial<T, double>))
#define SELF(CALL) (requires(T && x, U &&y) { ::obake::CALL; })
POINT(series_add, series_add, 2, any, 0, 0, ::obake::series_add(FX, FY), (GX, GY), (SELF(series_add(FX, FY))), (SELF(series_add(FX, FY))))
POINT(series_sub, series_sub, 2, any, 0, 0, ::obake::series_sub(FX, FY), (GX, GY), (SELF(series_sub(FX, FY))), (SELF(series_sub(FX, FY))))
POINT(series_mul, series_mul, 2, any, 0, 0, ::obake::series_mul(FX, FY), (GX, GY), (SELF(series_mul(FX, FY))), (SELF(series_mul(FX, FY))))
POINT(series_div, series_div, 2, any, 0, 0, ::obake::series_div(FX, FY), (GX, GY), (SELF(series_div(FX, FY))), (SELF(series_div(FX, FY))))
POINT(series_equal_to, series_equal_to, 2, boolean, 0, 0, ::obake::series_equal_to(FX, FY), (GX, GY), (SELF(series_equal_to(FX, FY))), (SELF(series_equal_to(FX, FY))))
POINT(series_stream_insert, series_stream_insert, 1, voids, 0, 0, ::obake::series_stream_insert(c_os, FX), (mk_arg(c_os), GX), (SELF(series_stream_insert(c_os, FX))), (SELF(series_stream_insert(c_os, FX))))
POINT(series_in_place_add, series_in_place_add, 2, ref_same, 0, 0, ::obake::series_in_place_add(FX, FY), (GX, GY), SELF(series_in_place_add(FX, FY)), SELF(series_in_place_add(FX, FY)))
POINT(series_in_place_sub, series_in_place_sub, 2, ref_same, 0, 0, ::obake::series_in_place_sub(FX, FY), (GX, GY), SELF(series_in_place_sub(FX, FY)), SELF(series_in_place_sub(FX, FY)))
} // namespace pv

BOTH(is_zero, is_zero, OVERT)
BOTH(negate, negate, OVERT)
BOTH(trim, trim, OVER1)
BOTH(trim2, trim, OVER1)
BOTH(evaluate, evaluate, OVERM)
BOTH(subs, subs, OVERT)
BOTH(byte_size, byte_size, OVER1)
BOTH(byte_size2, byte_size, OVER1)
BOTH(hash, hash, OVER1)
BOTH(hash2, hash, OVER1)
BOTH(safe_convert, safe_convert, OVERT)
BOTH(safe_convert2, safe_convert, OVERT)
BOTH(safe_convert3, safe_convert, OVERT)
BOTH(cf_stream_insert, cf_stream_insert, OVER1)
BOTH(tex_stream_insert, tex_stream_insert, OVERT)
BOTH(cf_tex, cf_tex_stream_insert, OVERT)
BOTH(key_tex, key_tex_stream_insert, OVERT)
BOTH(degree, degree, OVER1)
BOTH(p_degree, p_degree, OVER1)
BOTH(diff, diff, OVER1)
BOTH(integrate, integrate, OVER1)
BOTH(pow, pow, OVERT)
BOTH(pow2, pow, OVERT)
BOTH(fma3, fma3, OVER3)
BOTH(truncate_degree, truncate_degree, OVER2)
BOTH(truncate_p_degree, truncate_p_degree, OVER2)
BOTH(key_is_zero, key_is_zero, OVER1)
BOTH(key_is_one, key_is_one, OVER1)
BOTH(key_is_compatible, key_is_compatible, OVER1)
BOTH(key_degree, key_degree, OVER1)
BOTH(key_p_degree, key_p_degree, OVER1)
BOTH(key_evaluate, key_evaluate, OVERM)
BOTH(key_merge_symbols, key_merge_symbols, OVER1)
BOTH(key_trim, key_trim, OVER1)
BOTH(key_trim_identify, key_trim_identify, OVER1)
BOTH(key_stream_insert, key_stream_insert, OVER1)
BOTH(monomial_mul, monomial_mul, OVER3)
BOTH(monomial_pow, monomial_pow, OVER2)
BOTH(monomial_check, monomial_range_overflow_check, OVER2)
BOTH(monomial_diff, monomial_diff, OVER1)
BOTH(monomial_integrate, monomial_integrate, OVER1)
BOTH(monomial_subs, monomial_subs, OVERM)
BOTH(series_in_place_add, series_in_place_add, OVER2)
BOTH(series_in_place_sub, series_in_place_sub, OVER2)
BOTH(series_add, series_add, OVER2)
BOTH(series_sub, series_sub, OVER2)
BOTH(series_mul, series_mul, OVER2)
BOTH(series_div, series_div, OVER2)
BOTH(series_equal_to, series_equal_to, OVER2)
BOTH(series_stream_insert, series_stream_insert, OVER1)
// What the default of key_tex_stream_insert() needs.
namespace pv
{
template <Subj T>
    requires(info_t<T>::D == 1 && info_t<T>::op::def == 8)
void key_stream_insert(std::ostream &os, T &&x, const obake::symbol_set &ss)
{
    record('D', "key_stream_insert", mk_arg(os), mk_arg(std::forward<T>(x)), mk_arg(ss));
}

// Which implementation must be chosen: 'E', 'A', 'D', or 0 (none). c, d: categories of the first two subjects.
template <typename Op>
constexpr char chosen(int E, int A, int D, int c, int d)
{
    if (accepts(E, c)) return 'E';
    if (accepts(A, c)) return 'A';
    switch (Op::def) {
        case 1: return D == 1 ? 'D' : 0;
        case 2: return D == 1 && !(c & 1) ? 'D' : 0;
        case 3: return D == 1 ? 'D' : 0;
        case 4: return D != 0 ? 'D' : 0;
        case 5: return D == 1 ? 'D' : 0;
        case 6: return 'D';
        case 7: return D == 1 && !(c & 1) ? 'D' : 0;
        case 8: return D == 1 ? 'D' : 0;
        default: (void)d; return 0;
    }
}
// Whether its return type is fine.
template <typename Op>
constexpr bool usable(char w, int E, int A, int D)
{
    if (w == 0) return false;
    if (Op::def == 4 && w == 'D') return D == 1;
    const bool b = w == 'E' ? E == bad : w == 'A' ? A == bad : false;
    if (!b) return true;
    return Op::k == kind::any || Op::k == kind::voids || Op::k == kind::self;
}

template <typename T, int C>
using as_cat = std::conditional_t<
    C == 0, T &, std::conditional_t<C == 1, const T &, std::conditional_t<C == 2, T &&, const T &&>>>;

inline std::string st(int s)
{
    static const char *n[] = {"absent", "fine", "wrong return type", "for rvalues", "for lvalues", "for const rvalues"};
    return n[s];
}

template <typename Op, int E, int A, int D, int C1, int C2, int C3>
void one(mc::Ctx &ctx)
{
    using S = V<Op, E, A, D>;
    using T = as_cat<S, C1>;
    using U = as_cat<S, C2>;
    using W = as_cat<S, C3>;
    auto where = [] {
        auto r = mc::cat(Op::id, " (override ", st(E), ", function next to the type ", st(A));
        if (Op::def) r += mc::cat(", default ", D == 0 ? "impossible" : D == 1 ? "possible" : "with the wrong type");
        r += mc::cat(") of ", cat_name[C1]);
        if (Op::ns > 1) r += mc::cat(", ", cat_name[C2]);
        if (Op::ns > 2) r += mc::cat(", ", cat_name[C3]);
        return r;
    };
    ctx.op();
    constexpr char w = chosen<Op>(E, A, D, C1, C2);
    constexpr bool ok = usable<Op>(w, E, A, D);
    ctx.validated(3);
    if constexpr (Op::template compiles<T, U, W> != ok) {
        ctx.fail(where() + (ok ? " should compile and does not" : " should not compile and does"));
    } else {
        if (Op::template trait<T, U, W> != ok) ctx.fail(mc::cat("the type trait of ", where(), " is ", !ok));
        if (Op::template conc<T, U, W> != ok) ctx.fail(mc::cat("the concept of ", where(), " is ", !ok));
        if constexpr (C1 == 2 || C1 == 3) {
            // T and T && are the same thing.
            using T0 = std::remove_reference_t<T>;
            ctx.validated(2);
            if (Op::template trait<T0, U, W> != ok || Op::template conc<T0, U, W> != ok) ctx.fail(mc::cat("the type queries of ", where(), " tell T from T &&"));
        }
        if constexpr (ok) {
            S a(mk{'x'}), b(mk{'y'}), c(mk{'z'});
            auto run = [&]() -> decltype(auto) { return Op::run(static_cast<T>(a), static_cast<U>(b), static_cast<W>(c)); };
            auto args = Op::args(static_cast<T>(a), static_cast<U>(b), static_cast<W>(c));
            truth = ctx.flag("truth");
            boom = false;
            calls.clear();
            using R = decltype(run());
            const auto bad_call = [&]() -> std::string {
                if (calls.empty()) return "no implementation was called";
                auto s = mc::cat("what was called is ");
                for (const auto &k : calls) {
                    s += mc::cat(k.level, ":", k.op, "(");
                    for (const auto &g : k.args) s += mc::cat(cat_name[g.c], " ");
                    s += ") ";
                }
                return s;
            };
            constexpr auto k = Op::k;
            bool type_ok = true, val_ok = true;
            if constexpr (k == kind::voids) {
                type_ok = std::is_void_v<R>;
                run();
            } else if constexpr (k == kind::self) {
                type_ok = std::is_same_v<R, T &&>;
                auto &&r = run();
                val_ok = static_cast<const void *>(std::addressof(r)) == static_cast<const void *>(std::addressof(a));
            } else if constexpr (k == kind::any) {
                constexpr bool isbad = w == 'E' ? E == bad : w == 'A' && A == bad;
                if constexpr (w == 'D') {
                    type_ok = std::is_same_v<R, S>;
                    if constexpr (std::is_same_v<R, S>) {
                        auto r = run();
                        val_ok = r.from == 'x';
                    }
                } else {
                    // Passed on as it is.
                    type_ok = std::is_same_v<R, std::conditional_t<isbad, const ret_any &, ret_any>>;
                    if constexpr (std::is_same_v<std::remove_cvref_t<R>, ret_any>) val_ok = run().level == w;
                }
            } else if constexpr (k == kind::same) {
                type_ok = std::is_same_v<R, S>;
                if constexpr (std::is_same_v<R, S>) {
                    const auto &r = run();
                    val_ok = r.from == (w == 'D' ? 'x' : w);
                }
            } else if constexpr (k == kind::size) {
                type_ok = std::is_same_v<R, std::size_t>;
                const auto r = static_cast<std::size_t>(run());
                val_ok = r == (w == 'E' ? 111u : w == 'A' ? 222u : Op::def == 4 ? 333u : sizeof(S));
            } else if constexpr (k == kind::boolean) {
                type_ok = std::is_same_v<R, bool>;
                const bool r = run();
                val_ok = r == (w == 'D' && Op::def == 7 ? true : truth);
            } else if constexpr (k == kind::ref_same) {
                type_ok = std::is_same_v<R, S &>;
                auto &&r = run();
                val_ok = static_cast<const void *>(std::addressof(r)) == static_cast<const void *>(std::addressof(a));
            } else if constexpr (k == kind::pair) {
                type_ok = std::is_same_v<R, std::pair<int, S>>;
                if constexpr (std::is_same_v<R, std::pair<int, S>>) {
                    const auto &r = run();
                    val_ok = r.first == (w == 'E' ? 111 : 222) && r.second.from == w;
                }
            }
            ctx.validated(3);
            if (!type_ok) ctx.fail("the return type of " + where() + " is wrong");
            // The calls.
            auto eq = [](const std::vector<arg> &x, const std::vector<arg> &y) {
                if (x.size() != y.size()) return false;
                for (std::size_t i = 0; i < x.size(); ++i) {
                    if (x[i].p != y[i].p || x[i].c != y[i].c) return false;
                }
                return true;
            };
            if (w != 'D') {
                if (calls.size() != 1u || calls[0].level != w || std::string(calls[0].op) != Op::name) ctx.fail(where() + " must use " + (w == 'E' ? "the override" : "the function next to the type") + ": " + bad_call());
                if (!eq(calls[0].args, args)) ctx.fail(where() + " does not pass on its arguments as they are: " + bad_call());
            } else {
                bool good = true;
                for (const auto &q : calls) good = good && q.level == 'D';
                if constexpr (Op::def == 1) good = good && calls.size() == 1u && eq(calls[0].args, args);
                else if constexpr (Op::def == 2)
                    good = good && calls.size() == 2u && std::string(calls[0].op) == "-" && eq(calls[0].args, args) && std::string(calls[1].op) == "assign" && calls[1].args[0].p == args[0].p && a.from == '-';
                else if constexpr (Op::def == 3) good = good && calls.size() == 1u && eq(calls[0].args, args);
                else if constexpr (Op::def == 4) good = good && calls.size() == 1u && calls[0].args[0].p == args[0].p;
                else if constexpr (Op::def == 5)
                    good = good && calls.size() == 1u && std::string(calls[0].op) == "copy" && calls[0].args[0].p == args[0].p && calls[0].args[0].c == (C1 == 2 ? 2 : 1);
                else if constexpr (Op::def == 6) good = good && calls.empty();
                else if constexpr (Op::def == 7)
                    good = good && calls.size() == 1u && std::string(calls[0].op) == "assign" && calls[0].args[0].p == args[0].p && calls[0].args[1].p == args[1].p && calls[0].args[1].c == (C2 == 2 ? 2 : 1) && a.from == 'y';
                else if constexpr (Op::def == 8) good = good && calls.size() == 1u && eq(calls[0].args, args);
                if (!good) ctx.fail(where() + " must use the default: " + bad_call());
            }
            if (!val_ok) ctx.fail("the value returned by " + where() + " is wrong");
            // Exceptions of the implementation.
            if constexpr (w != 'D' && (w == 'E' ? E : A) != fine) {
                ctx.validated(2);
                if (Op::template nothrow<T, U, W>(static_cast<T>(a), static_cast<U>(b), static_cast<W>(c))) ctx.fail(where() + " is noexcept, its implementation is not");
                boom = true;
                bool thrown = false;
                try {
                    (void)Op::run(static_cast<T>(a), static_cast<U>(b), static_cast<W>(c));
                } catch (const bang &) {
                    thrown = true;
                }
                boom = false;
                if (!thrown) ctx.fail("the exception of " + where() + " is lost");
            }
        }
    }
}

using fun = void (*)(mc::Ctx &);
// All the combinations.
template <typename Op, int E, int A, int D>
void add(std::vector<fun> &v)
{
    auto cats = [&]<int C1>(std::integral_constant<int, C1>) {
        if constexpr (Op::ns == 1) {
            v.push_back(&one<Op, E, A, D, C1, C1, C1>);
        } else {
            [&]<int... I>(std::integer_sequence<int, I...>) {
                if constexpr (Op::ns == 2) (v.push_back(&one<Op, E, A, D, C1, I, I>), ...);
                else (v.push_back(&one<Op, E, A, D, C1, I, (C1 + 2 * I + 1) % 4>), ...);
            }(std::make_integer_sequence<int, 4>{});
        }
    };
    [&]<int... I>(std::integer_sequence<int, I...>) { (cats(std::integral_constant<int, I>{}), ...); }(std::make_integer_sequence<int, 4>{});
}
template <typename Op>
std::vector<fun> all()
{
    std::vector<fun> v;
    auto ds = [&]<int E, int A>() {
        add<Op, E, A, 0>(v);
        if constexpr (Op::def != 0 && Op::def != 6) add<Op, E, A, 1>(v);
        if constexpr (Op::def == 4) add<Op, E, A, 2>(v);
    };
    auto as = [&]<int E>() {
        [&]<int... I>(std::integer_sequence<int, I...>) { (ds.template operator()<E, I>(), ...); }(std::make_integer_sequence<int, 5>{});
    };
    [&]<int... I>(std::integer_sequence<int, I...>) { (as.template operator()<I>(), ...); }(std::make_integer_sequence<int, 5>{});
    return v;
}
template <typename Op>
mc::Scenario scen()
{
    return {std::string("dispatch/") + Op::id, [](mc::Ctx &ctx) {
                static const auto v = all<Op>();
                const auto i = ctx.choose(static_cast<unsigned>(v.size()), "combination");
                v[i](ctx);
                ctx.state(mc::cat(Op::id, i, truth));
            },
            1};
}
// The same for series: the library's default is what it does for every series. The implementations are chosen by the tag.
using pm_t = obake::packed_monomial<std::int64_t>;
template <typename Op, int E, int A>
using S_t = obake::series<pm_t, double, stag<Op, E, A>>;
template <typename S>
S mk_ser(double c)
{
    S r;
    r.set_symbol_set(obake::symbol_set{"a", "b"});
    r.add_term(pm_t{1, 2}, c);
    r.add_term(pm_t{0, 1}, c + 1);
    return r;
}
// With an operator in place of the function.
#define OPERATOR(ID, BASE, CALL)                                                                                       \
    struct oper_##ID : op_##BASE {                                                                                     \
        static constexpr const char *sid = #ID;                                                                        \
        template <typename T, typename U>                                                                              \
        static constexpr bool ok = requires(T &&x, U &&y)                                                              \
        {                                                                                                              \
            CALL;                                                                                                      \
        };                                                                                                             \
        template <typename T, typename U>                                                                              \
        static decltype(auto) go([[maybe_unused]] T &&x, [[maybe_unused]] U &&y)                                       \
        {                                                                                                              \
            return CALL;                                                                                               \
        }                                                                                                              \
        using base = op_##BASE;                                                                                        \
    };
OPERATOR(is_zero, is_zero, ::obake::is_zero(FX))
OPERATOR(negate, negate, ::obake::negate(FX))
OPERATOR(degree, degree, ::obake::degree(FX))
OPERATOR(p_degree, p_degree, ::obake::p_degree(FX, c_ss))
OPERATOR(evaluate, evaluate, ::obake::evaluate(FX, c_sm))
OPERATOR(trim, trim, ::obake::trim(FX))
OPERATOR(byte_size, byte_size, ::obake::byte_size(FX))
OPERATOR(cf_stream_insert, cf_stream_insert, ::obake::cf_stream_insert(c_os, FX))
OPERATOR(tex_stream_insert, tex_stream_insert, ::obake::tex_stream_insert(c_os, FX))
OPERATOR(cf_tex, cf_tex, ::obake::cf_tex_stream_insert(c_os, FX))
OPERATOR(add, series_add, FX + FY)
OPERATOR(sub, series_sub, FX - FY)
OPERATOR(in_place_add, series_in_place_add, FX += FY)
OPERATOR(in_place_sub, series_in_place_sub, FX -= FY)
OPERATOR(div, series_div, FX / FY)
OPERATOR(mul, series_mul, FX * FY)
OPERATOR(eq, series_equal_to, FX == FY)
OPERATOR(ne, series_equal_to, FX != FY)
OPERATOR(insert, series_stream_insert, c_os << FX)
#define OPERS(X)                                                                                                       \
    X(4, is_zero) X(5, negate) X(4, degree) X(5, p_degree) X(4, evaluate) X(5, trim) X(4, byte_size)                   \
    X(5, cf_stream_insert) X(4, tex_stream_insert) X(5, cf_tex) X(4, add) X(5, sub) X(4, in_place_add) X(5, in_place_sub) \
    X(4, div) X(5, mul) X(4, eq) X(5, ne) X(4, insert)
template <typename O, int E, int A, int C>
void ser_one(mc::Ctx &ctx)
{
    using Op = typename O::base;
    using S = S_t<Op, E, A>;
    using T = as_cat<S, C>;
    // NOTE: the other argument: a series for the sums, a number for products and quotients.
    constexpr bool scal = std::is_same_v<O, oper_mul> || std::is_same_v<O, oper_div>;
    using U = std::conditional_t<scal, double &, S &>;
    constexpr bool inplace = Op::k == kind::ref_same;
    constexpr bool mut = inplace || Op::k == kind::self;
    constexpr char w = accepts(E, C) ? 'E' : accepts(A, C) ? 'A' : (mut && (C & 1)) ? 0 : 'D';
    auto where = [] { return mc::cat(O::sid, " (override ", st(E), ", function next to the type ", st(A), ") of a series ", cat_name[C]); };
    ctx.op();
    ctx.validated();
    // NOTE: mutating a constant and mutable rvalues on the left of += are not required to compile or not.
    if constexpr (w == 0 || (inplace && C != 0 && w == 'D')) {
        (void)ctx;
    } else if constexpr (!O::template ok<T, U>) {
        ctx.fail(where() + " does not compile");
    } else {
        S a = mk_ser<S>(2), b = mk_ser<S>(3);
        double two = 2;
        truth = ctx.flag("truth");
        boom = false;
        g_os.str("");
        U y = [&]() -> U {
            if constexpr (scal) return two;
            else return b;
        }();
        auto run = [&]() -> decltype(auto) { return O::go(static_cast<T>(a), static_cast<U>(y)); };
        using R = decltype(run());
        calls.clear();
        bool val = true;
        constexpr auto k = Op::k;
        if constexpr (k == kind::boolean) {
            static_assert(std::is_same_v<R, bool>);
            const bool r = run();
            if (w != 'D') val = r == (std::is_same_v<O, oper_ne> ? !truth : truth);
            else val = r == std::is_same_v<O, oper_ne>;
        } else if constexpr (k == kind::size) {
            static_assert(std::is_same_v<R, std::size_t>);
            const auto r = run();
            val = w == 'E' ? r == 111u : w == 'A' ? r == 222u : r > sizeof(S);
        } else if constexpr (k == kind::any) {
            if constexpr (w != 'D') {
                if constexpr (std::is_same_v<R, ret_any>) val = run().level == w;
                else val = false;
            } else {
                (void)run();
            }
        } else {
            (void)run();
        }
        if (w == 'D' && k == kind::voids && g_os.str().empty()) val = false;
        ctx.validated(2);
        unsigned n = 0;
        bool good = true;
        for (const auto &q : calls) {
            if (std::string(q.op) != Op::name) continue;
            ++n;
            good = good && q.level == w;
            bool found = false;
            for (const auto &g : q.args) found = found || (g.p == static_cast<const void *>(&a) && g.c == C);
            good = good && found;
        }
        if (!good || n != (w == 'D' ? 0u : 1u)) {
            auto msg = where() + (w == 'D' ? " must use the library's default, and there was a call of " : w == 'E' ? " must use the override, what was called is " : " must use the function next to the type, what was called is ");
            for (const auto &q : calls) {
                msg += mc::cat(q.level, ":", q.op, "(");
                for (const auto &g : q.args) msg += mc::cat(cat_name[g.c], " ");
                msg += ") ";
            }
            ctx.fail(msg);
        }
        if (!val) ctx.fail("the result of " + where() + " is wrong");
    }
}
template <typename O>
std::vector<fun> ser_all()
{
    std::vector<fun> v;
    auto cs = [&]<int E, int A>() {
        [&]<int... I>(std::integer_sequence<int, I...>) { (v.push_back(&ser_one<O, E, A, I>), ...); }(std::make_integer_sequence<int, 4>{});
    };
    auto as = [&]<int E>() {
        cs.template operator()<E, 0>();
        cs.template operator()<E, 1>();
        cs.template operator()<E, 3>();
    };
    as.template operator()<0>();
    as.template operator()<1>();
    as.template operator()<3>();
    return v;
}
template <typename O>
mc::Scenario ser_scen()
{
    return {std::string("series/") + O::sid, [](mc::Ctx &ctx) {
                static const auto v = ser_all<O>();
                const auto i = ctx.choose(static_cast<unsigned>(v.size()), "combination");
                v[i](ctx);
                ctx.state(mc::cat("s", O::sid, i, truth));
            },
            1};
}
// monomial_hash_is_homomorphic: override x next to the type, each absent, true, false, of the wrong type.
template <int E, int A>
struct hh {
};
} // namespace pv
namespace obake::customisation
{
template <int A>
inline constexpr bool monomial_hash_is_homomorphic<pv::hh<1, A>> = true;
template <int A>
inline constexpr bool monomial_hash_is_homomorphic<pv::hh<2, A>> = false;
template <int A>
inline constexpr int monomial_hash_is_homomorphic<pv::hh<3, A>> = 1;
} // namespace obake::customisation
namespace obake
{
template <int E>
inline constexpr bool monomial_hash_is_homomorphic<pv::hh<E, 1>> = true;
template <int E>
inline constexpr bool monomial_hash_is_homomorphic<pv::hh<E, 2>> = false;
template <int E>
inline constexpr int monomial_hash_is_homomorphic<pv::hh<E, 3>> = 1;
} // namespace obake
namespace pv
{
template <int E, int A>
void hh_one(mc::Ctx &ctx)
{
    constexpr bool e = E == 1 || ((E == 0 || E == 3) && A == 1);
    ctx.op();
    ctx.validated(3);
    using T = hh<E, A>;
    if (obake::is_homomorphically_hashable_monomial_v<T> != e || obake::is_homomorphically_hashable_monomial<T>::value != e || obake::HomomorphicallyHashableMonomial<T> != e)
        ctx.fail(mc::cat("monomial_hash_is_homomorphic (override ", E, ", next to the type ", A, ") should give ", e));
}
inline mc::Scenario hh_scen()
{
    return {"homomorphic_hash", [](mc::Ctx &ctx) {
                static const std::vector<fun> v = [] {
                    std::vector<fun> r;
                    [&]<int... I>(std::integer_sequence<int, I...>) { (r.push_back(&hh_one<I / 4, I % 4>), ...); }(std::make_integer_sequence<int, 16>{});
                    return r;
                }();
                const auto i = ctx.choose(16, "combination");
                v[i](ctx);
                ctx.state(mc::cat("hh", i));
            },
            1};
}
} // namespace pv

using namespace pv;
#define PTS(X)                                                                                                         \
    X(0, is_zero) X(1, negate) X(2, trim) X(3, trim2) X(4, evaluate) X(5, subs) X(0, byte_size) X(1, byte_size2) X(2, hash) \
    X(3, hash2) X(4, safe_convert) X(5, safe_convert2) X(6, safe_convert3) X(7, cf_stream_insert) X(6, tex_stream_insert) \
    X(7, cf_tex) X(0, key_tex) X(1, degree) X(2, p_degree) X(3, diff) X(5, integrate) X(6, pow) X(7, pow2) X(0, fma3)   \
    X(1, truncate_degree) X(2, truncate_p_degree) X(3, key_is_zero) X(5, key_is_one) X(6, key_is_compatible)            \
    X(7, key_degree) X(0, key_p_degree) X(1, key_evaluate) X(2, key_merge_symbols) X(3, key_trim) X(5, key_trim_identify) \
    X(6, key_stream_insert) X(7, monomial_mul) X(0, monomial_pow) X(1, monomial_check) X(2, monomial_diff)              \
    X(3, monomial_integrate) X(5, monomial_subs) X(6, series_add) X(7, series_sub) X(0, series_mul) X(1, series_div)    \
    X(2, series_equal_to) X(3, series_stream_insert) X(4, series_in_place_add) X(5, series_in_place_sub)
namespace
{
std::vector<mc::Scenario> mine()
{
    std::vector<mc::Scenario> r;
#define ADD(P, ID)                                                                                                     \
    if constexpr (P % PARTS == PART) r.push_back(scen<op_##ID>());
#define ADD2(P, ID)                                                                                                    \
    if constexpr (P % PARTS == PART) r.push_back(ser_scen<oper_##ID>());
    [&]<typename Dummy>(Dummy) {
        (void)sizeof(Dummy);
        PTS(ADD)
        OPERS(ADD2)
    }(0);
    if (PART == 5) r.push_back(hh_scen());
    return r;
}
mc::Reg reg(mine());
} // namespace
