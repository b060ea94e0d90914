// P35: the type queries. Every query x every type of a grid (types x qualifications, iterators x pairs of defects,
// ranges, operators), against what the language says of the expressions or against what the type was built to be.
// PART 0: classification, ranges, limits. 1-3: operators. 4-6: iterators.
#include <array>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <forward_list>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <ostream>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include <boost/iterator/counting_iterator.hpp>
#include <boost/iterator/transform_iterator.hpp>

#include "../mc/mc.hpp"

#include <obake/detail/fcast.hpp>
#include <obake/detail/limits.hpp>
#include <obake/ranges.hpp>
#include <obake/type_traits.hpp>

#if !defined(PART)
#define PART 0
#endif

namespace q
{
using i128 = __int128_t;
using u128 = __uint128_t;
template <typename T>
std::string name()
{
    std::string s = __PRETTY_FUNCTION__;
    const auto a = s.find("T = ") + 4u;
    return s.substr(a, s.find(';', a) - a);
}
template <typename T>
struct ty {
    using type = T;
};
template <typename... T>
struct list {
    static constexpr std::size_t size = sizeof...(T);
};
template <typename, typename>
struct join;
template <typename... A, typename... B>
struct join<list<A...>, list<B...>> {
    using type = list<A..., B...>;
};
using fun = void (*)(mc::Ctx &);
#define ASK(QUERY, EXPECTED, WHAT)                                                                                     \
    do {                                                                                                               \
        ctx.validated();                                                                                               \
        constexpr bool got_ = (QUERY);                                                                                 \
        constexpr bool exp_ = (EXPECTED);                                                                              \
        if (got_ != exp_) ctx.fail(mc::cat(#QUERY, " with ", WHAT, " is ", got_, " and should be ", exp_));           \
    } while (0)
} // namespace q
using namespace q;

#if PART == 0
namespace
{
// ------------------------------------------------------------------ classification
// 'b' bool, 'i' signed, 'u' unsigned, 'f' floating point, 'e' enumeration, 0 something else.
template <typename T>
constexpr char klass = 0;
#define K(T, C)                                                                                                        \
    template <>                                                                                                        \
    constexpr char klass<T> = C;
K(bool, 'b')
constexpr bool char_signed = static_cast<char>(-1) < 0, wchar_signed = static_cast<wchar_t>(-1) < 0;
K(char, char_signed ? 'i' : 'u')
K(wchar_t, wchar_signed ? 'i' : 'u')
K(char8_t, 'u')
K(char16_t, 'u')
K(char32_t, 'u')
K(signed char, 'i')
K(short, 'i')
K(int, 'i')
K(long, 'i')
K(long long, 'i')
K(i128, 'i')
K(unsigned char, 'u')
K(unsigned short, 'u')
K(unsigned, 'u')
K(unsigned long, 'u')
K(unsigned long long, 'u')
K(u128, 'u')
K(float, 'f')
K(double, 'f')
K(long double, 'f')
enum en { en_a };
enum class ec : unsigned char { a };
K(en, 'e')
K(ec, 'e')
template <typename T>
struct uns {
    using type = void;
};
#define UNS(A, B)                                                                                                      \
    template <>                                                                                                        \
    struct uns<A> {                                                                                                    \
        using type = B;                                                                                                \
    };
UNS(char, unsigned char)
UNS(signed char, unsigned char)
UNS(unsigned char, unsigned char)
UNS(short, unsigned short)
UNS(unsigned short, unsigned short)
UNS(int, unsigned)
UNS(unsigned, unsigned)
UNS(long, unsigned long)
UNS(unsigned long, unsigned long)
UNS(long long, unsigned long long)
UNS(unsigned long long, unsigned long long)
UNS(i128, u128)
UNS(u128, u128)

struct plain {
};
union uni {
    int a;
};
struct nodef {
    nodef() = delete;
    nodef(int);
};
struct nocopy {
    nocopy();
    nocopy(const nocopy &) = delete;
    nocopy(nocopy &&);
    nocopy &operator=(const nocopy &) = delete;
    nocopy &operator=(nocopy &&);
};
struct nomove {
    nomove();
    nomove(const nomove &) = delete;
    nomove(nomove &&) = delete;
};
struct mutcopy {
    mutcopy();
    mutcopy(mutcopy &);
};
struct noassign {
    noassign();
    noassign(const noassign &);
    noassign &operator=(const noassign &) = delete;
};
struct nomoveassign {
    nomoveassign();
    nomoveassign(const nomoveassign &);
    nomoveassign &operator=(const nomoveassign &);
    nomoveassign &operator=(nomoveassign &&) = delete;
};
struct nodtor {
    nodtor();
    nodtor(const nodtor &);
    ~nodtor() = delete;
};
struct noswap {
    noswap();
    noswap(const noswap &);
    noswap(noswap &&);
    noswap &operator=(const noswap &);
    noswap &operator=(noswap &&);
};
void swap(noswap &, noswap &) = delete;
struct privdef {
    privdef(const privdef &);

private:
    privdef();
};
struct abstr {
    virtual void f() = 0;
};
struct expcopy {
    expcopy();
    explicit expcopy(const expcopy &);
    expcopy &operator=(const expcopy &);
};
struct lref_conv_only {
    lref_conv_only();
    lref_conv_only(const lref_conv_only &&);
    lref_conv_only(lref_conv_only &) = delete;
    lref_conv_only(const lref_conv_only &) = delete;
};
// s: semi-regular, r: can be returned.
template <typename T>
constexpr int traits_of = 3;
#define TR(T, S, R)                                                                                                    \
    template <>                                                                                                        \
    constexpr int traits_of<T> = S + 2 * R;
TR(nodef, 0, 1)
TR(nocopy, 0, 1)
TR(nomove, 0, 0)
TR(mutcopy, 0, 1)
TR(noassign, 0, 1)
TR(nomoveassign, 0, 1)
TR(nodtor, 0, 0)
TR(noswap, 0, 1)
TR(privdef, 0, 1)
TR(abstr, 0, 0)
TR(lref_conv_only, 0, 1)
TR(std::unique_ptr<int>, 0, 1)
TR(void, 0, 1)
TR(void(), 0, 0)
TR(int(int) const, 0, 0)
TR(int[3], 0, 0)
TR(int[], 0, 0)
TR(char[4], 0, 0)
TR(char[], 0, 0)
TR(char[2][3], 0, 0)
TR(wchar_t[3], 0, 0)
TR(unsigned char[3], 0, 0)
TR(std::string[2], 0, 0)
// String-like.
template <typename T>
constexpr bool strlike = false;
#define SL(T)                                                                                                          \
    template <>                                                                                                        \
    constexpr bool strlike<T> = true;
SL(std::string)
SL(std::string_view)
SL(char *)
SL(const char *)
SL(volatile char *)
SL(const volatile char *)
SL(char[4])
SL(char[])
using bases = list<bool, char, wchar_t, char8_t, char16_t, char32_t, signed char, short, int, long, long long, i128, unsigned char, unsigned short,
                   unsigned, unsigned long, unsigned long long, u128, float, double, long double, en, ec, plain, uni, nodef, nocopy, nomove, mutcopy,
                   noassign, nomoveassign, nodtor, noswap, privdef, abstr, expcopy, lref_conv_only, std::unique_ptr<int>, std::string, std::string_view, std::wstring,
                   std::vector<char>, std::complex<double>, char *, const char *, volatile char *, const volatile char *, char **, wchar_t *,
                   signed char *, unsigned char *, char8_t *, std::string *, void *, std::nullptr_t, int plain::*, int (plain::*)(), void (*)(), std::tuple<int, char>,
                   char[4], char[], char[2][3], int[3], int[], wchar_t[3], unsigned char[3], std::string[2], std::array<char, 3>,
                   std::basic_string<char, std::char_traits<char>, std::pmr::polymorphic_allocator<char>>>;

template <typename B, typename T, int CV>
void klass_one(mc::Ctx &ctx)
{
    // T is B with the qualifications CV (1 const, 2 volatile).
    constexpr char k = klass<B>;
    const auto n = name<T>();
    ctx.op(20);
    constexpr bool in = k == 'b' || k == 'i' || k == 'u', fp = k == 'f', sg = k == 'i' || k == 'f';
    ASK(obake::is_integral_v<T>, in, n);
    ASK(obake::is_integral<T>::value, in, n);
    ASK(obake::integral<T>, in, n);
    ASK(obake::FloatingPoint<T>, fp, n);
    ASK(obake::is_arithmetic_v<T>, in || fp, n);
    ASK(obake::is_arithmetic<T>::value, in || fp, n);
    ASK(obake::Arithmetic<T>, in || fp, n);
    ASK(obake::is_signed_v<T>, sg, n);
    ASK(obake::is_signed<T>::value, sg, n);
    ASK(obake::Signed<T>, sg, n);
    ASK(obake::is_string_like_v<T>, strlike<B>, n);
    ASK(obake::is_string_like<T>::value, strlike<B>, n);
    ASK(obake::string_like<T>, strlike<B>, n);
    // References are nothing of that.
    auto ref = [&]<typename R>(ty<R>) {
        const auto rn = name<R>();
        ASK(obake::is_integral_v<R>, false, rn);
        ASK(obake::integral<R>, false, rn);
        ASK(obake::FloatingPoint<R>, false, rn);
        ASK(obake::is_arithmetic_v<R>, false, rn);
        ASK(obake::Arithmetic<R>, false, rn);
        ASK(obake::is_signed_v<R>, false, rn);
        ASK(obake::Signed<R>, false, rn);
        ASK(obake::is_string_like_v<R>, false, rn);
        ASK(obake::string_like<R>, false, rn);
        ASK(obake::is_semi_regular_v<R>, false, rn);
        ASK(obake::SemiRegular<R>, false, rn);
        ASK(obake::is_returnable_v<R>, true, rn);
        ASK(obake::Returnable<R>, true, rn);
    };
    ref(ty<T &>{});
    ref(ty<T &&>{});
    ASK(obake::is_mutable_rvalue_reference_v<T>, false, n);
    ASK(obake::is_mutable_rvalue_reference_v<T &>, false, n);
    ASK(obake::is_mutable_rvalue_reference_v<T &&>, !(CV & 1), n);
    ASK(obake::MutableRvalueReference<T>, false, n);
    ASK(obake::MutableRvalueReference<T &>, false, n);
    ASK(obake::MutableRvalueReference<T &&>, !(CV & 1), n);
    // NOTE: volatile and const objects: only what is certain.
    if constexpr (CV == 0 || ((CV & 1) && !std::is_class_v<B> && !std::is_union_v<B>)) {
        constexpr bool arr = std::is_array_v<B>;
        ASK(obake::is_semi_regular_v<T>, !(CV & 1) && (traits_of<B> & 1) && !arr, n);
        ASK(obake::SemiRegular<T>, !(CV & 1) && (traits_of<B> & 1) && !arr, n);
        ASK(obake::is_returnable_v<T>, (traits_of<B> & 2) != 0, n);
        ASK(obake::is_returnable<T>::value, (traits_of<B> & 2) != 0, n);
        ASK(obake::Returnable<T>, (traits_of<B> & 2) != 0, n);
    }
    if constexpr (!std::is_void_v<typename uns<B>::type>) {
        using E0 = typename uns<B>::type;
        using E = std::conditional_t<CV == 0, E0, std::conditional_t<CV == 1, const E0, std::conditional_t<CV == 2, volatile E0, const volatile E0>>>;
        ASK((std::is_same_v<obake::make_unsigned_t<T>, E>), true, n);
    }
    ASK((std::is_same_v<obake::remove_cvref_t<T>, B>), true, n);
    ASK((std::is_same_v<obake::remove_cvref_t<T &>, B>), true, n);
    ASK((std::is_same_v<obake::remove_cvref_t<T &&>, B>), true, n);
    ctx.state(n);
}
template <typename T, typename U>
void same_one(mc::Ctx &ctx)
{
    constexpr bool e = std::is_same_v<std::remove_cv_t<std::remove_reference_t<T>>, std::remove_cv_t<std::remove_reference_t<U>>>;
    const auto n = name<T>() + " and " + name<U>();
    ctx.op(3);
    ASK((obake::is_same_cvr_v<T, U>), e, n);
    ASK((obake::is_same_cvr<T, U>::value), e, n);
    ASK((obake::SameCvr<T, U>), e, n);
    // Constructible: whether the expression is fine.
    if constexpr (!std::is_reference_v<T>) {
        constexpr bool c = requires { ::new (static_cast<void *>(nullptr)) T(std::declval<U>()); } && std::is_destructible_v<T>;
        ASK((obake::Constructible<T, U>), c, n);
    }
    ctx.state(n);
}
template <typename... B>
void klass_all(std::vector<fun> &v, list<B...>)
{
    ((v.push_back(&klass_one<B, B, 0>), v.push_back(&klass_one<B, const B, 1>), v.push_back(&klass_one<B, volatile B, 2>),
      v.push_back(&klass_one<B, const volatile B, 3>)),
     ...);
}
using sames = list<int, const int, volatile int, int &, const int &, int &&, const volatile int &&, long, long &, const long, unsigned, int *, const int *, int *const, plain,
                   const plain &, plain &&, nodef, nocopy, noassign, std::string, std::string &, const char *, double, bool, u128, i128 &, std::unique_ptr<int>>;
template <typename... A>
void same_all(std::vector<fun> &v, list<A...> l)
{
    auto inner = [&]<typename T, typename... U>(ty<T>, list<U...>) { (v.push_back(&same_one<T, U>), ...); };
    (inner(ty<A>{}, l), ...);
}
void voids(mc::Ctx &ctx)
{
    ctx.op(30);
    auto one = [&]<typename T>(ty<T>) {
        const auto n = name<T>();
        ASK(obake::is_returnable_v<T>, std::is_void_v<T>, n);
        ASK(obake::Returnable<T>, std::is_void_v<T>, n);
        ASK(obake::is_semi_regular_v<T>, false, n);
        ASK(obake::is_integral_v<T>, false, n);
        ASK(obake::is_arithmetic_v<T>, false, n);
        ASK(obake::is_signed_v<T>, false, n);
        ASK(obake::is_string_like_v<T>, false, n);
        ASK(obake::is_iterator_v<T>, false, n);
        ASK((obake::is_output_iterator_v<T, int>), false, n);
        ASK(obake::is_input_iterator_v<T>, false, n);
        ASK(obake::is_forward_iterator_v<T>, false, n);
        ASK(obake::is_range_v<T>, false, n);
        ASK(obake::is_input_range_v<T>, false, n);
        ASK(obake::Range<T>, false, n);
        ASK(obake::Iterator<T>, false, n);
        ASK(obake::is_mutable_rvalue_reference_v<T>, false, n);
        ASK(obake::is_addable_v<T>, false, n);
        ASK(obake::is_equality_comparable_v<T>, false, n);
        if constexpr (std::is_void_v<T>) ASK(obake::is_stream_insertable_v<T>, false, n);
    };
    one(ty<void>{});
    one(ty<const void>{});
    one(ty<volatile void>{});
    one(ty<const volatile void>{});
    one(ty<int(int) const>{});
    one(ty<void() &>{});
    ctx.state("voids");
}
// ------------------------------------------------------------------ detection
template <typename T>
using det1 = decltype(std::declval<T>() + 1);
template <typename T, typename U>
using det2 = typename T::template foo<U>;
struct has_foo {
    template <typename U>
    using foo = U *;
};
template <typename... T>
using det0 = std::tuple<T...>;
void detect(mc::Ctx &ctx)
{
    ctx.op(12);
    ASK((obake::is_detected_v<det1, int>), true, "det1");
    ASK((obake::is_detected<det1, int>::value), true, "det1");
    ASK((obake::is_detected_v<det1, plain>), false, "det1");
    ASK((obake::is_detected_v<det1, void>), false, "det1");
    ASK((obake::is_detected_v<det1, int *>), true, "det1");
    ASK((std::is_same_v<obake::detected_t<det1, char>, int>), true, "det1");
    ASK((std::is_same_v<obake::detected_t<det1, int *&>, int *>), true, "det1");
    ASK((std::is_same_v<obake::detected_t<det1, plain>, obake::detail::nonesuch>), true, "det1");
    ASK((std::is_same_v<obake::detected_t<det2, has_foo, int>, int *>), true, "det2");
    ASK((obake::is_detected_v<det2, has_foo, int &>), false, "det2");
    ASK((obake::is_detected_v<det2, int, int>), false, "det2");
    ASK((obake::is_detected_v<det0>), true, "det0");
    ASK((std::is_default_constructible_v<obake::detail::nonesuch> || std::is_copy_constructible_v<obake::detail::nonesuch> || std::is_copy_assignable_v<obake::detail::nonesuch> || std::is_destructible_v<obake::detail::nonesuch>), false, "nonesuch");
    ctx.state("detect");
}
// ------------------------------------------------------------------ limits
template <typename T>
void lim_one(mc::Ctx &ctx)
{
    const auto n = name<T>();
    ctx.op(4);
    if constexpr (klass<T> == 'f') {
        ASK(obake::detail::limits_max<T> == std::numeric_limits<T>::max(), true, n);
        ASK(obake::detail::limits_min<T> == std::numeric_limits<T>::min(), true, n);
        ASK(obake::detail::limits_digits<T> == std::numeric_limits<T>::digits, true, n);
        ASK(obake::detail::limits_digits10<T> == std::numeric_limits<T>::digits10, true, n);
    } else {
        constexpr bool s = klass<T> == 'i';
        constexpr int bits = klass<T> == 'b' ? 1 : static_cast<int>(sizeof(T)) * 8;
        constexpr int digits = bits - (s ? 1 : 0);
        constexpr u128 mx = digits == 128 ? ~u128(0) : (u128(1) << digits) - 1;
        constexpr int d10 = [&] {
            int d = 0;
            u128 p = 9;
            while (p <= mx) {
                ++d;
                if (d == 38) break;
                p = p * 10 + 9;
            }
            return d;
        }();
        ASK((std::is_same_v<decltype(obake::detail::limits_max<T>), const T>), true, n);
        ASK((std::is_same_v<decltype(obake::detail::limits_min<T>), const T>), true, n);
        ASK(static_cast<u128>(obake::detail::limits_max<T>) == mx && obake::detail::limits_max<T> > 0, true, n);
        if constexpr (s) ASK(static_cast<i128>(obake::detail::limits_min<T>) == -static_cast<i128>(mx) - 1, true, n);
        else ASK(obake::detail::limits_min<T> == T(0), true, n);
        ASK(obake::detail::limits_digits<T> == digits, true, n);
        ASK(obake::detail::limits_digits10<T> == d10, true, n);
    }
    ctx.state("lim" + n);
}
using nums = list<bool, char, wchar_t, char8_t, char16_t, char32_t, signed char, short, int, long, long long, i128, unsigned char, unsigned short, unsigned, unsigned long,
                  unsigned long long, u128, float, double, long double>;
template <typename... T>
void lim_all(std::vector<fun> &v, list<T...>)
{
    (v.push_back(&lim_one<T>), ...);
}
// ------------------------------------------------------------------ filtering cast
template <typename T>
void fcast_one(mc::Ctx &ctx)
{
    // T: the type of an expression, as a reference.
    const auto n = name<T>();
    ctx.op(2);
    constexpr bool mr = std::is_rvalue_reference_v<T> && !std::is_const_v<std::remove_reference_t<T>>;
    using E = std::conditional_t<mr, T, const std::remove_cvref_t<T> &>;
    if constexpr (!std::is_volatile_v<std::remove_reference_t<T>>) {
        ASK((std::is_same_v<decltype(obake::detail::fcast(std::declval<T>())), E>), true, n);
        ASK(noexcept(obake::detail::fcast(std::declval<T>())), true, n);
        if constexpr (!std::is_array_v<std::remove_reference_t<T>> && std::is_default_constructible_v<std::remove_cvref_t<T>>) {
            std::remove_cvref_t<T> x{};
            auto &&r = obake::detail::fcast(static_cast<T>(x));
            ctx.validated();
            if (static_cast<const void *>(&r) != static_cast<const void *>(&x)) ctx.fail("fcast() of " + n + " is another object");
        }
    }
    ctx.state("fcast" + n);
}
template <typename... B>
void fcast_all(std::vector<fun> &v, list<B...>)
{
    ((v.push_back(&fcast_one<B &>), v.push_back(&fcast_one<const B &>), v.push_back(&fcast_one<B &&>), v.push_back(&fcast_one<const B &&>)), ...);
}
using fcs = list<bool, int, i128, double, plain, std::string, std::unique_ptr<int>, std::vector<int>, int *, const int *, int[3]>;
} // namespace

// ------------------------------------------------------------------ ranges
namespace rg
{
struct member_only {
    int *begin();
    int *end();
};
struct member_const {
    const int *begin() const;
    const int *end() const;
};
struct member_both {
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
};
struct no_end {
    int *begin();
};
struct mixed_types {
    int *begin();
    const int *end();
};
struct not_iter {
    int begin();
    int end();
};
struct adl {
};
std::list<int>::iterator begin(adl &);
std::list<int>::iterator end(adl &);
struct adl_const {
};
const char *begin(const adl_const &);
const char *end(const adl_const &);
struct adl_rv {
};
int *begin(adl_rv &&);
int *end(adl_rv &&);
struct out {
    std::back_insert_iterator<std::vector<int>> begin() const;
    std::back_insert_iterator<std::vector<int>> end() const;
};
struct inp {
    std::istream_iterator<int> begin() const;
    std::istream_iterator<int> end() const;
};
struct sentinel {
    int *begin() const;
    std::default_sentinel_t end() const;
};
struct priv {
private:
    int *begin() const;
    int *end() const;
};
struct deleted {
    int *begin() = delete;
    int *end() = delete;
};
struct voids {
    void begin() const;
    void end() const;
};
// 1 range, 2 input, 4 forward, 8 mutable forward, 16 bidirectional, 32 random access. Of: T &, const T &, T &&, const T &&.
enum : int { no = 0, R = 1, IN = 3, F = 7, FM = 15, B = 23, BM = 31, A = 55, AM = 63 };
template <typename T>
constexpr std::array<int, 4> kind{no, no, no, no};
#define RG(a, b, c, d, ...)                                                                                            \
    template <>                                                                                                        \
    constexpr std::array<int, 4> kind<__VA_ARGS__>{a, b, c, d};
RG(AM, A, A, A, std::vector<int>)
RG(AM, A, A, A, std::vector<std::string>)
RG(AM, A, A, A, std::deque<int>)
RG(AM, A, A, A, std::string)
RG(A, A, A, A, std::string_view)
RG(AM, A, A, A, std::array<int, 3>)
RG(A, A, A, A, std::initializer_list<int>)
RG(BM, B, B, B, std::list<int>)
RG(FM, F, F, F, std::forward_list<int>)
RG(B, B, B, B, std::set<int>)
RG(BM, B, B, B, std::map<int, int>)
RG(FM, F, F, F, std::unordered_map<int, int>)
RG(AM, A, no, A, int[3]) // NOTE: const rvalue arrays bind to std::begin(T (&)[N]) with a const element type.
RG(A, A, A, A, const int[3])
RG(AM, A, no, A, std::string[2])
RG(AM, no, no, no, member_only)
RG(A, A, A, A, member_const)
RG(AM, A, A, A, member_both)
RG(BM, no, no, no, adl)
RG(A, A, A, A, adl_const)
RG(no, no, AM, no, adl_rv)
RG(R, R, R, R, out)
RG(IN, IN, IN, IN, inp)
// NOTE: the iterators of vector<bool> point to objects of class type and have no operator->().
RG(R, IN, IN, IN, std::vector<bool>)
using types = list<std::vector<int>, std::vector<std::string>, std::deque<int>, std::string, std::string_view, std::array<int, 3>, std::initializer_list<int>, std::list<int>,
                   std::forward_list<int>, std::set<int>, std::map<int, int>, std::unordered_map<int, int>, int[3], const int[3], std::string[2], member_only, member_const,
                   member_both, no_end, mixed_types, not_iter, adl, adl_const, adl_rv, out, inp, sentinel, priv, deleted, voids, std::vector<bool>, int, int *, const char *, void *, std::tuple<int>,
                   std::pair<int *, int *>, std::unique_ptr<int[]>, int[2][2]>;
template <>
constexpr std::array<int, 4> kind<int[2][2]>{R + 8 * 0, R, no, R};
template <typename T, typename Q, int I>
void one(mc::Ctx &ctx)
{
    constexpr int k = kind<T>[I];
    const auto n = name<Q>();
    ctx.op(12);
#define RQ(TRAIT, CONC, BIT)                                                                                           \
    ASK(obake::TRAIT##_v<Q>, (k & BIT) != 0, n);                                                                       \
    ASK(obake::TRAIT<Q>::value, (k & BIT) != 0, n);                                                                    \
    ASK(obake::CONC<Q>, (k & BIT) != 0, n);
    RQ(is_range, Range, 1)
    if constexpr (!std::is_same_v<T, int[2][2]>) {
        RQ(is_input_range, InputRange, 2)
        RQ(is_forward_range, ForwardRange, 4)
        RQ(is_mutable_forward_range, MutableForwardRange, 8)
        RQ(is_bidirectional_range, BidirectionalRange, 16)
        RQ(is_random_access_range, RandomAccessRange, 32)
    }
    // The functions themselves.
    ASK((requires { obake::begin(std::declval<Q>()); } && requires { obake::end(std::declval<Q>()); }), k != 0 || (std::is_same_v<T, mixed_types> && I == 0), n);
    ctx.state("rg" + n);
}
template <typename... T>
void all(std::vector<fun> &v, list<T...>)
{
    ((v.push_back(&one<T, T &, 0>), v.push_back(&one<T, const T &, 1>), v.push_back(&one<T, T &&, 2>), v.push_back(&one<T, const T &&, 3>), v.push_back(&one<T, T, 2>)), ...);
}
// begin() and end() are those of the range, make_range() spans what it is given.
template <typename C>
void walk(mc::Ctx &ctx, C c, std::size_t n)
{
    ctx.op(4);
    ctx.validated(6);
    if (obake::begin(c) != c.begin() || obake::end(c) != c.end()) ctx.fail("begin() or end() is not that of the container");
    const auto &cc = c;
    if (obake::begin(cc) != cc.begin() || obake::end(cc) != cc.end()) ctx.fail("begin() or end() is not that of the constant container");
    std::size_t i = 0;
    for (auto it = obake::begin(c); it != obake::end(c); ++it, ++i) {
    }
    if (i != n) ctx.fail("wrong number of elements");
    auto b = c.begin();
    for (std::size_t a = 0; a <= n; ++a, (a <= n ? (void)++b : (void)0)) {
        auto e = b;
        for (std::size_t z = a; z <= n; ++z, (z <= n ? (void)++e : (void)0)) {
            auto r = obake::detail::make_range(b, e);
            const auto &cr = r;
            static_assert(obake::is_range_v<decltype(r) &> && obake::is_range_v<decltype(cr)> && obake::is_range_v<decltype(r)>);
            ctx.op();
            ctx.validated(3);
            if (obake::begin(r) != b || obake::end(r) != e || obake::begin(cr) != b || obake::end(cr) != e || obake::begin(std::move(r)) != b) ctx.fail("make_range() does not span what it was given");
            std::size_t len = 0;
            for (const auto &x : cr) {
                (void)x;
                ++len;
            }
            if (len != z - a) ctx.fail("make_range() has the wrong length");
        }
    }
}
void walks(mc::Ctx &ctx)
{
    const auto n = ctx.choose(6, "elements"), t = ctx.choose(5, "container");
    std::vector<int> v;
    for (unsigned i = 0; i < n; ++i) v.push_back(static_cast<int>(i));
    switch (t) {
        case 0: walk(ctx, v, n); break;
        case 1: walk(ctx, std::list<int>(v.begin(), v.end()), n); break;
        case 2: walk(ctx, std::forward_list<int>(v.begin(), v.end()), n); break;
        case 3: walk(ctx, std::set<int>(v.begin(), v.end()), n); break;
        default: walk(ctx, std::deque<int>(v.begin(), v.end()), n);
    }
    int a[] = {1, 2, 3};
    ctx.validated();
    if (obake::begin(a) != a || obake::end(a) != a + 3 || obake::begin(std::as_const(a)) != a) ctx.fail("begin() or end() of an array");
    ctx.state(mc::cat("walk", n, t));
}
} // namespace rg
namespace
{
mc::Reg reg({{"classification", [](mc::Ctx &ctx) {
                  static const std::vector<fun> v = [] {
                      std::vector<fun> r{&voids, &detect};
                      klass_all(r, bases{});
                      same_all(r, sames{});
                      lim_all(r, nums{});
                      fcast_all(r, fcs{});
                      return r;
                  }();
                  v[ctx.choose(static_cast<unsigned>(v.size()), "type")](ctx);
              },
              1},
             {"ranges", [](mc::Ctx &ctx) {
                  static const std::vector<fun> v = [] {
                      std::vector<fun> r;
                      rg::all(r, rg::types{});
                      return r;
                  }();
                  v[ctx.choose(static_cast<unsigned>(v.size()), "type")](ctx);
              },
              1},
             {"iteration", rg::walks, 1}});
} // namespace
#endif

#if PART >= 1 && PART <= 3
// ------------------------------------------------------------------ operators
namespace op
{
struct nothing {
};
// All the operators, for values of any kind.
struct full {
};
#define BIN(o)                                                                                                         \
    full operator o(const full &, const full &);                                                                       \
    full operator o(const full &, int);                                                                                \
    full operator o(int, const full &);
BIN(+) BIN(-) BIN(*) BIN(/)
#define INP(o) full &operator o(full &, const full &); full &operator o(full &, int);
INP(+=) INP(-=) INP(*=) INP(/=)
#define CMP(o) bool operator o(const full &, const full &); bool operator o(const full &, int); bool operator o(int, const full &);
CMP(<) CMP(>) CMP(<=) CMP(>=)
bool operator==(const full &, const full &);
bool operator!=(const full &, const full &);
full &operator++(full &);
full operator++(full &, int);
full &operator--(full &);
full operator--(full &, int);
std::ostream &operator<<(std::ostream &, const full &);
// One direction only.
struct oneway {
};
oneway operator+(const oneway &, int);
oneway operator-(int, const oneway &);
oneway operator*(const oneway &, const full &);
bool operator==(const oneway &, const full &); // NOTE: C++20 rewrites it.
bool operator<(const oneway &, int);
bool operator>(int, const oneway &);
bool operator<=(const oneway &, const full &);
oneway &operator+=(oneway &, int);
int &operator-=(int &, const oneway &);
// Other types in the other direction.
struct twotypes {
};
int operator+(const twotypes &, int);
long operator+(int, const twotypes &);
int operator-(const twotypes &, const full &);
const int &operator-(const full &, const twotypes &);
twotypes operator*(const twotypes &, int);
const twotypes operator*(int, const twotypes &);
int operator/(const twotypes &, int);
int operator/(int, const twotypes &);
// Mutable lvalues only, rvalues only, const only.
struct lval {
};
lval operator+(lval &, lval &);
lval operator-(lval &, const lval &);
bool operator==(lval &, lval &);
bool operator<(lval &, lval &);
lval &operator+=(lval &, lval &);
lval &operator++(lval &);
lval operator++(lval &, int);
std::ostream &operator<<(std::ostream &, lval &);
struct rval {
};
rval operator+(rval &&, rval &&);
rval operator-(rval &&, const rval &);
rval operator*(const rval &&, const rval &&);
bool operator==(rval &&, rval &&);
bool operator<(rval &&, rval &&);
rval &operator+=(rval &&, int);
rval operator++(rval &&);
rval operator--(rval &&, int);
std::ostream &operator<<(std::ostream &, rval &&);
struct constin {
    const constin &operator+=(int) const;
    const constin &operator-=(const constin &) const;
    void operator*=(int) const &;
    void operator/=(int) &&;
    const constin &operator++() const;
    constin operator--(int) const;
};
// Odd results.
struct exbool {
    explicit operator bool() const;
};
struct imbool {
    operator bool() const;
};
struct undest {
    ~undest() = delete;
};
struct expl {
};
exbool operator==(const expl &, const expl &);
exbool operator<(const expl &, const expl &);
imbool operator>(const expl &, const expl &);
void operator<=(const expl &, const expl &);
int operator>=(const expl &, const expl &);
void operator+(const expl &, const expl &);
undest &operator-(const expl &, const expl &);
undest &operator*(const expl &, const expl &);
void operator+=(const expl &, const expl &);
void operator++(expl &);
void operator<<(std::ostream &, const expl &);
struct oddeq {
};
imbool operator==(const oddeq &, const oddeq &);
exbool operator!=(const oddeq &, const oddeq &);
std::ostream operator<<(std::ostream &, const oddeq &);
struct oddeq2 {
};
bool operator==(const oddeq2 &, const oddeq2 &);
bool operator!=(const oddeq2 &, const oddeq2 &) = delete;
const std::ostream &operator<<(std::ostream &, const oddeq2 &);
struct noeq {
    bool operator==(const noeq &) const = delete;
    bool operator!=(const noeq &) const;
    noeq operator+(const noeq &) const = delete;
    noeq &operator+=(const noeq &) = delete;
    noeq &operator++() = delete;
    friend std::ostream &operator<<(std::ostream &, const noeq &) = delete;
};
struct mutmem {
    bool operator==(const mutmem &);
    bool operator<(const mutmem &);
    mutmem operator+(const mutmem &);
    std::ostringstream &operator<<(int);
};
struct defaulted {
    int a;
    auto operator<=>(const defaulted &) const = default;
};
struct conv {
    operator int() const;
};
struct convstr {
    operator std::string() const;
};
struct priv {
private:
    priv operator+(const priv &) const;
    bool operator==(const priv &) const;
    priv &operator+=(const priv &);
    priv &operator++();
};
struct ambig {
};
ambig operator+(const ambig &, const conv &);
ambig operator+(const conv &, const ambig &);
struct any {
    template <typename T>
    any(const T &);
};
any operator*(const any &, const any &);
enum e1 { e1a };
enum class e2 { e2a };
e2 operator+(e2, e2);

template <typename T>
using q4 = q::list<T &, const T &, T, const T>;
template <typename... T>
struct flat;
template <>
struct flat<> {
    using type = q::list<>;
};
template <typename T, typename... U>
struct flat<T, U...> : q::join<q4<T>, typename flat<U...>::type> {
};
using classes = typename flat<full, oneway, twotypes, lval, rval, constin, expl, oddeq, oddeq2, noeq, mutmem, defaulted, conv, convstr, priv, ambig, nothing>::type;
using fund = q::list<int, const int, int &, const int &, int &&, const int &&, volatile int, volatile int &, bool, bool &, char, unsigned char &, short, long long &, unsigned, const unsigned &,
                     q::i128, q::i128 &, const q::u128, q::u128 &, float, float &, const double, double &, long double, int *, int *&, int *const, const char *, const char *&, void *, void *&,
                     std::nullptr_t, int[3], int (&)[3], const char (&)[4], void, const void, void(), void (&)(), void (*)(), int nothing::*, e1, e1 &, e2, e2 &, std::string, std::string &, const std::string &,
                     std::string_view, std::complex<double>, std::complex<double> &, std::vector<int> &, std::unique_ptr<int>, std::ostream &, std::shared_ptr<int> &>;
using firsts = typename q::join<classes, fund>::type;
using seconds = q::list<int, int &, const int &, volatile int &, bool, char &, q::i128, const q::u128 &, double, long double &, int *, int *&, const char *, void *, std::nullptr_t, int (&)[3], void, void (&)(), e1, e2 &,
                        std::string, std::string &, std::complex<double> &, full, full &, const full &, oneway &, const oneway, twotypes &, twotypes, lval &, const lval &, lval, rval, rval &, const rval,
                        constin &, constin, expl, expl &, oddeq &, const noeq &, mutmem &, mutmem, conv, conv &, const convstr &, priv &, ambig &, nothing &, any &>;

} // namespace op
// (Outside of the namespace, which operators are found only because of their arguments.)
namespace lang
{
using op::firsts;
using op::seconds;
#define E(expr) requires { expr; }
#define DT std::declval<T>()
#define DU std::declval<U>()
// What the language says.
#define ARITH(nm, o)                                                                                                   \
    template <typename T, typename U>                                                                                  \
    constexpr bool nm()                                                                                                \
    {                                                                                                                  \
        if constexpr (E(DT o DU) && E(DU o DT)) return std::is_same_v<decltype(DT o DU), decltype(DU o DT)>;           \
        else return false;                                                                                             \
    }
ARITH(l_add, +) ARITH(l_sub, -) ARITH(l_mul, *) ARITH(l_div, /)
template <typename A>
constexpr bool tobool = std::is_convertible_v<A, bool>;
#define COMP(nm, o)                                                                                                    \
    template <typename T, typename U>                                                                                  \
    constexpr bool nm()                                                                                                \
    {                                                                                                                  \
        if constexpr (E(DT o DU) && E(DU o DT)) return tobool<decltype(DT o DU)> && tobool<decltype(DU o DT)>;         \
        else return false;                                                                                             \
    }
COMP(l_eq1, ==) COMP(l_ne, !=) COMP(l_lt, <) COMP(l_gt, >) COMP(l_le, <=) COMP(l_ge, >=)
template <typename T, typename U>
void two(mc::Ctx &ctx)
{
    const auto n = q::name<T>() + " and " + q::name<U>();
    ctx.op(13);
#define A2(TR, CO, L)                                                                                                  \
    ASK((obake::TR##_v<T, U>), (L), n);                                                                                \
    ASK((obake::CO<T, U>), (L), n);
    A2(is_addable, Addable, (l_add<T, U>()))
    A2(is_subtractable, Subtractable, (l_sub<T, U>()))
    A2(is_multipliable, Multipliable, (l_mul<T, U>()))
    A2(is_divisible, Divisible, (l_div<T, U>()))
    A2(is_in_place_addable, InPlaceAddable, E(DT += DU))
    A2(is_in_place_subtractable, InPlaceSubtractable, E(DT -= DU))
    A2(is_in_place_multipliable, InPlaceMultipliable, E(DT *= DU))
    A2(is_in_place_divisible, InPlaceDivisible, E(DT /= DU))
    A2(is_equality_comparable, EqualityComparable, (l_eq1<T, U>() && l_ne<T, U>()))
    A2(is_less_than_comparable, LessThanComparable, (l_lt<T, U>()))
    A2(is_greater_than_comparable, GreaterThanComparable, (l_gt<T, U>()))
    A2(is_lte_comparable, LTEComparable, (l_le<T, U>()))
    A2(is_gte_comparable, GTEComparable, (l_ge<T, U>()))
    ctx.state(n);
}
template <typename T>
constexpr bool l_ins()
{
    if constexpr (E(std::declval<std::ostream &>() << DT)) return std::is_same_v<decltype(std::declval<std::ostream &>() << DT), std::ostream &>;
    else return false;
}
template <typename T>
void single(mc::Ctx &ctx)
{
    const auto n = q::name<T>();
    ctx.op(14);
#define A1(TR, CO, L)                                                                                                  \
    ASK((obake::TR##_v<T>), (L), n);                                                                                   \
    ASK((obake::CO<T>), (L), n);
    A1(is_pre_incrementable, PreIncrementable, E(++DT))
    A1(is_post_incrementable, PostIncrementable, E(DT++))
    A1(is_pre_decrementable, PreDecrementable, E(--DT))
    A1(is_post_decrementable, PostDecrementable, E(DT--))
    A1(is_stream_insertable, StreamInsertable, (l_ins<T>()))
    // With one parameter, the other is the same.
    A1(is_addable, Addable, (l_add<T, T>()))
    A1(is_subtractable, Subtractable, (l_sub<T, T>()))
    A1(is_multipliable, Multipliable, (l_mul<T, T>()))
    A1(is_divisible, Divisible, (l_div<T, T>()))
    A1(is_equality_comparable, EqualityComparable, (l_eq1<T, T>() && l_ne<T, T>()))
    A1(is_less_than_comparable, LessThanComparable, (l_lt<T, T>()))
    A1(is_greater_than_comparable, GreaterThanComparable, (l_gt<T, T>()))
    A1(is_lte_comparable, LTEComparable, (l_le<T, T>()))
    A1(is_gte_comparable, GTEComparable, (l_ge<T, T>()))
    ctx.state("1" + n);
}
template <typename... T>
std::vector<q::fun> all(q::list<T...>)
{
    std::vector<q::fun> v;
    int i = 0;
    auto inner = [&]<typename A, typename... U>(q::ty<A>, q::list<U...>) { (v.push_back(&two<A, U>), ...); };
    (void)i;
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        auto one = [&]<std::size_t J, typename A>(std::integral_constant<std::size_t, J>, q::ty<A>) {
            if constexpr (J % 3u == PART - 1) {
                v.push_back(&single<A>);
                inner(q::ty<A>{}, seconds{});
            }
        };
        (one(std::integral_constant<std::size_t, I>{}, q::ty<T>{}), ...);
    }(std::make_index_sequence<sizeof...(T)>{});
    return v;
}
} // namespace lang
namespace
{
mc::Reg reg({{mc::cat("operators/", PART), [](mc::Ctx &ctx) {
                  static const auto v = lang::all(op::firsts{});
                  v[ctx.choose(static_cast<unsigned>(v.size()), "types")](ctx);
              },
              1}});
} // namespace
#endif

#if PART >= 4
// ------------------------------------------------------------------ iterators
namespace itr
{
struct val {
    int m;
};
struct wrong {
    int m;
};
// The defects.
enum d : unsigned {
    no_copy, no_assign, no_dtor, no_default,
    t_ref, t_val, t_ptr, t_diff, t_cat,
    diff_uns, diff_void, diff_dbl,
    no_deref, deref_mut, deref_other,
    ref_const, ref_val, ref_noconv, val_int,
    no_arrow, arrow_wrong, arrow_mut, arrow_chain,
    no_pre, pre_void, pre_const,
    no_post, post_void, post_proxy,
    no_eq, eq_mut, eq_nobool,
    c_input, c_output, c_forward, c_bidi, c_none, c_derived, c_inout,
    no_predec, predec_void, no_postdec, postdec_void,
    no_ipadd, ipadd_void, no_add, add_other, no_radd, no_ipsub, no_sub, no_dist, dist_other, no_sscript, sscript_wrong,
    no_lt, no_gt, no_le, no_ge,
    derefc_val, post_conv, postdec_proxy, postdec_conv, sscript_conv, arrow_c_wrong,
    n_defects
};
template <unsigned X, unsigned Y>
struct it;
// X and Y: the two defects (n_defects: none).
template <unsigned X, unsigned Y>
constexpr bool h(unsigned k)
{
    return X == k || Y == k;
}
#define H(k) (h<X, Y>(k))
struct nobool {
};
struct inout : std::random_access_iterator_tag, std::output_iterator_tag {
};
struct derived : std::random_access_iterator_tag {
};
struct none {
};
template <bool C, typename T, typename F>
using cond = std::conditional_t<C, T, F>;
template <unsigned X, unsigned Y>
struct types {
    using value = cond<H(val_int), int, val>;
    using ref = cond<H(ref_const), const value &, cond<H(ref_val), value, cond<H(ref_noconv), wrong &, value &>>>;
    using diff = cond<H(diff_uns), unsigned long, cond<H(diff_void), void, cond<H(diff_dbl), double, long>>>;
    using dd = cond<std::is_void_v<diff>, long, diff>;
    using ptr = std::remove_reference_t<ref> *;
    using cat = cond<H(c_input), std::input_iterator_tag,
                     cond<H(c_output), std::output_iterator_tag,
                          cond<H(c_forward), std::forward_iterator_tag,
                               cond<H(c_bidi), std::bidirectional_iterator_tag, cond<H(c_none), none, cond<H(c_derived), derived, cond<H(c_inout), inout, std::random_access_iterator_tag>>>>>>>;
    using deref = cond<H(deref_other), wrong &, ref>;
};
template <unsigned X, unsigned Y>
struct proxy {
    typename types<X, Y>::deref operator*() const;
};
// It converts to the iterator, but gives a value.
template <unsigned X, unsigned Y>
struct conv {
    operator const it<X, Y> &() const;
    typename types<X, Y>::value operator*() const;
};
template <typename R>
struct to_ref {
    operator R() const;
};
template <typename P>
struct chain {
    P operator->() const;
};
template <unsigned X, unsigned Y>
struct it {
    using ty = types<X, Y>;
    using deref = typename ty::deref;
    using dd = typename ty::dd;
    using P = cond<H(arrow_wrong), wrong *, std::remove_reference_t<deref> *>;
    using PA = cond<H(arrow_chain), chain<P>, P>;
    it() requires(!H(no_default));
    it(const it &) requires(!H(no_copy));
    it(const it &) requires(H(no_copy)) = delete;
    it &operator=(const it &) requires(!H(no_assign));
    it &operator=(const it &) requires(H(no_assign)) = delete;
    ~it() requires(!H(no_dtor)) = default;
    ~it() requires(H(no_dtor)) = delete;
    cond<H(derefc_val), typename ty::value, deref> operator*() const requires(!H(no_deref) && !H(deref_mut));
    deref operator*() requires(!H(no_deref) && (H(deref_mut) || H(derefc_val)));
    cond<H(arrow_c_wrong), wrong *, PA> operator->() const requires(!H(no_arrow) && !H(arrow_mut));
    PA operator->() requires(!H(no_arrow) && (H(arrow_mut) || H(arrow_c_wrong)));
    cond<H(pre_void), void, cond<H(pre_const), const it &, it &>> operator++() requires(!H(no_pre));
    cond<H(post_void), void, cond<H(post_proxy), proxy<X, Y>, cond<H(post_conv), conv<X, Y>, it>>> operator++(int) requires(!H(no_post));
    cond<H(predec_void), void, it &> operator--() requires(!H(no_predec));
    cond<H(postdec_void), void, cond<H(postdec_proxy), proxy<X, Y>, cond<H(postdec_conv), conv<X, Y>, it>>> operator--(int) requires(!H(no_postdec));
    cond<H(eq_nobool), nobool, bool> operator==(const it &) const requires(!H(no_eq) && !H(eq_mut));
    cond<H(eq_nobool), nobool, bool> operator!=(const it &) const requires(!H(no_eq) && !H(eq_mut));
    bool operator==(it &) requires(!H(no_eq) && H(eq_mut));
    bool operator!=(it &) requires(!H(no_eq) && H(eq_mut));
    cond<H(ipadd_void), void, it &> operator+=(const dd &) requires(!H(no_ipadd));
    cond<H(add_other), wrong, it> operator+(const dd &) const requires(!H(no_add));
    it &operator-=(const dd &) requires(!H(no_ipsub));
    it operator-(const dd &) const requires(!H(no_sub));
    cond<H(dist_other), short, typename ty::diff> operator-(const it &) const requires(!H(no_dist));
    cond<H(sscript_wrong), nobool, cond<H(sscript_conv), to_ref<deref>, deref>> operator[](const dd &) const requires(!H(no_sscript));
    bool operator<(const it &) const requires(!H(no_lt));
    bool operator>(const it &) const requires(!H(no_gt));
    bool operator<=(const it &) const requires(!H(no_le));
    bool operator>=(const it &) const requires(!H(no_ge));
};
template <unsigned X, unsigned Y>
    requires(!H(no_radd))
it<X, Y> operator+(const typename types<X, Y>::dd &, const it<X, Y> &);
template <bool B, typename T>
struct m_ref {
    using reference = T;
};
template <typename T>
struct m_ref<false, T> {
};
template <bool B, typename T>
struct m_val {
    using value_type = T;
};
template <typename T>
struct m_val<false, T> {
};
template <bool B, typename T>
struct m_ptr {
    using pointer = T;
};
template <typename T>
struct m_ptr<false, T> {
};
template <bool B, typename T>
struct m_diff {
    using difference_type = T;
};
template <typename T>
struct m_diff<false, T> {
};
template <bool B, typename T>
struct m_cat {
    using iterator_category = T;
};
template <typename T>
struct m_cat<false, T> {
};
} // namespace itr
template <unsigned X, unsigned Y>
struct std::iterator_traits<itr::it<X, Y>> : itr::m_ref<!itr::h<X, Y>(itr::t_ref), typename itr::types<X, Y>::ref>,
                                             itr::m_val<!itr::h<X, Y>(itr::t_val), typename itr::types<X, Y>::value>,
                                             itr::m_ptr<!itr::h<X, Y>(itr::t_ptr), typename itr::types<X, Y>::ptr>,
                                             itr::m_diff<!itr::h<X, Y>(itr::t_diff), typename itr::types<X, Y>::diff>,
                                             itr::m_cat<!itr::h<X, Y>(itr::t_cat), typename itr::types<X, Y>::cat> {
};
namespace itr
{
// What the type was built to be.
template <unsigned X, unsigned Y>
struct expect {
    static constexpr int cat = H(c_input) ? 1 : H(c_output) ? 0 : H(c_forward) ? 2 : H(c_bidi) ? 3 : H(c_none) ? -1 : 4;
    static constexpr bool out_cat = (H(c_output) && !H(c_input)) || (!H(c_output) && !H(c_input) && !H(c_forward) && !H(c_bidi) && !H(c_none) && !H(c_derived) && H(c_inout));
    static constexpr bool isint = H(val_int);
    static constexpr bool traits = !H(t_ref) && !H(t_val) && !H(t_ptr) && !H(t_diff) && !H(t_cat);
    static constexpr bool copies = !H(no_copy) && !H(no_assign) && !H(no_dtor);
    static constexpr bool pre_ok = !H(no_pre) && !(H(pre_void) || H(pre_const));
    static constexpr bool diff_ok = !(H(diff_uns) || (H(diff_dbl) && !H(diff_void)));
    static constexpr bool iterator = copies && traits && diff_ok && !H(no_deref) && pre_ok && (cat >= 0);
    // The kind of reference: 0 V &, 1 const V &, 2 V, 3 unrelated.
    static constexpr int ref = H(ref_const) ? 1 : H(ref_val) ? 2 : H(ref_noconv) ? 3 : 0;
    // What *it gives: ref, unless it is another thing.
    static constexpr bool deref_is_ref = !H(deref_other) || ref == 3;
    static constexpr int deref = H(deref_other) ? 3 : ref;
    static constexpr bool deref_class = deref == 3 || !isint;
    static constexpr bool convertible = deref != 3;
    // NOTE: the pointee of the arrow must be what *it refers to.
    static constexpr bool arrow_right = !H(arrow_wrong) || deref == 3;
    // What *it gives for constant iterators.
    static constexpr bool derefc_ok = !H(derefc_val) || ref == 2;
    static constexpr bool arrow_c_right = !H(arrow_c_wrong) || deref == 3;
    static constexpr bool arrow_ok = !H(no_arrow) && !H(arrow_mut) && arrow_right && arrow_c_right;
    // *it++. NOTE: a copy of the iterator is returned, or the proxy.
    static constexpr bool post_any = !H(no_post);
    static constexpr bool post_self = post_any && !H(post_void) && !H(post_proxy);
    static constexpr bool post_other = !H(post_void) && (H(post_proxy) || H(post_conv));
    static constexpr bool post_deref = post_any && !H(post_void) && (post_other || !H(no_deref)) && (post_other || !H(no_dtor));
    static constexpr bool post_value = post_any && !H(post_void) && !H(post_proxy) && H(post_conv);
    static constexpr bool eq_ok = !H(no_eq) && !H(eq_mut) && !H(eq_nobool);
    static constexpr bool input = iterator && eq_ok && deref_is_ref && !H(deref_mut) && derefc_ok && convertible && (!deref_class || arrow_ok) && post_deref && cat >= 1;
    // Assignments through the iterator. U: 0 the value type, 1 the unrelated type.
    template <int U>
    static constexpr bool output()
    {
        // *it = u.
        const bool assign = U == 0 ? (deref == 0 || (deref == 2 && !isint)) : deref == 3;
        const bool post = post_self && (!post_value || (U == 0 && !isint));
        if (!(iterator && assign && post)) return false;
        return input ? !out_cat : out_cat;
    }
    static constexpr bool forward = input && !H(no_default) && (ref == 0 || ref == 1) && post_self && !post_value && cat >= 2;
    static constexpr bool mut_forward = forward && ref == 0;
    static constexpr bool bidi = forward && !H(no_predec) && !H(predec_void) && !H(no_postdec) && !H(postdec_void) && !H(postdec_proxy) && !H(postdec_conv) && cat >= 3;
    static constexpr bool random = bidi && cat == 4 && !H(diff_void) && !H(no_ipadd) && !H(ipadd_void) && !H(no_add) && !H(add_other) && !H(no_radd) && !H(no_ipsub) && !H(no_sub)
                                   && !H(no_dist) && !H(dist_other) && !H(no_sscript) && !H(sscript_wrong) && !H(no_lt) && !H(no_gt) && !H(no_le) && !H(no_ge);
};
const char *const dn[] = {"no_copy", "no_assign", "no_dtor", "no_default", "t_ref", "t_val", "t_ptr", "t_diff", "t_cat", "diff_uns", "diff_void", "diff_dbl", "no_deref", "deref_mut", "deref_other", "ref_const", "ref_val", "ref_noconv",
                          "val_int", "no_arrow", "arrow_wrong", "arrow_mut", "arrow_chain", "no_pre", "pre_void", "pre_const", "no_post", "post_void", "post_proxy", "no_eq", "eq_mut", "eq_nobool", "c_input", "c_output", "c_forward", "c_bidi",
                          "c_none", "c_derived", "c_inout", "no_predec", "predec_void", "no_postdec", "postdec_void", "no_ipadd", "ipadd_void", "no_add", "add_other", "no_radd", "no_ipsub", "no_sub", "no_dist", "dist_other", "no_sscript",
                          "sscript_wrong", "no_lt", "no_gt", "no_le", "no_ge", "derefc_val", "post_conv", "postdec_proxy", "postdec_conv", "sscript_conv", "arrow_c_wrong", "-"};
static_assert(std::size(dn) == n_defects + 1u);
#define IQ(TRAIT, CONC, EXP, T, WHAT)                                                                                  \
    ASK(obake::TRAIT##_v<T>, EXP, WHAT);                                                                               \
    ASK(obake::TRAIT<T>::value, EXP, WHAT);                                                                            \
    ASK(obake::CONC<T>, EXP, WHAT);
template <unsigned X, unsigned Y>
void one(mc::Ctx &ctx)
{
    using T = it<X, Y>;
    using Ex = expect<X, Y>;
    using V = typename types<X, Y>::value;
    const auto n = [] { return mc::cat("an iterator with the defects ", dn[X], " and ", dn[Y]); };
    ctx.op(9);
    IQ(is_iterator, Iterator, Ex::iterator, T, n())
    IQ(is_input_iterator, InputIterator, Ex::input, T, n())
    IQ(is_forward_iterator, ForwardIterator, Ex::forward, T, n())
    IQ(is_mutable_forward_iterator, MutableForwardIterator, Ex::mut_forward, T, n())
    IQ(is_bidirectional_iterator, BidirectionalIterator, Ex::bidi, T, n())
    IQ(is_random_access_iterator, RandomAccessIterator, Ex::random, T, n())
    ASK((obake::is_output_iterator_v<T, V>), (Ex::template output<0>()), n());
    ASK((obake::OutputIterator<T, V>), (Ex::template output<0>()), n());
    ASK((obake::is_output_iterator_v<T, wrong>), (Ex::template output<1>()), n());
    ASK((obake::is_output_iterator_v<T, nobool>), false, n());
    ctx.state(n());
}
// Iterators that exist.
enum : int { no = 0, IT = 1, IN = 3, F = 7, FM = 15, B = 23, BM = 31, A = 55, AM = 63, OUT = 64 };
template <typename T>
constexpr int kind = no;
#define KI(k, ...)                                                                                                     \
    template <>                                                                                                        \
    constexpr int kind<__VA_ARGS__> = k;
struct twice {
    int operator()(int) const;
};
struct pass {
    const val &operator()(const val &) const;
};
using tr1 = boost::transform_iterator<twice, int *>;
using tr2 = boost::transform_iterator<pass, val *>;
KI(AM | OUT, int *)
KI(A, const int *)
KI(AM | OUT, val *)
KI(A, const std::string *)
KI(AM | OUT, int **)
KI(AM | OUT, std::vector<int>::iterator)
KI(A, std::vector<int>::const_iterator)
KI(AM | OUT, std::vector<int>::reverse_iterator)
KI(AM | OUT, std::deque<int>::iterator)
KI(BM | OUT, std::list<int>::iterator)
KI(B, std::list<int>::const_iterator)
KI(FM | OUT, std::forward_list<int>::iterator)
KI(F, std::forward_list<int>::const_iterator)
KI(B, std::set<int>::iterator)
KI(BM, std::map<int, int>::iterator)
KI(B, std::map<int, int>::const_iterator)
KI(FM, std::unordered_map<int, int>::iterator)
KI(IN, std::istream_iterator<int>)
KI(IN, std::istreambuf_iterator<char>)
KI(IT | OUT, std::ostream_iterator<int>)
KI(IT | OUT, std::back_insert_iterator<std::vector<int>>)
KI(IT | OUT, std::insert_iterator<std::list<int>>)
KI(AM | OUT, std::string::iterator)
#undef KI
using real = q::list<int *, const int *, val *, const std::string *, int **, std::vector<int>::iterator, std::vector<int>::const_iterator, std::vector<int>::reverse_iterator,
                     std::deque<int>::iterator, std::list<int>::iterator, std::list<int>::const_iterator, std::forward_list<int>::iterator, std::forward_list<int>::const_iterator, std::set<int>::iterator,
                     std::map<int, int>::iterator, std::map<int, int>::const_iterator, std::unordered_map<int, int>::iterator, std::istream_iterator<int>, std::istreambuf_iterator<char>, std::ostream_iterator<int>,
                     std::back_insert_iterator<std::vector<int>>, std::insert_iterator<std::list<int>>, std::string::iterator, int, bool, double, q::i128, void, void *, void (*)(), int &, int *&, int *const, const int *const, int[3],
                     std::vector<int>, std::string, std::nullptr_t, std::vector<int>::iterator &, const std::vector<int>::iterator, wrong>;
template <typename T>
void real_one(mc::Ctx &ctx)
{
    constexpr int k = kind<T>;
    const auto n = q::name<T>();
    ctx.op(7);
    IQ(is_iterator, Iterator, (k & 1) != 0, T, n)
    IQ(is_input_iterator, InputIterator, (k & 2) != 0, T, n)
    IQ(is_forward_iterator, ForwardIterator, (k & 4) != 0, T, n)
    IQ(is_mutable_forward_iterator, MutableForwardIterator, (k & 8) != 0, T, n)
    IQ(is_bidirectional_iterator, BidirectionalIterator, (k & 16) != 0, T, n)
    IQ(is_random_access_iterator, RandomAccessIterator, (k & 32) != 0, T, n)
    if constexpr (!std::is_same_v<T, val *> && !std::is_same_v<T, const std::string *> && !std::is_same_v<T, int **>) {
        ASK((obake::is_output_iterator_v<T, int>), (k & 64) != 0, n);
        ASK((obake::OutputIterator<T, int>), (k & 64) != 0, n);
        ASK((obake::is_output_iterator_v<T, wrong>), false, n);
    }
    ctx.state(n);
}
template <std::size_t... I>
void pairs(std::vector<q::fun> &v, std::index_sequence<I...>)
{
    auto one_ = [&]<unsigned X, unsigned Y>(std::integral_constant<unsigned, X>, std::integral_constant<unsigned, Y>) {
        if constexpr (X < Y || (X == n_defects && Y == n_defects)) {
            if constexpr ((X + Y) % 3u == PART - 4) v.push_back(&one<X, Y>);
        }
    };
    constexpr unsigned N = n_defects + 1;
    (one_(std::integral_constant<unsigned, I / N>{}, std::integral_constant<unsigned, I % N>{}), ...);
}
template <typename... T>
void reals(std::vector<q::fun> &v, q::list<T...>)
{
    (v.push_back(&real_one<T>), ...);
}
} // namespace itr
namespace
{
mc::Reg reg({{mc::cat("iterators/", PART), [](mc::Ctx &ctx) {
                  static const std::vector<fun> v = [] {
                      std::vector<fun> r;
                      itr::pairs(r, std::make_index_sequence<(itr::n_defects + 1) * (itr::n_defects + 1)>{});
                      if (PART == 4) itr::reals(r, itr::real{});
                      return r;
                  }();
                  v[ctx.choose(static_cast<unsigned>(v.size()), "iterator")](ctx);
              },
              1}});
} // namespace
#endif
