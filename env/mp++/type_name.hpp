#ifndef VERIF_MPPP_TYPE_NAME_HPP
#define VERIF_MPPP_TYPE_NAME_HPP
#include <cstdlib>
#include <cxxabi.h>
#include <string>
#include <type_traits>
#include <typeinfo>
namespace mppp
{
namespace detail
{
inline std::string demangle_impl(const char *s)
{
    int st = 0;
    char *p = abi::__cxa_demangle(s, nullptr, nullptr, &st);
    std::string ret((st == 0 && p) ? p : s);
    std::free(p);
    return ret;
}
template <typename T>
std::string type_name_impl()
{
    if constexpr (std::is_lvalue_reference_v<T>) {
        return type_name_impl<std::remove_reference_t<T>>() + "&";
    } else if constexpr (std::is_rvalue_reference_v<T>) {
        return type_name_impl<std::remove_reference_t<T>>() + "&&";
    } else if constexpr (std::is_pointer_v<T>) {
        return type_name_impl<std::remove_pointer_t<T>>() + "*"
               + ((std::is_const_v<T> || std::is_volatile_v<T>) ? " " : "") + (std::is_const_v<T> ? "const" : "")
               + ((std::is_const_v<T> && std::is_volatile_v<T>) ? " " : "") + (std::is_volatile_v<T> ? "volatile" : "");
    } else {
        return demangle_impl(typeid(std::remove_cv_t<T>).name()) + (std::is_const_v<T> ? " const" : "")
               + (std::is_volatile_v<T> ? " volatile" : "");
    }
}
} // namespace detail
template <typename T>
inline std::string type_name()
{
    return detail::type_name_impl<T>();
}
} // namespace mppp
#endif
