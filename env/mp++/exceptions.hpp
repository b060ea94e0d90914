#ifndef VERIF_MPPP_EXCEPTIONS_HPP
#define VERIF_MPPP_EXCEPTIONS_HPP
#include <stdexcept>
namespace mppp
{
struct zero_division_error final : std::domain_error {
    using std::domain_error::domain_error;
};
} // namespace mppp
#endif
