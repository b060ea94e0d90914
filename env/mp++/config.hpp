// Stand-in for mp++'s <mp++/config.hpp> (mp++ is not available offline).
// Only the pieces of mp++ that obake uses are provided: see ../README.md.
#ifndef VERIF_MPPP_CONFIG_HPP
#define VERIF_MPPP_CONFIG_HPP
#if defined(__SIZEOF_INT128__)
#define MPPP_HAVE_GCC_INT128
#endif
#define MPPP_CPLUSPLUS __cplusplus
#define MPPP_STANDIN 1
#endif
