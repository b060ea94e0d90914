From 5de394add74096ae38fa42928abb9112bfe17a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 01/11] fix: check for zeroes when symbol merging converts
 coefficients

series_sym_extender() enabled the zero check only when the coefficient types
coincide, i.e., exactly when it is not needed. When the types differ, a
coefficient that vanishes in the conversion ended up in the series.
---
 include/obake/series.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 6c3a890..fbb19e3 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -569,7 +569,7 @@ inline void series_sym_extender(To &to, From &&from, const symbol_idx_map<symbol
     // coincide (i.e., no cf conversion takes place),
     // otherwise the conversion might generate zeroes.
     constexpr auto check_zero
-        = static_cast<sat_check_zero>(::std::is_same_v<series_cf_t<To>, series_cf_t<remove_cvref_t<From>>>);
+        = static_cast<sat_check_zero>(!::std::is_same_v<series_cf_t<To>, series_cf_t<remove_cvref_t<From>>>);
 
     // Merge the terms, distinguishing the segmented vs non-segmented case.
     if (from_log2_size) {
-- 
2.43.0


From 23e6c35326b03c985bcbc4555cd602689a6f503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 02/11] fix: detect overflows when adding partial degrees in
 truncated polynomial multiplication

---
 include/obake/polynomials/polynomial.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/obake/polynomials/polynomial.hpp b/include/obake/polynomials/polynomial.hpp
index 1a007f3..0f1ecf1 100644
--- a/include/obake/polynomials/polynomial.hpp
+++ b/include/obake/polynomials/polynomial.hpp
@@ -46,6 +46,7 @@
 #include <obake/detail/ignore.hpp>
 #include <obake/detail/it_diff_check.hpp>
 #include <obake/detail/make_array.hpp>
+#include <obake/detail/safe_integral_arith.hpp>
 #include <obake/detail/ss_func_forward.hpp>
 #include <obake/detail/to_string.hpp>
 #include <obake/detail/type_c.hpp>
@@ -380,6 +381,20 @@ inline constexpr int poly_mul_algo = poly_mul_algorithm<T, U>.first;
 template <typename T, typename U>
 using poly_mul_ret_t = typename decltype(poly_mul_algorithm<T, U>.second)::type;
 
+// Helper to add the degrees of two terms in truncated multiplication.
+// NOTE: the monomial overflow checking ensures that the exponents and the total
+// degrees of the products are representable, but it says nothing about the partial
+// degrees: in case of C++ integral types, make sure that we don't run into overflows.
+template <typename D1, typename D2>
+inline auto poly_mul_add_degrees(const D1 &d1, const D2 &d2)
+{
+    if constexpr (is_integral_v<D1> && ::std::conjunction_v<::std::is_same<D1, D2>, ::std::is_same<D1, decltype(d1 + d2)>>) {
+        return ::obake::detail::safe_int_add(d1, d2);
+    } else {
+        return d1 + d2;
+    }
+}
+
 // Helper to estimate the average term size (in bytes) in a poly multiplication.
 // NOTE: should this also be made proportional to the number
 // of estimated term-by-term multiplications?
@@ -606,7 +621,7 @@ inline auto poly_mul_estimate_product_size(const ::std::vector<T1> &x, const ::s
                                                                // NOTE: we require below
                                                                // comparability between const lvalue limit
                                                                // and rvalue of the sum of the degrees.
-                                                               return mdeg < d1 + d2;
+                                                               return mdeg < detail::poly_mul_add_degrees(d1, d2);
                                                            });
 
                         // Accumulate in cur how many terms in y would be multiplied
@@ -720,7 +735,7 @@ inline auto poly_mul_estimate_product_size(const ::std::vector<T1> &x, const ::s
                                                                    // NOTE: we require below
                                                                    // comparability between const lvalue limit
                                                                    // and rvalue of the sum of the degrees.
-                                                                   return mdeg < d1 + d2;
+                                                                   return mdeg < detail::poly_mul_add_degrees(d1, d2);
                                                                });
 
                             // We checked when constructing v2_deg that its iterator
@@ -1225,7 +1240,7 @@ inline void poly_mul_impl_mt_hm(Ret &retval, const T &x, const U &y, const Args
                                                            // NOTE: we require below
                                                            // comparability between const lvalue limit
                                                            // and rvalue of the sum of the degrees.
-                                                           return mdeg < d_i + d_j;
+                                                           return mdeg < detail::poly_mul_add_degrees(d_i, d_j);
                                                        });
 
                     // Turn the iterator into an index and return it.
@@ -1783,7 +1798,7 @@ inline void poly_mul_impl_simple(Ret &retval, const T &x, const U &y, const Args
                                                            // NOTE: we require below
                                                            // comparability between const lvalue limit
                                                            // and rvalue of the sum of the degrees.
-                                                           return mdeg < d_i + d_j;
+                                                           return mdeg < detail::poly_mul_add_degrees(d_i, d_j);
                                                        });
 
                     // Turn the iterator into an index and return it.
-- 
2.43.0


From b920fe61ee427a6a4e4ca6e8aa4c2f008f9fc221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 03/11] fix: make the copy assignment of series exception safe

---
 include/obake/series.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index fbb19e3..46635cd 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -812,7 +812,17 @@ public:
             *this, m_s_table[0], K(m_symbol_set.get()), ::std::forward<T>(x));
     }
 
-    series &operator=(const series &) = default;
+    series &operator=(const series &other)
+    {
+        // NOTE: copy + move assign for exception safety: if the
+        // copy of the table fails midway, the original
+        // series must not be left in an inconsistent state.
+        if (this != &other) {
+            *this = series(other);
+        }
+
+        return *this;
+    }
     series &operator=(series &&other) noexcept
     {
         // NOTE: assuming self-assignment is handled
-- 
2.43.0


From 1399ddc7c5ff8f5fcf5423e010a463546d21ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 04/11] fix: do not report overflows in the computation of
 representable degrees of d_packed_monomial

---
 include/obake/polynomials/d_packed_monomial.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/obake/polynomials/d_packed_monomial.hpp b/include/obake/polynomials/d_packed_monomial.hpp
index b0e0c69..9849e77 100644
--- a/include/obake/polynomials/d_packed_monomial.hpp
+++ b/include/obake/polynomials/d_packed_monomial.hpp
@@ -906,13 +906,17 @@ inline T key_degree(const d_packed_monomial<T, PSize> &d, const symbol_set &ss)
     const auto s_size = ss.size();
 
     symbol_idx idx = 0;
-    T tmp, retval(0);
+    T tmp;
+    // NOTE: accumulate in arbitrary-precision arithmetic,
+    // so that only a degree which is not representable
+    // by T results in an overflow error.
+    ::mppp::integer<1> retval;
     for (const auto &n : d._container()) {
         kunpacker<T> ku(n, PSize);
 
         for (auto j = 0u; j < PSize && idx < s_size; ++j, ++idx) {
             ku >> tmp;
-            retval = ::obake::detail::safe_int_add(retval, tmp);
+            retval += tmp;
         }
     }
 
@@ -936,7 +940,11 @@ inline T key_p_degree(const d_packed_monomial<T, PSize> &d, const symbol_idx_set
     const auto s_size = ss.size();
 
     symbol_idx idx = 0;
-    T tmp, retval(0);
+    T tmp;
+    // NOTE: accumulate in arbitrary-precision arithmetic,
+    // so that only a degree which is not representable
+    // by T results in an overflow error.
+    ::mppp::integer<1> retval;
     auto si_it = si.begin();
     const auto si_it_end = si.end();
     for (const auto &n : d._container()) {
@@ -946,7 +954,7 @@ inline T key_p_degree(const d_packed_monomial<T, PSize> &d, const symbol_idx_set
             ku >> tmp;
 
             if (idx == *si_it) {
-                retval = ::obake::detail::safe_int_add(retval, tmp);
+                retval += tmp;
                 ++si_it;
             }
         }
-- 
2.43.0


From 3a162a902bcc1c47f83a1c75274f0acc34e72ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 05/11] fix: do not mangle the negative degrees of coefficients
 in the degree of nested series with unsigned key degrees

---
 include/obake/series.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 46635cd..aa5c289 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -3659,6 +3659,19 @@ constexpr auto series_default_degree_algorithm_impl()
     }
 }
 
+// Checked addition of the integral (partial) degrees of a key and of a coefficient.
+// T is the type of the sum.
+template <typename T, typename U, typename V>
+inline T series_default_degree_add(const U &key_deg, const V &cf_deg)
+{
+    if constexpr (is_signed_v<U> == is_signed_v<V>) {
+        return detail::safe_int_add<T>(key_deg, cf_deg);
+    } else {
+        // NOTE: T may be unsigned here, do not convert negative degrees to it.
+        return static_cast<T>(::mppp::integer<1>(key_deg) + ::mppp::integer<1>(cf_deg));
+    }
+}
+
 struct series_default_degree_impl {
     // A couple of handy shortcuts.
     template <typename T>
@@ -3698,8 +3711,8 @@ struct series_default_degree_impl {
                     // do the summation using checked integral arithmetics.
                     using deg_add_t = decltype(::obake::key_degree(p.first, *ss) + ::obake::degree(p.second));
 
-                    return detail::safe_int_add<deg_add_t>(::obake::key_degree(p.first, *ss),
-                                                           ::obake::degree(p.second));
+                    return internal::series_default_degree_add<deg_add_t>(::obake::key_degree(p.first, *ss),
+                                                                          ::obake::degree(p.second));
                 } else {
 #endif
                     return ::obake::key_degree(p.first, *ss) + ::obake::degree(p.second);
@@ -3842,8 +3855,8 @@ struct series_default_p_degree_impl {
                     using deg_add_t
                         = decltype(::obake::key_p_degree(p.first, *si, *ss) + ::obake::p_degree(p.second, *s));
 
-                    return detail::safe_int_add<deg_add_t>(::obake::key_p_degree(p.first, *si, *ss),
-                                                           ::obake::p_degree(p.second, *s));
+                    return internal::series_default_degree_add<deg_add_t>(::obake::key_p_degree(p.first, *si, *ss),
+                                                                          ::obake::p_degree(p.second, *s));
                 } else {
 #endif
                     return ::obake::key_p_degree(p.first, *si, *ss) + ::obake::p_degree(p.second, *s);
-- 
2.43.0


From 4dc6431c05a810ed955a244aa9335a0b1bb79217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 06/11] fix: keep the number of segments when trimming a series

---
 include/obake/series.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index aa5c289..60e106d 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -4178,7 +4178,7 @@ struct series_default_trim_impl {
         retval.tag() = x.tag();
         // NOTE: use the same number of segments as x
         // and reserve space for the same number of terms.
-        retval.set_n_segments(retval.get_s_size());
+        retval.set_n_segments(x.get_s_size());
         retval.reserve(x.size());
 
         for (const auto &t : x) {
-- 
2.43.0


From 95c71905a553aad797875555598c61b7ad165140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 07/11] fix: keep the brackets around the coefficient of a
 single-term series printed as a coefficient

---
 include/obake/series.hpp | 10 ++++++----
 src/series.cpp           |  7 ++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 60e106d..0cfcc2c 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -1991,11 +1991,11 @@ namespace detail
 {
 
 // Implementation of the default streaming for a single term.
-OBAKE_DLL_PUBLIC void series_stream_single_term(::std::string &, ::std::string &, const ::std::string &, bool);
+OBAKE_DLL_PUBLIC void series_stream_single_term(::std::string &, ::std::string &, const ::std::string &, bool, bool);
 
 // Implementation of the default streaming to os of a series' terms.
 template <bool TexMode, typename T>
-inline void series_stream_terms_impl(::std::ostream &os, const T &s)
+inline void series_stream_terms_impl(::std::ostream &os, const T &s, bool keep_brackets = false)
 {
     if (s.empty()) {
         // Special-case an empty series.
@@ -2036,7 +2036,7 @@ inline void series_stream_terms_impl(::std::ostream &os, const T &s)
         const auto str_key = oss.str();
 
         // Print the term.
-        detail::series_stream_single_term(ret, str_cf, str_key, TexMode);
+        detail::series_stream_single_term(ret, str_cf, str_key, TexMode, keep_brackets);
 
         // Increase the counters.
         ++count;
@@ -2098,7 +2098,9 @@ struct series_default_cf_stream_insert_impl {
             detail::series_stream_terms_impl<false>(os, x);
             os << ')';
         } else {
-            detail::series_stream_terms_impl<false>(os, x);
+            // NOTE: with a single term, don't remove the brackets around
+            // its coefficient, otherwise the result may be unbracketed.
+            detail::series_stream_terms_impl<false>(os, x, true);
         }
     }
 };
diff --git a/src/series.cpp b/src/series.cpp
index 4b053be..bc10169 100644
--- a/src/series.cpp
+++ b/src/series.cpp
@@ -19,7 +19,8 @@ namespace detail
 {
 
 // Implementation of the default streaming for a single term.
-void series_stream_single_term(::std::string &ret, ::std::string &str_cf, const ::std::string &str_key, bool tex_mode)
+void series_stream_single_term(::std::string &ret, ::std::string &str_cf, const ::std::string &str_key, bool tex_mode,
+                               bool keep_brackets)
 {
     // Detect unitary cf/key.
     const bool cf_is_one = (str_cf == "1"), cf_is_minus_one = (str_cf == "-1"), key_is_one = (str_key == "1");
@@ -32,10 +33,10 @@ void series_stream_single_term(::std::string &ret, ::std::string &str_cf, const
         // Turn the coefficient into a minus sign
         // if it is -1 and the key is not "1".
         str_cf = '-';
-    } else if (key_is_one && str_cf.size() > 2u && str_cf.front() == '(' && str_cf.back() == ')') {
+    } else if (!keep_brackets && key_is_one && str_cf.size() > 2u && str_cf.front() == '(' && str_cf.back() == ')') {
         // If the key is unitary, and the coefficient
         // consists of something enclosed in round brackets,
-        // then remove them.
+        // then remove them (unless we are asked to keep them).
         str_cf = ::std::string(str_cf.begin() + 1, str_cf.end() - 1);
     }
 
-- 
2.43.0


From 09cfb5e492abc078da1b0555a6fd749207772bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:29 +0000
Subject: [PATCH 08/11] fix: do not let threads that hold the lock of the cache
 of powers run unrelated tasks

---
 include/obake/series.hpp |  6 +++++-
 src/series.cpp           | 12 +++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 0cfcc2c..f66b9bc 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -44,6 +44,7 @@
 #include <tbb/blocked_range.h>
 #include <tbb/parallel_for.h>
 #include <tbb/parallel_reduce.h>
+#include <tbb/task_arena.h>
 
 #include <mp++/integer.hpp>
 
@@ -1828,7 +1829,10 @@ inline series_default_pow_ret_t<T &&, U &&> pow(pow_t, T &&b, U &&e_)
                         "multiplications: the exponent cannot be converted into a non-negative integral value");
         }
 
-        return internal::series_pow_from_cache(b, un);
+        // NOTE: the operations on series run while the cache is locked (multiplication,
+        // destruction) may be parallel. While waiting for their completion, this thread
+        // must not start executing unrelated tasks: they might end up here too, and deadlock.
+        return ::tbb::this_task_arena::isolate([&b, un]() { return internal::series_pow_from_cache(b, un); });
     } else {
         obake_throw(::std::invalid_argument,
                     fmt::format("Cannot compute the power of a series of type '{}': the series does not consist of a "
diff --git a/src/series.cpp b/src/series.cpp
index bc10169..f1b88e8 100644
--- a/src/series.cpp
+++ b/src/series.cpp
@@ -75,10 +75,16 @@ void clear_series_pow_map()
     // Fetch the global data.
     auto [map, mutex] = internal::get_series_pow_map();
 
-    // Lock down before accessing the cache.
-    ::std::lock_guard lock(mutex);
+    // NOTE: the destruction of the series in the cache may run in parallel,
+    // do it without holding the lock.
+    series_pow_map_t tmp;
 
-    map.clear();
+    {
+        // Lock down before accessing the cache.
+        ::std::lock_guard lock(mutex);
+
+        tmp.swap(map);
+    }
 }
 
 } // namespace customisation::internal
-- 
2.43.0


From 18fd57d47c006c9a92f9c337ec9fb93bfc710067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:03 +0000
Subject: [PATCH 09/11] fix: construct the objects shared by the flyweights
 before other libraries can fetch them

---
 include/obake/detail/fw_utils.hpp | 48 +++++++++++++++----------------
 src/detail/fw_utils.cpp           | 15 ++++++----
 2 files changed, 33 insertions(+), 30 deletions(-)

diff --git a/include/obake/detail/fw_utils.hpp b/include/obake/detail/fw_utils.hpp
index fa312ae..59f4ace 100644
--- a/include/obake/detail/fw_utils.hpp
+++ b/include/obake/detail/fw_utils.hpp
@@ -22,7 +22,7 @@
 namespace obake::detail
 {
 
-OBAKE_DLL_PUBLIC ::std::pair<void *, bool> fw_fetch_storage(const ::std::type_info &, ::std::size_t, void (*)(void *));
+OBAKE_DLL_PUBLIC void *fw_fetch_storage(const ::std::type_info &, ::std::size_t, void (*)(void *), void (*)(void *));
 
 [[noreturn]] OBAKE_DLL_PUBLIC void fw_handle_fatal_error();
 
@@ -45,30 +45,28 @@ struct fw_holder_class : ::boost::flyweights::holder_marker {
 
     static C &impl()
     {
-        // Try to fetch new or existing storage for an instance of type C.
-        auto [storage, new_object]
-            = detail::fw_fetch_storage(typeid(C), sizeof(C), [](void *ptr) { static_cast<C *>(ptr)->~C(); });
-
-        if (new_object) {
-            try {
-                // New storage was allocated, need to create
-                // a new object in it.
-                auto ptr = ::new (storage) C;
-
-                return *ptr;
-                // LCOV_EXCL_START
-            } catch (...) {
-                // If the default constructor of C throws, there's
-                // nothing we can do to recover.
-                detail::fw_handle_fatal_error();
-            }
-            // LCOV_EXCL_STOP
-        } else {
-            // An instance of C was already created earlier
-            // (i.e., the first time impl() was called).
-            // Return a reference to it.
-            return *static_cast<C *>(storage);
-        }
+        // Fetch the instance of type C. If it does not exist yet, new storage
+        // will be allocated and a new object will be created in it.
+        // NOTE: the object is created by fw_fetch_storage(), so that
+        // other threads (possibly from other DLLs) invoking this function
+        // at the same time cannot access it before its construction has
+        // been completed.
+        auto storage = detail::fw_fetch_storage(
+            typeid(C), sizeof(C),
+            [](void *ptr) {
+                try {
+                    ::new (ptr) C;
+                    // LCOV_EXCL_START
+                } catch (...) {
+                    // If the default constructor of C throws, there's
+                    // nothing we can do to recover.
+                    detail::fw_handle_fatal_error();
+                }
+                // LCOV_EXCL_STOP
+            },
+            [](void *ptr) { static_cast<C *>(ptr)->~C(); });
+
+        return *static_cast<C *>(storage);
     }
 
     static C &get()
diff --git a/src/detail/fw_utils.cpp b/src/detail/fw_utils.cpp
index 353dfaa..10f0359 100644
--- a/src/detail/fw_utils.cpp
+++ b/src/detail/fw_utils.cpp
@@ -60,12 +60,13 @@ auto fw_statics()
 
 } // namespace
 
-// Fetch storage for an instance of type tp, whose size is s, and with a cleanup
-// function f. The returned pointer will point to a chunk of either new or existing
-// storage, the boolean flag indicates whether new storage was allocated or not.
+// Fetch storage for an instance of type tp, whose size is s, with a construction
+// function c and a cleanup function f. The returned pointer will point to a chunk of
+// either new or existing storage. If new storage was allocated, c will have been
+// used to create an instance in it (before any other thread can fetch the same storage).
 // The function f will be used to destroy the instances stored in fw_map upon
 // its destruction.
-::std::pair<void *, bool> fw_fetch_storage(const ::std::type_info &tp, ::std::size_t s, void (*f)(void *))
+void *fw_fetch_storage(const ::std::type_info &tp, ::std::size_t s, void (*c)(void *), void (*f)(void *))
 {
     // Fetch references to the global objects.
     auto [fw_mutex, fw_map] = detail::fw_statics();
@@ -90,9 +91,13 @@ auto fw_statics()
         }
         // LCOV_EXCL_STOP
         ::std::get<1>(it->second) = ::std::move(f);
+
+        // Create the instance while still holding the lock.
+        // NOTE: c does not throw (it aborts in case of failures).
+        c(static_cast<void *>(::std::get<0>(it->second).get()));
     }
 
-    return {::std::get<0>(it->second).get(), new_object};
+    return ::std::get<0>(it->second).get();
 }
 
 // LCOV_EXCL_START
-- 
2.43.0


From e5ed0297abdeb00e2392c6f97b2fd5af91cabfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:40 +0000
Subject: [PATCH 10/11] fix: truncate the results of substitutions in power
 series

The replacement of symbols with negative exponents can increase the degree of
a term beyond the limit, and the multiplication by the replacement of the
coefficient does not truncate if it is not a power series.
---
 include/obake/power_series/power_series.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/obake/power_series/power_series.hpp b/include/obake/power_series/power_series.hpp
index 2883568..31540f3 100644
--- a/include/obake/power_series/power_series.hpp
+++ b/include/obake/power_series/power_series.hpp
@@ -1388,8 +1388,10 @@ inline customisation::internal::series_default_pow_ret_t<T &&, U &&> pow(T &&x,
 // Substitution.
 // NOTE: we will be using poly's implementation, which
 // is currently based on arithmetic operations and which
-// should then work reasonably well wrt respecting and
-// propagating the truncation settings. There are however
+// should then work reasonably well wrt propagating the
+// truncation settings. The replacement of symbols with negative
+// exponents may however increase the degree of a term, thus we
+// need explicit truncation. There are also
 // corner cases in which the retval may be untruncated
 // even if the input object(s) have truncation (e.g.,
 // empty x). Not sure what's the best way of dealing with this.
@@ -1397,7 +1399,13 @@ template <typename T, typename U>
     requires any_p_series<remove_cvref_t<T>> && (polynomials::detail::poly_subs_algo<T &&, U> != 0)
 inline polynomials::detail::poly_subs_ret_t<T &&, U> subs(T &&x, const symbol_map<U> &sm)
 {
-    return polynomials::detail::poly_subs_impl(::std::forward<T>(x), sm);
+    auto ret = polynomials::detail::poly_subs_impl(::std::forward<T>(x), sm);
+
+    if constexpr (any_p_series<decltype(ret)>) {
+        ::obake::truncate(ret);
+    }
+
+    return ret;
 }
 
 // Diff.
-- 
2.43.0


From 86e06a675d8c9a7ee883789cbcd550b394895954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:42 +0000
Subject: [PATCH 11/11] fix: truncate the integrals of power series whose type
 differs from the operand's

The general integration algorithm multiplies by coefficients, which does not
truncate: for power series with machine integers narrower than the exponents
as coefficients, terms beyond the limit were left in the result.
---
 include/obake/power_series/power_series.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/obake/power_series/power_series.hpp b/include/obake/power_series/power_series.hpp
index 31540f3..86a9b45 100644
--- a/include/obake/power_series/power_series.hpp
+++ b/include/obake/power_series/power_series.hpp
@@ -1426,8 +1426,9 @@ inline polynomials::detail::poly_diff_ret_t<T &&> diff(T &&x, const ::std::strin
 // Integrate.
 // NOTE: we will be using poly's implementation, which
 // is currently based on arithmetic operations and term insertions.
-// In the latter case, we need explicit truncation because integration
-// may end up increasing the degree. Note that if integrate is not done
+// In both cases, we need explicit truncation because integration
+// may end up increasing the degree (the multiplication by the coefficient
+// does not truncate). Note that if integrate is not done
 // via term insertion, there may be corner cases in which the return
 // value is not truncated even if x is. If this becomes a problem,
 // we can enable this specialisation only for some values of integrate_algo.
@@ -1437,10 +1438,7 @@ inline polynomials::detail::poly_integrate_ret_t<T &&> integrate(T &&x, const ::
 {
     auto ret = polynomials::detail::poly_integrate_impl(::std::forward<T>(x), s);
 
-    if constexpr (::std::is_same_v<decltype(ret), remove_cvref_t<T>>) {
-        // NOTE: if the return type matches the input type,
-        // then the result was calculated via repeated term insertions
-        // and we need to explicitly truncate.
+    if constexpr (any_p_series<decltype(ret)>) {
         ::obake::truncate(ret);
     }
 
-- 
2.43.0

