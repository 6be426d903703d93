From 9a008d77bf64cff68cb755ad1e44f3a61a95a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 01/22] fix: keep long double precision and range in
 constant-evaluated frexp, modf, logb and ilogb

---
 .../internal/math/generic/func/fmanip/frexp_gen.hpp    |  9 +--------
 .../internal/math/generic/func/fmanip/ilogb_gen.hpp    |  9 +--------
 .../internal/math/generic/func/fmanip/logb_gen.hpp     |  9 +--------
 .../internal/math/generic/func/fmanip/modf_gen.hpp     | 10 +---------
 include/ccmath/math/fmanip/modf.hpp                    | 10 +---------
 5 files changed, 5 insertions(+), 42 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
index 4b3f971..b8120f7 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
@@ -18,12 +18,5 @@ namespace ccm::gen
 {
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T frexp_gen(T x, int & exp)
-	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::frexp_impl(x, exp); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::frexp_impl(x, exp); }
-		else
-		{
-			return static_cast<T>(ccm::internal::impl::frexp_impl(static_cast<double>(x), exp));
-		}
-	}
+	{ return ccm::internal::impl::frexp_impl(x, exp); }
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
index 8dcb4d1..faec294 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
@@ -18,12 +18,5 @@ namespace ccm::gen
 {
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr int ilogb_gen(T num) noexcept
-	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::ilogb_impl(num); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::ilogb_impl(num); }
-		else
-		{
-			return ccm::internal::impl::ilogb_impl(static_cast<double>(num));
-		}
-	}
+	{ return ccm::internal::impl::ilogb_impl(num); }
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
index 5ec1541..799ac20 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
@@ -18,12 +18,5 @@ namespace ccm::gen
 {
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T logb_gen(T num) noexcept
-	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::logb_impl(num); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::logb_impl(num); }
-		else
-		{
-			return static_cast<T>(ccm::internal::impl::logb_impl(static_cast<double>(num)));
-		}
-	}
+	{ return ccm::internal::impl::logb_impl(num); }
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp
index 16bb402..6a6d07c 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp
@@ -19,14 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T modf_gen(T x, T * iptr) noexcept
 	{
-		if constexpr (std::is_same_v<T, float>) { return internal::impl::modf_impl(x, iptr); }
-		else if constexpr (std::is_same_v<T, double>) { return internal::impl::modf_impl(x, iptr); }
-		else
-		{
-			double integer_part{};
-			const double fractional = internal::impl::modf_impl(static_cast<double>(x), &integer_part);
-			*iptr					= static_cast<T>(integer_part);
-			return static_cast<T>(fractional);
-		}
+		return internal::impl::modf_impl(x, iptr);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/math/fmanip/modf.hpp b/include/ccmath/math/fmanip/modf.hpp
index bf3bcc0..b4cc941 100644
--- a/include/ccmath/math/fmanip/modf.hpp
+++ b/include/ccmath/math/fmanip/modf.hpp
@@ -38,15 +38,7 @@ namespace ccm
 			*iptr			   = integer_part;
 			return fractional;
 		}
-		else if constexpr (std::is_same_v<T, float>) { return internal::impl::modf_impl(x, iptr); }
-		else if constexpr (std::is_same_v<T, double>) { return internal::impl::modf_impl(x, iptr); }
-		else
-		{
-			double integer_part{};
-			const double fractional = internal::impl::modf_impl(static_cast<double>(x), &integer_part);
-			*iptr					= static_cast<T>(integer_part);
-			return static_cast<T>(fractional);
-		}
+		else { return internal::impl::modf_impl(x, iptr); }
 	}
 
 	/**
-- 
2.43.0


From 11b62b1b5546c419abd3d287e89fd4d5168b52f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 02/22] fix: saturate instead of truncating a long exponent in
 scalbn/scalbln

---
 include/ccmath/math/fmanip/scalbn.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/math/fmanip/scalbn.hpp b/include/ccmath/math/fmanip/scalbn.hpp
index 2194954..c1525ec 100644
--- a/include/ccmath/math/fmanip/scalbn.hpp
+++ b/include/ccmath/math/fmanip/scalbn.hpp
@@ -17,6 +17,8 @@
 #include "ccmath/math/fmanip/impl/scalbn_float_impl.hpp"
 #include "ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp"
 
+#include <limits>
+
 #if defined(_MSC_VER) && !defined(__clang__)
 	#include "ccmath/internal/predef/compiler_suppression/msvc_compiler_suppression.hpp"
 CCM_DISABLE_MSVC_WARNING(4702) // 4702: unreachable code
@@ -61,12 +63,10 @@ namespace ccm
 		if constexpr (ccm::builtin::has_constexpr_scalbn<T>) { return ccm::builtin::scalbn_ct(num, exp); }
 		else
 		{
-			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, static_cast<int>(exp)); }
-
-			if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, exp); }
-			if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, exp); }
-			if constexpr (std::is_same_v<T, long double>) { return internal::scalbn_ldouble(num, exp); }
-			return static_cast<T>(internal::scalbn_ldouble(num, exp));
+			// Any exponent past the range of int already overflows or underflows every nonzero finite value.
+			constexpr long exp_max = std::numeric_limits<int>::max();
+			constexpr long exp_min = std::numeric_limits<int>::min();
+			return ccm::scalbn(num, static_cast<int>(exp > exp_max ? exp_max : (exp < exp_min ? exp_min : exp)));
 		}
 	}
 
-- 
2.43.0


From 72a013e25b7cb4abd6dabf45efd80134df32ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 03/22] fix: round once and never build an overflowing power in
 constant-evaluated scalbn(long double)

---
 .../math/fmanip/impl/scalbn_ldouble_impl.hpp  | 66 +++++++++----------
 1 file changed, 31 insertions(+), 35 deletions(-)

diff --git a/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp b/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
index 2a9105b..eceba8b 100644
--- a/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
+++ b/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
@@ -10,13 +10,12 @@
 
 #pragma once
 
+#include <cfloat>
+
 #if LDBL_MANT_DIG == 53 && LDBL_MAX_EXP == 1024
 	#include "ccmath/math/fmanip/impl/scalbn_double_impl.hpp"
 #elif (LDBL_MANT_DIG == 64 || LDBL_MANT_DIG == 113) && LDBL_MAX_EXP == 16384
-	#include "ccmath/math/compare/isinf.hpp"
-	#include "ccmath/math/compare/isnan.hpp"
-
-	#include <limits>
+	#include "ccmath/internal/support/fp/fp_bits.hpp"
 #endif
 
 namespace ccm::internal
@@ -28,45 +27,42 @@ namespace ccm::internal
 #if LDBL_MANT_DIG == 53 && LDBL_MAX_EXP == 1024 // If long double is the same as double
 			return static_cast<long double>(ccm::internal::impl::scalbn_double_impl(static_cast<double>(arg), exp));
 #elif (LDBL_MANT_DIG == 64 || LDBL_MANT_DIG == 113) && LDBL_MAX_EXP == 16384 // If long double is 80-bit or 128-bit large
-			// This is a generic implementation for long double scalbn that does not use bit manipulation.
-			// May be much slower than the double and float version.
-			// Need to benchmark it.
-			// TODO: Possibly implement a bit manipulation version of this function in the future if possible.
-			if (arg == static_cast<long double>(0)) { return arg; }
-
-			if (ccm::isinf(arg)) { return arg; }
-
-			if (exp == static_cast<long double>(0)) { return arg; }
-
-			if (ccm::isnan(arg)) { return std::numeric_limits<long double>::quiet_NaN(); }
-
-			long double mult(1);
-			if (exp > 0)
+			// Same scheme as the double version: the power of two is applied in exact steps, so that at most the last product rounds.
+			using fp_bits_t = ccm::support::fp::FPBits<long double>;
+			const auto power_of_two = [](int power)
 			{
-				mult = std::numeric_limits<long double>::radix;
-				--exp;
-			}
-			else
-			{
-				++exp;
-				exp = -exp;
-				mult /= std::numeric_limits<long double>::radix;
-			}
+				fp_bits_t bits = fp_bits_t::one();
+				bits.set_biased_exponent(static_cast<fp_bits_t::storage_type>(fp_bits_t::exponent_bias + power));
+				return bits.get_val();
+			};
 
-			while (exp > 0)
+			constexpr int exp_max = LDBL_MAX_EXP - 1;
+			constexpr int exp_min = LDBL_MIN_EXP - 1;
+			constexpr int step_down = exp_min + LDBL_MANT_DIG; // keeps the intermediate result normal, avoiding a double rounding
+
+			if (exp > exp_max)
 			{
-				if ((exp & 1) == 0)
+				arg *= power_of_two(exp_max);
+				exp -= exp_max;
+				if (exp > exp_max)
 				{
-					mult *= mult;
-					exp >>= 1;
+					arg *= power_of_two(exp_max);
+					exp -= exp_max;
+					if (exp > exp_max) { exp = exp_max; }
 				}
-				else
+			}
+			else if (exp < exp_min)
+			{
+				arg *= power_of_two(step_down);
+				exp -= step_down;
+				if (exp < exp_min)
 				{
-					arg *= mult;
-					--exp;
+					arg *= power_of_two(step_down);
+					exp -= step_down;
+					if (exp < exp_min) { exp = exp_min; }
 				}
 			}
-			return arg;
+			return arg * power_of_two(exp);
 #else
 			// This should never be called, but since we are not using templates here can can not static_assert it.
 			return 0;
-- 
2.43.0


From b76b25b253be4fbdf8d4b12e8dfe9ffecacda4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 04/22] fix: let nextafter(long double) reach the 80-bit
 implementation in the generic path

---
 .../ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
index de439ba..36cb388 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
@@ -57,7 +57,7 @@ namespace ccm::gen
 #if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
 	// Specialization for 80-bit long double
 	// NOLINTNEXTLINE(readability-function-cognitive-complexity) - This function is complex by nature due to the nature of handling 80-bit long double
-	constexpr long double nextafter(long double from, long double to)
+	[[nodiscard]] constexpr long double nextafter_gen(long double from, long double to) noexcept
 	{
 		using FPBits_t = ccm::support::fp::FPBits<long double>;
 		FPBits_t from_bits(from);
-- 
2.43.0


From 491eb87b3c62503f953760b65335637ae3f259f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 05/22] fix: promote mixed and integer arguments of nextafter
 and nexttoward before stepping

---
 include/ccmath/math/fmanip/nextafter.hpp  | 6 +++++-
 include/ccmath/math/fmanip/nexttoward.hpp | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/fmanip/nextafter.hpp b/include/ccmath/math/fmanip/nextafter.hpp
index 85f0f45..226add8 100644
--- a/include/ccmath/math/fmanip/nextafter.hpp
+++ b/include/ccmath/math/fmanip/nextafter.hpp
@@ -49,7 +49,11 @@ namespace ccm
 	 */
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr auto nextafter(Arithmetic1 from, Arithmetic2 to) noexcept
-	{ return gen::nextafter_gen(from, to); }
+	{
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
+		return ccm::nextafter<shared_type>(static_cast<shared_type>(from), static_cast<shared_type>(to));
+	}
 
 	/**
 	 * @brief Returns the next representable float from from toward to.
diff --git a/include/ccmath/math/fmanip/nexttoward.hpp b/include/ccmath/math/fmanip/nexttoward.hpp
index 42f54cc..5c5e89a 100644
--- a/include/ccmath/math/fmanip/nexttoward.hpp
+++ b/include/ccmath/math/fmanip/nexttoward.hpp
@@ -48,7 +48,7 @@ namespace ccm
 	 */
 	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
 	constexpr double nexttoward(Integer from, long double to) noexcept
-	{ return gen::nextafter_gen(from, to); }
+	{ return ccm::nexttoward<double>(static_cast<double>(from), to); }
 
 	/**
 	 * @brief Returns the next representable float from from toward to.
-- 
2.43.0


From e6c7006aef9f6f6bd21388f01c82aabeb956e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 06/22] fix: drop the false overflow test of constant-evaluated
 fdim

---
 include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
index d23e4be..34c1b85 100644
--- a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
@@ -14,7 +14,6 @@
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 
-#include <limits>
 #include <type_traits>
 
 namespace ccm::gen
@@ -40,7 +39,6 @@ namespace ccm::gen
 			if (CCM_UNLIKELY(x_bits.is_nan())) { return x; }
 			if (CCM_UNLIKELY(y_bits.is_nan())) { return y; }
 			if (x <= y) { return static_cast<T>(+0.0); }
-			if (y < static_cast<T>(0.0) && x > std::numeric_limits<T>::max() + y) { return std::numeric_limits<T>::infinity(); }
 			return x - y;
 		}
 	}
-- 
2.43.0


From 763e017566a12573e1564a4a32c83d5a5d96c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 07/22] fix: return the common type from min of mixed arguments

---
 include/ccmath/math/basic/min.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/basic/min.hpp b/include/ccmath/math/basic/min.hpp
index 0a337d8..54f2e14 100644
--- a/include/ccmath/math/basic/min.hpp
+++ b/include/ccmath/math/basic/min.hpp
@@ -54,7 +54,7 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmin
 	 */
 	template <typename T, typename U>
-	constexpr T min(const T x, const U y) noexcept
+	constexpr auto min(const T x, const U y) noexcept
 	{
 		// Find the common type of the two arguments
 		using shared_type = std::common_type_t<T, U>;
-- 
2.43.0


From 331e09c4d10bd42bc11282ed4850187e76ba1887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 08/22] fix: promote integers in mixed comparisons instead of
 recursing forever

---
 include/ccmath/math/compare/isgreater.hpp      | 7 ++++---
 include/ccmath/math/compare/isgreaterequal.hpp | 7 ++++---
 include/ccmath/math/compare/isless.hpp         | 7 ++++---
 include/ccmath/math/compare/islessequal.hpp    | 7 ++++---
 include/ccmath/math/compare/islessgreater.hpp  | 5 +++--
 5 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/include/ccmath/math/compare/isgreater.hpp b/include/ccmath/math/compare/isgreater.hpp
index 6daf632..cdda714 100644
--- a/include/ccmath/math/compare/isgreater.hpp
+++ b/include/ccmath/math/compare/isgreater.hpp
@@ -45,11 +45,12 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool isgreater(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Find the common type of the two arguments, integers being promoted to double
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(isgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return ccm::isgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/isgreaterequal.hpp b/include/ccmath/math/compare/isgreaterequal.hpp
index c2d8a3c..311b907 100644
--- a/include/ccmath/math/compare/isgreaterequal.hpp
+++ b/include/ccmath/math/compare/isgreaterequal.hpp
@@ -45,11 +45,12 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool isgreaterequal(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Find the common type of the two arguments, integers being promoted to double
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(isgreaterequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return ccm::isgreaterequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/isless.hpp b/include/ccmath/math/compare/isless.hpp
index 91972a5..aff17e6 100644
--- a/include/ccmath/math/compare/isless.hpp
+++ b/include/ccmath/math/compare/isless.hpp
@@ -45,11 +45,12 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool isless(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Find the common type of the two arguments, integers being promoted to double
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(isless<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return ccm::isless<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/islessequal.hpp b/include/ccmath/math/compare/islessequal.hpp
index fe2df04..6d3d7f4 100644
--- a/include/ccmath/math/compare/islessequal.hpp
+++ b/include/ccmath/math/compare/islessequal.hpp
@@ -45,11 +45,12 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool islessequal(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Find the common type of the two arguments, integers being promoted to double
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(islessequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return ccm::islessequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/islessgreater.hpp b/include/ccmath/math/compare/islessgreater.hpp
index 97b092b..8eec145 100644
--- a/include/ccmath/math/compare/islessgreater.hpp
+++ b/include/ccmath/math/compare/islessgreater.hpp
@@ -45,8 +45,9 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool islessgreater(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
-		return static_cast<shared_type>(islessgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
+		return ccm::islessgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
-- 
2.43.0


From c633434b1af22c8dabe0887f9b888f953b908576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 09/22] fix: ext::ceil_div overflowed value + divisor - 1 and
 rounded negative quotients wrongly

---
 include/ccmath/ext/ceil_div.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/ext/ceil_div.hpp b/include/ccmath/ext/ceil_div.hpp
index 3bb5c20..1c2323f 100644
--- a/include/ccmath/ext/ceil_div.hpp
+++ b/include/ccmath/ext/ceil_div.hpp
@@ -26,7 +26,12 @@ namespace ccm::ext
 	 */
 	template <typename T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<std::remove_cv_t<T>, bool>, bool> = true>
 	[[nodiscard]] constexpr T ceil_div(T value, T divisor) noexcept
-	{ return static_cast<T>((value + divisor - T(1)) / divisor); }
+	{
+		// value + divisor - 1 may not be representable, so correct the truncated quotient instead.
+		const T remainder = static_cast<T>(value % divisor);
+		const bool round_up = remainder != T(0) && (remainder > T(0)) == (divisor > T(0));
+		return static_cast<T>(value / divisor + (round_up ? T(1) : T(0)));
+	}
 
 	namespace safe
 	{
-- 
2.43.0


From abbe77d4e5444eaa0099cb8bafe4265fac7f7841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 10/22] fix: expf underflow in constant evaluation gives 0 to
 nearest

The underflow product 0x1.4p-75F * 0x1.4p-75F lies above half the least
subnormal, so a constant-evaluated expf(-1e20f) was 0x1p-149 instead of 0.
---
 include/ccmath/math/expo/impl/exp_float_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/expo/impl/exp_float_impl.hpp b/include/ccmath/math/expo/impl/exp_float_impl.hpp
index 96afdbe..ebe259d 100644
--- a/include/ccmath/math/expo/impl/exp_float_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_float_impl.hpp
@@ -64,7 +64,7 @@ namespace ccm::internal::impl
 			// Handle underflow
 			if (x < -0x1.9fe368p6F) // x < log(0x1p-150) ~= -103.97
 			{
-				return 0x1.4p-75F * 0x1.4p-75F;
+				return 0x1p-95F * 0x1p-95F;
 			}
 		}
 
-- 
2.43.0


From 0a416a3e4cf7450934dec98009a63303bc872610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 11/22] fix: atan2(-0, x) for negative x is -pi in constant
 evaluation

The generic kernel tested y >= 0, which a negative zero passes.
---
 include/ccmath/math/trig/impl/inv_trig_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/trig/impl/inv_trig_impl.hpp b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
index 901028d..00513ce 100644
--- a/include/ccmath/math/trig/impl/inv_trig_impl.hpp
+++ b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
@@ -263,7 +263,7 @@ namespace ccm::internal::impl
 
 		if (x < static_cast<T>(0))
 		{
-			if (y >= static_cast<T>(0)) { return angle + static_cast<T>(ccm::numbers::pi_v<T>); }
+			if (!fp_bits_t(y).is_neg()) { return angle + static_cast<T>(ccm::numbers::pi_v<T>); }
 			return angle - static_cast<T>(ccm::numbers::pi_v<T>);
 		}
 		return angle;
-- 
2.43.0


From 9395b0635bf2693405cdf3a0f69cca9fe1f8c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 12/22] fix: sqrtl rounding up to the next binade lost the
 exponent carry

sqrt(long double) in constant evaluation under FE_UPWARD returned 1 * 2^e
instead of 2 * 2^e when the root rounds up to a power of two
(e.g. the largest finite value).
---
 include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp b/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
index b4a19c5..2e689e5 100644
--- a/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
@@ -155,7 +155,7 @@ namespace ccm::gen
 
 					// Extract output
 					support::fp::FPBits<long double> out(0.0L);
-					out.set_biased_exponent(static_cast<storage_type>(x_exp));
+					out.set_biased_exponent(y >> (Bits::fraction_length + 1)); // rounding up may have carried into the exponent
 					out.set_implicit_bit(true);
 					out.set_mantissa(y & (one - 1));
 
-- 
2.43.0


From adcf9ef7361c27fd2d0f1e55bf82f9b1753f377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 13/22] fix: fmod of integers is evaluated in double, not with
 integer division

fmod(1, 0) divided by zero in integer arithmetic (SIGFPE) and fmod of large
64-bit or negative values was not the value of fmod on the converted operands.
---
 include/ccmath/math/basic/fmod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index 461a062..a0fa5b8 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -71,7 +71,7 @@ namespace ccm
 			return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
 		}
 
-		template <typename T, typename U, typename TC = std::common_type_t<T, U>>
+		template <typename T, typename U, typename TC = std::conditional_t<std::is_integral_v<std::common_type_t<T, U>>, double, std::common_type_t<T, U>>>
 		constexpr TC fmod_impl_type_check(T x, U y) noexcept
 		{ return fmod_impl_check(static_cast<TC>(x), static_cast<TC>(y)); }
 	} // namespace internal::impl
-- 
2.43.0


From d6b05374203684968d74475ccc95aa44fb9adf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:09 +0000
Subject: [PATCH 14/22] fix: remquo of two integers recursed forever

The mixed overload instantiated itself with the common integer type; integers
are promoted to double as for the other functions.
---
 include/ccmath/math/basic/remquo.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/basic/remquo.hpp b/include/ccmath/math/basic/remquo.hpp
index b977f9b..8548d29 100644
--- a/include/ccmath/math/basic/remquo.hpp
+++ b/include/ccmath/math/basic/remquo.hpp
@@ -85,9 +85,10 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/remquo
 	 */
 	template <class Arithmetic1, class Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
-	constexpr std::common_type_t<Arithmetic1, Arithmetic2> remquo(Arithmetic1 x, Arithmetic2 y, int * quo)
+	constexpr auto remquo(Arithmetic1 x, Arithmetic2 y, int * quo)
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using common_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
 		return ccm::remquo<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y), quo);
 	}
 
-- 
2.43.0


From 6cccbdca878ca22315179434c187ef456a415584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:34 +0000
Subject: [PATCH 15/22] fix: fmod and remainder are exact in constant
 evaluation

Both rounded x - trunc(x / y) * y: fmod(1e308, 3.0) was not less than 3, and remainder
rounded the quotient toward zero (remainder(5.0, 3.0) was 2). Reduce the significand
exactly instead; remainder(x, inf) is x.
---
 .../math/generic/func/basic/CMakeLists.txt    |   1 +
 .../math/generic/func/basic/mod_gen.hpp       | 103 ++++++++++++++++++
 include/ccmath/math/basic/fmod.hpp            |   4 +-
 include/ccmath/math/basic/remainder.hpp       |   7 +-
 4 files changed, 111 insertions(+), 4 deletions(-)
 create mode 100644 include/ccmath/internal/math/generic/func/basic/mod_gen.hpp

diff --git a/include/ccmath/internal/math/generic/func/basic/CMakeLists.txt b/include/ccmath/internal/math/generic/func/basic/CMakeLists.txt
index a69f3f6..042d6ba 100644
--- a/include/ccmath/internal/math/generic/func/basic/CMakeLists.txt
+++ b/include/ccmath/internal/math/generic/func/basic/CMakeLists.txt
@@ -5,6 +5,7 @@ ccm_add_headers(
         fmod_gen.hpp
         max_gen.hpp
         min_gen.hpp
+        mod_gen.hpp
         remainder_gen.hpp
         remquo_gen.hpp
 )
diff --git a/include/ccmath/internal/math/generic/func/basic/mod_gen.hpp b/include/ccmath/internal/math/generic/func/basic/mod_gen.hpp
new file mode 100644
index 0000000..a8bb155
--- /dev/null
+++ b/include/ccmath/internal/math/generic/func/basic/mod_gen.hpp
@@ -0,0 +1,103 @@
+/*
+ * Copyright (c) Ian Pike
+ * Copyright (c) CCMath contributors
+ *
+ * CCMath is provided under the Apache-2.0 License WITH LLVM-exception.
+ * See LICENSE for more information.
+ *
+ * SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
+ */
+
+#pragma once
+
+#include "ccmath/internal/support/fp/fp_bits.hpp"
+#include "ccmath/internal/types/sign.hpp"
+
+namespace ccm::gen
+{
+	namespace internal
+	{
+		// A finite value is get_explicit_mantissa() units; this is the exponent field of the binade that unit belongs to.
+		template <typename T>
+		constexpr int unit_exponent(const support::fp::FPBits<T>& bits) noexcept
+		{ return bits.get_biased_exponent() == 0 ? 1 : static_cast<int>(bits.get_biased_exponent()); }
+
+		// mantissa * 2^shift modulo modulus, exactly. The modulus needs no headroom: the residue is never doubled past it.
+		template <typename Storage>
+		constexpr Storage mod_pow2(Storage mantissa, int shift, Storage modulus) noexcept
+		{
+			mantissa %= modulus;
+			for (; shift > 0; --shift) { mantissa = mantissa >= modulus - mantissa ? mantissa - (modulus - mantissa) : mantissa + mantissa; }
+			return mantissa;
+		}
+
+		// units of the given exponent field, as a signed value
+		template <typename T>
+		constexpr T make_signed(types::Sign sign, typename support::fp::FPBits<T>::storage_type units, int exponent) noexcept
+		{
+			using FPBits_t	= support::fp::FPBits<T>;
+			FPBits_t result = units == 0 ? FPBits_t::zero() : FPBits_t::make_value(units, exponent - 1);
+			result.set_sign(sign);
+			return result.get_val();
+		}
+	} // namespace internal
+
+	// x - n * y with n = x / y rounded toward zero, exactly; x is finite, y is finite and not zero.
+	template <typename T>
+	constexpr T fmod_gen(T x, T y) noexcept
+	{
+		using FPBits_t = support::fp::FPBits<T>;
+		const FPBits_t x_bits(x);
+		const FPBits_t y_bits(y);
+
+		if (x_bits.abs().uintval() < y_bits.abs().uintval()) { return x; }
+
+		const int y_exponent = internal::unit_exponent(y_bits);
+		const int shift		 = internal::unit_exponent(x_bits) - y_exponent;
+
+		const auto residue = internal::mod_pow2(x_bits.get_explicit_mantissa(), shift, y_bits.get_explicit_mantissa());
+		return internal::make_signed<T>(x_bits.sign(), residue, y_exponent);
+	}
+
+	// x - n * y with n = x / y rounded to nearest, ties to even, exactly; x is finite, y is finite and not zero.
+	template <typename T>
+	constexpr T remainder_gen(T x, T y) noexcept
+	{
+		using FPBits_t	   = support::fp::FPBits<T>;
+		using storage_type = typename FPBits_t::storage_type;
+		const FPBits_t x_bits(x);
+		const FPBits_t y_bits(y);
+
+		const int x_exponent = internal::unit_exponent(x_bits);
+		int y_exponent		 = internal::unit_exponent(y_bits);
+		storage_type modulus = y_bits.get_explicit_mantissa();
+
+		// |x| is less than |y| / 2.
+		if (x_exponent + 1 < y_exponent) { return x; }
+
+		// Count y in the units of x if those are finer.
+		if (x_exponent < y_exponent)
+		{
+			modulus <<= 1;
+			y_exponent = x_exponent;
+		}
+
+		// Modulo 2y, so that the residue also tells an even n from an odd one.
+		storage_type residue = internal::mod_pow2(x_bits.get_explicit_mantissa(), x_exponent - y_exponent, static_cast<storage_type>(modulus + modulus));
+		types::Sign sign	 = x_bits.sign();
+
+		if (residue + residue >= modulus + modulus + modulus)
+		{
+			residue = modulus + modulus - residue;
+			sign	= sign.is_neg() ? types::Sign::POS : types::Sign::NEG;
+		}
+		else if (residue >= modulus) { residue -= modulus; }
+		else if (residue + residue > modulus)
+		{
+			residue = modulus - residue;
+			sign	= sign.is_neg() ? types::Sign::POS : types::Sign::NEG;
+		}
+
+		return internal::make_signed<T>(sign, residue, y_exponent);
+	}
+} // namespace ccm::gen
diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index a0fa5b8..73c157d 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -11,11 +11,11 @@
 #pragma once
 
 #include "ccmath/internal/math/generic/builtins/basic/fmod.hpp"
+#include "ccmath/internal/math/generic/func/basic/mod_gen.hpp"
 #include "ccmath/internal/math/runtime/func/basic/fmod_rt.hpp"
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
-#include "ccmath/math/nearest/trunc.hpp"
 
 #include <limits>
 
@@ -68,7 +68,7 @@ namespace ccm
 				}
 			}
 
-			return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
+			return ccm::gen::fmod_gen<T>(x, y);
 		}
 
 		template <typename T, typename U, typename TC = std::conditional_t<std::is_integral_v<std::common_type_t<T, U>>, double, std::common_type_t<T, U>>>
diff --git a/include/ccmath/math/basic/remainder.hpp b/include/ccmath/math/basic/remainder.hpp
index e348688..981dc53 100644
--- a/include/ccmath/math/basic/remainder.hpp
+++ b/include/ccmath/math/basic/remainder.hpp
@@ -11,11 +11,11 @@
 #pragma once
 
 #include "ccmath/internal/math/generic/builtins/basic/remainder.hpp"
+#include "ccmath/internal/math/generic/func/basic/mod_gen.hpp"
 #include "ccmath/internal/math/runtime/func/basic/remainder_rt.hpp"
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
-#include "ccmath/math/nearest/trunc.hpp"
 
 namespace ccm
 {
@@ -48,7 +48,10 @@ namespace ccm
 			return -std::numeric_limits<T>::quiet_NaN();
 		}
 
-		return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
+		// If y is ±∞ and x is finite, x is returned.
+		if (CCM_UNLIKELY(y_bits.is_inf())) { return x; }
+
+		return ccm::gen::remainder_gen<T>(x, y);
 	}
 
 	/**
-- 
2.43.0


From 89efb7cea492ed22e4d4c0d9682d67c9a2dc77a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:36 +0000
Subject: [PATCH 16/22] fix: fmod(0, NaN) is NaN in constant evaluation, as at
 run time

---
 include/ccmath/math/basic/fmod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index 73c157d..a8cbae5 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -39,8 +39,8 @@ namespace ccm
 				const FPBits_t x_bits(x);
 				const FPBits_t y_bits(y);
 
-				// If x is ±0 and y is not zero, ±0 is returned.
-				if (CCM_UNLIKELY(x_bits.is_zero() && !y_bits.is_zero()))
+				// If x is ±0 and y is neither zero nor NaN, ±0 is returned.
+				if (CCM_UNLIKELY(x_bits.is_zero() && !y_bits.is_zero() && !y_bits.is_nan()))
 				{
 					// The standard specifies that plus or minus 0 is returned depending on the sign of x.
 					return x;
-- 
2.43.0


From a422e94778bfd6f43cfc81d58072ef91e9a71841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:10 +0000
Subject: [PATCH 17/22] fix: BigInt::mul(word) returns the carry out of the top
 word

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index f42f5a0..9392d68 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -377,7 +377,7 @@ namespace ccm::types
 				const word carry = mul_add_with_carry(acc, val, x);
 				val				 = acc.advance(carry);
 			}
-			return acc.carry();
+			return acc.sum(); // the word shifted out of the last position
 		}
 
 		/**
-- 
2.43.0


From 09874aec1918bdeae7c029bdadf68adcc184a6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:10 +0000
Subject: [PATCH 18/22] fix: rotl and rotr of a BigInt by a negative count when
 the width is no power of two

---
 include/ccmath/internal/types/big_int.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 9392d68..2a6c880 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -1630,21 +1630,21 @@ namespace ccm::support
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, T> rotl(T value, int rotate)
 	{
-		constexpr unsigned N = std::numeric_limits<T>::digits;
-		rotate				 = rotate % N;
+		constexpr int N = std::numeric_limits<T>::digits;
+		rotate			= rotate % N;
 		if (!rotate) { return value; }
 		if (rotate < 0) { return support::rotr<T>(value, -rotate); }
-		return (value << rotate) | (value >> (N - rotate));
+		return (value << rotate) | (value >> static_cast<std::size_t>(N - rotate));
 	}
 
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, T> rotr(T value, int rotate)
 	{
-		constexpr unsigned N = std::numeric_limits<T>::digits;
-		rotate				 = rotate % N;
+		constexpr int N = std::numeric_limits<T>::digits;
+		rotate			= rotate % N;
 		if (!rotate) { return value; }
 		if (rotate < 0) { return support::rotl<T>(value, -rotate); }
-		return (value >> rotate) | (value << (N - rotate));
+		return (value >> rotate) | (value << static_cast<std::size_t>(N - rotate));
 	}
 
 	template <typename T, std::size_t count>
-- 
2.43.0


From 456ceaeb10a23a6117dde549219e7f300a4af205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:10 +0000
Subject: [PATCH 19/22] fix: sign-extend a BigInt converted from whole words of
 a narrower type

---
 include/ccmath/internal/types/big_int.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 2a6c880..afe08ab 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -646,6 +646,7 @@ namespace ccm::types
 					}
 					const WordType extension_bits = should_sign_extend ? std::numeric_limits<WordType>::max() : std::numeric_limits<WordType>::min();
 					if ((i % WORD_SIZE_RATIO) != 0) { cur_word |= static_cast<WordType>(extension_bits) << (BigIntOther::WORD_SIZE * (i % WORD_SIZE_RATIO)); }
+					else { cur_word = extension_bits; }
 					val[i / WORD_SIZE_RATIO] = cur_word;
 					extend((i / WORD_SIZE_RATIO) + 1, should_sign_extend);
 				}
-- 
2.43.0


From 315f808eb73feb18e7abd341185a9b424221e0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 20/22] fix: pow(long double): an overflowing or underflowing
 odd power of a negative base keeps its sign

---
 include/ccmath/internal/math/generic/func/power/powl_gen.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
index 45d6e3e..e430e0b 100644
--- a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
@@ -379,7 +379,7 @@ namespace ccm::gen
 					if (exp_abs > kPowlHugeExponentThreshold) { working_exp = exp_abs_bits.is_neg() ? -0x1.0p100L : 0x1.0p100L; }
 
 					long double result = bit80::powl_ld80_general_finite(working_base, working_exp);
-					if (result_is_neg && result != 0.0L && !ccm::isinf(result) && !ccm::isnan(result)) { result = -result; }
+					if (result_is_neg) { result = -result; }
 					return result;
 				}
 			} // namespace bit80
-- 
2.43.0


From 013dc14b162a5f5138a37f8ef00518da4d97e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 21/22] fix: tgamma: large negative arguments no longer
 overflow the int conversion

---
 include/ccmath/math/misc/impl/gamma_double_impl.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/misc/impl/gamma_double_impl.hpp b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
index 6a0f98a..99d2d38 100644
--- a/include/ccmath/math/misc/impl/gamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
@@ -144,14 +144,20 @@ namespace ccm::internal::impl
 
 		if (CCM_UNLIKELY(detail::is_integer(x)))
 		{
-			const auto k = static_cast<std::int32_t>(ccm::floor(x));
 			if (xbits.is_neg())
 			{
 				ccm::support::fenv::raise_except_if_required(FE_INVALID);
 				ccm::support::fenv::set_errno_if_required(EDOM);
 				return fp_bits::quiet_nan().get_val();
 			}
-			if (k >= 1 && k <= 170) { return detail::positive_factorial(k); }
+			if (x <= 170.0) { return detail::positive_factorial(static_cast<std::int32_t>(x)); }
+		}
+
+		// Below -184 every non-integral argument underflows; the sign alternates between consecutive integers.
+		if (CCM_UNLIKELY(x < -184.0))
+		{
+			const bool odd = (static_cast<std::int64_t>(ccm::floor(x)) & 1) != 0;
+			return odd ? -0.0 : 0.0;
 		}
 
 		double w{};
-- 
2.43.0


From 8b4b10da5ce80844edee3b72b0ba93b6a2bedfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 22/22] fix: lgamma: integral arguments beyond int and the
 Stirling correction terms

---
 include/ccmath/math/misc/impl/lgamma_double_impl.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
index 8f95c2a..3bbf692 100644
--- a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
@@ -41,7 +41,7 @@ namespace ccm::internal::impl
 		{
 			const double inv_x	= 1.0 / x;
 			const double inv_x2 = inv_x * inv_x;
-			const double corr	= inv_x * (0x1.5555555555555p-3 + inv_x2 * (-0x1.6c16c16c16c17p-7 + inv_x2 * 0x1.00a01a01a01a1p-7));
+			const double corr	= inv_x * (0x1.5555555555555p-4 + inv_x2 * (-0x1.6c16c16c16c17p-9 + inv_x2 * 0x1.a01a01a01a01ap-11));
 			return (x - 0.5) * ccm::log(x) - x + 0.5 * ccm::log(2.0 * ccm::numbers::pi_v<double>) + corr;
 		}
 
@@ -102,8 +102,7 @@ namespace ccm::internal::impl
 				ccm::support::fenv::set_errno_if_required(EDOM);
 				return fp_bits::inf().get_val();
 			}
-			const auto k = static_cast<std::int32_t>(ccm::floor(x));
-			if (k <= 170) { return lgamma_detail::positive_lfactorial(k); }
+			if (x <= 170.0) { return lgamma_detail::positive_lfactorial(static_cast<std::int32_t>(x)); }
 		}
 
 		if (CCM_UNLIKELY(ccm::fabs(x) <= 0x1p-53)) { return -lgamma_detail::log_abs(x); }
-- 
2.43.0

