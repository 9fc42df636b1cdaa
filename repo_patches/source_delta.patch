From 6887b164889aebeb969c3ac8b6f35cf0bbd9e150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 01/50] fix: constexpr long double
 nextafter/nextup/nextdown/nexttoward across 80-bit binade boundaries

---
 .../internal/math/generic/func/fmanip/nextafter_gen.hpp   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
index de439ba..3aada26 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
@@ -17,11 +17,19 @@
 
 namespace ccm::gen
 {
+#if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
+	constexpr long double nextafter(long double from, long double to);
+#endif
+
 	template <class TFrom,
 			  class TTo,
 			  std::enable_if_t<std::is_floating_point_v<TFrom> && std::is_floating_point_v<TTo> && (sizeof(TFrom) <= sizeof(TTo)), bool> = true>
 	[[nodiscard]] constexpr TFrom nextafter_gen(TFrom from, TTo to) noexcept
 	{
+#if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
+		// The 80-bit format stores its integer bit explicitly, so stepping the raw storage by one does not carry into the exponent.
+		if constexpr (std::is_same_v<TFrom, long double> && std::is_same_v<TTo, long double>) { return gen::nextafter(from, to); }
+#endif
 
 		ccm::support::fp::FPBits<TFrom> from_bits(from);
 		if (from_bits.is_nan()) { return from; }
-- 
2.43.0


From 25c62592b29ed7d3ad20af93b7ccd9c71bfdba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 02/50] fix: constexpr fmod(+-0, NaN) must be NaN

---
 include/ccmath/math/basic/fmod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index 461a062..3f37b13 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -40,7 +40,7 @@ namespace ccm
 				const FPBits_t y_bits(y);
 
 				// If x is ±0 and y is not zero, ±0 is returned.
-				if (CCM_UNLIKELY(x_bits.is_zero() && !y_bits.is_zero()))
+				if (CCM_UNLIKELY(x_bits.is_zero() && !y_bits.is_zero() && !y_bits.is_nan()))
 				{
 					// The standard specifies that plus or minus 0 is returned depending on the sign of x.
 					return x;
-- 
2.43.0


From b962dbab012877a75c1c7e73e72f9f5688e3f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 03/50] fix: generic long double hypot must not narrow to
 double on 80-bit targets

---
 include/ccmath/internal/math/generic/func/power/hypot_gen.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ccmath/internal/math/generic/func/power/hypot_gen.hpp b/include/ccmath/internal/math/generic/func/power/hypot_gen.hpp
index 725672c..41b515a 100644
--- a/include/ccmath/internal/math/generic/func/power/hypot_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/hypot_gen.hpp
@@ -10,6 +10,7 @@
 
 #pragma once
 
+#include "ccmath/internal/config/type_support.hpp"
 #include "ccmath/internal/math/generic/func/power/impl/hypot_impl.hpp"
 
 #include <type_traits>
@@ -21,6 +22,9 @@ namespace ccm::gen
 	{
 		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::hypot_impl(x, y); }
 		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::hypot_impl(x, y); }
+#if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
+		else if constexpr (std::is_same_v<T, long double>) { return ccm::internal::impl::hypot_impl(x, y); }
+#endif
 		else
 		{
 			return static_cast<T>(ccm::internal::impl::hypot_impl(static_cast<double>(x), static_cast<double>(y)));
-- 
2.43.0


From ee3d2eb94ac5b59812490cf8ed65a14f7fb5fbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 04/50] fix: three-argument hypot must not lose a NaN when the
 first two arguments overflow

---
 include/ccmath/math/power/hypot.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/math/power/hypot.hpp b/include/ccmath/math/power/hypot.hpp
index 2d3c5ea..46bd743 100644
--- a/include/ccmath/math/power/hypot.hpp
+++ b/include/ccmath/math/power/hypot.hpp
@@ -14,6 +14,8 @@
 #include "ccmath/internal/math/generic/func/power/hypot_gen.hpp"
 #include "ccmath/internal/math/runtime/func/power/hypot_rt.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
+#include "ccmath/math/compare/isinf.hpp"
+#include "ccmath/math/compare/isnan.hpp"
 
 #include <type_traits>
 
@@ -38,6 +40,17 @@ namespace ccm
 		}
 	}
 
+	namespace internal::impl
+	{
+		template <typename T>
+		constexpr T hypot3_impl(T x, T y, T z) noexcept
+		{
+			// The partial result of finite x and y may overflow to infinity, which must not hide a NaN in z.
+			if (ccm::isnan(z) && !ccm::isinf(x) && !ccm::isinf(y)) { return z; }
+			return ccm::hypot(ccm::hypot(x, y), z);
+		}
+	} // namespace internal::impl
+
 	/**
 	 * @brief Computes the length of the three-dimensional hypotenuse.
 	 * @tparam T Floating-point type.
@@ -48,13 +61,13 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/hypot
 	 */
 	constexpr float hypot(float x, float y, float z) noexcept
-	{ return ccm::hypot(ccm::hypot(x, y), z); }
+	{ return internal::impl::hypot3_impl(x, y, z); }
 
 	constexpr double hypot(double x, double y, double z) noexcept
-	{ return ccm::hypot(ccm::hypot(x, y), z); }
+	{ return internal::impl::hypot3_impl(x, y, z); }
 
 	constexpr long double hypot(long double x, long double y, long double z) noexcept
-	{ return ccm::hypot(ccm::hypot(x, y), z); }
+	{ return internal::impl::hypot3_impl(x, y, z); }
 
 	template <typename Arithmetic1,
 			  typename Arithmetic2,
-- 
2.43.0


From 47b3552914fca1808c0e4dc30fd9f9f093b68109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 05/50] fix: three-argument hypot of integers did not compile

---
 include/ccmath/math/power/hypot.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/power/hypot.hpp b/include/ccmath/math/power/hypot.hpp
index 46bd743..cb8946e 100644
--- a/include/ccmath/math/power/hypot.hpp
+++ b/include/ccmath/math/power/hypot.hpp
@@ -75,7 +75,10 @@ namespace ccm
 			  std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2> && std::is_arithmetic_v<Arithmetic3>, bool> = true>
 	constexpr auto hypot(Arithmetic1 x, Arithmetic2 y, Arithmetic3 z) noexcept
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2, Arithmetic3>;
+		// Integer arguments are treated as double, so that the call below never selects this overload again.
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>,
+											   std::conditional_t<std::is_integral_v<Arithmetic3>, double, Arithmetic3>>;
 		return ccm::hypot(static_cast<shared_type>(x), static_cast<shared_type>(y), static_cast<shared_type>(z));
 	}
 
-- 
2.43.0


From 95cd1b9c623ac3cd91f62dc5e5b4d88f7f58cc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 06/50] fix: Stirling correction terms of constexpr lgamma are
 1/12, -1/360, 1/1260

---
 include/ccmath/math/misc/impl/lgamma_double_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
index 8f95c2a..2d15299 100644
--- a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
@@ -41,7 +41,7 @@ namespace ccm::internal::impl
 		{
 			const double inv_x	= 1.0 / x;
 			const double inv_x2 = inv_x * inv_x;
-			const double corr	= inv_x * (0x1.5555555555555p-3 + inv_x2 * (-0x1.6c16c16c16c17p-7 + inv_x2 * 0x1.00a01a01a01a1p-7));
+			const double corr	= inv_x * (0x1.5555555555555p-4 + inv_x2 * (-0x1.6c16c16c16c17p-9 + inv_x2 * 0x1.a01a01a01a01ap-11));
 			return (x - 0.5) * ccm::log(x) - x + 0.5 * ccm::log(2.0 * ccm::numbers::pi_v<double>) + corr;
 		}
 
-- 
2.43.0


From 8ec8edfb3b797eb4ad310ec0702e195603cd337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 07/50] fix: gamma/lgamma of large integers converted to int32
 out of range

---
 include/ccmath/math/misc/impl/gamma_double_impl.hpp  | 2 +-
 include/ccmath/math/misc/impl/lgamma_double_impl.hpp | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/math/misc/impl/gamma_double_impl.hpp b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
index 6a0f98a..e99f308 100644
--- a/include/ccmath/math/misc/impl/gamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
@@ -144,13 +144,13 @@ namespace ccm::internal::impl
 
 		if (CCM_UNLIKELY(detail::is_integer(x)))
 		{
-			const auto k = static_cast<std::int32_t>(ccm::floor(x));
 			if (xbits.is_neg())
 			{
 				ccm::support::fenv::raise_except_if_required(FE_INVALID);
 				ccm::support::fenv::set_errno_if_required(EDOM);
 				return fp_bits::quiet_nan().get_val();
 			}
+			const auto k = static_cast<std::int32_t>(ccm::floor(x));
 			if (k >= 1 && k <= 170) { return detail::positive_factorial(k); }
 		}
 
diff --git a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
index 2d15299..3bbf692 100644
--- a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
@@ -102,8 +102,7 @@ namespace ccm::internal::impl
 				ccm::support::fenv::set_errno_if_required(EDOM);
 				return fp_bits::inf().get_val();
 			}
-			const auto k = static_cast<std::int32_t>(ccm::floor(x));
-			if (k <= 170) { return lgamma_detail::positive_lfactorial(k); }
+			if (x <= 170.0) { return lgamma_detail::positive_lfactorial(static_cast<std::int32_t>(x)); }
 		}
 
 		if (CCM_UNLIKELY(ccm::fabs(x) <= 0x1p-53)) { return -lgamma_detail::log_abs(x); }
-- 
2.43.0


From ce37f37e8408212392df1ca187b1f2f8bd6be16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 08/50] fix: constexpr gamma of very negative non-integers
 overflowed its int32 loop counter

---
 include/ccmath/math/misc/impl/gamma_double_impl.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ccmath/math/misc/impl/gamma_double_impl.hpp b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
index e99f308..7847fa6 100644
--- a/include/ccmath/math/misc/impl/gamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
@@ -154,6 +154,15 @@ namespace ccm::internal::impl
 			if (k >= 1 && k <= 170) { return detail::positive_factorial(k); }
 		}
 
+		// Below -184 every non-integer argument underflows, and the recurrence would run for |x| steps.
+		if (CCM_UNLIKELY(x < -184.0))
+		{
+			ccm::support::fenv::raise_except_if_required(FE_UNDERFLOW | FE_INEXACT);
+			ccm::support::fenv::set_errno_if_required(ERANGE);
+			const double half = 0.5 * ccm::floor(x);
+			return ccm::floor(half) == half ? 0.0 : -0.0;
+		}
+
 		double w{};
 		const double f		= detail::gamma_reduce(x, w);
 		const double result = f * w;
-- 
2.43.0


From 0e12d3b66ad1df6abdd089f19f67ea3963d3fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 09/50] fix: atan2(-0, x<0) is -pi

---
 include/ccmath/math/trig/impl/inv_trig_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/trig/impl/inv_trig_impl.hpp b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
index 901028d..00513ce 100644
--- a/include/ccmath/math/trig/impl/inv_trig_impl.hpp
+++ b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
@@ -263,7 +263,7 @@ namespace ccm::internal::impl
 
 		if (x < static_cast<T>(0))
 		{
-			if (y >= static_cast<T>(0)) { return angle + static_cast<T>(ccm::numbers::pi_v<T>); }
+			if (!fp_bits_t(y).is_neg()) { return angle + static_cast<T>(ccm::numbers::pi_v<T>); }
 			return angle - static_cast<T>(ccm::numbers::pi_v<T>);
 		}
 		return angle;
-- 
2.43.0


From 071d9de3dddccb322cff6ae609ce1373cab3cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 10/50] fix: constexpr fmod is exact for every quotient

---
 include/ccmath/math/basic/fmod.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index 3f37b13..44c4a8d 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -24,6 +24,26 @@ namespace ccm
 	/// @cond CCMATH_INTERNAL
 	namespace internal::impl
 	{
+		/// Exact remainder of |x| by |y| with the sign of x; x must be finite and y finite and non-zero.
+		template <typename T>
+		constexpr T fmod_exact(T x, T y) noexcept
+		{
+			const bool x_is_neg = ccm::support::fp::FPBits<T>(x).is_neg();
+			const T divisor		= y < static_cast<T>(0) ? -y : y;
+			T rem				= x_is_neg ? -x : x;
+
+			// Align the divisor below the dividend by exact doublings, then subtract while halving it back.
+			T step = divisor;
+			while (rem >= step && rem - step >= step) { step += step; }
+			while (rem >= divisor)
+			{
+				if (rem >= step) { rem -= step; }
+				step /= static_cast<T>(2);
+			}
+
+			return x_is_neg ? -rem : rem;
+		}
+
 		template <typename T>
 		constexpr T fmod_impl_check(T x, T y) noexcept
 		{
@@ -66,6 +86,8 @@ namespace ccm
 					// Same problem as before, but this time all major compilers return a positive NaN.
 					return std::numeric_limits<T>::quiet_NaN();
 				}
+
+				return fmod_exact(x, y);
 			}
 
 			return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
-- 
2.43.0


From 03ef8309e1fb92ecbcd6bd12e6416554e8ab01f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 11/50] fix: constexpr remainder rounds the quotient to nearest
 even and returns x for infinite y

---
 include/ccmath/math/basic/remainder.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/basic/remainder.hpp b/include/ccmath/math/basic/remainder.hpp
index e348688..26db1e9 100644
--- a/include/ccmath/math/basic/remainder.hpp
+++ b/include/ccmath/math/basic/remainder.hpp
@@ -15,7 +15,7 @@
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
-#include "ccmath/math/nearest/trunc.hpp"
+#include "ccmath/math/basic/fmod.hpp"
 
 namespace ccm
 {
@@ -48,7 +48,26 @@ namespace ccm
 			return -std::numeric_limits<T>::quiet_NaN();
 		}
 
-		return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
+		// If x is finite and y is ±∞, x is returned.
+		if (CCM_UNLIKELY(y_bits.is_inf())) { return x; }
+
+		const T divisor = y < static_cast<T>(0) ? -y : y;
+		const T half	= std::numeric_limits<T>::max() / static_cast<T>(2);
+
+		// Reduce to less than twice the divisor, which keeps the parity of the quotient, then round the quotient to nearest even.
+		T rem = divisor <= half ? internal::impl::fmod_exact(x, divisor + divisor) : x;
+
+		const bool x_is_neg = x_bits.is_neg();
+		if (x_is_neg) { rem = -rem; }
+
+		if (rem > divisor - rem)
+		{
+			rem -= divisor;
+			if (rem >= divisor - rem) { rem -= divisor; }
+		}
+
+		if (rem == static_cast<T>(0)) { rem = static_cast<T>(0); } // a zero remainder takes the sign of x
+		return x_is_neg ? -rem : rem;
 	}
 
 	/**
-- 
2.43.0


From aebb939b9ca64c49d63a0c8803f0678f23bc232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:46 +0000
Subject: [PATCH 12/50] fix: fmod of two different arithmetic types could not
 be called

---
 include/ccmath/math/basic/fmod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index 44c4a8d..ce0be44 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -133,8 +133,8 @@ namespace ccm
 	 * @return The floating-point remainder of the division operation x/y.
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmod
 	 */
-	template <typename T, typename U>
-	constexpr auto fmod(T x, T y)
+	template <typename T, typename U, std::enable_if_t<!std::is_same_v<T, U>, bool> = true>
+	constexpr auto fmod(T x, U y)
 	{ return internal::impl::fmod_impl_type_check(x, y); }
 
 	/**
-- 
2.43.0


From 3b258b3b75de2bbb2f5e33dc32f815633675c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 13/50] fix: fmod of integers divided by zero instead of
 returning NaN

---
 include/ccmath/math/basic/fmod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index ce0be44..2e9bda3 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -122,7 +122,7 @@ namespace ccm
 	 */
 	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
 	constexpr double fmod(Integer x, Integer y)
-	{ return internal::impl::fmod_impl_type_check(x, y); }
+	{ return internal::impl::fmod_impl_type_check(static_cast<double>(x), static_cast<double>(y)); }
 
 	/**
 	 * @brief Returns the floating-point remainder of the division operation x/y.
-- 
2.43.0


From d118dcc7e35f372d0b5c707306771c1a9054f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 14/50] fix: constexpr expm1(double) returned 0 for arguments
 below -512

---
 include/ccmath/math/expo/impl/exp_double_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ccmath/math/expo/impl/exp_double_impl.hpp b/include/ccmath/math/expo/impl/exp_double_impl.hpp
index 44fd869..8c999db 100644
--- a/include/ccmath/math/expo/impl/exp_double_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_double_impl.hpp
@@ -166,6 +166,9 @@ namespace ccm::internal::impl
 		ccm::double_t tail{};
 		ccm::double_t tmp{};
 
+		// Below this e^x is less than half the distance from -1 to its neighbour.
+		if (x < -40.0) { return -1.0; }
+
 		abs_top = ccm::support::top12_bits_of_double(x) & 0x7ff;
 		if (CCM_UNLIKELY(abs_top - ccm::support::top12_bits_of_double(0x1p-54) >=
 						 ccm::support::top12_bits_of_double(512.0) - ccm::support::top12_bits_of_double(0x1p-54)))
-- 
2.43.0


From 7c73e57424796d4952909cad97380f2da8f9bde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 15/50] fix: constexpr long double scalbn multiplied by one
 power of two too few

---
 .../math/fmanip/impl/scalbn_ldouble_impl.hpp  | 58 ++++++++++++-------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp b/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
index 2a9105b..18446cc 100644
--- a/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
+++ b/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
@@ -23,6 +23,21 @@ namespace ccm::internal
 {
 	namespace impl
 	{
+		/// 2^exp for an exponent within the normal range.
+		constexpr long double pow2_ldouble(int exp) noexcept
+		{
+			long double mult   = exp < 0 ? 0.5L : 2.0L;
+			long double result = 1.0L;
+			unsigned int n	   = exp < 0 ? 0U - static_cast<unsigned int>(exp) : static_cast<unsigned int>(exp);
+			while (n != 0U)
+			{
+				if ((n & 1U) != 0U) { result *= mult; }
+				n >>= 1U;
+				if (n != 0U) { mult *= mult; }
+			}
+			return result;
+		}
+
 		constexpr long double scalbn_ldouble_impl(long double arg, int exp) noexcept
 		{
 #if LDBL_MANT_DIG == 53 && LDBL_MAX_EXP == 1024 // If long double is the same as double
@@ -40,33 +55,36 @@ namespace ccm::internal
 
 			if (ccm::isnan(arg)) { return std::numeric_limits<long double>::quiet_NaN(); }
 
-			long double mult(1);
-			if (exp > 0)
-			{
-				mult = std::numeric_limits<long double>::radix;
-				--exp;
-			}
-			else
-			{
-				++exp;
-				exp = -exp;
-				mult /= std::numeric_limits<long double>::radix;
-			}
+			constexpr int max_exp = std::numeric_limits<long double>::max_exponent - 1;
+			constexpr int min_exp = std::numeric_limits<long double>::min_exponent - 1;
+			constexpr int digits  = std::numeric_limits<long double>::digits;
 
-			while (exp > 0)
+			// Bring the exponent into the range of exact normal powers of two. The downward steps stay a full significand
+			// above the smallest normal so that only the final multiplication rounds.
+			if (exp > max_exp)
 			{
-				if ((exp & 1) == 0)
+				arg *= pow2_ldouble(max_exp);
+				exp -= max_exp;
+				if (exp > max_exp)
 				{
-					mult *= mult;
-					exp >>= 1;
+					arg *= pow2_ldouble(max_exp);
+					exp -= max_exp;
+					if (exp > max_exp) { exp = max_exp; }
 				}
-				else
+			}
+			else if (exp < min_exp)
+			{
+				arg *= pow2_ldouble(min_exp + digits);
+				exp -= min_exp + digits;
+				if (exp < min_exp)
 				{
-					arg *= mult;
-					--exp;
+					arg *= pow2_ldouble(min_exp + digits);
+					exp -= min_exp + digits;
+					if (exp < min_exp) { exp = min_exp; }
 				}
 			}
-			return arg;
+
+			return arg * pow2_ldouble(exp);
 #else
 			// This should never be called, but since we are not using templates here can can not static_assert it.
 			return 0;
-- 
2.43.0


From 4648389157ec7467e4ef59365c36e7ea5869283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 16/50] fix: scalbln truncated exponents beyond the range of
 int

---
 include/ccmath/math/fmanip/scalbn.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/ccmath/math/fmanip/scalbn.hpp b/include/ccmath/math/fmanip/scalbn.hpp
index 2194954..7ef8b2a 100644
--- a/include/ccmath/math/fmanip/scalbn.hpp
+++ b/include/ccmath/math/fmanip/scalbn.hpp
@@ -17,6 +17,8 @@
 #include "ccmath/math/fmanip/impl/scalbn_float_impl.hpp"
 #include "ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp"
 
+#include <limits>
+
 #if defined(_MSC_VER) && !defined(__clang__)
 	#include "ccmath/internal/predef/compiler_suppression/msvc_compiler_suppression.hpp"
 CCM_DISABLE_MSVC_WARNING(4702) // 4702: unreachable code
@@ -61,12 +63,17 @@ namespace ccm
 		if constexpr (ccm::builtin::has_constexpr_scalbn<T>) { return ccm::builtin::scalbn_ct(num, exp); }
 		else
 		{
-			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, static_cast<int>(exp)); }
+			// Every exponent beyond the range of int saturates the result, so clamp instead of wrapping around.
+			constexpr long int_max	= std::numeric_limits<int>::max();
+			constexpr long int_min	= std::numeric_limits<int>::min();
+			const auto clamped_exp = static_cast<int>(exp > int_max ? int_max : exp < int_min ? int_min : exp);
 
-			if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, exp); }
-			if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, exp); }
-			if constexpr (std::is_same_v<T, long double>) { return internal::scalbn_ldouble(num, exp); }
-			return static_cast<T>(internal::scalbn_ldouble(num, exp));
+			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, clamped_exp); }
+
+			if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, clamped_exp); }
+			if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, clamped_exp); }
+			if constexpr (std::is_same_v<T, long double>) { return internal::scalbn_ldouble(num, clamped_exp); }
+			return static_cast<T>(internal::scalbn_ldouble(num, clamped_exp));
 		}
 	}
 
-- 
2.43.0


From b940cee46081427084c5519d5751029d985a4161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 17/50] fix: constexpr frexp, logb and ilogb of long double
 went through double

---
 include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp | 3 +++
 include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp | 3 +++
 include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
index 4b3f971..d9a7030 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
@@ -21,6 +21,9 @@ namespace ccm::gen
 	{
 		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::frexp_impl(x, exp); }
 		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::frexp_impl(x, exp); }
+#if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
+		else if constexpr (std::is_same_v<T, long double>) { return ccm::internal::impl::frexp_impl(x, exp); }
+#endif
 		else
 		{
 			return static_cast<T>(ccm::internal::impl::frexp_impl(static_cast<double>(x), exp));
diff --git a/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
index 8dcb4d1..595f3a6 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
@@ -21,6 +21,9 @@ namespace ccm::gen
 	{
 		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::ilogb_impl(num); }
 		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::ilogb_impl(num); }
+#if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
+		else if constexpr (std::is_same_v<T, long double>) { return ccm::internal::impl::ilogb_impl(num); }
+#endif
 		else
 		{
 			return ccm::internal::impl::ilogb_impl(static_cast<double>(num));
diff --git a/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
index 5ec1541..74d9bfd 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
@@ -21,6 +21,9 @@ namespace ccm::gen
 	{
 		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::logb_impl(num); }
 		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::logb_impl(num); }
+#if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
+		else if constexpr (std::is_same_v<T, long double>) { return ccm::internal::impl::logb_impl(num); }
+#endif
 		else
 		{
 			return static_cast<T>(ccm::internal::impl::logb_impl(static_cast<double>(num)));
-- 
2.43.0


From c1c2ef308d557a29f14bdbd97cc56413396aee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 18/50] fix: constexpr modf of long double went through double

---
 include/ccmath/math/fmanip/modf.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/include/ccmath/math/fmanip/modf.hpp b/include/ccmath/math/fmanip/modf.hpp
index bf3bcc0..b4cc941 100644
--- a/include/ccmath/math/fmanip/modf.hpp
+++ b/include/ccmath/math/fmanip/modf.hpp
@@ -38,15 +38,7 @@ namespace ccm
 			*iptr			   = integer_part;
 			return fractional;
 		}
-		else if constexpr (std::is_same_v<T, float>) { return internal::impl::modf_impl(x, iptr); }
-		else if constexpr (std::is_same_v<T, double>) { return internal::impl::modf_impl(x, iptr); }
-		else
-		{
-			double integer_part{};
-			const double fractional = internal::impl::modf_impl(static_cast<double>(x), &integer_part);
-			*iptr					= static_cast<T>(integer_part);
-			return static_cast<T>(fractional);
-		}
+		else { return internal::impl::modf_impl(x, iptr); }
 	}
 
 	/**
-- 
2.43.0


From 58bc332a0e02f287f607a4a5c4e57a9175472a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 19/50] fix: remquo of long double computed in double precision

---
 .../math/basic/impl/remquo_ldouble_impl.hpp   | 65 ++++++++++++-------
 include/ccmath/math/basic/remquo.hpp          |  2 +
 2 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp b/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
index b062743..680f6f5 100644
--- a/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
+++ b/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
@@ -11,11 +11,9 @@
 #pragma once
 
 #include "ccmath/internal/predef/unlikely.hpp"
-#include "ccmath/internal/support/bits.hpp"
-#include "ccmath/math/basic/fabs.hpp"
+#include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/math/basic/fmod.hpp"
 
-#include <cstdint>
 #include <limits>
 
 namespace ccm::internal
@@ -24,25 +22,48 @@ namespace ccm::internal
 	{
 		constexpr long double remquo_ldouble_impl(long double x, long double y, int * quo) noexcept
 		{
-			/*
-				std::int32_t x_exponent{};
-				std::int32_t y_exponent{};
-				std::int32_t x_int32{};
-				std::int32_t y_int32{};
-
-				std::uint32_t x_sign{};
-				std::uint32_t y_msb{};
-				std::uint32_t x_lsb{};
-
-				int quotient_sign{};
-				int computed_quotient{};
-			 */
-			// TODO: For the time being this is mega on hold until we have access to
-			//       necessary implementations of int128_t. Without them extracting the
-			//       needed bits to perform the necessary operations would be extremely challenging
-			//       due to the fact that long double is extremely platform dependent.
-
-			return 0;
+			using FPBits_t = ccm::support::fp::FPBits<long double>;
+			const FPBits_t x_bits(x);
+			const FPBits_t y_bits(y);
+
+			// If y is zero, x is not finite or y is NaN.
+			if (CCM_UNLIKELY(y_bits.is_zero() || x_bits.is_inf_or_nan() || y_bits.is_nan())) { return (x * y) / (x * y); }
+
+			const bool quotient_is_neg = x_bits.is_neg() != y_bits.is_neg();
+			const long double divisor  = y_bits.is_neg() ? -y : y;
+			long double rem			   = x_bits.is_neg() ? -x : x;
+			int computed_quotient	   = 0;
+
+			// Reduce to less than eight times the divisor, which keeps the last three bits of the quotient.
+			constexpr long double max_value = std::numeric_limits<long double>::max();
+			if (divisor <= max_value / 8) { rem = fmod_exact(rem, 8 * divisor); }
+			if (divisor <= max_value / 4 && rem >= 4 * divisor)
+			{
+				rem -= 4 * divisor;
+				computed_quotient += 4;
+			}
+			if (divisor <= max_value / 2 && rem >= 2 * divisor)
+			{
+				rem -= 2 * divisor;
+				computed_quotient += 2;
+			}
+
+			// Round the quotient to nearest even.
+			if (rem > divisor - rem)
+			{
+				rem -= divisor;
+				++computed_quotient;
+				if (rem >= divisor - rem)
+				{
+					rem -= divisor;
+					++computed_quotient;
+				}
+			}
+
+			*quo = quotient_is_neg ? -computed_quotient : computed_quotient;
+
+			if (rem == 0.0L) { rem = 0.0L; } // a zero remainder takes the sign of x
+			return x_bits.is_neg() ? -rem : rem;
 		}
 	} // namespace impl
 
diff --git a/include/ccmath/math/basic/remquo.hpp b/include/ccmath/math/basic/remquo.hpp
index b977f9b..5498cf3 100644
--- a/include/ccmath/math/basic/remquo.hpp
+++ b/include/ccmath/math/basic/remquo.hpp
@@ -12,6 +12,7 @@
 
 #include "ccmath/math/basic/impl/remquo_double_impl.hpp"
 #include "ccmath/math/basic/impl/remquo_float_impl.hpp"
+#include "ccmath/math/basic/impl/remquo_ldouble_impl.hpp"
 
 namespace ccm
 {
@@ -48,6 +49,7 @@ namespace ccm
 	constexpr T remquo(T x, T y, int * quo)
 	{
 		if constexpr (std::is_same_v<T, float>) { return internal::remquo_float(x, y, quo); }
+		else if constexpr (std::is_same_v<T, long double>) { return internal::remquo_ldouble(x, y, quo); }
 		else
 		{
 			return internal::remquo_double(x, y, quo);
-- 
2.43.0


From 958bef3e24a0e27120afa5fb308627577a683f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 20/50] fix: lgamma reported its poles at negative integers and
 -inf as domain errors

---
 .../ccmath/math/misc/impl/lgamma_double_impl.hpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
index 3bbf692..d200c5b 100644
--- a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
@@ -77,15 +77,8 @@ namespace ccm::internal::impl
 			return x;
 		}
 
-		if (CCM_UNLIKELY(xbits.is_inf()))
-		{
-			if (xbits.is_neg())
-			{
-				ccm::support::fenv::raise_except_if_required(FE_INVALID);
-				ccm::support::fenv::set_errno_if_required(EDOM);
-			}
-			return fp_bits::inf().get_val();
-		}
+		// Both infinities are ordinary arguments of log|gamma|: the result is +inf and nothing is reported.
+		if (CCM_UNLIKELY(xbits.is_inf())) { return fp_bits::inf().get_val(); }
 
 		if (CCM_UNLIKELY(xbits.is_zero()))
 		{
@@ -98,8 +91,9 @@ namespace ccm::internal::impl
 		{
 			if (x <= 0.0)
 			{
-				ccm::support::fenv::raise_except_if_required(FE_INVALID);
-				ccm::support::fenv::set_errno_if_required(EDOM);
+				// Negative integers are poles, not domain errors.
+				ccm::support::fenv::raise_except_if_required(FE_DIVBYZERO);
+				ccm::support::fenv::set_errno_if_required(ERANGE);
 				return fp_bits::inf().get_val();
 			}
 			if (x <= 170.0) { return lgamma_detail::positive_lfactorial(static_cast<std::int32_t>(x)); }
-- 
2.43.0


From af899adfd059af28cb908f99e74bb1990b31225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 21/50] fix: constexpr fdim of a finite pair overflowed
 whenever y was below -x's gap to the maximum

The overflow guard compared x with max + y, so for y = -max every positive x was
sent to infinity although the difference rounds to a finite value.
---
 .../ccmath/internal/math/generic/func/basic/fdim_gen.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
index d23e4be..dd8c08f 100644
--- a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
@@ -40,7 +40,11 @@ namespace ccm::gen
 			if (CCM_UNLIKELY(x_bits.is_nan())) { return x; }
 			if (CCM_UNLIKELY(y_bits.is_nan())) { return y; }
 			if (x <= y) { return static_cast<T>(+0.0); }
-			if (y < static_cast<T>(0.0) && x > std::numeric_limits<T>::max() + y) { return std::numeric_limits<T>::infinity(); }
+			// Compare at half scale, where the difference cannot overflow, so that only differences rounding beyond the largest value become infinite.
+			if (y < static_cast<T>(0.0) && x / static_cast<T>(2) - y / static_cast<T>(2) > std::numeric_limits<T>::max() / static_cast<T>(2))
+			{
+				return std::numeric_limits<T>::infinity();
+			}
 			return x - y;
 		}
 	}
-- 
2.43.0


From 34312380e3b2cf66b72657ee8166f6815e2fc482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 22/50] fix: comparing two integers recursed without end, and
 integers compared with float lost precision

---
 include/ccmath/math/compare/isgreater.hpp      | 6 ++++--
 include/ccmath/math/compare/isgreaterequal.hpp | 6 ++++--
 include/ccmath/math/compare/isless.hpp         | 6 ++++--
 include/ccmath/math/compare/islessequal.hpp    | 6 ++++--
 include/ccmath/math/compare/islessgreater.hpp  | 6 ++++--
 5 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/ccmath/math/compare/isgreater.hpp b/include/ccmath/math/compare/isgreater.hpp
index 6daf632..5737109 100644
--- a/include/ccmath/math/compare/isgreater.hpp
+++ b/include/ccmath/math/compare/isgreater.hpp
@@ -46,10 +46,12 @@ namespace ccm
 	constexpr bool isgreater(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
 		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Integers are compared as double. Their common type would select this overload again, and float would not hold them.
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(isgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return isgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/isgreaterequal.hpp b/include/ccmath/math/compare/isgreaterequal.hpp
index c2d8a3c..d80f7e8 100644
--- a/include/ccmath/math/compare/isgreaterequal.hpp
+++ b/include/ccmath/math/compare/isgreaterequal.hpp
@@ -46,10 +46,12 @@ namespace ccm
 	constexpr bool isgreaterequal(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
 		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Integers are compared as double. Their common type would select this overload again, and float would not hold them.
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(isgreaterequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return isgreaterequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/isless.hpp b/include/ccmath/math/compare/isless.hpp
index 91972a5..287fcdf 100644
--- a/include/ccmath/math/compare/isless.hpp
+++ b/include/ccmath/math/compare/isless.hpp
@@ -46,10 +46,12 @@ namespace ccm
 	constexpr bool isless(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
 		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Integers are compared as double. Their common type would select this overload again, and float would not hold them.
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(isless<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return isless<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/islessequal.hpp b/include/ccmath/math/compare/islessequal.hpp
index fe2df04..69569e7 100644
--- a/include/ccmath/math/compare/islessequal.hpp
+++ b/include/ccmath/math/compare/islessequal.hpp
@@ -46,10 +46,12 @@ namespace ccm
 	constexpr bool islessequal(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
 		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Integers are compared as double. Their common type would select this overload again, and float would not hold them.
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(islessequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return islessequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/islessgreater.hpp b/include/ccmath/math/compare/islessgreater.hpp
index 97b092b..7efca87 100644
--- a/include/ccmath/math/compare/islessgreater.hpp
+++ b/include/ccmath/math/compare/islessgreater.hpp
@@ -45,8 +45,10 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool islessgreater(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
-		return static_cast<shared_type>(islessgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		// Integers are compared as double. Their common type would select this overload again, and float would not hold them.
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
+		return islessgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
-- 
2.43.0


From 5c9e02c39613f344d78bd4f4d453884385cdf506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 23/50] fix: ldexp always used the constexpr rounding mode when
 the result is far out of range

---
 .../ccmath/internal/support/helpers/internal_ldexp.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/support/helpers/internal_ldexp.hpp b/include/ccmath/internal/support/helpers/internal_ldexp.hpp
index 018eeb5..f1fe5a4 100644
--- a/include/ccmath/internal/support/helpers/internal_ldexp.hpp
+++ b/include/ccmath/internal/support/helpers/internal_ldexp.hpp
@@ -37,8 +37,9 @@ namespace ccm::support::helpers
 		// Make sure that we can safely cast exp to int when not returning early.
 		if (CCM_UNLIKELY(exp > exponent_limit))
 		{
-			int const rounding_mode = fenv::get_rounding_mode();
-			types::Sign sign		= bits.sign();
+			// Not const: the initializer of a const int is constant-evaluated, which would always give the constexpr rounding mode.
+			int rounding_mode = fenv::get_rounding_mode();
+			types::Sign sign  = bits.sign();
 
 			if ((sign == types::Sign::POS && rounding_mode == FE_DOWNWARD) || (sign == types::Sign::NEG && rounding_mode == FE_UPWARD) ||
 				(rounding_mode == FE_TOWARDZERO))
@@ -54,8 +55,9 @@ namespace ccm::support::helpers
 		// Similarly, on the negative side, we return zero early if |exp| is too small.
 		if (CCM_UNLIKELY(exp < -exponent_limit))
 		{
-			int const rounding_mode = fenv::get_rounding_mode();
-			types::Sign sign		= bits.sign();
+			// Not const: the initializer of a const int is constant-evaluated, which would always give the constexpr rounding mode.
+			int rounding_mode = fenv::get_rounding_mode();
+			types::Sign sign  = bits.sign();
 
 			if ((sign == types::Sign::POS && rounding_mode == FE_UPWARD) || (sign == types::Sign::NEG && rounding_mode == FE_DOWNWARD))
 			{
-- 
2.43.0


From 5ef22041c8050fa98b7fec2b26587d5db864ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 24/50] fix: ldexp ignored the rounding mode on overflow and
 gradual underflow

---
 .../internal/types/normalized_float.hpp       | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/types/normalized_float.hpp b/include/ccmath/internal/types/normalized_float.hpp
index 1eefa10..97418b1 100644
--- a/include/ccmath/internal/types/normalized_float.hpp
+++ b/include/ccmath/internal/types/normalized_float.hpp
@@ -16,6 +16,7 @@
 #pragma once
 
 #include "ccmath/internal/config/type_support.hpp"
+#include "ccmath/internal/support/fenv/rounding_mode.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/internal/support/type_traits.hpp"
 #include "ccmath/internal/types/sign.hpp"
@@ -157,11 +158,23 @@ namespace ccm::types
 			}
 		}
 
+		[[nodiscard]] constexpr bool rounds_directed() const
+		{
+			int rounding_mode = support::fenv::get_rounding_mode();
+			return rounding_mode != FE_TONEAREST;
+		}
+
+		[[nodiscard]] constexpr bool rounds_toward_zero() const
+		{
+			int rounding_mode = support::fenv::get_rounding_mode();
+			return rounding_mode == FE_TOWARDZERO || rounding_mode == (sign.is_neg() ? FE_UPWARD : FE_DOWNWARD);
+		}
+
 		[[nodiscard]] constexpr T convert_ieee() const
 		{
 			int biased_exponent				 = exponent + FPBits::exponent_bias;
 			constexpr int max_exponent_value = (1 << FPBits::exponent_length) - 2;
-			if (biased_exponent > max_exponent_value) { return FPBits::inf(sign).get_val(); }
+			if (biased_exponent > max_exponent_value) { return rounds_toward_zero() ? FPBits::max_normal(sign).get_val() : FPBits::inf(sign).get_val(); }
 
 			FPBits result(T(0.0));
 			result.set_sign(sign);
@@ -178,7 +191,11 @@ namespace ccm::types
 					result.set_biased_exponent(0);
 					result.set_mantissa(mantissa >> shift);
 					StorageType new_mantissa = result.get_mantissa();
-					if (shift_out_value > halfway_value) { new_mantissa += 1; }
+					if (rounds_directed())
+					{
+						if (shift_out_value != 0 && !rounds_toward_zero()) { new_mantissa += 1; }
+					}
+					else if (shift_out_value > halfway_value) { new_mantissa += 1; }
 					else if (shift_out_value == halfway_value)
 					{
 						if ((result.get_mantissa() & 1) != 0) { new_mantissa += 1; }
@@ -187,6 +204,7 @@ namespace ccm::types
 					if (new_mantissa == ONE) { result.set_biased_exponent(1); }
 					return result.get_val();
 				}
+				if (rounds_directed() && !rounds_toward_zero()) { return FPBits::min_subnormal(sign).get_val(); }
 				return result.get_val();
 			}
 
@@ -199,7 +217,7 @@ namespace ccm::types
 		{
 			int biased_exponent				 = exponent + 16383;
 			constexpr int max_exponent_value = (1 << 15) - 2;
-			if (biased_exponent > max_exponent_value) { return FPBits::inf(sign).get_val(); }
+			if (biased_exponent > max_exponent_value) { return rounds_toward_zero() ? FPBits::max_normal(sign).get_val() : FPBits::inf(sign).get_val(); }
 
 			FPBits result(0.0L);
 			result.set_sign(sign);
@@ -216,7 +234,11 @@ namespace ccm::types
 					result.set_biased_exponent(0);
 					result.set_mantissa(mantissa >> shift);
 					StorageType new_mantissa = result.get_mantissa();
-					if (shift_out_value > halfway_value) { new_mantissa += 1; }
+					if (rounds_directed())
+					{
+						if (shift_out_value != 0 && !rounds_toward_zero()) { new_mantissa += 1; }
+					}
+					else if (shift_out_value > halfway_value) { new_mantissa += 1; }
 					else if (shift_out_value == halfway_value)
 					{
 						if ((result.get_mantissa() & 1) != 0) { new_mantissa += 1; }
@@ -233,6 +255,7 @@ namespace ccm::types
 					}
 					return result.get_val();
 				}
+				if (rounds_directed() && !rounds_toward_zero()) { return FPBits::min_subnormal(sign).get_val(); }
 				return result.get_val();
 			}
 
-- 
2.43.0


From 5f0df30eb79c623bf509f269bd4a9a7d2abcf1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 25/50] fix: constexpr long double sqrt rounded upward lost the
 carry into the exponent

---
 include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp b/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
index b4a19c5..c9ecd40 100644
--- a/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
@@ -155,7 +155,7 @@ namespace ccm::gen
 
 					// Extract output
 					support::fp::FPBits<long double> out(0.0L);
-					out.set_biased_exponent(static_cast<storage_type>(x_exp));
+					out.set_biased_exponent(static_cast<storage_type>(y >> (Bits::fraction_length + 1))); // Rounding up may have carried into it.
 					out.set_implicit_bit(true);
 					out.set_mantissa(y & (one - 1));
 
-- 
2.43.0


From 99afe5de9abbe2a4841bea285323bb57897f1040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 26/50] fix: long double fma lost the integer bit when rounding
 carried into the exponent

---
 include/ccmath/internal/types/dyadic_float.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 7ceb24a..56cedaf 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -307,6 +307,15 @@ namespace ccm::types
 			default: break;
 			}
 
+			if constexpr (support::fp::get_fp_type<T>() == support::fp::FPType::eBinary80)
+			{
+				// The integer bit is stored explicitly here, so a rounding carry has to be settled by hand.
+				FPBits carried(result);
+				if (carried.get_biased_exponent() != 0) { carried.set_implicit_bit(true); }
+				else if (carried.get_implicit_bit()) { carried.set_biased_exponent(1); }
+				result = carried.uintval();
+			}
+
 			if constexpr (ShouldSignalExceptions)
 			{
 				if (round || sticky)
-- 
2.43.0


From 9052b6896e5e3e84d257408e63add42c84b117d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:19 +0000
Subject: [PATCH 27/50] fix: long double fma with a zero addend lost the sign
 of an underflowing product

---
 include/ccmath/internal/support/fp/fma.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/support/fp/fma.hpp b/include/ccmath/internal/support/fp/fma.hpp
index 429a3d8..94a4fd5 100644
--- a/include/ccmath/internal/support/fp/fma.hpp
+++ b/include/ccmath/internal/support/fp/fma.hpp
@@ -510,7 +510,8 @@ namespace ccm::support::fp
 				return FPBits::quiet_nan().get_val();
 			}
 
-			if (CCM_UNLIKELY(x == T(0) || y == T(0) || z == T(0))) { return x * y + z; }
+			if (CCM_UNLIKELY(x == T(0) || y == T(0))) { return x * y + z; }
+			const bool z_is_zero = z == T(0); // The product alone decides the result then, its sign included if it underflows.
 
 			int x_exp = 0;
 			int y_exp = 0;
@@ -565,7 +566,8 @@ namespace ccm::support::fp
 			bool sticky_bits = false;
 			bool z_shifted	 = false;
 
-			if (prod_lsb_exp < z_lsb_exp)
+			if (z_is_zero) {}
+			else if (prod_lsb_exp < z_lsb_exp)
 			{
 				sticky_bits	 = shift_right_with_sticky(z_lsb_exp - prod_lsb_exp, prod_mant);
 				prod_lsb_exp = z_lsb_exp;
-- 
2.43.0


From 7cec140158fd8a3097f5e94c9fe9b765786e561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 28/50] fix: set_errno_if_required was not constexpr, so range
 errors could not be constant-evaluated

---
 include/ccmath/internal/support/fenv/fenv_support.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/fenv/fenv_support.hpp b/include/ccmath/internal/support/fenv/fenv_support.hpp
index 6f77cec..dc921ee 100644
--- a/include/ccmath/internal/support/fenv/fenv_support.hpp
+++ b/include/ccmath/internal/support/fenv/fenv_support.hpp
@@ -174,7 +174,7 @@ namespace ccm::support::fenv
 		return 0;
 	}
 
-	inline void set_errno_if_required(const int err)
+	constexpr void set_errno_if_required(const int err)
 	{
 		if (is_constant_evaluated()) { return; }
 		if constexpr (!is_errno_enabled()) { return; }
-- 
2.43.0


From fa03b16fc7ee3c49bf0b0bfe6aa917c513931549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 29/50] fix: constexpr long double pow with an integer exponent
 underflowed through an infinite intermediate and converted huge exponents to
 int64

---
 .../internal/math/generic/func/power/powl_gen.hpp   | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
index 45d6e3e..6e2efee 100644
--- a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
@@ -285,19 +285,6 @@ namespace ccm::gen
 
 					if (ccm::isnan(base) || ccm::isnan(exp)) { return std::numeric_limits<long double>::quiet_NaN(); }
 
-					if (support::is_constant_evaluated() && base > 0.0L && !ccm::isinf(base))
-					{
-						const long double rounded_exp = static_cast<long double>(static_cast<std::int64_t>(exp));
-						if (exp == rounded_exp)
-						{
-							const std::int64_t int_exp = static_cast<std::int64_t>(exp);
-							if (int_exp >= -powl_bits::kBoundedExponentMax && int_exp <= powl_bits::kBoundedExponentMax)
-							{
-								return powl_bounded_integer(base, int_exp);
-							}
-						}
-					}
-
 					const PowlFPBits_t base_bits(base);
 					const PowlFPBits_t exp_bits(exp);
 
-- 
2.43.0


From b08ae8b777540174a3a1ebccb6a79da976f6fcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 30/50] fix: long double pow of a negative base and an odd
 exponent lost the sign of infinite and zero results

---
 include/ccmath/internal/math/generic/func/power/powl_gen.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
index 6e2efee..cfa9829 100644
--- a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
@@ -366,7 +366,7 @@ namespace ccm::gen
 					if (exp_abs > kPowlHugeExponentThreshold) { working_exp = exp_abs_bits.is_neg() ? -0x1.0p100L : 0x1.0p100L; }
 
 					long double result = bit80::powl_ld80_general_finite(working_base, working_exp);
-					if (result_is_neg && result != 0.0L && !ccm::isinf(result) && !ccm::isnan(result)) { result = -result; }
+					if (result_is_neg) { result = -result; }
 					return result;
 				}
 			} // namespace bit80
-- 
2.43.0


From 88ba2b7e284c466950fc05206c0bf9809aff64eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 31/50] fix: long double pow flushed results between one half
 and one time the smallest subnormal, and the smallest subnormal itself, to
 zero

---
 .../math/generic/func/power/pow_impl/powl_ld80_kernel.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
index 0ee6cce..3844a1f 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
@@ -39,7 +39,7 @@ namespace ccm::gen::internal::impl::bit80
 		inline constexpr long double kScaleDown			 = 0x1.0p-512L;
 		inline constexpr long double kUpperY6Bound		 = 512.0L * 64.0L;
 		inline constexpr long double kOverflowY6HiClamp	 = (static_cast<long double>(LDBL_MAX_EXP - 2) + 513.0L) * 64.0L;
-		inline constexpr long double kUnderflowY6HiClamp = (static_cast<long double>(LDBL_MIN_EXP - (LDBL_MANT_DIG - 1)) + 512.0L) * 64.0L;
+		inline constexpr long double kUnderflowY6HiClamp = (static_cast<long double>(LDBL_MIN_EXP - LDBL_MANT_DIG - 1) + 512.0L) * 64.0L; // Half the smallest subnormal.
 
 		constexpr LongDoublePair exact_add(long double a, long double b) noexcept
 		{
-- 
2.43.0


From 8245429d8bc81bc37faf24cac6ed4f46e8de2315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 32/50] fix: long double pow divided by an underflowed zero
 power, and overflowed the split of a large reciprocal

---
 .../ccmath/internal/math/generic/func/power/powl_gen.hpp    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
index cfa9829..3b69945 100644
--- a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
@@ -236,10 +236,12 @@ namespace ccm::gen
 				// 1 / (p.hi + p.lo) refined to long double precision via one Newton step.
 				constexpr long double reciprocal(const Pair & p) noexcept
 				{
+					// An underflowed power is not a pole: no division by zero, the caller defers infinite results.
+					if (p.hi == 0.0L) { return std::numeric_limits<long double>::infinity(); }
 					const long double r0 = 1.0L / p.hi;
 					if (r0 == 0.0L || ccm::isinf(r0) || ccm::isnan(r0)) { return r0; }
-					// p.hi near LDBL_MAX would overflow the split. r0 alone is already within an ULP.
-					if (abs_ld(p.hi) >= kSplitSafe) { return r0; }
+					// p.hi or r0 near LDBL_MAX would overflow the split. r0 alone is already within an ULP.
+					if (abs_ld(p.hi) >= kSplitSafe || abs_ld(r0) >= kSplitSafe) { return r0; }
 					const Pair pr		  = bit80::powl_ld80_detail::exact_mult(p.hi, r0);
 					const long double res = ((1.0L - pr.hi) - pr.lo) - p.lo * r0;
 					return r0 + r0 * res;
-- 
2.43.0


From 3122c64ccd703e4c2d59b9617d5e16ef90e3b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 33/50] fix: remquo of integers recursed without end

---
 include/ccmath/math/basic/remquo.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/basic/remquo.hpp b/include/ccmath/math/basic/remquo.hpp
index 5498cf3..dc7a12d 100644
--- a/include/ccmath/math/basic/remquo.hpp
+++ b/include/ccmath/math/basic/remquo.hpp
@@ -87,9 +87,10 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/remquo
 	 */
 	template <class Arithmetic1, class Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
-	constexpr std::common_type_t<Arithmetic1, Arithmetic2> remquo(Arithmetic1 x, Arithmetic2 y, int * quo)
+	constexpr auto remquo(Arithmetic1 x, Arithmetic2 y, int * quo)
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Integers are divided as double. Their common type would select this overload again.
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>, std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 		return ccm::remquo<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y), quo);
 	}
 
-- 
2.43.0


From 59eff066e0d0a373d1dea2e3f3878237787e0688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 34/50] fix: fmod of mixed arguments rounded integers to float
 or divided them as integers

---
 include/ccmath/math/basic/fmod.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index 2e9bda3..d026e86 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -135,7 +135,12 @@ namespace ccm
 	 */
 	template <typename T, typename U, std::enable_if_t<!std::is_same_v<T, U>, bool> = true>
 	constexpr auto fmod(T x, U y)
-	{ return internal::impl::fmod_impl_type_check(x, y); }
+	{
+		// An integer counts as double: the remainder of two integers is not computed in their own type, nor is one rounded to float.
+		using left_type	 = std::conditional_t<std::is_integral_v<T>, double, T>;
+		using right_type = std::conditional_t<std::is_integral_v<U>, double, U>;
+		return internal::impl::fmod_impl_type_check(static_cast<left_type>(x), static_cast<right_type>(y));
+	}
 
 	/**
 	 * @brief Returns the floating-point remainder of the division operation x/y.
-- 
2.43.0


From 3059f721c0f5d3fc02f5f73aa4b49fab6400bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 35/50] fix: nextafter and nexttoward did not compile for
 integers, and mixed nextafter returned the type of its first argument

---
 include/ccmath/math/fmanip/nextafter.hpp  | 5 ++++-
 include/ccmath/math/fmanip/nexttoward.hpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/fmanip/nextafter.hpp b/include/ccmath/math/fmanip/nextafter.hpp
index 85f0f45..d160f9d 100644
--- a/include/ccmath/math/fmanip/nextafter.hpp
+++ b/include/ccmath/math/fmanip/nextafter.hpp
@@ -49,7 +49,10 @@ namespace ccm
 	 */
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr auto nextafter(Arithmetic1 from, Arithmetic2 to) noexcept
-	{ return gen::nextafter_gen(from, to); }
+	{
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>, std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
+		return ccm::nextafter<shared_type>(static_cast<shared_type>(from), static_cast<shared_type>(to));
+	}
 
 	/**
 	 * @brief Returns the next representable float from from toward to.
diff --git a/include/ccmath/math/fmanip/nexttoward.hpp b/include/ccmath/math/fmanip/nexttoward.hpp
index 42f54cc..5c5e89a 100644
--- a/include/ccmath/math/fmanip/nexttoward.hpp
+++ b/include/ccmath/math/fmanip/nexttoward.hpp
@@ -48,7 +48,7 @@ namespace ccm
 	 */
 	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
 	constexpr double nexttoward(Integer from, long double to) noexcept
-	{ return gen::nextafter_gen(from, to); }
+	{ return ccm::nexttoward<double>(static_cast<double>(from), to); }
 
 	/**
 	 * @brief Returns the next representable float from from toward to.
-- 
2.43.0


From 16cca2e161b50ad736c1eb7e539da7a240f5b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 36/50] fix: fma of integers overflowed in their own type, and
 mixed fma could round an integer to float

---
 .../ccmath/internal/math/common/basic/fma.hpp | 39 +++----------------
 1 file changed, 6 insertions(+), 33 deletions(-)

diff --git a/include/ccmath/internal/math/common/basic/fma.hpp b/include/ccmath/internal/math/common/basic/fma.hpp
index d5a97f6..bc668b5 100644
--- a/include/ccmath/internal/math/common/basic/fma.hpp
+++ b/include/ccmath/internal/math/common/basic/fma.hpp
@@ -31,8 +31,8 @@ namespace ccm
 	{ return support::fp::dispatch_fma(x, y, z); }
 
 	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
-	constexpr Integer fma(Integer x, Integer y, Integer z) noexcept
-	{ return (x * y) + z; }
+	constexpr double fma(Integer x, Integer y, Integer z) noexcept
+	{ return ccm::fma<double>(static_cast<double>(x), static_cast<double>(y), static_cast<double>(z)); }
 
 	/**
 	 * @brief Fused multiply-add operation.
@@ -48,37 +48,10 @@ namespace ccm
 	template <typename T, typename U, typename V>
 	constexpr auto fma(T x, U y, V z) noexcept
 	{
-		constexpr auto TCommon = std::numeric_limits<T>::epsilon() > 0 ? std::numeric_limits<T>::epsilon() : 1;
-		constexpr auto UCommon = std::numeric_limits<U>::epsilon() > 0 ? std::numeric_limits<U>::epsilon() : 1;
-		constexpr auto VCommon = std::numeric_limits<V>::epsilon() > 0 ? std::numeric_limits<V>::epsilon() : 1;
-
-		using epsilon_type = std::common_type_t<decltype(TCommon), decltype(UCommon), decltype(VCommon)>;
-
-		using shared_type = std::conditional_t<
-			TCommon <= std::numeric_limits<epsilon_type>::epsilon() && TCommon <= UCommon,
-			T,
-			std::conditional_t<UCommon <= std::numeric_limits<epsilon_type>::epsilon() && UCommon <= TCommon,
-							   U,
-							   std::conditional_t<VCommon <= std::numeric_limits<epsilon_type>::epsilon() && VCommon <= UCommon, V, epsilon_type>>>;
-
-		return ccm::fma<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y), static_cast<shared_type>(z));
-	}
-
-	/**
-	 * @brief Fused multiply-add operation.
-	 * @tparam T Integer type converted to a common type.
-	 * @tparam U Integer type converted to a common type.
-	 * @tparam V Integer type converted to a common type.
-	 * @param x Integer value converted to a common type.
-	 * @param y Integer value converted to a common type.
-	 * @param z Integer value converted to a common type.
-	 * @return If successful, returns the value of x * y + z as if calculated to infinite precision and rounded once to fit the result type (or, alternatively,
-	 * calculated as a single ternary floating-point operation).
-	 */
-	template <typename T, typename U, typename V, std::enable_if_t<std::is_integral_v<T> && std::is_integral_v<U> && std::is_integral_v<V>, bool> = true>
-	constexpr auto fma(T x, U y, V z) noexcept
-	{
-		using shared_type = std::common_type_t<T, U, V>;
+		// Find the common type of the three arguments. An integer counts as double.
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<T>, double, T>,
+											   std::conditional_t<std::is_integral_v<U>, double, U>,
+											   std::conditional_t<std::is_integral_v<V>, double, V>>;
 		return ccm::fma<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y), static_cast<shared_type>(z));
 	}
 
-- 
2.43.0


From 5ba572a8a1e228db8f1a643a72e5791cfcd12235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:37 +0000
Subject: [PATCH 37/50] fix: min of mixed arguments converted the result back
 to the type of the first

---
 include/ccmath/math/basic/min.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/basic/min.hpp b/include/ccmath/math/basic/min.hpp
index 0a337d8..54f2e14 100644
--- a/include/ccmath/math/basic/min.hpp
+++ b/include/ccmath/math/basic/min.hpp
@@ -54,7 +54,7 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmin
 	 */
 	template <typename T, typename U>
-	constexpr T min(const T x, const U y) noexcept
+	constexpr auto min(const T x, const U y) noexcept
 	{
 		// Find the common type of the two arguments
 		using shared_type = std::common_type_t<T, U>;
-- 
2.43.0


From bcf4b704f96b2b532f794ad4ed406fa27cd6efe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:45 +0000
Subject: [PATCH 38/50] fix: fmax of two integers was ambiguous, fmin of
 integers returned an integer, and both could round an integer to float

---
 include/ccmath/math/basic/max.hpp | 6 +++---
 include/ccmath/math/basic/min.hpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/ccmath/math/basic/max.hpp b/include/ccmath/math/basic/max.hpp
index fbf9c72..4e98b6b 100644
--- a/include/ccmath/math/basic/max.hpp
+++ b/include/ccmath/math/basic/max.hpp
@@ -72,7 +72,7 @@ namespace ccm
 	 * @return If successful, returns the larger of two floating point values. The value returned is exact and does not depend on any rounding modes.
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmax
 	 */
-	template <typename T>
+	template <typename T, std::enable_if_t<!std::is_integral_v<T>, bool> = true>
 	constexpr T fmax(T x, T y) noexcept
 	{ return max<T>(x, y); }
 
@@ -88,8 +88,8 @@ namespace ccm
 	template <typename T, typename U>
 	constexpr auto fmax(T x, U y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<T, U>;
+		// Find the common type of the two arguments. An integer counts as double.
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<T>, double, T>, std::conditional_t<std::is_integral_v<U>, double, U>>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(max<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
diff --git a/include/ccmath/math/basic/min.hpp b/include/ccmath/math/basic/min.hpp
index 54f2e14..bda9ae3 100644
--- a/include/ccmath/math/basic/min.hpp
+++ b/include/ccmath/math/basic/min.hpp
@@ -87,8 +87,8 @@ namespace ccm
 	template <typename T, typename U>
 	constexpr auto fmin(const T x, const U y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<T, U>;
+		// Find the common type of the two arguments. An integer counts as double.
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<T>, double, T>, std::conditional_t<std::is_integral_v<U>, double, U>>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(min<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
@@ -103,8 +103,8 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmin
 	 */
 	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
-	constexpr Integer fmin(const Integer x, const Integer y) noexcept
-	{ return min<Integer>(x, y); }
+	constexpr double fmin(const Integer x, const Integer y) noexcept
+	{ return min<double>(static_cast<double>(x), static_cast<double>(y)); }
 } // namespace ccm
 
 /// @ingroup basic
-- 
2.43.0


From e77f761f492fae61e1c5a854a1be84e366b2b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 39/50] fix: remquol computed in double precision

---
 include/ccmath/math/basic/remquo.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/ccmath/math/basic/remquo.hpp b/include/ccmath/math/basic/remquo.hpp
index dc7a12d..6183a14 100644
--- a/include/ccmath/math/basic/remquo.hpp
+++ b/include/ccmath/math/basic/remquo.hpp
@@ -154,11 +154,7 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/remquo
 	 */
 	constexpr long double remquol(long double x, long double y, int * quo)
-	{
-		// Currently, due to technical issues, the long double version of remquo is not implemented.
-		// For now, we will cast the long double variables to a double and call the double version of remquo.
-		return static_cast<long double>(ccm::remquo<double>(static_cast<double>(x), static_cast<double>(y), quo));
-	}
+	{ return ccm::remquo<long double>(x, y, quo); }
 } // namespace ccm
 
 /// @ingroup basic
-- 
2.43.0


From 4b3d33cef3d54555d90a7c9d0294d9401df31ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 40/50] fix: ceil_div wrapped around for dividends near the
 maximum

---
 include/ccmath/ext/ceil_div.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/ext/ceil_div.hpp b/include/ccmath/ext/ceil_div.hpp
index 3bb5c20..bd50602 100644
--- a/include/ccmath/ext/ceil_div.hpp
+++ b/include/ccmath/ext/ceil_div.hpp
@@ -26,7 +26,12 @@ namespace ccm::ext
 	 */
 	template <typename T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<std::remove_cv_t<T>, bool>, bool> = true>
 	[[nodiscard]] constexpr T ceil_div(T value, T divisor) noexcept
-	{ return static_cast<T>((value + divisor - T(1)) / divisor); }
+	{
+		// Adding divisor - 1 to the dividend first would overflow for large values.
+		const T quotient  = static_cast<T>(value / divisor);
+		const T remainder = static_cast<T>(value % divisor);
+		return static_cast<T>(quotient + T(remainder != T(0) && (remainder > T(0)) == (divisor > T(0))));
+	}
 
 	namespace safe
 	{
-- 
2.43.0


From 548d9d0fca77fdc11159383fd7b8867ca4ddedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 41/50] fix: is_power_of_two of unsigned char did not compile

---
 include/ccmath/internal/support/bits.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/bits.hpp b/include/ccmath/internal/support/bits.hpp
index 118969c..a7700b9 100644
--- a/include/ccmath/internal/support/bits.hpp
+++ b/include/ccmath/internal/support/bits.hpp
@@ -92,7 +92,9 @@ namespace ccm::support
 	}
 
 	template <class T,
-			  std::enable_if_t<traits::ccm_is_integral_v<T> && traits::ccm_is_unsigned_v<T> && !traits::is_char_v<T> && !std::is_same_v<T, bool>, bool> = true>
+			  std::enable_if_t<traits::ccm_is_integral_v<T> && traits::ccm_is_unsigned_v<T> && (!traits::is_char_v<T> || std::is_same_v<T, unsigned char>) &&
+								   !std::is_same_v<T, bool>,
+							   bool> = true>
 	constexpr bool has_single_bit(T x) noexcept
 	{ return x && !(x & (x - 1)); }
 
-- 
2.43.0


From 7b81905bb3dba76ed6a0a39a0fd27602abe3175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 42/50] fix: repeat returned the length itself, or a value
 beyond either end, when rounding

---
 include/ccmath/ext/repeat.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/ext/repeat.hpp b/include/ccmath/ext/repeat.hpp
index 7d69825..4e5ddee 100644
--- a/include/ccmath/ext/repeat.hpp
+++ b/include/ccmath/ext/repeat.hpp
@@ -25,7 +25,12 @@ namespace ccm::ext
 	 */
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	[[nodiscard]] constexpr T repeat(T value, T length) noexcept
-	{ return value - (ccm::floor(value / length) * length); }
+	{
+		const T result = value - (ccm::floor(value / length) * length);
+		// Rounding can land on or beyond the ends of the interval, which are the same point.
+		if (length > T(0) && (result < T(0) || result >= length)) { return T(0); }
+		return result;
+	}
 
 	namespace safe
 	{
-- 
2.43.0


From 3ee46004df9f1cbf744c1463c9f3084d87aa7549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 43/50] fix: log1p of double near zero used truncated Taylor
 coefficients

---
 include/ccmath/math/expo/impl/log1p_impl.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/ccmath/math/expo/impl/log1p_impl.hpp b/include/ccmath/math/expo/impl/log1p_impl.hpp
index ad2e99b..765de12 100644
--- a/include/ccmath/math/expo/impl/log1p_impl.hpp
+++ b/include/ccmath/math/expo/impl/log1p_impl.hpp
@@ -32,13 +32,13 @@ namespace ccm::internal::impl
 	constexpr float log1p_lg3_f	   = 0x1.24924ap-2f;
 	constexpr float log1p_lg4_f	   = 0x1.f0a3d8p-3f;
 
-	constexpr double log1p_lg1_d = 0x1.5555555555555p-1;
-	constexpr double log1p_lg2_d = 0x1.9999999999999p-2;
-	constexpr double log1p_lg3_d = 0x1.2492492492492p-2;
-	constexpr double log1p_lg4_d = 0x1.c71c71c71c6d6p-3;
-	constexpr double log1p_lg5_d = 0x1.745d1745d0a63p-3;
-	constexpr double log1p_lg6_d = 0x1.3b13b13b0ff6ep-3;
-	constexpr double log1p_lg7_d = 0x1.111111111126ep-3;
+	constexpr double log1p_lg1_d = 0x1.5555555555593p-1;
+	constexpr double log1p_lg2_d = 0x1.999999997fa04p-2;
+	constexpr double log1p_lg3_d = 0x1.2492494229359p-2;
+	constexpr double log1p_lg4_d = 0x1.c71c51d8e78afp-3;
+	constexpr double log1p_lg5_d = 0x1.7466496cb03dep-3;
+	constexpr double log1p_lg6_d = 0x1.39a09d078c69fp-3;
+	constexpr double log1p_lg7_d = 0x1.2f112df3e5244p-3;
 
 	constexpr auto log1p_log_data_flt = ccm::internal::log_data<double>();
 	constexpr auto log1p_ln2_hi_d	  = log1p_log_data_flt.ln2hi;
-- 
2.43.0


From c4318b0bfddc0190519864eb4d004a46d322e5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 44/50] fix: expm1 of double lost eleven bits between 0.06 and
 0.25

---
 include/ccmath/math/expo/impl/exp_double_impl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/expo/impl/exp_double_impl.hpp b/include/ccmath/math/expo/impl/exp_double_impl.hpp
index 8c999db..5967c68 100644
--- a/include/ccmath/math/expo/impl/exp_double_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_double_impl.hpp
@@ -147,7 +147,9 @@ namespace ccm::internal::impl
 	constexpr double expm1_series(double x)
 	{
 		const double x2 = x * x;
-		return x + x2 * (0.5 + x * (1.0 / 6.0 + x * (1.0 / 24.0 + x * (1.0 / 120.0 + x * (1.0 / 720.0 + x * (1.0 / 5040.0 + x * (1.0 / 40320.0)))))));
+		const double tail =
+			1.0 / 40320.0 + x * (1.0 / 362880.0 + x * (1.0 / 3628800.0 + x * (1.0 / 39916800.0 + x * (1.0 / 479001600.0 + x * (1.0 / 6227020800.0)))));
+		return x + x2 * (0.5 + x * (1.0 / 6.0 + x * (1.0 / 24.0 + x * (1.0 / 120.0 + x * (1.0 / 720.0 + x * (1.0 / 5040.0 + x * tail))))));
 	}
 
 	constexpr double expm1_kernel(double x)
-- 
2.43.0


From ada6fa1fb2e624f672675b320c4c635a53ea97d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 45/50] fix: constant evaluation of pow(long double) was off by
 up to half a percent

The reduction rounded the exponent to a multiple of one half, not to an
integer: 2^62 has two fraction bits fewer than it needs.
---
 .../math/generic/func/power/pow_impl/powl_ld80_kernel.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
index 3844a1f..3585a1c 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
@@ -85,7 +85,7 @@ namespace ccm::gen::internal::impl::bit80
 
 			if (constexpr long double max_exact_int = 0x1.0p63L; x < max_exact_int && x > -max_exact_int)
 			{
-				constexpr long double round_offset = 0x1.0p62L;
+				constexpr long double round_offset = 0x1.0p63L; // One unit of this binade is 1.
 				return x < 0.0L ? (x - round_offset) + round_offset : (x + round_offset) - round_offset;
 			}
 			return x;
-- 
2.43.0


From 0d6ab7fa70a4fc708debc210ad8d7a21d7b015e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:24 +0000
Subject: [PATCH 46/50] fix: <ccmath/math/expo/log2.hpp> did not compile on its
 own

---
 include/ccmath/math/expo/impl/log2_double_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ccmath/math/expo/impl/log2_double_impl.hpp b/include/ccmath/math/expo/impl/log2_double_impl.hpp
index beaa79c..e8dbe14 100644
--- a/include/ccmath/math/expo/impl/log2_double_impl.hpp
+++ b/include/ccmath/math/expo/impl/log2_double_impl.hpp
@@ -10,6 +10,7 @@
 
 #pragma once
 
+#include "ccmath/internal/predef/compiler_suppression/msvc_compiler_suppression.hpp"
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/bits.hpp"
 #include "ccmath/internal/types/fp_types.hpp"
-- 
2.43.0


From ccb7840daa3eca6a48671162c27db01745f2ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:47 +0000
Subject: [PATCH 47/50] fix: log1p of float used the wrong coefficients and a
 low word of ln 2 with the wrong sign

---
 include/ccmath/math/expo/impl/log1p_impl.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ccmath/math/expo/impl/log1p_impl.hpp b/include/ccmath/math/expo/impl/log1p_impl.hpp
index 765de12..a6e9742 100644
--- a/include/ccmath/math/expo/impl/log1p_impl.hpp
+++ b/include/ccmath/math/expo/impl/log1p_impl.hpp
@@ -26,11 +26,11 @@
 namespace ccm::internal::impl
 {
 	constexpr float log1p_ln2_hi_f = 0x1.62e430p-1f;
-	constexpr float log1p_ln2_lo_f = 0x1.05c610p-29f;
-	constexpr float log1p_lg1_f	   = 0x1.555556p-1f;
-	constexpr float log1p_lg2_f	   = 0x1.99999ap-2f;
-	constexpr float log1p_lg3_f	   = 0x1.24924ap-2f;
-	constexpr float log1p_lg4_f	   = 0x1.f0a3d8p-3f;
+	constexpr float log1p_ln2_lo_f = -0x1.05c610p-29f;
+	constexpr float log1p_lg1_f	   = 0x1.555554p-1f;
+	constexpr float log1p_lg2_f	   = 0x1.999c26p-2f;
+	constexpr float log1p_lg3_f	   = 0x1.23d3dcp-2f;
+	constexpr float log1p_lg4_f	   = 0x1.f13c4cp-3f;
 
 	constexpr double log1p_lg1_d = 0x1.5555555555593p-1;
 	constexpr double log1p_lg2_d = 0x1.999999997fa04p-2;
-- 
2.43.0


From 39dfa2cb7abe6055d18adb4ddf5b15870e9e0ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:59 +0000
Subject: [PATCH 48/50] fix: BigInt::mul returns the word carried out of the
 product

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index f42f5a0..372a4f8 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -377,7 +377,7 @@ namespace ccm::types
 				const word carry = mul_add_with_carry(acc, val, x);
 				val				 = acc.advance(carry);
 			}
-			return acc.carry();
+			return acc.sum(); // The word above the product has been shifted to the front.
 		}
 
 		/**
-- 
2.43.0


From 87c9d438f2e23d44c0d0ff936f647b5399df9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 49/50] fix: rotations of wide integers by negative counts, for
 widths that are no power of two

---
 include/ccmath/internal/types/big_int.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 372a4f8..158aa85 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -1630,8 +1630,8 @@ namespace ccm::support
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, T> rotl(T value, int rotate)
 	{
-		constexpr unsigned N = std::numeric_limits<T>::digits;
-		rotate				 = rotate % N;
+		constexpr int N = std::numeric_limits<T>::digits;
+		rotate			= rotate % N;
 		if (!rotate) { return value; }
 		if (rotate < 0) { return support::rotr<T>(value, -rotate); }
 		return (value << rotate) | (value >> (N - rotate));
@@ -1640,8 +1640,8 @@ namespace ccm::support
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, T> rotr(T value, int rotate)
 	{
-		constexpr unsigned N = std::numeric_limits<T>::digits;
-		rotate				 = rotate % N;
+		constexpr int N = std::numeric_limits<T>::digits;
+		rotate			= rotate % N;
 		if (!rotate) { return value; }
 		if (rotate < 0) { return support::rotl<T>(value, -rotate); }
 		return (value >> rotate) | (value << (N - rotate));
-- 
2.43.0


From 725c0b1bb4b4ef15c44516dc7d87de0fc61557f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 50/50] fix: first_trailing_one of a wide integer that is zero
 or all ones

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 158aa85..70cae54 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -1702,7 +1702,7 @@ namespace ccm::support
 
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, int> first_trailing_one(T value)
-	{ return value == std::numeric_limits<T>::max() ? 0 : support::countr_zero(value) + 1; }
+	{ return value.is_zero() ? 0 : support::countr_zero(value) + 1; }
 } // namespace ccm::support
 
 #if defined(_MSC_VER) && !defined(__clang__)
-- 
2.43.0

