From b3a856f0578a4f281727fb9f348f1c5aa9edff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:38 +0000
Subject: [PATCH 01/85] fix: set_union and set_symmetric_difference call
 sprout::copy, so that they can be used in constant expressions

---
 sprout/algorithm/cxx14/set_symmetric_difference.hpp | 4 ++--
 sprout/algorithm/cxx14/set_union.hpp                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/algorithm/cxx14/set_symmetric_difference.hpp b/sprout/algorithm/cxx14/set_symmetric_difference.hpp
index 9ceaf07..f74921c 100644
--- a/sprout/algorithm/cxx14/set_symmetric_difference.hpp
+++ b/sprout/algorithm/cxx14/set_symmetric_difference.hpp
@@ -26,10 +26,10 @@ namespace sprout {
 	set_symmetric_difference(InputIterator1 first1, InputIterator1 last1, InputIterator2 first2, InputIterator2 last2, OutputIterator result, Compare comp) {
 		while (true) {
 			if (first1 == last1) {
-				return std::copy(first2, last2, result);
+				return sprout::copy(first2, last2, result);
 			}
 			if (first2 == last2) {
-				return std::copy(first1, last1, result);
+				return sprout::copy(first1, last1, result);
 			}
 			if (comp(*first1, *first2)) {
 				*result = *first1;
diff --git a/sprout/algorithm/cxx14/set_union.hpp b/sprout/algorithm/cxx14/set_union.hpp
index 10bf241..6bb59e1 100644
--- a/sprout/algorithm/cxx14/set_union.hpp
+++ b/sprout/algorithm/cxx14/set_union.hpp
@@ -26,10 +26,10 @@ namespace sprout {
 	set_union(InputIterator1 first1, InputIterator1 last1, InputIterator2 first2, InputIterator2 last2, OutputIterator result, Compare comp) {
 		while (true) {
 			if (first1 == last1) {
-				return std::copy(first2, last2, result);
+				return sprout::copy(first2, last2, result);
 			}
 			if (first2 == last2) {
-				return std::copy(first1, last1, result);
+				return sprout::copy(first1, last1, result);
 			}
 			if (comp(*first1, *first2)) {
 				*result = *first1;
-- 
2.43.0


From 4d756f70b700feed1ab7c25213fb1e4d8e8f3767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:47 +0000
Subject: [PATCH 02/85] fix: include guards of headers that reused another
 header's guard, so that including both no longer drops one

---
 sprout/cwctype.hpp                                   | 6 +++---
 sprout/functional/polymorphic/shift_right.hpp        | 6 +++---
 sprout/functional/polymorphic/shift_right_assign.hpp | 6 +++---
 sprout/math/quaternion/l1.hpp                        | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/cwctype.hpp b/sprout/cwctype.hpp
index ea5bbcd..19571d5 100644
--- a/sprout/cwctype.hpp
+++ b/sprout/cwctype.hpp
@@ -5,10 +5,10 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_CCTYPE_HPP
-#define SPROUT_CCTYPE_HPP
+#ifndef SPROUT_CWCTYPE_HPP
+#define SPROUT_CWCTYPE_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/ctype/wascii.hpp>
 
-#endif	// #ifndef SPROUT_CCTYPE_HPP
+#endif	// #ifndef SPROUT_CWCTYPE_HPP
diff --git a/sprout/functional/polymorphic/shift_right.hpp b/sprout/functional/polymorphic/shift_right.hpp
index 3a9dd94..3fa6dc4 100644
--- a/sprout/functional/polymorphic/shift_right.hpp
+++ b/sprout/functional/polymorphic/shift_right.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_HPP
-#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_HPP
+#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_HPP
+#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/functional/shift_right.hpp>
@@ -22,4 +22,4 @@ namespace sprout {
 	}	// anonymous-namespace
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_HPP
+#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_HPP
diff --git a/sprout/functional/polymorphic/shift_right_assign.hpp b/sprout/functional/polymorphic/shift_right_assign.hpp
index fb71ef5..812da1d 100644
--- a/sprout/functional/polymorphic/shift_right_assign.hpp
+++ b/sprout/functional/polymorphic/shift_right_assign.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_ASSIGN_HPP
-#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_ASSIGN_HPP
+#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_ASSIGN_HPP
+#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_ASSIGN_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/functional/shift_right_assign.hpp>
@@ -22,4 +22,4 @@ namespace sprout {
 	}	// anonymous-namespace
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_ASSIGN_HPP
+#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_ASSIGN_HPP
diff --git a/sprout/math/quaternion/l1.hpp b/sprout/math/quaternion/l1.hpp
index 910b15d..81033a2 100644
--- a/sprout/math/quaternion/l1.hpp
+++ b/sprout/math/quaternion/l1.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_MATH_QUATERNION_SUP_HPP
-#define SPROUT_MATH_QUATERNION_SUP_HPP
+#ifndef SPROUT_MATH_QUATERNION_L1_HPP
+#define SPROUT_MATH_QUATERNION_L1_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/array/array.hpp>
@@ -35,4 +35,4 @@ namespace sprout {
 	using sprout::math::l1;
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_MATH_QUATERNION_SUP_HPP
+#endif	// #ifndef SPROUT_MATH_QUATERNION_L1_HPP
-- 
2.43.0


From 7710fa05bfd8110682cea9409aabb7acce842d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:47 +0000
Subject: [PATCH 03/85] fix: has_comma, has_left/right_shift_assign and
 has_post_decrement had another trait's include guard, base or macro and were
 unusable

---
 sprout/type_traits/has_comma.hpp              | 12 +++++++-----
 sprout/type_traits/has_left_shift_assign.hpp  |  9 +++++----
 sprout/type_traits/has_post_decrement.hpp     |  2 +-
 sprout/type_traits/has_right_shift_assign.hpp |  9 +++++----
 4 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/sprout/type_traits/has_comma.hpp b/sprout/type_traits/has_comma.hpp
index 01a4ece..6cdb5b9 100644
--- a/sprout/type_traits/has_comma.hpp
+++ b/sprout/type_traits/has_comma.hpp
@@ -5,19 +5,21 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_TYPE_TRAITS_HAS_PLUS_HPP
-#define SPROUT_TYPE_TRAITS_HAS_PLUS_HPP
+#ifndef SPROUT_TYPE_TRAITS_HAS_COMMA_HPP
+#define SPROUT_TYPE_TRAITS_HAS_COMMA_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/type_traits/dont_care.hpp>
 #include <sprout/type_traits/detail/has_binary_op.hpp>
-#include <sprout/preprocessor/comma.hpp>
 
 namespace sprout {
 	//
 	// has_comma
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(comma, SPROUT_PP_COMMA(), = T);
+#define SPROUT_DETAIL_HAS_COMMA_EXPR(OP, LHS, RHS) \
+	(LHS , RHS)
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL_(comma, , = T, SPROUT_DETAIL_HAS_COMMA_EXPR);
+#undef SPROUT_DETAIL_HAS_COMMA_EXPR
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = T, typename R = sprout::dont_care>
@@ -25,4 +27,4 @@ namespace sprout {
 #endif	// #if SPROUT_USE_VARIABLE_TEMPLATES
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_PLUS_HPP
+#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_COMMA_HPP
diff --git a/sprout/type_traits/has_left_shift_assign.hpp b/sprout/type_traits/has_left_shift_assign.hpp
index 2bcdf95..a260d05 100644
--- a/sprout/type_traits/has_left_shift_assign.hpp
+++ b/sprout/type_traits/has_left_shift_assign.hpp
@@ -5,12 +5,13 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_TYPE_TRAITS_HAS_SHIFT_LEFT_ASSIGN_HPP
-#define SPROUT_TYPE_TRAITS_HAS_SHIFT_LEFT_ASSIGN_HPP
+#ifndef SPROUT_TYPE_TRAITS_HAS_LEFT_SHIFT_ASSIGN_HPP
+#define SPROUT_TYPE_TRAITS_HAS_LEFT_SHIFT_ASSIGN_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/type_traits/dont_care.hpp>
 #include <sprout/type_traits/has_shift_left_assign.hpp>
+#include <sprout/type_traits/const_reference.hpp>
 
 namespace sprout {
 	//
@@ -18,7 +19,7 @@ namespace sprout {
 	//
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
 	struct has_left_shift_assign
-		: public sprout::has_shift_left<T, U, R>
+		: public sprout::has_shift_left_assign<T, U, R>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
@@ -27,4 +28,4 @@ namespace sprout {
 #endif	// #if SPROUT_USE_VARIABLE_TEMPLATES
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_SHIFT_LEFT_ASSIGN_HPP
+#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_LEFT_SHIFT_ASSIGN_HPP
diff --git a/sprout/type_traits/has_post_decrement.hpp b/sprout/type_traits/has_post_decrement.hpp
index da03ed2..be412bc 100644
--- a/sprout/type_traits/has_post_decrement.hpp
+++ b/sprout/type_traits/has_post_decrement.hpp
@@ -16,7 +16,7 @@ namespace sprout {
 	//
 	// has_post_decrement
 	//
-	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(post_decrement, --);
+	SPROUT_DETAIL_HAS_POST_UNARY_OP_DECL(post_decrement, --);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_right_shift_assign.hpp b/sprout/type_traits/has_right_shift_assign.hpp
index 911cd73..5c3bbf1 100644
--- a/sprout/type_traits/has_right_shift_assign.hpp
+++ b/sprout/type_traits/has_right_shift_assign.hpp
@@ -5,12 +5,13 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_TYPE_TRAITS_HAS_SHIFT_RIGHT_ASSIGN_HPP
-#define SPROUT_TYPE_TRAITS_HAS_SHIFT_RIGHT_ASSIGN_HPP
+#ifndef SPROUT_TYPE_TRAITS_HAS_RIGHT_SHIFT_ASSIGN_HPP
+#define SPROUT_TYPE_TRAITS_HAS_RIGHT_SHIFT_ASSIGN_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/type_traits/dont_care.hpp>
 #include <sprout/type_traits/has_shift_right_assign.hpp>
+#include <sprout/type_traits/const_reference.hpp>
 
 namespace sprout {
 	//
@@ -18,7 +19,7 @@ namespace sprout {
 	//
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
 	struct has_right_shift_assign
-		: public sprout::has_shift_right<T, U, R>
+		: public sprout::has_shift_right_assign<T, U, R>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
@@ -27,4 +28,4 @@ namespace sprout {
 #endif	// #if SPROUT_USE_VARIABLE_TEMPLATES
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_SHIFT_RIGHT_ASSIGN_HPP
+#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_RIGHT_SHIFT_ASSIGN_HPP
-- 
2.43.0


From 8dcb1e30226573d95177e44002928ac6a724bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:47 +0000
Subject: [PATCH 04/85] fix: valarray math functions: own include guard,
 y.begin() as second range, const call operators

---
 sprout/valarray/exponential.hpp   | 16 +++++++--------
 sprout/valarray/hyperbolic.hpp    | 12 +++++------
 sprout/valarray/power.hpp         | 18 ++++++++---------
 sprout/valarray/trigonometric.hpp | 33 +++++++++++++++++--------------
 4 files changed, 41 insertions(+), 38 deletions(-)

diff --git a/sprout/valarray/exponential.hpp b/sprout/valarray/exponential.hpp
index b7fa551..f304176 100644
--- a/sprout/valarray/exponential.hpp
+++ b/sprout/valarray/exponential.hpp
@@ -99,7 +99,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_exp(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp(std::declval<T>()))
 			{
 				return sprout_math_detail::call_exp(SPROUT_FORWARD(T, x));
@@ -111,7 +111,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_exp10(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp10(std::declval<T>()))
 			{
 				return sprout_math_detail::call_exp10(SPROUT_FORWARD(T, x));
@@ -123,7 +123,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_exp2(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp2(std::declval<T>()))
 			{
 				return sprout_math_detail::call_exp2(SPROUT_FORWARD(T, x));
@@ -135,7 +135,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_expm1(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_expm1(std::declval<T>()))
 			{
 				return sprout_math_detail::call_expm1(SPROUT_FORWARD(T, x));
@@ -147,7 +147,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log(SPROUT_FORWARD(T, x));
@@ -159,7 +159,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log10(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log10(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log10(SPROUT_FORWARD(T, x));
@@ -171,7 +171,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log1p(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log1p(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log1p(SPROUT_FORWARD(T, x));
@@ -183,7 +183,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log2(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log2(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log2(SPROUT_FORWARD(T, x));
diff --git a/sprout/valarray/hyperbolic.hpp b/sprout/valarray/hyperbolic.hpp
index c7dba6b..9a36f6f 100644
--- a/sprout/valarray/hyperbolic.hpp
+++ b/sprout/valarray/hyperbolic.hpp
@@ -81,7 +81,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_acosh(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acosh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_acosh(SPROUT_FORWARD(T, x));
@@ -93,7 +93,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_asinh(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asinh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_asinh(SPROUT_FORWARD(T, x));
@@ -105,7 +105,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atanh(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atanh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_atanh(SPROUT_FORWARD(T, x));
@@ -117,7 +117,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_cosh(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cosh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_cosh(SPROUT_FORWARD(T, x));
@@ -129,7 +129,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_sinh(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sinh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_sinh(SPROUT_FORWARD(T, x));
@@ -141,7 +141,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_tanh(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tanh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_tanh(SPROUT_FORWARD(T, x));
diff --git a/sprout/valarray/power.hpp b/sprout/valarray/power.hpp
index 448af94..5e67f02 100644
--- a/sprout/valarray/power.hpp
+++ b/sprout/valarray/power.hpp
@@ -83,7 +83,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_cbrt(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cbrt(std::declval<T>()))
 			{
 				return sprout_math_detail::call_cbrt(SPROUT_FORWARD(T, x));
@@ -95,7 +95,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_abs(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_abs(std::declval<T>()))
 			{
 				return sprout_math_detail::call_abs(SPROUT_FORWARD(T, x));
@@ -107,7 +107,7 @@ namespace sprout {
 		public:
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
-			operator()(T&& x, U&& y)
+			operator()(T&& x, U&& y) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_hypot(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
@@ -119,7 +119,7 @@ namespace sprout {
 		public:
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
-			operator()(T&& x, U&& y)
+			operator()(T&& x, U&& y) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_pow(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
@@ -131,7 +131,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_sqrt(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sqrt(std::declval<T>()))
 			{
 				return sprout_math_detail::call_sqrt(SPROUT_FORWARD(T, x));
@@ -143,7 +143,7 @@ namespace sprout {
 		public:
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
-			operator()(T&& x, U&& y)
+			operator()(T&& x, U&& y) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_log_a(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
@@ -173,7 +173,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	hypot(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::hypot_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::hypot_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
@@ -191,7 +191,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	pow(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::pow_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::pow_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
@@ -217,7 +217,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	log_a(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::log_a_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::log_a_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
diff --git a/sprout/valarray/trigonometric.hpp b/sprout/valarray/trigonometric.hpp
index 2af3144..5037d71 100644
--- a/sprout/valarray/trigonometric.hpp
+++ b/sprout/valarray/trigonometric.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_VALARRAY_BITWISE_HPP
-#define SPROUT_VALARRAY_BITWISE_HPP
+#ifndef SPROUT_VALARRAY_TRIGONOMETRIC_HPP
+#define SPROUT_VALARRAY_TRIGONOMETRIC_HPP
 
 #include <utility>
 #include <sprout/workaround/std/cstddef.hpp>
@@ -20,6 +20,9 @@
 #include <sprout/math/sin.hpp>
 #include <sprout/math/tan.hpp>
 #include <sprout/utility/forward.hpp>
+#include <sprout/functional/transparent.hpp>
+#include <sprout/functional/bind2nd.hpp>
+#include <sprout/functional/bind1st.hpp>
 
 namespace sprout_math_detail {
 	using sprout::math::acos;
@@ -56,7 +59,7 @@ namespace sprout_math_detail {
 	call_atan2(T&& x, U&& y)
 	SPROUT_NOEXCEPT_IF_EXPR(atan2(std::declval<T>(), std::declval<U>()))
 	{
-		return atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, u));
+		return atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 	}
 	template<typename T>
 	inline SPROUT_CONSTEXPR decltype(cos(std::declval<T>()))
@@ -89,7 +92,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_acos(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acos(std::declval<T>()))
 			{
 				return sprout_math_detail::call_acos(SPROUT_FORWARD(T, x));
@@ -101,7 +104,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_asin(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asin(std::declval<T>()))
 			{
 				return sprout_math_detail::call_asin(SPROUT_FORWARD(T, x));
@@ -113,7 +116,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atan(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan(std::declval<T>()))
 			{
 				return sprout_math_detail::call_atan(SPROUT_FORWARD(T, x));
@@ -125,7 +128,7 @@ namespace sprout {
 		public:
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
-			operator()(T&& x, U&& y)
+			operator()(T&& x, U&& y) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
@@ -137,7 +140,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_cos(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cos(std::declval<T>()))
 			{
 				return sprout_math_detail::call_cos(SPROUT_FORWARD(T, x));
@@ -149,7 +152,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_sin(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sin(std::declval<T>()))
 			{
 				return sprout_math_detail::call_sin(SPROUT_FORWARD(T, x));
@@ -161,7 +164,7 @@ namespace sprout {
 		public:
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_tan(std::declval<T>()))
-			operator()(T&& x)
+			operator()(T&& x) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tan(std::declval<T>()))
 			{
 				return sprout_math_detail::call_tan(SPROUT_FORWARD(T, x));
@@ -199,17 +202,17 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	atan2(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::atan2_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::atan2_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
-	atan2(sprout::valarray<T, N> const& lhs, T const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), x, sprout::bind2nd(sprout::detail::atan2_f()()), y));
+	atan2(sprout::valarray<T, N> const& x, T const& y) {
+		return sprout::fixed::transform(x.begin(), x.end(), x, sprout::bind2nd(sprout::detail::atan2_f(), y));
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	atan2(T const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(y.begin(), y.end(), y, sprout::bind1st(sprout::detail::atan2_f()()), x));
+		return sprout::fixed::transform(y.begin(), y.end(), y, sprout::bind1st(sprout::detail::atan2_f(), x));
 	}
 	//
 	// cos
@@ -237,4 +240,4 @@ namespace sprout {
 	}
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_VALARRAY_BITWISE_HPP
+#endif	// #ifndef SPROUT_VALARRAY_TRIGONOMETRIC_HPP
-- 
2.43.0


From 679f9c89f644f3277653baaaf5838d8e44f41ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:47 +0000
Subject: [PATCH 05/85] fix: headers include what they use, so that each public
 header compiles on its own

---
 sprout/algorithm/cxx14/generate_n.hpp             | 2 ++
 sprout/algorithm/fit/copy_until.hpp               | 2 +-
 sprout/algorithm/fit/set_difference.hpp           | 2 +-
 sprout/algorithm/fit/set_intersection.hpp         | 2 +-
 sprout/algorithm/fit/set_symmetric_difference.hpp | 2 +-
 sprout/algorithm/fixed/fill.hpp                   | 1 +
 sprout/algorithm/string/join.hpp                  | 1 +
 sprout/brainfuck/misa.hpp                         | 1 +
 sprout/brainfuck/ook.hpp                          | 1 +
 sprout/complex/exp.hpp                            | 1 +
 sprout/complex/perp.hpp                           | 1 +
 sprout/compost/sources/source.hpp                 | 1 +
 sprout/darkroom/lights/calculate.hpp              | 1 +
 sprout/detail/io_fwd.hpp                          | 1 +
 sprout/iterator/detail/iterator_base.hpp          | 1 +
 sprout/math/float2_significand.hpp                | 1 +
 sprout/numeric/cxx14/exclusive_scan.hpp           | 1 +
 sprout/numeric/fft/fixed/ifft.hpp                 | 1 +
 sprout/random/detail/const_mod.hpp                | 1 +
 sprout/random/poisson_distribution.hpp            | 1 +
 sprout/random/variate_generator.hpp               | 1 +
 sprout/tuple/boost/array.hpp                      | 2 +-
 sprout/type/type_tuple_decl.hpp                   | 3 +++
 sprout/type_traits/is_nothrow_invocable_r.hpp     | 1 +
 sprout/type_traits/is_trivially_destructible.hpp  | 1 +
 sprout/utility/use_default.hpp                    | 1 +
 sprout/uuid/uuid.hpp                              | 1 +
 27 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/sprout/algorithm/cxx14/generate_n.hpp b/sprout/algorithm/cxx14/generate_n.hpp
index 50a2f49..6b9fde0 100644
--- a/sprout/algorithm/cxx14/generate_n.hpp
+++ b/sprout/algorithm/cxx14/generate_n.hpp
@@ -9,6 +9,8 @@
 #define SPROUT_ALGORITHM_CXX14_GENERATE_N_HPP
 
 #include <sprout/config.hpp>
+#include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/iterator/type_traits/is_iterator_of.hpp>
 
 namespace sprout {
 	//
diff --git a/sprout/algorithm/fit/copy_until.hpp b/sprout/algorithm/fit/copy_until.hpp
index a745918..59bdf97 100644
--- a/sprout/algorithm/fit/copy_until.hpp
+++ b/sprout/algorithm/fit/copy_until.hpp
@@ -13,7 +13,7 @@
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/algorithm/find_if.hpp>
-#include <sprout/algorithm/fixed/copy_while.hpp>
+#include <sprout/algorithm/fixed/copy_until.hpp>
 #include <sprout/algorithm/fit/results.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
diff --git a/sprout/algorithm/fit/set_difference.hpp b/sprout/algorithm/fit/set_difference.hpp
index fbe0ef9..b25a221 100644
--- a/sprout/algorithm/fit/set_difference.hpp
+++ b/sprout/algorithm/fit/set_difference.hpp
@@ -12,7 +12,7 @@
 #include <sprout/iterator/distance.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
-#include <sprout/algorithm/fixed/set_union.hpp>
+#include <sprout/algorithm/fixed/set_difference.hpp>
 #include <sprout/algorithm/fit/results.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
diff --git a/sprout/algorithm/fit/set_intersection.hpp b/sprout/algorithm/fit/set_intersection.hpp
index 34df2af..b9be539 100644
--- a/sprout/algorithm/fit/set_intersection.hpp
+++ b/sprout/algorithm/fit/set_intersection.hpp
@@ -11,7 +11,7 @@
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
-#include <sprout/algorithm/fixed/set_union.hpp>
+#include <sprout/algorithm/fixed/set_intersection.hpp>
 #include <sprout/algorithm/fit/results.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
diff --git a/sprout/algorithm/fit/set_symmetric_difference.hpp b/sprout/algorithm/fit/set_symmetric_difference.hpp
index 1303158..fab90d2 100644
--- a/sprout/algorithm/fit/set_symmetric_difference.hpp
+++ b/sprout/algorithm/fit/set_symmetric_difference.hpp
@@ -12,7 +12,7 @@
 #include <sprout/iterator/distance.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
-#include <sprout/algorithm/fixed/set_union.hpp>
+#include <sprout/algorithm/fixed/set_symmetric_difference.hpp>
 #include <sprout/algorithm/fit/results.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
diff --git a/sprout/algorithm/fixed/fill.hpp b/sprout/algorithm/fixed/fill.hpp
index 0b9e3e0..341cce5 100644
--- a/sprout/algorithm/fixed/fill.hpp
+++ b/sprout/algorithm/fixed/fill.hpp
@@ -16,6 +16,7 @@
 #include <sprout/iterator/value_iterator.hpp>
 #include <sprout/algorithm/fixed/results.hpp>
 #include <sprout/pit/pit.hpp>
+#include <sprout/container/indexes.hpp>
 
 namespace sprout {
 	namespace fixed {
diff --git a/sprout/algorithm/string/join.hpp b/sprout/algorithm/string/join.hpp
index 29c5b58..7d8a2bd 100644
--- a/sprout/algorithm/string/join.hpp
+++ b/sprout/algorithm/string/join.hpp
@@ -21,6 +21,7 @@
 #include <sprout/range/numeric/fixed/partial_sum.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
 #include <sprout/type_traits/is_c_str.hpp>
+#include <sprout/array/array.hpp>
 
 namespace sprout {
 	namespace algorithm {
diff --git a/sprout/brainfuck/misa.hpp b/sprout/brainfuck/misa.hpp
index 8919c6f..d201d3a 100644
--- a/sprout/brainfuck/misa.hpp
+++ b/sprout/brainfuck/misa.hpp
@@ -23,6 +23,7 @@
 #include <sprout/weed/parser/directive/replace.hpp>
 #include <sprout/weed/operator.hpp>
 #include <sprout/brainfuck/detail/convert.hpp>
+#include <sprout/brainfuck/brainfuck.hpp>
 
 namespace sprout {
 	namespace brainfuck {
diff --git a/sprout/brainfuck/ook.hpp b/sprout/brainfuck/ook.hpp
index ab87f54..ae2a6a9 100644
--- a/sprout/brainfuck/ook.hpp
+++ b/sprout/brainfuck/ook.hpp
@@ -23,6 +23,7 @@
 #include <sprout/weed/parser/directive/replace.hpp>
 #include <sprout/weed/operator.hpp>
 #include <sprout/brainfuck/detail/convert.hpp>
+#include <sprout/brainfuck/brainfuck.hpp>
 
 namespace sprout {
 	namespace brainfuck {
diff --git a/sprout/complex/exp.hpp b/sprout/complex/exp.hpp
index 29f0495..b056132 100644
--- a/sprout/complex/exp.hpp
+++ b/sprout/complex/exp.hpp
@@ -18,6 +18,7 @@
 #include <sprout/complex/polar.hpp>
 #include <sprout/complex/euler.hpp>
 #include <sprout/complex/detail/copysign_mul.hpp>
+#include <sprout/math/exp.hpp>
 
 namespace sprout {
 	//
diff --git a/sprout/complex/perp.hpp b/sprout/complex/perp.hpp
index 572c5b0..6a54d46 100644
--- a/sprout/complex/perp.hpp
+++ b/sprout/complex/perp.hpp
@@ -13,6 +13,7 @@
 #include <sprout/complex/complex.hpp>
 #include <sprout/type_traits/float_promote.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/type_traits/complex_promote.hpp>
 
 namespace sprout {
 	//
diff --git a/sprout/compost/sources/source.hpp b/sprout/compost/sources/source.hpp
index 60381be..3d257b5 100644
--- a/sprout/compost/sources/source.hpp
+++ b/sprout/compost/sources/source.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_COMPOST_SOURCES_SOURCE_HPP
 #define SPROUT_COMPOST_SOURCES_SOURCE_HPP
 
+#include <cstdint>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/array/array.hpp>
diff --git a/sprout/darkroom/lights/calculate.hpp b/sprout/darkroom/lights/calculate.hpp
index efda0b2..f189372 100644
--- a/sprout/darkroom/lights/calculate.hpp
+++ b/sprout/darkroom/lights/calculate.hpp
@@ -14,6 +14,7 @@
 #include <sprout/type_traits/enabler_if.hpp>
 #include <sprout/darkroom/access/traits.hpp>
 #include <sprout/darkroom/access/access.hpp>
+#include <sprout/darkroom/colors/rgb.hpp>
 
 namespace sprout {
 	namespace darkroom {
diff --git a/sprout/detail/io_fwd.hpp b/sprout/detail/io_fwd.hpp
index ff34866..3528a1f 100644
--- a/sprout/detail/io_fwd.hpp
+++ b/sprout/detail/io_fwd.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_DETAIL_IO_FWD_HPP
 #define SPROUT_DETAIL_IO_FWD_HPP
 
+#include <string>
 #include <sprout/config.hpp>
 
 namespace sprout {
diff --git a/sprout/iterator/detail/iterator_base.hpp b/sprout/iterator/detail/iterator_base.hpp
index 164e95a..59bffbf 100644
--- a/sprout/iterator/detail/iterator_base.hpp
+++ b/sprout/iterator/detail/iterator_base.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/iterator/iterator.hpp>
 #include <sprout/utility/use_default.hpp>
+#include <sprout/type_traits/identity.hpp>
 
 namespace sprout {
 	namespace detail {
diff --git a/sprout/math/float2_significand.hpp b/sprout/math/float2_significand.hpp
index c3098eb..4287d85 100644
--- a/sprout/math/float2_significand.hpp
+++ b/sprout/math/float2_significand.hpp
@@ -16,6 +16,7 @@
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/float2_exponent.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/math/float_significand.hpp>
 
 namespace sprout {
 	namespace math {
diff --git a/sprout/numeric/cxx14/exclusive_scan.hpp b/sprout/numeric/cxx14/exclusive_scan.hpp
index 0856eb1..7a300dd 100644
--- a/sprout/numeric/cxx14/exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/exclusive_scan.hpp
@@ -12,6 +12,7 @@
 #include <sprout/utility/move.hpp>
 #include <sprout/iterator/type_traits/is_iterator_of.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/functional/plus.hpp>
 
 namespace sprout {
 	//
diff --git a/sprout/numeric/fft/fixed/ifft.hpp b/sprout/numeric/fft/fixed/ifft.hpp
index e3f0872..8a273fe 100644
--- a/sprout/numeric/fft/fixed/ifft.hpp
+++ b/sprout/numeric/fft/fixed/ifft.hpp
@@ -14,6 +14,7 @@
 #include <sprout/complex.hpp>
 #include <sprout/pit/pit.hpp>
 #include <sprout/numeric/fft/coefficients.hpp>
+#include <sprout/numeric/fft/fixed/fft.hpp>
 
 
 namespace sprout {
diff --git a/sprout/random/detail/const_mod.hpp b/sprout/random/detail/const_mod.hpp
index 75e895d..0e92781 100644
--- a/sprout/random/detail/const_mod.hpp
+++ b/sprout/random/detail/const_mod.hpp
@@ -9,6 +9,7 @@
 #define SPROUT_RANDOM_DETAIL_CONST_MOD_HPP
 
 #include <type_traits>
+#include <cstdint>
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
 #include <sprout/assert.hpp>
diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index aceeb0f..bb20d18 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -20,6 +20,7 @@
 #include <sprout/random/uniform_01.hpp>
 #include <sprout/random/results.hpp>
 #include <sprout/assert.hpp>
+#include <sprout/math/exp.hpp>
 #ifdef SPROUT_WORKAROUND_NOT_TERMINATE_RECURSIVE_CONSTEXPR_FUNCTION_TEMPLATE
 #	include <sprout/workaround/recursive_function_template.hpp>
 #endif
diff --git a/sprout/random/variate_generator.hpp b/sprout/random/variate_generator.hpp
index 986bb17..403a78e 100644
--- a/sprout/random/variate_generator.hpp
+++ b/sprout/random/variate_generator.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/random/detail/ptr_helper.hpp>
 #include <sprout/random/random_result_fwd.hpp>
+#include <sprout/type_traits/integral_constant.hpp>
 #include <sprout/type_traits/lvalue_reference.hpp>
 #include <sprout/utility/lvalue_forward.hpp>
 #include <sprout/utility/as_const.hpp>
diff --git a/sprout/tuple/boost/array.hpp b/sprout/tuple/boost/array.hpp
index d7b4edd..bba7998 100644
--- a/sprout/tuple/boost/array.hpp
+++ b/sprout/tuple/boost/array.hpp
@@ -9,7 +9,7 @@
 #define SPROUT_TUPLE_BOOST_ARRAY_HPP
 
 #include <type_traits>
-#include <array>
+#include <boost/array.hpp>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/utility/move.hpp>
diff --git a/sprout/type/type_tuple_decl.hpp b/sprout/type/type_tuple_decl.hpp
index dcc87b6..d1118cd 100644
--- a/sprout/type/type_tuple_decl.hpp
+++ b/sprout/type/type_tuple_decl.hpp
@@ -26,6 +26,9 @@ namespace sprout {
 		template<typename... Types>
 		struct type_tuple;
 
+		template<typename Tuple, std::ptrdiff_t Index>
+		struct index_iterator;
+
 		namespace detail {
 			template<typename Tup>
 			struct head_element;
diff --git a/sprout/type_traits/is_nothrow_invocable_r.hpp b/sprout/type_traits/is_nothrow_invocable_r.hpp
index b5780d6..31470e6 100644
--- a/sprout/type_traits/is_nothrow_invocable_r.hpp
+++ b/sprout/type_traits/is_nothrow_invocable_r.hpp
@@ -14,6 +14,7 @@
 #include <sprout/type_traits/invoke_result.hpp>
 #include <sprout/type_traits/voider.hpp>
 #include <sprout/type_traits/detail/invoke.hpp>
+#include <sprout/type_traits/is_invocable_r.hpp>
 
 namespace sprout {
 	//
diff --git a/sprout/type_traits/is_trivially_destructible.hpp b/sprout/type_traits/is_trivially_destructible.hpp
index 30b4e89..913fc2c 100644
--- a/sprout/type_traits/is_trivially_destructible.hpp
+++ b/sprout/type_traits/is_trivially_destructible.hpp
@@ -13,6 +13,7 @@
 #include <sprout/detail/predef.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
 #include <sprout/type_traits/detail/type_traits_wrapper.hpp>
+#include <sprout/type_traits/is_destructible.hpp>
 
 namespace sprout {
 	//
diff --git a/sprout/utility/use_default.hpp b/sprout/utility/use_default.hpp
index e7b49e0..5308157 100644
--- a/sprout/utility/use_default.hpp
+++ b/sprout/utility/use_default.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/type_traits/is_same.hpp>
 
 namespace sprout {
 	//
diff --git a/sprout/uuid/uuid.hpp b/sprout/uuid/uuid.hpp
index c1f5770..0202dff 100644
--- a/sprout/uuid/uuid.hpp
+++ b/sprout/uuid/uuid.hpp
@@ -11,6 +11,7 @@
 #include <utility>
 #include <stdexcept>
 #include <type_traits>
+#include <cstdint>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/iterator/operation.hpp>
-- 
2.43.0


From b95bb917a968a69b0a0f7fee0388e3ffef0bf817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:48 +0000
Subject: [PATCH 06/85] fix: range::equal/mismatch/is_permutation stop at the
 end of the second range, range::partition_copy takes both outputs

---
 sprout/range/algorithm/cxx14/partition_copy.hpp | 11 ++++++-----
 sprout/range/algorithm/equal.hpp                |  4 ++--
 sprout/range/algorithm/is_permutation.hpp       |  4 ++--
 sprout/range/algorithm/mismatch.hpp             |  4 +++-
 4 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/sprout/range/algorithm/cxx14/partition_copy.hpp b/sprout/range/algorithm/cxx14/partition_copy.hpp
index 716ac5f..84ae027 100644
--- a/sprout/range/algorithm/cxx14/partition_copy.hpp
+++ b/sprout/range/algorithm/cxx14/partition_copy.hpp
@@ -12,6 +12,7 @@
 #include <sprout/container/functions.hpp>
 #include <sprout/iterator/type_traits/is_iterator_of.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/utility/pair/pair.hpp>
 #include <sprout/algorithm/cxx14/partition_copy.hpp>
 
 namespace sprout {
@@ -20,12 +21,12 @@ namespace sprout {
 		// partition_copy
 		//
 		template<
-			typename InputRange, typename OutputIterator, typename Predicate,
-			typename sprout::enabler_if<sprout::is_iterator_outputable<OutputIterator>::value>::type = sprout::enabler
+			typename InputRange, typename OutputIterator1, typename OutputIterator2, typename Predicate,
+			typename sprout::enabler_if<sprout::is_iterator_outputable<OutputIterator1>::value && sprout::is_iterator_outputable<OutputIterator2>::value>::type = sprout::enabler
 		>
-		inline SPROUT_CXX14_CONSTEXPR OutputIterator
-		partition_copy(InputRange const& rng, OutputIterator result, Predicate pred) {
-			return sprout::partition_copy(sprout::begin(rng), sprout::end(rng), result, pred);
+		inline SPROUT_CXX14_CONSTEXPR sprout::pair<OutputIterator1, OutputIterator2>
+		partition_copy(InputRange const& rng, OutputIterator1 out_true, OutputIterator2 out_false, Predicate pred) {
+			return sprout::partition_copy(sprout::begin(rng), sprout::end(rng), out_true, out_false, pred);
 		}
 	}	// namespace range
 }	// namespace sprout
diff --git a/sprout/range/algorithm/equal.hpp b/sprout/range/algorithm/equal.hpp
index 9eafe2f..476ffe2 100644
--- a/sprout/range/algorithm/equal.hpp
+++ b/sprout/range/algorithm/equal.hpp
@@ -22,13 +22,13 @@ namespace sprout {
 		template<typename InputRange1, typename InputRange2>
 		inline SPROUT_CONSTEXPR bool
 		equal(InputRange1 const& range1, InputRange2 const& range2) {
-			return sprout::equal(sprout::begin(range1), sprout::end(range1), sprout::begin(range2));
+			return sprout::equal(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), sprout::end(range2));
 		}
 
 		template<typename InputRange1, typename InputRange2, typename BinaryPredicate>
 		inline SPROUT_CONSTEXPR bool
 		equal(InputRange1 const& range1, InputRange2 const& range2, BinaryPredicate pred) {
-			return sprout::equal(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), pred);
+			return sprout::equal(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), sprout::end(range2), pred);
 		}
 	}	// namespace range
 }	// namespace sprout
diff --git a/sprout/range/algorithm/is_permutation.hpp b/sprout/range/algorithm/is_permutation.hpp
index c0a7b78..714d494 100644
--- a/sprout/range/algorithm/is_permutation.hpp
+++ b/sprout/range/algorithm/is_permutation.hpp
@@ -22,13 +22,13 @@ namespace sprout {
 		template<typename ForwardRange1, typename ForwardRange2>
 		inline SPROUT_CONSTEXPR bool
 		is_permutation(ForwardRange1 const& range1, ForwardRange2 const& range2) {
-			return sprout::is_permutation(sprout::begin(range1), sprout::end(range1), sprout::begin(range2));
+			return sprout::is_permutation(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), sprout::end(range2));
 		}
 
 		template<typename ForwardRange1, typename ForwardRange2, typename BinaryPredicate>
 		inline SPROUT_CONSTEXPR bool
 		is_permutation(ForwardRange1 const& range1, ForwardRange2 const& range2, BinaryPredicate pred) {
-			return sprout::is_permutation(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), pred);
+			return sprout::is_permutation(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), sprout::end(range2), pred);
 		}
 	}	// namespace range
 }	// namespace sprout
diff --git a/sprout/range/algorithm/mismatch.hpp b/sprout/range/algorithm/mismatch.hpp
index 5f95b4e..69a217a 100644
--- a/sprout/range/algorithm/mismatch.hpp
+++ b/sprout/range/algorithm/mismatch.hpp
@@ -31,7 +31,8 @@ namespace sprout {
 			return sprout::mismatch(
 				sprout::begin(SPROUT_FORWARD(InputRange1, range1)),
 				sprout::end(SPROUT_FORWARD(InputRange1, range1)),
-				sprout::begin(SPROUT_FORWARD(InputRange2, range2))
+				sprout::begin(SPROUT_FORWARD(InputRange2, range2)),
+				sprout::end(SPROUT_FORWARD(InputRange2, range2))
 				);
 		}
 
@@ -45,6 +46,7 @@ namespace sprout {
 				sprout::begin(SPROUT_FORWARD(InputRange1, range1)),
 				sprout::end(SPROUT_FORWARD(InputRange1, range1)),
 				sprout::begin(SPROUT_FORWARD(InputRange2, range2)),
+				sprout::end(SPROUT_FORWARD(InputRange2, range2)),
 				pred
 				);
 		}
-- 
2.43.0


From 42540635c8b7ae3a9ef6784b90174fafb8847449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 07/85] fix: fixed::transform_inclusive_scan with init passes
 each argument once

---
 sprout/numeric/fixed/transform_inclusive_scan.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/numeric/fixed/transform_inclusive_scan.hpp b/sprout/numeric/fixed/transform_inclusive_scan.hpp
index 0d3ca49..6c43859 100644
--- a/sprout/numeric/fixed/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_inclusive_scan.hpp
@@ -102,7 +102,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T,
+				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
@@ -114,7 +114,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T init,
+				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T init,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
@@ -176,7 +176,7 @@ namespace sprout {
 	template<typename Result, typename InputIterator, typename BinaryOperation, typename UnaryOperation, typename T>
 	inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 	transform_inclusive_scan(InputIterator first, InputIterator last, BinaryOperation binary_op, UnaryOperation unary_op, T init) {
-		return sprout::fixed::transform_inclusive_scan<Result>(first, last, binary_op, unary_op, unary_op, init);
+		return sprout::fixed::transform_inclusive_scan<Result>(first, last, binary_op, unary_op, init);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 571cb5d5345e9a2ac0c3ffc64cf230374349b10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:22 +0000
Subject: [PATCH 08/85] fix: sub_array equality compares lengths, npos < x is
 never true

---
 sprout/string/npos.hpp          | 2 +-
 sprout/sub_array/comparison.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/string/npos.hpp b/sprout/string/npos.hpp
index b2fa1af..630bb74 100644
--- a/sprout/string/npos.hpp
+++ b/sprout/string/npos.hpp
@@ -78,7 +78,7 @@ namespace sprout {
 	template<typename UIntType, typename sprout::enabler_if<sprout::is_uint<UIntType>::value>::type = sprout::enabler>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::npos_t lhs, UIntType const& rhs) {
-		return rhs == lhs;
+		return UIntType(lhs) < rhs;
 	}
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::npos_t, sprout::npos_t) {
diff --git a/sprout/sub_array/comparison.hpp b/sprout/sub_array/comparison.hpp
index 3d59886..2d31b8e 100644
--- a/sprout/sub_array/comparison.hpp
+++ b/sprout/sub_array/comparison.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
 	operator==(sprout::sub_array<Container> const& lhs, sprout::sub_array<Container> const& rhs) {
-		return sprout::equal(sprout::begin(lhs), sprout::end(lhs), sprout::begin(rhs));
+		return sprout::equal(sprout::begin(lhs), sprout::end(lhs), sprout::begin(rhs), sprout::end(rhs));
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From 439c2a0c68c338f1cc9a292d99f657c39b2ac6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:55 +0000
Subject: [PATCH 09/85] fix: dft_iterator and idft_iterator can be advanced and
 compared

---
 sprout/iterator/dft_iterator.hpp  | 17 ++++++++++-------
 sprout/iterator/idft_iterator.hpp | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/sprout/iterator/dft_iterator.hpp b/sprout/iterator/dft_iterator.hpp
index 7f2b5d4..e751079 100644
--- a/sprout/iterator/dft_iterator.hpp
+++ b/sprout/iterator/dft_iterator.hpp
@@ -71,11 +71,14 @@ namespace sprout {
 			: first_(first), last_(last), index_(index)
 			, size_(sprout::distance(first, last))
 		{}
+		SPROUT_CONSTEXPR difference_type index() const {
+			return index_;
+		}
 		SPROUT_CONSTEXPR dft_iterator next() const {
-			return dft_iterator(first_, last_, index_, index_ + 1, size_);
+			return dft_iterator(first_, last_, index_ + 1, size_);
 		}
 		SPROUT_CONSTEXPR dft_iterator prev() const {
-			return dft_iterator(first_, last_, index_, index_ - 1, size_);
+			return dft_iterator(first_, last_, index_ - 1, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(dft_iterator& other)
 		SPROUT_NOEXCEPT_IF(
@@ -112,18 +115,18 @@ namespace sprout {
 			return result;
 		}
 		SPROUT_CONSTEXPR dft_iterator operator+(difference_type n) const {
-			return dft_iterator(first_, last_, index_, index_ + n, size_);
+			return dft_iterator(first_, last_, index_ + n, size_);
 		}
 		SPROUT_CONSTEXPR dft_iterator operator-(difference_type n) const {
-			return dft_iterator(first_, last_, index_, index_ - n, size_);
+			return dft_iterator(first_, last_, index_ - n, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR dft_iterator& operator+=(difference_type n) {
-			dft_iterator temp(first_, last_, index_, index_ + n, size_);
+			dft_iterator temp(first_, last_, index_ + n, size_);
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR dft_iterator& operator-=(difference_type n) {
-			dft_iterator temp(first_, last_, index_, index_ - n, size_);
+			dft_iterator temp(first_, last_, index_ - n, size_);
 			temp.swap(*this);
 			return *this;
 		}
@@ -145,7 +148,7 @@ namespace sprout {
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::dft_iterator<Iterator> const& lhs, sprout::dft_iterator<Iterator> const& rhs) {
-		return lhs.index_ < rhs.index_;
+		return lhs.index() < rhs.index();
 	}
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR bool
diff --git a/sprout/iterator/idft_iterator.hpp b/sprout/iterator/idft_iterator.hpp
index 4a865a1..3e91382 100644
--- a/sprout/iterator/idft_iterator.hpp
+++ b/sprout/iterator/idft_iterator.hpp
@@ -71,11 +71,14 @@ namespace sprout {
 			: first_(first), last_(last), index_(index)
 			, size_(sprout::distance(first, last))
 		{}
+		SPROUT_CONSTEXPR difference_type index() const {
+			return index_;
+		}
 		SPROUT_CONSTEXPR idft_iterator next() const {
-			return idft_iterator(first_, last_, index_, index_ + 1, size_);
+			return idft_iterator(first_, last_, index_ + 1, size_);
 		}
 		SPROUT_CONSTEXPR idft_iterator prev() const {
-			return idft_iterator(first_, last_, index_, index_ - 1, size_);
+			return idft_iterator(first_, last_, index_ - 1, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(idft_iterator& other)
 		SPROUT_NOEXCEPT_IF(
@@ -112,18 +115,18 @@ namespace sprout {
 			return result;
 		}
 		SPROUT_CONSTEXPR idft_iterator operator+(difference_type n) const {
-			return idft_iterator(first_, last_, index_, index_ + n, size_);
+			return idft_iterator(first_, last_, index_ + n, size_);
 		}
 		SPROUT_CONSTEXPR idft_iterator operator-(difference_type n) const {
-			return idft_iterator(first_, last_, index_, index_ - n, size_);
+			return idft_iterator(first_, last_, index_ - n, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR idft_iterator& operator+=(difference_type n) {
-			idft_iterator temp(first_, last_, index_, index_ + n, size_);
+			idft_iterator temp(first_, last_, index_ + n, size_);
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR idft_iterator& operator-=(difference_type n) {
-			idft_iterator temp(first_, last_, index_, index_ - n, size_);
+			idft_iterator temp(first_, last_, index_ - n, size_);
 			temp.swap(*this);
 			return *this;
 		}
@@ -145,7 +148,7 @@ namespace sprout {
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::idft_iterator<Iterator> const& lhs, sprout::idft_iterator<Iterator> const& rhs) {
-		return lhs.index_ < rhs.index_;
+		return lhs.index() < rhs.index();
 	}
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From 0940fcd8b52462626b14e6c484b3ac350b561187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:23 +0000
Subject: [PATCH 10/85] fix: inner_product can be instantiated (binary_op1,
 initial step)

---
 sprout/numeric/inner_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/inner_product.hpp b/sprout/numeric/inner_product.hpp
index c29b198..e8cbce7 100644
--- a/sprout/numeric/inner_product.hpp
+++ b/sprout/numeric/inner_product.hpp
@@ -29,7 +29,7 @@ namespace sprout {
 			typename std::iterator_traits<RandomAccessIterator1>::difference_type pivot, T init
 			)
 		{
-			return pivot == 0 ? binary_op(init, binary_op2(*first1, *first2))
+			return pivot == 0 ? binary_op1(init, binary_op2(*first1, *first2))
 				: sprout::detail::inner_product_ra(
 					sprout::next(first1, pivot), last1, sprout::next(first2, pivot), binary_op1, binary_op2,
 					(sprout::distance(first1, last1) - pivot) / 2,
@@ -109,7 +109,7 @@ namespace sprout {
 			)
 		{
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, T> type;
-			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2));
+			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2, 1));
 		}
 	}	// namespace detail
 
-- 
2.43.0


From 4cc53f2affda657268b38613a778a3a886b33250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:07 +0000
Subject: [PATCH 11/85] fix: string find_*_of(iterator) overloads and valarray
 copy assignment can be instantiated

---
 sprout/string/string.hpp                   | 6 +++---
 sprout/utility/string_view/string_view.hpp | 6 +++---
 sprout/valarray/valarray.hpp               | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index f9f42f2..b4bff5f 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -1016,7 +1016,7 @@ namespace sprout {
 			is_string_iterator<StringConstIterator>::value,
 			size_type
 		>::type
-		find_last_of(StringConstIterator s, size_type pos = 0) const {
+		find_last_of(StringConstIterator s, size_type pos = npos) const {
 			return find_last_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
@@ -1033,7 +1033,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_first_not_of(StringConstIterator s, size_type pos = 0) const {
-			return sprout::string_detail::find_first_not_of_impl<basic_string>(s, pos, traits_type::length(s));
+			return find_first_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
@@ -1049,7 +1049,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_last_not_of(StringConstIterator s, size_type pos = npos) const {
-			return sprout::string_detail::find_last_not_of_impl<basic_string>(s, pos, traits_type::length(s));
+			return find_last_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 0618b92..672cd5b 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -505,7 +505,7 @@ namespace sprout {
 			is_string_view_iterator<ConstIterator>::value,
 			size_type
 		>::type
-		find_last_of(ConstIterator s, size_type pos = 0) const {
+		find_last_of(ConstIterator s, size_type pos = npos) const {
 			return find_last_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
@@ -522,7 +522,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_first_not_of(ConstIterator s, size_type pos = 0) const {
-			return sprout::string_detail::find_first_not_of_impl<basic_string_view>(s, pos, traits_type::length(s));
+			return find_first_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
@@ -538,7 +538,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_last_not_of(ConstIterator s, size_type pos = npos) const {
-			return sprout::string_detail::find_last_not_of_impl<basic_string_view>(s, pos, traits_type::length(s));
+			return find_last_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 4fe2156..467d76d 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -227,14 +227,14 @@ namespace sprout {
 		// assignment:
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator=(valarray const& rhs) {
-			impl_.array_ = rhs.array_;
-			impl_.size_ = rhs.size_;
+			impl_.array_ = rhs.impl_.array_;
+			impl_.size_ = rhs.impl_.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator=(valarray&& rhs) SPROUT_NOEXCEPT {
-			impl_.array_ = sprout::move(rhs.array_);
-			impl_.size_ = sprout::move(rhs.size_);
+			impl_.array_ = sprout::move(rhs.impl_.array_);
+			impl_.size_ = sprout::move(rhs.impl_.size_);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
-- 
2.43.0


From 3ecce40d537a585da9d704852337a34b9ec2e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 12/85] fix: quaternion constructor, complex*quaternion and
 quaternion division

---
 .../math/quaternion/arithmetic_operators.hpp  | 22 ++++++++++++++-----
 sprout/math/quaternion/quaternion.hpp         |  2 +-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index 89c90ea..95839a3 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -153,21 +153,31 @@ namespace sprout {
 					-c * br + d * ar
 					);
 			}
+			template<typename T>
+			inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
+			mul_cq_impl(T const& a, T const& b, T const& ar, T const& br, T const& cr, T const& dr) {
+				return sprout::math::quaternion<T>(
+					+a * ar - b * br,
+					+a * br + b * ar,
+					+a * cr - b * dr,
+					+a * dr + b * cr
+					);
+			}
 		}	// namespace detail
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator*(sprout::complex<T> const& lhs, sprout::math::quaternion<T> const& rhs) {
-			return sprout::math::detail::mul_qc_impl(
-				lhs.R_component_1(), lhs.R_component_2(), lhs.R_component_3(), lhs.R_component_4(),
-				rhs.real(), rhs.imag()
+			return sprout::math::detail::mul_cq_impl(
+				lhs.real(), lhs.imag(),
+				rhs.R_component_1(), rhs.R_component_2(), rhs.R_component_3(), rhs.R_component_4()
 				);
 		}
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator*(sprout::math::quaternion<T> const& lhs, sprout::complex<T> const& rhs) {
 			return sprout::math::detail::mul_qc_impl(
-				rhs.R_component_1(), rhs.R_component_2(), rhs.R_component_3(), rhs.R_component_4(),
-				lhs.real(), lhs.imag()
+				lhs.R_component_1(), lhs.R_component_2(), lhs.R_component_3(), lhs.R_component_4(),
+				rhs.real(), rhs.imag()
 				);
 		}
 		namespace detail {
@@ -224,7 +234,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 			div_qq_impl_3(sprout::array<T, 4> const& tr, T const& mixam, sprout::array<T, 4> const& tt) {
-				return sprout::math::detail::div_qq_impl_3(
+				return sprout::math::detail::div_qq_impl_4(
 					sprout::math::detail::mul(tt, mixam / sprout::math::detail::sum(tr))
 					);
 			}
diff --git a/sprout/math/quaternion/quaternion.hpp b/sprout/math/quaternion/quaternion.hpp
index e1988e5..9be6bba 100644
--- a/sprout/math/quaternion/quaternion.hpp
+++ b/sprout/math/quaternion/quaternion.hpp
@@ -370,7 +370,7 @@ namespace sprout {
 				type const& requested_c = static_cast<type>(0), \
 				type const& requested_d = static_cast<type>(0) \
 				) \
-				: elems_{{requested_a, requested_a, requested_c, requested_d}} \
+				: elems_{{requested_a, requested_b, requested_c, requested_d}} \
 			{} \
 			explicit SPROUT_CONSTEXPR quaternion( \
 				sprout::complex<type> const& z0, \
-- 
2.43.0


From da4d28524543e14decd1055c56f504e92897afa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 13/85] fix: insert_range_iterator advances by n as n
 increments would

---
 sprout/iterator/insert_range_iterator.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sprout/iterator/insert_range_iterator.hpp b/sprout/iterator/insert_range_iterator.hpp
index 6ef839c..fb3b495 100644
--- a/sprout/iterator/insert_range_iterator.hpp
+++ b/sprout/iterator/insert_range_iterator.hpp
@@ -51,20 +51,20 @@ namespace sprout {
 			return n >= 0
 				? current1 > pos1 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: current1 == pos1 ? current2 == last2 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
-						: n <= sprout::distance(current2, last2) ? insert_range_iterator(current1, pos1, last2, sprout::next(current2, n), first2, last2)
+						: n <= sprout::distance(current2, last2) ? insert_range_iterator(current1, pos1, sprout::next(current2, n), first2, last2)
 						: insert_range_iterator(sprout::next(current1, n - sprout::distance(current2, last2)), pos1, last2, first2, last2)
 					: n <= sprout::distance(current1, pos1) ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: n <= sprout::distance(current1, pos1) + sprout::distance(current2, last2)
-						? insert_range_iterator(pos1, pos1, last2, sprout::next(current2, n - sprout::distance(current1, pos1)), first2, last2)
-					: insert_range_iterator(sprout::next(current1, n - sprout::distance(current1, pos1) - sprout::distance(current2, last2)), pos1, last2, first2, last2)
+						? insert_range_iterator(pos1, pos1, sprout::next(current2, n - sprout::distance(current1, pos1)), first2, last2)
+					: insert_range_iterator(sprout::next(current1, n - sprout::distance(current2, last2)), pos1, last2, first2, last2)
 				: current1 < pos1 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: current1 == pos1 ? current2 == first2 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
-						: -n <= sprout::distance(first2, current2) ? insert_range_iterator(current1, pos1, last2, sprout::next(current2, n), first2, last2)
-						: insert_range_iterator(sprout::next(current1, n - sprout::distance(first2, current2)), pos1, first2, first2, last2)
+						: -n <= sprout::distance(first2, current2) ? insert_range_iterator(current1, pos1, sprout::next(current2, n), first2, last2)
+						: insert_range_iterator(sprout::next(current1, n + sprout::distance(first2, current2)), pos1, first2, first2, last2)
 					: -n <= sprout::distance(pos1, current1) ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: -n <= sprout::distance(pos1, current1) + sprout::distance(first2, current2)
-						? insert_range_iterator(pos1, pos1, last2, sprout::next(current2, n - sprout::distance(pos1, current1)), first2, last2)
-					: insert_range_iterator(sprout::next(current1, n - sprout::distance(pos1, current1) - sprout::distance(first2, current2)), pos1, first2, first2, last2)
+						? insert_range_iterator(pos1, pos1, sprout::next(current2, n + sprout::distance(pos1, current1)), first2, last2)
+					: insert_range_iterator(sprout::next(current1, n + sprout::distance(first2, current2)), pos1, first2, first2, last2)
 				;
 		}
 	public:
-- 
2.43.0


From cfdf3b8932df388b46c465df308b2f110d047113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 14/85] fix: square takes and triangle does not take a duty;
 char_traits_helper::length of iterators

---
 sprout/numeric/dft/cxx14/square.hpp   | 5 +++--
 sprout/numeric/dft/cxx14/triangle.hpp | 5 ++---
 sprout/string/char_traits.hpp         | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/numeric/dft/cxx14/square.hpp b/sprout/numeric/dft/cxx14/square.hpp
index dfa4257..ba469ce 100644
--- a/sprout/numeric/dft/cxx14/square.hpp
+++ b/sprout/numeric/dft/cxx14/square.hpp
@@ -23,13 +23,14 @@ namespace sprout {
 		ForwardIterator first, ForwardIterator last,
 		typename std::iterator_traits<ForwardIterator>::value_type const& frequency = 1,
 		typename std::iterator_traits<ForwardIterator>::value_type const& amplitude = 1,
-		typename std::iterator_traits<ForwardIterator>::value_type const& phase = 0
+		typename std::iterator_traits<ForwardIterator>::value_type const& phase = 0,
+		typename std::iterator_traits<ForwardIterator>::value_type const& duty = 0.5
 		)
 	{
 		typedef typename std::iterator_traits<ForwardIterator>::difference_type difference_type;
 		difference_type i = 0;
 		while (first != last) {
-			*first++ = sprout::detail::square_value(frequency, amplitude, phase, i);
+			*first++ = sprout::detail::square_value(frequency, amplitude, phase, duty, i);
 			++i;
 		}
 	}
diff --git a/sprout/numeric/dft/cxx14/triangle.hpp b/sprout/numeric/dft/cxx14/triangle.hpp
index acc795c..b26e9aa 100644
--- a/sprout/numeric/dft/cxx14/triangle.hpp
+++ b/sprout/numeric/dft/cxx14/triangle.hpp
@@ -23,14 +23,13 @@ namespace sprout {
 		ForwardIterator first, ForwardIterator last,
 		typename std::iterator_traits<ForwardIterator>::value_type const& frequency = 1,
 		typename std::iterator_traits<ForwardIterator>::value_type const& amplitude = 1,
-		typename std::iterator_traits<ForwardIterator>::value_type const& phase = 0,
-		typename std::iterator_traits<ForwardIterator>::value_type const& duty = 0.5
+		typename std::iterator_traits<ForwardIterator>::value_type const& phase = 0
 		)
 	{
 		typedef typename std::iterator_traits<ForwardIterator>::difference_type difference_type;
 		difference_type i = 0;
 		while (first != last) {
-			*first++ = sprout::detail::triangle_value(frequency, amplitude, phase, duty, i);
+			*first++ = sprout::detail::triangle_value(frequency, amplitude, phase, i);
 			++i;
 		}
 	}
diff --git a/sprout/string/char_traits.hpp b/sprout/string/char_traits.hpp
index 96bff81..50c50a8 100644
--- a/sprout/string/char_traits.hpp
+++ b/sprout/string/char_traits.hpp
@@ -246,7 +246,7 @@ namespace sprout {
 #if SPROUT_USE_INDEX_ITERATOR_IMPLEMENTATION
 		template<typename InputIterator>
 		static SPROUT_CONSTEXPR std::size_t length(InputIterator s, std::size_t n) {
-			return sprout::detail::strlen(s, n);
+			return sprout::distance(s, find(s, n, char_type()));
 		}
 		template<typename ForwardIterator>
 		static SPROUT_CONSTEXPR ForwardIterator find(ForwardIterator s, std::size_t n, char_type const& a) {
-- 
2.43.0


From dc109ffef9fa7c23f247de468fe0e2a9d4908165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 15/85] fix: fixed::adjacent_difference can be called with a
 result that is not empty

---
 sprout/numeric/fixed/adjacent_difference.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/fixed/adjacent_difference.hpp b/sprout/numeric/fixed/adjacent_difference.hpp
index 1426e4f..c614581 100644
--- a/sprout/numeric/fixed/adjacent_difference.hpp
+++ b/sprout/numeric/fixed/adjacent_difference.hpp
@@ -70,7 +70,7 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result,
 				typename sprout::container_traits<Result>::size_type size
 				)
@@ -144,7 +144,7 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result, BinaryOperation binary_op,
 				typename sprout::container_traits<Result>::size_type size
 				)
-- 
2.43.0


From aa45b370df2f7c96f72027b662fd052142ea74fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 16/85] fix: fit scans and sums with the result type given
 explicitly, and with an operation, can be called

---
 sprout/numeric/fit/adjacent_difference.hpp    | 15 ++++++++++++++-
 sprout/numeric/fit/exclusive_scan.hpp         | 13 +++++++++++++
 sprout/numeric/fit/inclusive_scan.hpp         | 19 +++++++++++++++++++
 sprout/numeric/fit/partial_sum.hpp            | 15 ++++++++++++++-
 .../numeric/fit/transform_exclusive_scan.hpp  |  7 +++++++
 .../numeric/fit/transform_inclusive_scan.hpp  | 13 +++++++++++++
 .../numeric/fit/transform_inclusive_scan.hpp  |  5 -----
 .../fixed/transform_inclusive_scan.hpp        |  5 -----
 8 files changed, 80 insertions(+), 12 deletions(-)

diff --git a/sprout/numeric/fit/adjacent_difference.hpp b/sprout/numeric/fit/adjacent_difference.hpp
index 22c0cb3..9178f3c 100644
--- a/sprout/numeric/fit/adjacent_difference.hpp
+++ b/sprout/numeric/fit/adjacent_difference.hpp
@@ -16,6 +16,7 @@
 #include <sprout/algorithm/fit/results.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
+#include <sprout/pit/pit.hpp>
 #include <sprout/iterator/type_traits/category.hpp>
 
 namespace sprout {
@@ -56,7 +57,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::adjacent_difference(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
@@ -69,6 +70,18 @@ namespace sprout {
 			static_assert(sprout::is_forward_iterator<InputIterator>::value, "Sorry, not implemented.");
 			return sprout::fit::detail::adjacent_difference_impl(first, last, result, binary_op, sprout::internal_begin_offset(result));
 		}
+
+		template<typename Result, typename InputIterator>
+		inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
+		adjacent_difference(InputIterator first, InputIterator last) {
+			return sprout::fit::adjacent_difference(first, last, sprout::pit<Result>());
+		}
+
+		template<typename Result, typename InputIterator, typename BinaryOperation>
+		inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
+		adjacent_difference(InputIterator first, InputIterator last, BinaryOperation binary_op) {
+			return sprout::fit::adjacent_difference(first, last, sprout::pit<Result>(), binary_op);
+		}
 	}	// namespace fit
 }	// namespace sprout
 
diff --git a/sprout/numeric/fit/exclusive_scan.hpp b/sprout/numeric/fit/exclusive_scan.hpp
index 3b178ea..482bc84 100644
--- a/sprout/numeric/fit/exclusive_scan.hpp
+++ b/sprout/numeric/fit/exclusive_scan.hpp
@@ -16,6 +16,7 @@
 #include <sprout/algorithm/fit/results.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
+#include <sprout/pit/pit.hpp>
 #include <sprout/iterator/type_traits/category.hpp>
 
 namespace sprout {
@@ -71,6 +72,18 @@ namespace sprout {
 			static_assert(sprout::is_forward_iterator<InputIterator>::value, "Sorry, not implemented.");
 			return sprout::fit::detail::exclusive_scan_impl(first, last, result, init, binary_op, sprout::internal_begin_offset(result));
 		}
+
+		template<typename Result, typename InputIterator, typename T>
+		inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
+		exclusive_scan(InputIterator first, InputIterator last, T init) {
+			return sprout::fit::exclusive_scan(first, last, sprout::pit<Result>(), init);
+		}
+
+		template<typename Result, typename InputIterator, typename T, typename BinaryOperation>
+		inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
+		exclusive_scan(InputIterator first, InputIterator last, T init, BinaryOperation binary_op) {
+			return sprout::fit::exclusive_scan(first, last, sprout::pit<Result>(), init, binary_op);
+		}
 	}	// namespace fit
 }	// namespace sprout
 
diff --git a/sprout/numeric/fit/inclusive_scan.hpp b/sprout/numeric/fit/inclusive_scan.hpp
index 2f9784a..1fe2d46 100644
--- a/sprout/numeric/fit/inclusive_scan.hpp
+++ b/sprout/numeric/fit/inclusive_scan.hpp
@@ -16,6 +16,7 @@
 #include <sprout/algorithm/fit/results.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
+#include <sprout/pit/pit.hpp>
 #include <sprout/iterator/type_traits/category.hpp>
 
 namespace sprout {
@@ -96,6 +97,24 @@ namespace sprout {
 			static_assert(sprout::is_forward_iterator<InputIterator>::value, "Sorry, not implemented.");
 			return sprout::fit::detail::inclusive_scan_impl(first, last, result, binary_op, init, sprout::internal_begin_offset(result));
 		}
+
+		template<typename Result, typename InputIterator>
+		inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
+		inclusive_scan(InputIterator first, InputIterator last) {
+			return sprout::fit::inclusive_scan(first, last, sprout::pit<Result>());
+		}
+
+		template<typename Result, typename InputIterator, typename BinaryOperation>
+		inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
+		inclusive_scan(InputIterator first, InputIterator last, BinaryOperation binary_op) {
+			return sprout::fit::inclusive_scan(first, last, sprout::pit<Result>(), binary_op);
+		}
+
+		template<typename Result, typename InputIterator, typename BinaryOperation, typename T>
+		inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
+		inclusive_scan(InputIterator first, InputIterator last, BinaryOperation binary_op, T init) {
+			return sprout::fit::inclusive_scan(first, last, sprout::pit<Result>(), binary_op, init);
+		}
 	}	// namespace fit
 }	// namespace sprout
 
diff --git a/sprout/numeric/fit/partial_sum.hpp b/sprout/numeric/fit/partial_sum.hpp
index bebe6e0..8acf1f2 100644
--- a/sprout/numeric/fit/partial_sum.hpp
+++ b/sprout/numeric/fit/partial_sum.hpp
@@ -16,6 +16,7 @@
 #include <sprout/algorithm/fit/results.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
+#include <sprout/pit/pit.hpp>
 #include <sprout/iterator/type_traits/category.hpp>
 
 namespace sprout {
@@ -56,7 +57,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partial_sum(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
@@ -69,6 +70,18 @@ namespace sprout {
 			static_assert(sprout::is_forward_iterator<InputIterator>::value, "Sorry, not implemented.");
 			return sprout::fit::detail::partial_sum_impl(first, last, result, binary_op, sprout::internal_begin_offset(result));
 		}
+
+		template<typename Result, typename InputIterator>
+		inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
+		partial_sum(InputIterator first, InputIterator last) {
+			return sprout::fit::partial_sum(first, last, sprout::pit<Result>());
+		}
+
+		template<typename Result, typename InputIterator, typename BinaryOperation>
+		inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
+		partial_sum(InputIterator first, InputIterator last, BinaryOperation binary_op) {
+			return sprout::fit::partial_sum(first, last, sprout::pit<Result>(), binary_op);
+		}
 	}	// namespace fit
 }	// namespace sprout
 
diff --git a/sprout/numeric/fit/transform_exclusive_scan.hpp b/sprout/numeric/fit/transform_exclusive_scan.hpp
index d26eef9..d7b62d3 100644
--- a/sprout/numeric/fit/transform_exclusive_scan.hpp
+++ b/sprout/numeric/fit/transform_exclusive_scan.hpp
@@ -16,6 +16,7 @@
 #include <sprout/algorithm/fit/results.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
+#include <sprout/pit/pit.hpp>
 #include <sprout/iterator/type_traits/category.hpp>
 
 namespace sprout {
@@ -45,6 +46,12 @@ namespace sprout {
 			static_assert(sprout::is_forward_iterator<InputIterator>::value, "Sorry, not implemented.");
 			return sprout::fit::detail::transform_exclusive_scan_impl(first, last, result, init, binary_op, unary_op, sprout::internal_begin_offset(result));
 		}
+
+		template<typename Result, typename InputIterator, typename T, typename BinaryOperation, typename UnaryOperation>
+		inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
+		transform_exclusive_scan(InputIterator first, InputIterator last, T init, BinaryOperation binary_op, UnaryOperation unary_op) {
+			return sprout::fit::transform_exclusive_scan(first, last, sprout::pit<Result>(), init, binary_op, unary_op);
+		}
 	}	// namespace fit
 }	// namespace sprout
 
diff --git a/sprout/numeric/fit/transform_inclusive_scan.hpp b/sprout/numeric/fit/transform_inclusive_scan.hpp
index ffdd4ae..520c0cf 100644
--- a/sprout/numeric/fit/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fit/transform_inclusive_scan.hpp
@@ -16,6 +16,7 @@
 #include <sprout/algorithm/fit/results.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
+#include <sprout/pit/pit.hpp>
 #include <sprout/iterator/type_traits/category.hpp>
 
 namespace sprout {
@@ -71,6 +72,18 @@ namespace sprout {
 			static_assert(sprout::is_forward_iterator<InputIterator>::value, "Sorry, not implemented.");
 			return sprout::fit::detail::transform_inclusive_scan_impl(first, last, result, binary_op, unary_op, init, sprout::internal_begin_offset(result));
 		}
+
+		template<typename Result, typename InputIterator, typename BinaryOperation, typename UnaryOperation>
+		inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
+		transform_inclusive_scan(InputIterator first, InputIterator last, BinaryOperation binary_op, UnaryOperation unary_op) {
+			return sprout::fit::transform_inclusive_scan(first, last, sprout::pit<Result>(), binary_op, unary_op);
+		}
+
+		template<typename Result, typename InputIterator, typename BinaryOperation, typename UnaryOperation, typename T>
+		inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
+		transform_inclusive_scan(InputIterator first, InputIterator last, BinaryOperation binary_op, UnaryOperation unary_op, T init) {
+			return sprout::fit::transform_inclusive_scan(first, last, sprout::pit<Result>(), binary_op, unary_op, init);
+		}
 	}	// namespace fit
 }	// namespace sprout
 
diff --git a/sprout/range/numeric/fit/transform_inclusive_scan.hpp b/sprout/range/numeric/fit/transform_inclusive_scan.hpp
index 4407395..3b77f96 100644
--- a/sprout/range/numeric/fit/transform_inclusive_scan.hpp
+++ b/sprout/range/numeric/fit/transform_inclusive_scan.hpp
@@ -31,11 +31,6 @@ namespace sprout {
 				return sprout::fit::transform_inclusive_scan(sprout::begin(rng), sprout::end(rng), result, binary_op, unary_op, init);
 			}
 
-			template<typename Result, typename InputRange>
-			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
-			transform_inclusive_scan(InputRange const& rng) {
-				return sprout::fit::transform_inclusive_scan<Result>(sprout::begin(rng), sprout::end(rng));
-			}
 			template<typename Result, typename InputRange, typename BinaryOperation, typename UnaryOperation>
 			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform_inclusive_scan(InputRange const& rng, BinaryOperation binary_op, UnaryOperation unary_op) {
diff --git a/sprout/range/numeric/fixed/transform_inclusive_scan.hpp b/sprout/range/numeric/fixed/transform_inclusive_scan.hpp
index 38a890a..25dbc31 100644
--- a/sprout/range/numeric/fixed/transform_inclusive_scan.hpp
+++ b/sprout/range/numeric/fixed/transform_inclusive_scan.hpp
@@ -39,11 +39,6 @@ namespace sprout {
 				return sprout::fixed::transform_inclusive_scan(sprout::begin(rng), sprout::end(rng), result, binary_op, unary_op, init);
 			}
 
-			template<typename Result, typename InputRange>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
-			transform_inclusive_scan(InputRange const& rng) {
-				return sprout::fixed::transform_inclusive_scan<Result>(sprout::begin(rng), sprout::end(rng));
-			}
 			template<typename Result, typename InputRange, typename BinaryOperation, typename UnaryOperation>
 			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 			transform_inclusive_scan(InputRange const& rng, BinaryOperation binary_op, UnaryOperation unary_op) {
-- 
2.43.0


From 10c208e63b20e882ef1817cf979ad96128673a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:29 +0000
Subject: [PATCH 17/85] fix: range::square takes and range::triangle does not
 take a duty

---
 sprout/range/numeric/dft/cxx14/square.hpp   | 5 +++--
 sprout/range/numeric/dft/cxx14/triangle.hpp | 5 ++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/range/numeric/dft/cxx14/square.hpp b/sprout/range/numeric/dft/cxx14/square.hpp
index a623dc9..95bc78b 100644
--- a/sprout/range/numeric/dft/cxx14/square.hpp
+++ b/sprout/range/numeric/dft/cxx14/square.hpp
@@ -25,12 +25,13 @@ namespace sprout {
 			ForwardRange&& rng,
 			typename sprout::container_traits<ForwardRange>::value_type const& frequency = 1,
 			typename sprout::container_traits<ForwardRange>::value_type const& amplitude = 1,
-			typename sprout::container_traits<ForwardRange>::value_type const& phase = 0
+			typename sprout::container_traits<ForwardRange>::value_type const& phase = 0,
+			typename sprout::container_traits<ForwardRange>::value_type const& duty = 0.5
 			)
 		{
 			sprout::square(
 				sprout::begin(SPROUT_FORWARD(ForwardRange, rng)), sprout::end(SPROUT_FORWARD(ForwardRange, rng)),
-				frequency, amplitude, phase
+				frequency, amplitude, phase, duty
 				);
 		}
 	}	// namespace range
diff --git a/sprout/range/numeric/dft/cxx14/triangle.hpp b/sprout/range/numeric/dft/cxx14/triangle.hpp
index 11a675e..cc1a35b 100644
--- a/sprout/range/numeric/dft/cxx14/triangle.hpp
+++ b/sprout/range/numeric/dft/cxx14/triangle.hpp
@@ -25,13 +25,12 @@ namespace sprout {
 			ForwardRange&& rng,
 			typename sprout::container_traits<ForwardRange>::value_type const& frequency = 1,
 			typename sprout::container_traits<ForwardRange>::value_type const& amplitude = 1,
-			typename sprout::container_traits<ForwardRange>::value_type const& phase = 0,
-			typename sprout::container_traits<ForwardRange>::value_type const& duty = 0.5
+			typename sprout::container_traits<ForwardRange>::value_type const& phase = 0
 			)
 		{
 			sprout::triangle(
 				sprout::begin(SPROUT_FORWARD(ForwardRange, rng)), sprout::end(SPROUT_FORWARD(ForwardRange, rng)),
-				frequency, amplitude, phase, duty
+				frequency, amplitude, phase
 				);
 		}
 	}	// namespace range
-- 
2.43.0


From 510b82b350ff404ab1d3c841bfad860f42ec3ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:48 +0000
Subject: [PATCH 18/85] fix: for_each_n counts its steps and terminates

---
 sprout/algorithm/cxx14/for_each_n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/for_each_n.hpp b/sprout/algorithm/cxx14/for_each_n.hpp
index 473f30a..88946af 100644
--- a/sprout/algorithm/cxx14/for_each_n.hpp
+++ b/sprout/algorithm/cxx14/for_each_n.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	template<typename InputIterator, typename Size, typename Function>
 	inline SPROUT_CXX14_CONSTEXPR InputIterator
 	for_each_n(InputIterator first, Size n, Function f) {
-		for (Size i = 0; i < n; ++first) {
+		for (Size i = 0; i < n; ++i, ++first) {
 			f(*first);
 		}
 		return first;
-- 
2.43.0


From 70e108bfa56eeaa8a1a54563539acd1d61c73c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:48 +0000
Subject: [PATCH 19/85] fix: reinter_cast can be called

---
 sprout/utility/reinter_cast.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/reinter_cast.hpp b/sprout/utility/reinter_cast.hpp
index 70a076d..3481006 100644
--- a/sprout/utility/reinter_cast.hpp
+++ b/sprout/utility/reinter_cast.hpp
@@ -23,7 +23,7 @@ namespace sprout {
 					&& std::is_same<typename std::decay<From>::type, typename std::decay<To>::type>::value
 					&& std::is_convertible<From, To>::value
 					)
-					|| ((std::is_integral<To>::type || std::is_enum<To>::type || std::is_pointer<To>::type)
+					|| ((std::is_integral<To>::value || std::is_enum<To>::value || std::is_pointer<To>::value)
 						&& std::is_same<typename std::decay<From>::type, To>::value
 						)
 
-- 
2.43.0


From 7bb0180a32db9838373879534c1df755bbed2892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:48 +0000
Subject: [PATCH 20/85] fix: base_bitset find_next passes the word index on

---
 sprout/bitset/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 1bab338..5e16bb7 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -123,7 +123,7 @@ namespace sprout {
 				return first == last ? not_found
 					: *first != static_cast<word_type>(0)
 						? i * (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value) + sprout::ctz(*first)
-					: find_next_impl_2(not_found, first + 1, last)
+					: find_next_impl_2(not_found, first + 1, last, i + 1)
 					;
 			}
 			SPROUT_CONSTEXPR size_type
-- 
2.43.0


From 4b2ff9596a4b36c1bd3fbcba72d1fcd42adfecdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:29 +0000
Subject: [PATCH 21/85] fix: bitset find_first and find_next reach those of the
 base

---
 sprout/bitset/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 5e16bb7..f5080bd 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -1389,11 +1389,11 @@ namespace sprout {
 
 		SPROUT_CONSTEXPR size_type
 		find_first() const SPROUT_NOEXCEPT {
-			return this->find_first(N);
+			return base_type::find_first(N);
 		}
 		SPROUT_CONSTEXPR size_type
 		find_next(size_type prev) const SPROUT_NOEXCEPT {
-			return this->find_next(prev, N);
+			return base_type::find_next(prev, N);
 		}
 
 	public:
-- 
2.43.0


From 5a4dbb285277ce0696e6fc2bd54a35157fee93d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:29 +0000
Subject: [PATCH 22/85] fix: exempt_ptr::swap does not find itself

---
 sprout/memory/exempt_ptr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/memory/exempt_ptr.hpp b/sprout/memory/exempt_ptr.hpp
index e06e918..e688c97 100644
--- a/sprout/memory/exempt_ptr.hpp
+++ b/sprout/memory/exempt_ptr.hpp
@@ -17,6 +17,7 @@
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/functional/hash.hpp>
 #include <sprout/functional/less.hpp>
+#include <sprout/utility/swap.hpp>
 #include <sprout/type_traits/common_decay.hpp>
 #include <sprout/memory/pointer_cast.hpp>
 #include <sprout/memory/get_pointer.hpp>
@@ -120,7 +121,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void
 		swap(exempt_ptr& other) SPROUT_NOEXCEPT {
-			swap(p_, other.p_);
+			sprout::swap(p_, other.p_);
 		}
 		SPROUT_CXX14_CONSTEXPR exempt_ptr&
 		operator++() {
-- 
2.43.0


From 340d4d3206d00578cb7f5b524f915bb62570141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:29 +0000
Subject: [PATCH 23/85] fix: abs of a quaternion can be called and scales back
 by the maximum

---
 sprout/math/quaternion/abs.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/math/quaternion/abs.hpp b/sprout/math/quaternion/abs.hpp
index 3888a9a..91b6cd1 100644
--- a/sprout/math/quaternion/abs.hpp
+++ b/sprout/math/quaternion/abs.hpp
@@ -31,15 +31,15 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR T
 			abs_q_impl_2(sprout::array<T, 4> const& temp, T const& maxim) {
 				return sprout::math::detail::abs_q_impl_3(
-					sprout::math::detail::mul(temp, maxim), maxim
+					sprout::math::detail::mul(temp, static_cast<T>(1) / maxim), maxim
 					);
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			abs_q_impl_1(sprout::array<T, 4> const& temp, T const& maxim) {
-				return maxim == static_cast<T>(0) ? sprout::math::quaternion<T>(maxim)
+				return maxim == static_cast<T>(0) ? maxim
 					: sprout::math::detail::abs_q_impl_2(
-						temp, static_cast<T>(1) / maxim
+						temp, maxim
 						)
 					;
 			}
-- 
2.43.0


From 3738e6568d1299f3ad99b82b3b6acceb66e7487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:29 +0000
Subject: [PATCH 24/85] fix: copy_until and copy_while into an output iterator
 can be called

---
 sprout/algorithm/cxx14/copy_until.hpp | 2 +-
 sprout/algorithm/cxx14/copy_while.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/copy_until.hpp b/sprout/algorithm/cxx14/copy_until.hpp
index ffe3dc7..2ec2ad0 100644
--- a/sprout/algorithm/cxx14/copy_until.hpp
+++ b/sprout/algorithm/cxx14/copy_until.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && !pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
diff --git a/sprout/algorithm/cxx14/copy_while.hpp b/sprout/algorithm/cxx14/copy_while.hpp
index ad59c77..05c13d8 100644
--- a/sprout/algorithm/cxx14/copy_while.hpp
+++ b/sprout/algorithm/cxx14/copy_while.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From fd50e1c81ac77d39b7cc677102f82ec5792aef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:29 +0000
Subject: [PATCH 25/85] fix: stable_sort is not ambiguous next to sort

---
 sprout/algorithm/cxx14/detail/insertion_sort.hpp | 2 +-
 sprout/algorithm/cxx14/stable_sort.hpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/detail/insertion_sort.hpp b/sprout/algorithm/cxx14/detail/insertion_sort.hpp
index f23484d..30a28bc 100644
--- a/sprout/algorithm/cxx14/detail/insertion_sort.hpp
+++ b/sprout/algorithm/cxx14/detail/insertion_sort.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 
 		template<typename RandomAccessIterator, typename Compare>
 		inline SPROUT_CXX14_CONSTEXPR void
-		insertion_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
+		stable_insertion_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
 			typedef typename std::iterator_traits<RandomAccessIterator>::value_type value_type;
 			if (first == last) {
 				return;
diff --git a/sprout/algorithm/cxx14/stable_sort.hpp b/sprout/algorithm/cxx14/stable_sort.hpp
index 293564a..91025ed 100644
--- a/sprout/algorithm/cxx14/stable_sort.hpp
+++ b/sprout/algorithm/cxx14/stable_sort.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR void
 		inplace_stable_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
 			if (last - first < 15) {
-				sprout::detail::insertion_sort(first, last, comp);
+				sprout::detail::stable_insertion_sort(first, last, comp);
 				return;
 			}
 			RandomAccessIterator middle = first + (last - first) / 2;
-- 
2.43.0


From 2960c47f94d2d3611556e971eadf517adee3aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:29 +0000
Subject: [PATCH 26/85] fix: partial_sort_copy into an output range can be
 called

---
 sprout/algorithm/cxx14/partial_sort_copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/partial_sort_copy.hpp b/sprout/algorithm/cxx14/partial_sort_copy.hpp
index c42416a..93b4a4e 100644
--- a/sprout/algorithm/cxx14/partial_sort_copy.hpp
+++ b/sprout/algorithm/cxx14/partial_sort_copy.hpp
@@ -18,7 +18,7 @@
 
 namespace sprout {
 	namespace detail {
-		template<typename InputIterator, typename RandomAccessIterator, typename Compare>
+		template<typename Compare, typename InputIterator, typename RandomAccessIterator>
 		inline SPROUT_CXX14_CONSTEXPR RandomAccessIterator
 		partial_sort_copy(InputIterator first, InputIterator last, RandomAccessIterator result_first, RandomAccessIterator result_last, Compare comp) {
 			typedef typename std::iterator_traits<RandomAccessIterator>::difference_type difference_type;
-- 
2.43.0


From 842505b2cf1235439fc1f5899f49e19d84888986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:29 +0000
Subject: [PATCH 27/85] fix: bind2nd of a function that modifies its argument,
 as in valarray computed assignment by a scalar, can be called

---
 sprout/functional/bind2nd.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sprout/functional/bind2nd.hpp b/sprout/functional/bind2nd.hpp
index 20dd994..b3b563f 100644
--- a/sprout/functional/bind2nd.hpp
+++ b/sprout/functional/bind2nd.hpp
@@ -67,6 +67,11 @@ namespace sprout {
 			operator()(U const& x) const {
 				return op(x, value);
 			}
+			template<typename U>
+			SPROUT_CONSTEXPR decltype(std::declval<Fn const&>()(std::declval<U&>(), std::declval<value_type const&>()))
+			operator()(U& x) const {
+				return op(x, value);
+			}
 		};
 	}	// namespace detail
 	template<typename Fn, typename T = void>
-- 
2.43.0


From 5ed6eb54403539fb19f1b8f7c23646570cb4e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:29 +0000
Subject: [PATCH 28/85] fix: container_range_traits_default has range_empty

---
 sprout/container/container_range_traits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sprout/container/container_range_traits.hpp b/sprout/container/container_range_traits.hpp
index 0d3881a..db9ce58 100644
--- a/sprout/container/container_range_traits.hpp
+++ b/sprout/container/container_range_traits.hpp
@@ -291,6 +291,7 @@ namespace sprout {
 		: public sprout::container_range_begin_default<Container>
 		, public sprout::container_range_end_default<Container>
 		, public sprout::container_range_size_default<Container>
+		, public sprout::container_range_empty_default<Container>
 		, public sprout::container_range_front_default<Container>
 		, public sprout::container_range_back_default<Container>
 		, public sprout::container_range_subscript_at_default<Container>
-- 
2.43.0


From 2def6799cbe2acd11494abaacaca91c0db8a9b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:29 +0000
Subject: [PATCH 29/85] fix: steps with an initial offset and blanked with a
 length can be called

---
 sprout/range/adaptor/blanked.hpp | 4 ++--
 sprout/range/adaptor/steps.hpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/range/adaptor/blanked.hpp b/sprout/range/adaptor/blanked.hpp
index 1b4ea53..24f668a 100644
--- a/sprout/range/adaptor/blanked.hpp
+++ b/sprout/range/adaptor/blanked.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 				difference_type n
 				)
 				: base_type(
-					iterator(value_type(), NS_SSCRISK_CEL_OR_SPROUT::min(n, sprout::size(range))),
+					iterator(value_type(), NS_SSCRISK_CEL_OR_SPROUT::min(n, static_cast<difference_type>(sprout::size(range)))),
 					iterator(value_type(), 0)
 					)
 			{}
@@ -70,7 +70,7 @@ namespace sprout {
 				value_type const& value
 				)
 				: base_type(
-					iterator(value, NS_SSCRISK_CEL_OR_SPROUT::min(n, sprout::size(range))),
+					iterator(value, NS_SSCRISK_CEL_OR_SPROUT::min(n, static_cast<difference_type>(sprout::size(range)))),
 					iterator(value, 0)
 					)
 			{}
diff --git a/sprout/range/adaptor/steps.hpp b/sprout/range/adaptor/steps.hpp
index 9e4e90d..6aef1aa 100644
--- a/sprout/range/adaptor/steps.hpp
+++ b/sprout/range/adaptor/steps.hpp
@@ -57,7 +57,7 @@ namespace sprout {
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, difference_type init, range_type& range)
 				: base_type(
-					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min(init, sprout::size(range))), width, sprout::end(range)),
+					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min(init, static_cast<difference_type>(sprout::size(range)))), width, sprout::end(range)),
 					iterator(sprout::end(range), width, sprout::end(range))
 					)
 			{}
-- 
2.43.0


From 69bd8f830c443b1778c128a245a7832c965f23b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:29 +0000
Subject: [PATCH 30/85] fix: uniform_int_distribution advances the engine once
 where its range is the engine's

---
 sprout/random/uniform_int_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index 62e9608..eb5f940 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -50,7 +50,7 @@ namespace sprout {
 				} else if (brange == range) {
 					base_unsigned v = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin);
 					return sprout::random::detail::add<base_unsigned, result_type>()(
-						static_cast<base_unsigned>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin)),
+						v,
 						min_value
 						);
 				} else if (brange < range) {
-- 
2.43.0


From a2016fd5a3adfdd89fb3609c613bfe03c0c79fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:59 +0000
Subject: [PATCH 31/85] fix: move_backward walks the source from its end

---
 sprout/algorithm/cxx14/move_backward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/move_backward.hpp b/sprout/algorithm/cxx14/move_backward.hpp
index 608adc4..86788b7 100644
--- a/sprout/algorithm/cxx14/move_backward.hpp
+++ b/sprout/algorithm/cxx14/move_backward.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR BidirectionalIterator2
 	move_backward(BidirectionalIterator1 first, BidirectionalIterator1 last, BidirectionalIterator2 result) {
 		while (first != last) {
-			*--result = sprout::move(*--first);
+			*--result = sprout::move(*--last);
 		}
 		return result;
 	}
-- 
2.43.0


From 133687ed5a3b7a1021812d01ac175d19a4be4a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:25 +0000
Subject: [PATCH 32/85] fix: stable_partition goes on behind the elements
 already in place

---
 sprout/algorithm/cxx14/stable_partition.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/stable_partition.hpp b/sprout/algorithm/cxx14/stable_partition.hpp
index 624e75e..3e37e44 100644
--- a/sprout/algorithm/cxx14/stable_partition.hpp
+++ b/sprout/algorithm/cxx14/stable_partition.hpp
@@ -28,8 +28,9 @@ namespace sprout {
 			BidirectionalIterator left_split = sprout::detail::inplace_stable_partition(first, pred, len / 2);
 			Distance right_len = len - len / 2;
 			BidirectionalIterator right_split = sprout::find_if_not(middle, sprout::next(middle, right_len), pred);
+			right_len -= sprout::distance(middle, right_split);
 			if (right_len) {
-				right_split = sprout::detail::inplace_stable_partition(middle, pred, right_len);
+				right_split = sprout::detail::inplace_stable_partition(right_split, pred, right_len);
 			}
 			sprout::rotate(left_split, middle, right_split);
 			sprout::advance(left_split, sprout::distance(middle, right_split));
-- 
2.43.0


From bc21869a88fa6049c83013b2e87af543d8a1c0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:51 +0000
Subject: [PATCH 33/85] fix: make_heap gives push_heap_back the length of the
 range it grows

---
 sprout/algorithm/cxx14/make_heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/make_heap.hpp b/sprout/algorithm/cxx14/make_heap.hpp
index 497bdbd..27a8bd0 100644
--- a/sprout/algorithm/cxx14/make_heap.hpp
+++ b/sprout/algorithm/cxx14/make_heap.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 				last = first;
 				++last;
 				for (difference_type i = 1; i < len; ++i) {
-					sprout::detail::push_heap_back<Compare>(first, ++last, comp, i);
+					sprout::detail::push_heap_back<Compare>(first, ++last, comp, i + 1);
 				}
 			}
 		}
-- 
2.43.0


From 71e5aaa597a18f6165bfd65556e06c89099c0a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 34/85] fix: is_heap_until accepts a child equal to its parent

---
 sprout/algorithm/is_heap_until.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/is_heap_until.hpp b/sprout/algorithm/is_heap_until.hpp
index cdaaf10..af9119f 100644
--- a/sprout/algorithm/is_heap_until.hpp
+++ b/sprout/algorithm/is_heap_until.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 			)
 		{
 			return found != first ? found
-				: pivot == 0 ? (!comp(it[first], it[(first - 1) / 2]) ? first : last)
+				: pivot == 0 ? (comp(it[(first - 1) / 2], it[first]) ? first : last)
 				: sprout::detail::is_heap_until_impl(
 					it, comp, first + pivot, last,
 					((last - first) - pivot) / 2,
-- 
2.43.0


From b33c6ecc8f496d329c47f71c0123d897f71fd8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:41 +0000
Subject: [PATCH 35/85] fix: range::fit transform, merge and set operations
 return the fit result type

---
 sprout/range/algorithm/fit/merge.hpp                    | 4 ++--
 sprout/range/algorithm/fit/set_difference.hpp           | 4 ++--
 sprout/range/algorithm/fit/set_intersection.hpp         | 4 ++--
 sprout/range/algorithm/fit/set_symmetric_difference.hpp | 4 ++--
 sprout/range/algorithm/fit/set_union.hpp                | 4 ++--
 sprout/range/algorithm/fit/transform.hpp                | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/range/algorithm/fit/merge.hpp b/sprout/range/algorithm/fit/merge.hpp
index 96d9e88..e3b7898 100644
--- a/sprout/range/algorithm/fit/merge.hpp
+++ b/sprout/range/algorithm/fit/merge.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// merge
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			merge(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::merge(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			merge(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::merge(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_difference.hpp b/sprout/range/algorithm/fit/set_difference.hpp
index a1e126e..0187c00 100644
--- a/sprout/range/algorithm/fit/set_difference.hpp
+++ b/sprout/range/algorithm/fit/set_difference.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_difference
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_intersection.hpp b/sprout/range/algorithm/fit/set_intersection.hpp
index 82f4766..dd1e5f3 100644
--- a/sprout/range/algorithm/fit/set_intersection.hpp
+++ b/sprout/range/algorithm/fit/set_intersection.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_intersection
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_intersection(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_intersection(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_intersection(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_intersection(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_symmetric_difference.hpp b/sprout/range/algorithm/fit/set_symmetric_difference.hpp
index 18073af..ae47a90 100644
--- a/sprout/range/algorithm/fit/set_symmetric_difference.hpp
+++ b/sprout/range/algorithm/fit/set_symmetric_difference.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_symmetric_difference
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_symmetric_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_symmetric_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_symmetric_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_symmetric_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_union.hpp b/sprout/range/algorithm/fit/set_union.hpp
index 14b1576..f005698 100644
--- a/sprout/range/algorithm/fit/set_union.hpp
+++ b/sprout/range/algorithm/fit/set_union.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_union
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_union(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_union(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_union(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_union(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/transform.hpp b/sprout/range/algorithm/fit/transform.hpp
index 1cd1568..285dca8 100644
--- a/sprout/range/algorithm/fit/transform.hpp
+++ b/sprout/range/algorithm/fit/transform.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// transform
 			//
 			template<typename InputRange, typename Result, typename UnaryOperation>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform(InputRange const& rng, Result const& result, UnaryOperation op) {
 				return sprout::fit::transform(sprout::begin(rng), sprout::end(rng), result, op);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result, typename BinaryOperation>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, BinaryOperation op) {
 				return sprout::fit::transform(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), result, op);
 			}
-- 
2.43.0


From ffabf2c9a27ce037845271c40dff28029de5e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 36/85] fix: fit operations name the internal container type
 that exists

---
 sprout/operation/fit/append.hpp          | 8 +++++---
 sprout/operation/fit/append_back.hpp     | 8 +++++---
 sprout/operation/fit/append_front.hpp    | 8 +++++---
 sprout/operation/fit/erase.hpp           | 8 +++++---
 sprout/operation/fit/insert.hpp          | 8 +++++---
 sprout/operation/fit/insert_n.hpp        | 8 +++++---
 sprout/operation/fit/pop_back.hpp        | 8 +++++---
 sprout/operation/fit/pop_back_n.hpp      | 8 +++++---
 sprout/operation/fit/pop_front.hpp       | 8 +++++---
 sprout/operation/fit/pop_front_n.hpp     | 8 +++++---
 sprout/operation/fit/push_back.hpp       | 8 +++++---
 sprout/operation/fit/push_back_n.hpp     | 8 +++++---
 sprout/operation/fit/push_front.hpp      | 8 +++++---
 sprout/operation/fit/push_front_n.hpp    | 8 +++++---
 sprout/operation/fit/realign.hpp         | 8 +++++---
 sprout/operation/fit/realign_to.hpp      | 8 +++++---
 sprout/operation/fit/resize.hpp          | 8 +++++---
 sprout/operation/fit/resize_backward.hpp | 8 +++++---
 sprout/operation/fit/set.hpp             | 8 +++++---
 19 files changed, 95 insertions(+), 57 deletions(-)

diff --git a/sprout/operation/fit/append.hpp b/sprout/operation/fit/append.hpp
index 7b72f91..53ca339 100644
--- a/sprout/operation/fit/append.hpp
+++ b/sprout/operation/fit/append.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_HPP
 #define SPROUT_OPERATION_FIT_APPEND_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/append.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,9 @@ namespace sprout {
 			struct append {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::append<Container, Input>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/append_back.hpp b/sprout/operation/fit/append_back.hpp
index f2495a1..c1098a1 100644
--- a/sprout/operation/fit/append_back.hpp
+++ b/sprout/operation/fit/append_back.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_BACK_HPP
 #define SPROUT_OPERATION_FIT_APPEND_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/append_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -24,9 +26,9 @@ namespace sprout {
 			template<typename Container, typename Input>
 			struct append_back {
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append_back<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::append_back<Container, Input>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/append_front.hpp b/sprout/operation/fit/append_front.hpp
index a364222..9ada30c 100644
--- a/sprout/operation/fit/append_front.hpp
+++ b/sprout/operation/fit/append_front.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_FRONT_HPP
 #define SPROUT_OPERATION_FIT_APPEND_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/append_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -24,9 +26,9 @@ namespace sprout {
 			template<typename Container, typename Input>
 			struct append_front {
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append_front<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::append_front<Container, Input>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/erase.hpp b/sprout/operation/fit/erase.hpp
index 7939b44..6452b30 100644
--- a/sprout/operation/fit/erase.hpp
+++ b/sprout/operation/fit/erase.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_ERASE_HPP
 #define SPROUT_OPERATION_FIT_ERASE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/erase.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct erase {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::erase<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::erase<Container>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/insert.hpp b/sprout/operation/fit/insert.hpp
index 7ec7c34..7834b44 100644
--- a/sprout/operation/fit/insert.hpp
+++ b/sprout/operation/fit/insert.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_INSERT_HPP
 #define SPROUT_OPERATION_FIT_INSERT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/insert.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct insert {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::insert<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::insert<Container, T, Values...>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/insert_n.hpp b/sprout/operation/fit/insert_n.hpp
index 48ee75b..db52c06 100644
--- a/sprout/operation/fit/insert_n.hpp
+++ b/sprout/operation/fit/insert_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_INSERT_N_HPP
 #define SPROUT_OPERATION_FIT_INSERT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/insert_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct insert_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::insert_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::insert_n<N, Container, T, Values...>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_back.hpp b/sprout/operation/fit/pop_back.hpp
index 2486e27..4f10f2e 100644
--- a/sprout/operation/fit/pop_back.hpp
+++ b/sprout/operation/fit/pop_back.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_BACK_HPP
 #define SPROUT_OPERATION_FIT_POP_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct pop_back {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_back<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::pop_back<Container>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_back_n.hpp b/sprout/operation/fit/pop_back_n.hpp
index dd491dd..c087f76 100644
--- a/sprout/operation/fit/pop_back_n.hpp
+++ b/sprout/operation/fit/pop_back_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_BACK_N_HPP
 #define SPROUT_OPERATION_FIT_POP_BACK_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_back_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct pop_back_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_back_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::pop_back_n<N, Container>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_front.hpp b/sprout/operation/fit/pop_front.hpp
index b34f6d7..3f9bc7a 100644
--- a/sprout/operation/fit/pop_front.hpp
+++ b/sprout/operation/fit/pop_front.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_FRONT_HPP
 #define SPROUT_OPERATION_FIT_POP_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct pop_front {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_front<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::pop_front<Container>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_front_n.hpp b/sprout/operation/fit/pop_front_n.hpp
index a591b6c..1e4a65c 100644
--- a/sprout/operation/fit/pop_front_n.hpp
+++ b/sprout/operation/fit/pop_front_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_FRONT_N_HPP
 #define SPROUT_OPERATION_FIT_POP_FRONT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_front_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct pop_front_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_front_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::pop_front_n<N, Container>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_back.hpp b/sprout/operation/fit/push_back.hpp
index b056ec2..52e5b39 100644
--- a/sprout/operation/fit/push_back.hpp
+++ b/sprout/operation/fit/push_back.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_BACK_HPP
 #define SPROUT_OPERATION_FIT_PUSH_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,9 @@ namespace sprout {
 			struct push_back {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_back<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::push_back<Container, T, Values...>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_back_n.hpp b/sprout/operation/fit/push_back_n.hpp
index 3dd2372..5d95546 100644
--- a/sprout/operation/fit/push_back_n.hpp
+++ b/sprout/operation/fit/push_back_n.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_BACK_N_HPP
 #define SPROUT_OPERATION_FIT_PUSH_BACK_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_back_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,9 @@ namespace sprout {
 			struct push_back_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_back_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::push_back_n<N, Container, T, Values...>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_front.hpp b/sprout/operation/fit/push_front.hpp
index 589bfad..247634a 100644
--- a/sprout/operation/fit/push_front.hpp
+++ b/sprout/operation/fit/push_front.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_FRONT_HPP
 #define SPROUT_OPERATION_FIT_PUSH_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,9 @@ namespace sprout {
 			struct push_front {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_front<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::push_front<Container, T, Values...>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_front_n.hpp b/sprout/operation/fit/push_front_n.hpp
index 7493c31..44bb6fc 100644
--- a/sprout/operation/fit/push_front_n.hpp
+++ b/sprout/operation/fit/push_front_n.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_FRONT_N_HPP
 #define SPROUT_OPERATION_FIT_PUSH_FRONT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_front_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,9 @@ namespace sprout {
 			struct push_front_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_front_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::push_front_n<N, Container, T, Values...>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/realign.hpp b/sprout/operation/fit/realign.hpp
index 3e65ad5..a89e946 100644
--- a/sprout/operation/fit/realign.hpp
+++ b/sprout/operation/fit/realign.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_REALIGN_HPP
 #define SPROUT_OPERATION_FIT_REALIGN_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/realign.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,9 @@ namespace sprout {
 			struct realign {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::realign<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::realign<Container>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/realign_to.hpp b/sprout/operation/fit/realign_to.hpp
index 86e1557..6f9031d 100644
--- a/sprout/operation/fit/realign_to.hpp
+++ b/sprout/operation/fit/realign_to.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_REALIGN_TO_HPP
 #define SPROUT_OPERATION_FIT_REALIGN_TO_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/realign_to.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,9 @@ namespace sprout {
 			struct realign_to {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::realign_to<Result, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::realign_to<Result, Container>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/resize.hpp b/sprout/operation/fit/resize.hpp
index 69e70a1..3f9ba16 100644
--- a/sprout/operation/fit/resize.hpp
+++ b/sprout/operation/fit/resize.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_RESIZE_HPP
 #define SPROUT_OPERATION_FIT_RESIZE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/resize.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct resize {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::resize<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::resize<N, Container>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/resize_backward.hpp b/sprout/operation/fit/resize_backward.hpp
index 00bdc8c..cc05a98 100644
--- a/sprout/operation/fit/resize_backward.hpp
+++ b/sprout/operation/fit/resize_backward.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_RESIZE_BACKWARD_HPP
 #define SPROUT_OPERATION_FIT_RESIZE_BACKWARD_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/resize_backward.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct resize_backward {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::resize_backward<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::resize_backward<N, Container>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/set.hpp b/sprout/operation/fit/set.hpp
index 1089748..c929359 100644
--- a/sprout/operation/fit/set.hpp
+++ b/sprout/operation/fit/set.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_SET_HPP
 #define SPROUT_OPERATION_FIT_SET_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/set.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct set {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::set<Container, T>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::set<Container, T>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
-- 
2.43.0


From 8558c4f09df588bbb00ed5c61417970d8d56400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 37/85] fix: fit::erase_n leaves out N elements and can be
 called

---
 sprout/operation/fit/erase_n.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sprout/operation/fit/erase_n.hpp b/sprout/operation/fit/erase_n.hpp
index 2266afa..c3317b6 100644
--- a/sprout/operation/fit/erase_n.hpp
+++ b/sprout/operation/fit/erase_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_ERASE_N_HPP
 #define SPROUT_OPERATION_FIT_ERASE_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/erase_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct erase_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::erase_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<typename sprout::fixed::results::erase_n<N, Container>::type>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
@@ -42,7 +44,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::erase_n<N>(cont, pos)),
 				sprout::internal_begin_offset(cont),
-				sprout::internal_end_offset(cont) - 1
+				sprout::internal_end_offset(cont) - N
 				);
 		}
 		template<std::size_t N, typename Container>
@@ -51,7 +53,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::erase_n<N>(cont, pos)),
 				sprout::internal_begin_offset(cont),
-				sprout::internal_end_offset(cont) - 1
+				sprout::internal_end_offset(cont) - N
 				);
 		}
 	}	// namespace fit
-- 
2.43.0


From 6f01e98efee6337b9640acccad039be82b85820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 38/85] fix: normal_distribution can be called with parameters
 on a const engine

---
 sprout/random/normal_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/normal_distribution.hpp b/sprout/random/normal_distribution.hpp
index 8739162..0ecd4dc 100644
--- a/sprout/random/normal_distribution.hpp
+++ b/sprout/random/normal_distribution.hpp
@@ -238,7 +238,7 @@ namespace sprout {
 			}
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, normal_distribution> const operator()(Engine const& eng, param_type const& parm) const {
-				return normal_distribution(parm)(eng);
+				return normal_distribution(parm).generate(eng);
 			}
 			template<typename Elem, typename Traits>
 			friend SPROUT_NON_CONSTEXPR std::basic_istream<Elem, Traits>& operator>>(
-- 
2.43.0


From 85b7bcd55772f07f26c3c7cba12cfd0239eaadf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 39/85] fix: binomial_distribution passes sprout::math::abs a
 real argument

---
 sprout/random/binomial_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index dbc8aa6..7d8ea2d 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -251,7 +251,7 @@ namespace sprout {
 						continue;
 					}
 					v = v * btrd_.alpha / (btrd_.a / (us * us) + btrd_.b);
-					RealType km = sprout::math::abs(k - m_);
+					RealType km = sprout::math::abs(static_cast<RealType>(k - m_));
 					if (km <= 15) {
 						RealType f = RealType(1);
 						if (m_ < k) {
-- 
2.43.0


From 8b7f136d6b689363121d43934ae63b96727b6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 40/85] fix: binomial_distribution counts up to the mode when
 the sample lies below it

---
 sprout/random/binomial_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 7d8ea2d..73d3f00 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -399,7 +399,7 @@ namespace sprout {
 			template<int D, typename Engine, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			generate_7_2(Engine const& eng, RealType v, IntType k, RealType f, IntType i) const {
-				return i != k
+				return i != m_
 					? generate_7_2<D + 1>(eng, v * (btrd_.nr / (i + 1) - btrd_.r), k, f, i + 1)
 					: generate_7_3<D + 1>(eng, v, k, f)
 					;
@@ -585,7 +585,7 @@ namespace sprout {
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			generate_7_2(Engine const& eng, RealType v, IntType k, RealType f, IntType i) const {
-				return i != k
+				return i != m_
 					? generate_7_2(eng, v * (btrd_.nr / (i + 1) - btrd_.r), k, f, i + 1)
 					: generate_7_3(eng, v, k, f)
 					;
-- 
2.43.0


From 0af6323ed67d2e4293325d77f38f0b72d7032cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 41/85] fix: uniform_int_distribution adds the minimum when the
 ranges are powers

---
 sprout/random/uniform_int_distribution.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index eb5f940..6c1e631 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -69,7 +69,7 @@ namespace sprout {
 						while (mult <= limit) {
 							result += static_cast<range_type>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin) * mult);
 							if (mult * range_type(brange) == range - mult + 1) {
-								return result;
+								return sprout::random::detail::add<range_type, result_type>()(result, min_value);
 							}
 							mult *= range_type(brange) + range_type(1);
 						}
@@ -331,8 +331,9 @@ namespace sprout {
 			{
 				return mult * RangeType(brange) == range - mult + 1
 					? sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-						static_cast<T>(
-							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+						sprout::random::detail::add<RangeType, T>()(
+							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
+							min_value
 							),
 						sprout::random::next(rnd)
 						}
@@ -647,8 +648,9 @@ namespace sprout {
 			{
 				return mult * RangeType(brange) == range - mult + 1
 					? sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-						static_cast<T>(
-							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+						sprout::random::detail::add<RangeType, T>()(
+							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
+							min_value
 							),
 						sprout::random::next(rnd)
 						}
-- 
2.43.0


From 84c1d9d7c620e6ec5d50dbb0c83ac6c809605299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 42/85] fix: islessequal accepts equal arguments without the
 built-in functions

---
 sprout/math/islessequal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/islessequal.hpp b/sprout/math/islessequal.hpp
index 0f9896a..8e0d6d9 100644
--- a/sprout/math/islessequal.hpp
+++ b/sprout/math/islessequal.hpp
@@ -39,7 +39,7 @@ namespace sprout {
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 				sprout::math::detail::builtin_islessequal(x, y)
 #else
-				!sprout::math::isnan(x) && !sprout::math::isnan(y) && (x < y)
+				!sprout::math::isnan(x) && !sprout::math::isnan(y) && (x <= y)
 #endif
 				;
 		}
-- 
2.43.0


From 0d7b19b8f293521478d3c2ab078f0da1c77d8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 43/85] fix: fdim of two positive infinities is 0

---
 sprout/math/fdim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/fdim.hpp b/sprout/math/fdim.hpp
index 29cb58a..3d298d3 100644
--- a/sprout/math/fdim.hpp
+++ b/sprout/math/fdim.hpp
@@ -45,7 +45,7 @@ namespace sprout {
 		fdim(FloatType x, FloatType y) {
 			return sprout::math::isnan(y) ? y
 				: sprout::math::isnan(x) ? x
-				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
+				: x == sprout::numeric_limits<FloatType>::infinity() && y != sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
 				: y == sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
 				: y == -sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
-- 
2.43.0


From 410006611eaf476ac38799f1f0786cc8ded2fcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:49 +0000
Subject: [PATCH 44/85] fix: binomial_distribution's table holds the Stirling
 corrections, not factorials

---
 sprout/random/binomial_distribution.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 73d3f00..2d2fe86 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -31,12 +31,16 @@ namespace sprout {
 		namespace detail {
 #		define SPROUT_BINOMIAL_TABLE_DEF \
 			{{ \
-				1, \
-				1, \
-				2, \
-				6, \
-				24, \
-				120 \
+				0.08106146679532726, \
+				0.04134069595540929, \
+				0.02767792568499834, \
+				0.02079067210376509, \
+				0.01664469118982119, \
+				0.01387612882307075, \
+				0.01189670994589177, \
+				0.01041126526197209, \
+				0.009255462182712733, \
+				0.008330563433362871 \
 			}}
 
 			template<typename RealType>
-- 
2.43.0


From 6d122baac4e91a0f5e9977d72307cd185296b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:59 +0000
Subject: [PATCH 45/85] fix: the Bernoulli number B(28) is -23749461029/870

---
 sprout/math/bernoulli.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/math/bernoulli.hpp b/sprout/math/bernoulli.hpp
index fe908e5..48cd8e2 100644
--- a/sprout/math/bernoulli.hpp
+++ b/sprout/math/bernoulli.hpp
@@ -33,7 +33,7 @@ namespace sprout {
 				854513.F / 138, \
 				-236364091.F / 2730, \
 				8553103.F / 6, \
-				-236364091.F / 870, \
+				-23749461029.F / 870, \
 				8615841276005.F / 14322, \
 				-7709321041217.F / 510, \
 				2577687858367.F / 6, \
@@ -69,7 +69,7 @@ namespace sprout {
 				854513. / 138, \
 				-236364091. / 2730, \
 				8553103. / 6, \
-				-236364091. / 870, \
+				-23749461029. / 870, \
 				8615841276005. / 14322, \
 				-7709321041217. / 510, \
 				2577687858367. / 6, \
@@ -123,7 +123,7 @@ namespace sprout {
 				854513.L / 138, \
 				-236364091.L / 2730, \
 				8553103.L / 6, \
-				-236364091.L / 870, \
+				-23749461029.L / 870, \
 				8615841276005.L / 14322, \
 				-7709321041217.L / 510, \
 				2577687858367.L / 6, \
-- 
2.43.0


From c45abb0224f319b71ef75b9dda6dd69a320cb9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:27 +0000
Subject: [PATCH 46/85] fix: ascii isclassified tests the given classes only

---
 sprout/ctype/ascii.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/ctype/ascii.hpp b/sprout/ctype/ascii.hpp
index 0352dc1..32acd17 100644
--- a/sprout/ctype/ascii.hpp
+++ b/sprout/ctype/ascii.hpp
@@ -250,18 +250,18 @@ namespace sprout {
 		} \
 		inline SPROUT_CONSTEXPR bool \
 		SPROUT_PP_CAT(is, SPROUT_PP_CAT(PREFIX, classified))(sprout::ctypes::mask m, CHAR_TYPE c) { \
-			return (m | sprout::ctypes::alnum && (sprout::ascii::detail::get_value(c) & (sprout::ascii::detail::alpha | sprout::ascii::detail::digit))) \
-				|| (m | sprout::ctypes::alpha && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::alpha)) \
-				|| (m | sprout::ctypes::blank && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::blank)) \
-				|| (m | sprout::ctypes::cntrl && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::cntrl)) \
-				|| (m | sprout::ctypes::digit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::digit)) \
-				|| (m | sprout::ctypes::graph && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::graph)) \
-				|| (m | sprout::ctypes::lower && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::lower)) \
-				|| (m | sprout::ctypes::print && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::print)) \
-				|| (m | sprout::ctypes::punct && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::punct)) \
-				|| (m | sprout::ctypes::space && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::space)) \
-				|| (m | sprout::ctypes::upper && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::upper)) \
-				|| (m | sprout::ctypes::xdigit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::xdigit)) \
+			return ((m & sprout::ctypes::alnum) == sprout::ctypes::alnum && (sprout::ascii::detail::get_value(c) & (sprout::ascii::detail::alpha | sprout::ascii::detail::digit))) \
+				|| ((m & sprout::ctypes::alpha) == sprout::ctypes::alpha && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::alpha)) \
+				|| ((m & sprout::ctypes::blank) == sprout::ctypes::blank && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::blank)) \
+				|| ((m & sprout::ctypes::cntrl) == sprout::ctypes::cntrl && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::cntrl)) \
+				|| ((m & sprout::ctypes::digit) == sprout::ctypes::digit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::digit)) \
+				|| ((m & sprout::ctypes::graph) == sprout::ctypes::graph && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::graph)) \
+				|| ((m & sprout::ctypes::lower) == sprout::ctypes::lower && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::lower)) \
+				|| ((m & sprout::ctypes::print) == sprout::ctypes::print && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::print)) \
+				|| ((m & sprout::ctypes::punct) == sprout::ctypes::punct && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::punct)) \
+				|| ((m & sprout::ctypes::space) == sprout::ctypes::space && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::space)) \
+				|| ((m & sprout::ctypes::upper) == sprout::ctypes::upper && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::upper)) \
+				|| ((m & sprout::ctypes::xdigit) == sprout::ctypes::xdigit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::xdigit)) \
 				; \
 		}
 
-- 
2.43.0


From 147c00313010534283728bfda7e9821e84ffdee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 47/85] fix: copy_const copies const, not volatile to const

---
 sprout/type_traits/copy_const.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/type_traits/copy_const.hpp b/sprout/type_traits/copy_const.hpp
index 2185ffc..cee1ef6 100644
--- a/sprout/type_traits/copy_const.hpp
+++ b/sprout/type_traits/copy_const.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 		: public sprout::identity<T>
 	{};
 	template<typename T, typename U>
-	struct copy_const<T, U volatile>
+	struct copy_const<T, U const>
 		: public std::add_const<T>
 	{};
 
-- 
2.43.0


From 8fad0a8040b16573c6b21fca1806f99781a1c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 48/85] fix: has_bit_and_assign, has_bit_or_assign and
 has_bit_xor_assign test their own operators

---
 sprout/type_traits/has_bit_and_assign.hpp | 2 +-
 sprout/type_traits/has_bit_or_assign.hpp  | 2 +-
 sprout/type_traits/has_bit_xor_assign.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/type_traits/has_bit_and_assign.hpp b/sprout/type_traits/has_bit_and_assign.hpp
index d89f362..6a29731 100644
--- a/sprout/type_traits/has_bit_and_assign.hpp
+++ b/sprout/type_traits/has_bit_and_assign.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	// has_bit_and_assign
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_and_assign, =, = typename sprout::const_reference<T>::type);
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_and_assign, &=, = typename sprout::const_reference<T>::type);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_bit_or_assign.hpp b/sprout/type_traits/has_bit_or_assign.hpp
index 1eb3d63..950e25a 100644
--- a/sprout/type_traits/has_bit_or_assign.hpp
+++ b/sprout/type_traits/has_bit_or_assign.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	// has_bit_or_assign
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_or_assign, =, = typename sprout::const_reference<T>::type);
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_or_assign, |=, = typename sprout::const_reference<T>::type);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_bit_xor_assign.hpp b/sprout/type_traits/has_bit_xor_assign.hpp
index 1969a4c..a4228e7 100644
--- a/sprout/type_traits/has_bit_xor_assign.hpp
+++ b/sprout/type_traits/has_bit_xor_assign.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	// has_bit_xor_assign
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_xor_assign, =, = typename sprout::const_reference<T>::type);
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_xor_assign, ^=, = typename sprout::const_reference<T>::type);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
-- 
2.43.0


From 6f338690df652dff16bd421a2c51de22259fce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 49/85] fix: has_pre_increment and has_pre_decrement test their
 own operators

---
 sprout/type_traits/has_pre_decrement.hpp | 2 +-
 sprout/type_traits/has_pre_increment.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/has_pre_decrement.hpp b/sprout/type_traits/has_pre_decrement.hpp
index b73f177..cad12d5 100644
--- a/sprout/type_traits/has_pre_decrement.hpp
+++ b/sprout/type_traits/has_pre_decrement.hpp
@@ -16,7 +16,7 @@ namespace sprout {
 	//
 	// has_pre_decrement
 	//
-	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_decrement, ++);
+	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_decrement, --);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_pre_increment.hpp b/sprout/type_traits/has_pre_increment.hpp
index bf9a0e1..a515cc6 100644
--- a/sprout/type_traits/has_pre_increment.hpp
+++ b/sprout/type_traits/has_pre_increment.hpp
@@ -16,7 +16,7 @@ namespace sprout {
 	//
 	// has_pre_increment
 	//
-	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_increment, --);
+	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_increment, ++);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename R = sprout::dont_care>
-- 
2.43.0


From 4f427dd039636135724f5ecd8453d3945cd3ca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:17 +0000
Subject: [PATCH 50/85] fix: is_copy_assignable and is_move_assignable
 (nothrow, trivially) ask for assignment to an lvalue

---
 sprout/type_traits/is_copy_assignable.hpp           | 2 +-
 sprout/type_traits/is_move_assignable.hpp           | 2 +-
 sprout/type_traits/is_nothrow_copy_assignable.hpp   | 2 +-
 sprout/type_traits/is_nothrow_move_assignable.hpp   | 2 +-
 sprout/type_traits/is_trivially_copy_assignable.hpp | 2 +-
 sprout/type_traits/is_trivially_move_assignable.hpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/type_traits/is_copy_assignable.hpp b/sprout/type_traits/is_copy_assignable.hpp
index c876454..7d9bc4a 100644
--- a/sprout/type_traits/is_copy_assignable.hpp
+++ b/sprout/type_traits/is_copy_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_copy_assignable_impl<T, false>
-			: public sprout::is_assignable<T, T const&>
+			: public sprout::is_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<T const>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_move_assignable.hpp b/sprout/type_traits/is_move_assignable.hpp
index 8d1321d..563a114 100644
--- a/sprout/type_traits/is_move_assignable.hpp
+++ b/sprout/type_traits/is_move_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_move_assignable_impl<T, false>
-			: public sprout::is_assignable<T, T&&>
+			: public sprout::is_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_copy_assignable.hpp b/sprout/type_traits/is_nothrow_copy_assignable.hpp
index a40ab85..60c0b57 100644
--- a/sprout/type_traits/is_nothrow_copy_assignable.hpp
+++ b/sprout/type_traits/is_nothrow_copy_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_nothrow_copy_assignable_impl<T, false>
-			: public sprout::is_nothrow_assignable<T, T const&>
+			: public sprout::is_nothrow_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<T const>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_move_assignable.hpp b/sprout/type_traits/is_nothrow_move_assignable.hpp
index e189f6c..fe0416b 100644
--- a/sprout/type_traits/is_nothrow_move_assignable.hpp
+++ b/sprout/type_traits/is_nothrow_move_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_nothrow_move_assignable_impl<T, false>
-			: public sprout::is_nothrow_assignable<T, T&&>
+			: public sprout::is_nothrow_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_trivially_copy_assignable.hpp b/sprout/type_traits/is_trivially_copy_assignable.hpp
index 318767e..f687dc7 100644
--- a/sprout/type_traits/is_trivially_copy_assignable.hpp
+++ b/sprout/type_traits/is_trivially_copy_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_trivially_copy_assignable_impl<T, false>
-			: public sprout::is_trivially_assignable<T, T const&>
+			: public sprout::is_trivially_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<T const>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_trivially_move_assignable.hpp b/sprout/type_traits/is_trivially_move_assignable.hpp
index d3917e5..f607b83 100644
--- a/sprout/type_traits/is_trivially_move_assignable.hpp
+++ b/sprout/type_traits/is_trivially_move_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_trivially_move_assignable_impl<T, false>
-			: public sprout::is_trivially_assignable<T, T&&>
+			: public sprout::is_trivially_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
-- 
2.43.0


From 5af4674ad8745aec02f1d52b00ea668a65016844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:17 +0000
Subject: [PATCH 51/85] fix: is_copy_constructible and is_move_constructible of
 a function type with qualifiers are false, not ill-formed

---
 sprout/type_traits/is_copy_constructible.hpp           | 2 +-
 sprout/type_traits/is_move_constructible.hpp           | 2 +-
 sprout/type_traits/is_nothrow_copy_constructible.hpp   | 2 +-
 sprout/type_traits/is_nothrow_move_constructible.hpp   | 2 +-
 sprout/type_traits/is_trivially_copy_constructible.hpp | 2 +-
 sprout/type_traits/is_trivially_move_constructible.hpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/type_traits/is_copy_constructible.hpp b/sprout/type_traits/is_copy_constructible.hpp
index f347a9f..ffd5305 100644
--- a/sprout/type_traits/is_copy_constructible.hpp
+++ b/sprout/type_traits/is_copy_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_copy_constructible_impl<T, false>
-			: public sprout::is_constructible<T, T const&>
+			: public sprout::is_constructible<T, typename std::add_lvalue_reference<T const>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_move_constructible.hpp b/sprout/type_traits/is_move_constructible.hpp
index 4f7c4a7..8a93940 100644
--- a/sprout/type_traits/is_move_constructible.hpp
+++ b/sprout/type_traits/is_move_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_move_constructible_impl<T, false>
-			: public sprout::is_constructible<T, T&&>
+			: public sprout::is_constructible<T, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_copy_constructible.hpp b/sprout/type_traits/is_nothrow_copy_constructible.hpp
index 7fa3561..2200171 100644
--- a/sprout/type_traits/is_nothrow_copy_constructible.hpp
+++ b/sprout/type_traits/is_nothrow_copy_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_nothrow_copy_constructible_impl<T, false>
-			: public sprout::is_nothrow_constructible<T, T const&>
+			: public sprout::is_nothrow_constructible<T, typename std::add_lvalue_reference<T const>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_move_constructible.hpp b/sprout/type_traits/is_nothrow_move_constructible.hpp
index 6226c9c..236bc19 100644
--- a/sprout/type_traits/is_nothrow_move_constructible.hpp
+++ b/sprout/type_traits/is_nothrow_move_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_nothrow_move_constructible_impl<T, false>
-			: public sprout::is_nothrow_constructible<T, T&&>
+			: public sprout::is_nothrow_constructible<T, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_trivially_copy_constructible.hpp b/sprout/type_traits/is_trivially_copy_constructible.hpp
index ab3d034..66dd74d 100644
--- a/sprout/type_traits/is_trivially_copy_constructible.hpp
+++ b/sprout/type_traits/is_trivially_copy_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_trivially_copy_constructible_impl<T, false>
-			: public sprout::is_trivially_constructible<T, T const&>
+			: public sprout::is_trivially_constructible<T, typename std::add_lvalue_reference<T const>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_trivially_move_constructible.hpp b/sprout/type_traits/is_trivially_move_constructible.hpp
index 11ff016..127e577 100644
--- a/sprout/type_traits/is_trivially_move_constructible.hpp
+++ b/sprout/type_traits/is_trivially_move_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_trivially_move_constructible_impl<T, false>
-			: public sprout::is_trivially_constructible<T, T&&>
+			: public sprout::is_trivially_constructible<T, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
-- 
2.43.0


From 42d032366a15852151a3346aade11894c0b24b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:46 +0000
Subject: [PATCH 52/85] fix:
 is_trivially_{copyable,constructible,default_constructible,assignable} answer
 from the standard library when it knows, not is_scalar

---
 sprout/type_traits/is_trivially_assignable.hpp            | 6 +++---
 sprout/type_traits/is_trivially_constructible.hpp         | 6 +++---
 sprout/type_traits/is_trivially_copyable.hpp              | 2 +-
 sprout/type_traits/is_trivially_default_constructible.hpp | 6 +++---
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/sprout/type_traits/is_trivially_assignable.hpp b/sprout/type_traits/is_trivially_assignable.hpp
index 39b04fc..2fc5d9b 100644
--- a/sprout/type_traits/is_trivially_assignable.hpp
+++ b/sprout/type_traits/is_trivially_assignable.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 	//
 	// is_trivially_assignable
 	//
-#if !defined(_LIBCPP_VERSION)
+#if !defined(_LIBCPP_VERSION) && !defined(_GLIBCXX_RELEASE)
 #if SPROUT_CLANG_HAS_FUTURE(is_trivially_assignable)
 	template<typename T, typename U>
 	struct is_trivially_assignable
@@ -51,12 +51,12 @@ namespace sprout {
 		: public sprout::is_scalar<T>
 	{};
 #endif	// #if SPROUT_CLANG_HAS_FUTURE(is_trivially_assignable)
-#else	// #if !defined(_LIBCPP_VERSION)
+#else	// #if !defined(_LIBCPP_VERSION) && !defined(_GLIBCXX_RELEASE)
 	template<typename T, typename U>
 	struct is_trivially_assignable
 		: public sprout::detail::type_traits_wrapper<std::is_trivially_assignable<T, U> >
 	{};
-#endif	// #if !defined(_LIBCPP_VERSION)
+#endif	// #if !defined(_LIBCPP_VERSION) && !defined(_GLIBCXX_RELEASE)
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U>
diff --git a/sprout/type_traits/is_trivially_constructible.hpp b/sprout/type_traits/is_trivially_constructible.hpp
index 5c36d93..0e5289e 100644
--- a/sprout/type_traits/is_trivially_constructible.hpp
+++ b/sprout/type_traits/is_trivially_constructible.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 	//
 	// is_trivially_constructible
 	//
-#if !defined(_LIBCPP_VERSION)
+#if !defined(_LIBCPP_VERSION) && !defined(_GLIBCXX_RELEASE)
 #if SPROUT_CLANG_HAS_FUTURE(is_trivially_constructible)
 	template<typename T, typename... Args>
 	struct is_trivially_constructible
@@ -58,12 +58,12 @@ namespace sprout {
 		: public sprout::is_scalar<T>
 	{};
 #endif	// #if SPROUT_CLANG_HAS_FUTURE(is_trivially_constructible)
-#else	// #if !defined(_LIBCPP_VERSION)
+#else	// #if !defined(_LIBCPP_VERSION) && !defined(_GLIBCXX_RELEASE)
 	template<typename T, typename... Args>
 	struct is_trivially_constructible
 		: public sprout::detail::type_traits_wrapper<std::is_trivially_constructible<T, Args...> >
 	{};
-#endif	// #if !defined(_LIBCPP_VERSION)
+#endif	// #if !defined(_LIBCPP_VERSION) && !defined(_GLIBCXX_RELEASE)
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename... Args>
diff --git a/sprout/type_traits/is_trivially_copyable.hpp b/sprout/type_traits/is_trivially_copyable.hpp
index faaf39f..006b80b 100644
--- a/sprout/type_traits/is_trivially_copyable.hpp
+++ b/sprout/type_traits/is_trivially_copyable.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	// is_trivially_copyable
 	//
-#if !defined(_LIBCPP_VERSION)
+#if !defined(_LIBCPP_VERSION) && !defined(_GLIBCXX_RELEASE)
 	template<typename T>
 	struct is_trivially_copyable
 		: public sprout::is_scalar<typename std::remove_all_extents<T>::type>
diff --git a/sprout/type_traits/is_trivially_default_constructible.hpp b/sprout/type_traits/is_trivially_default_constructible.hpp
index f3c1423..c5b1302 100644
--- a/sprout/type_traits/is_trivially_default_constructible.hpp
+++ b/sprout/type_traits/is_trivially_default_constructible.hpp
@@ -17,17 +17,17 @@ namespace sprout {
 	//
 	// is_trivially_default_constructible
 	//
-#if !defined(_LIBCPP_VERSION)
+#if !defined(_LIBCPP_VERSION) && !defined(_GLIBCXX_RELEASE)
 	template<typename T>
 	struct is_trivially_default_constructible
 		: public sprout::is_trivially_constructible<T>
 	{};
-#else	// #if !defined(_LIBCPP_VERSION)
+#else	// #if !defined(_LIBCPP_VERSION) && !defined(_GLIBCXX_RELEASE)
 	template<typename T>
 	struct is_trivially_default_constructible
 		: public sprout::detail::type_traits_wrapper<std::is_trivially_default_constructible<T> >
 	{};
-#endif	// #if !defined(_LIBCPP_VERSION)
+#endif	// #if !defined(_LIBCPP_VERSION) && !defined(_GLIBCXX_RELEASE)
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T>
-- 
2.43.0


From c4d86c4584fded7744910f19833c534535906d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:46 +0000
Subject: [PATCH 53/85] fix: is_swappable and is_nothrow_swappable of void and
 of a function type with qualifiers are false, not ill-formed

---
 sprout/type_traits/is_nothrow_swappable.hpp | 3 ++-
 sprout/type_traits/is_swappable.hpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/is_nothrow_swappable.hpp b/sprout/type_traits/is_nothrow_swappable.hpp
index d941cf5..8deb507 100644
--- a/sprout/type_traits/is_nothrow_swappable.hpp
+++ b/sprout/type_traits/is_nothrow_swappable.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_TYPE_TRAITS_IS_NOTHROW_SWAPPABLE_HPP
 #define SPROUT_TYPE_TRAITS_IS_NOTHROW_SWAPPABLE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/type_traits/is_nothrow_swappable_with.hpp>
 
@@ -17,7 +18,7 @@ namespace sprout {
 	//
 	template<typename T>
 	struct is_nothrow_swappable
-		: public sprout::is_nothrow_swappable_with<T&, T&>
+		: public sprout::is_nothrow_swappable_with<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<T>::type>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
diff --git a/sprout/type_traits/is_swappable.hpp b/sprout/type_traits/is_swappable.hpp
index f3f1d93..ea5d958 100644
--- a/sprout/type_traits/is_swappable.hpp
+++ b/sprout/type_traits/is_swappable.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_TYPE_TRAITS_IS_SWAPPABLE_HPP
 #define SPROUT_TYPE_TRAITS_IS_SWAPPABLE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/type_traits/is_swappable_with.hpp>
 
@@ -17,7 +18,7 @@ namespace sprout {
 	//
 	template<typename T>
 	struct is_swappable
-		: public sprout::is_swappable_with<T&, T&>
+		: public sprout::is_swappable_with<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<T>::type>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
-- 
2.43.0


From 5bc71f1c3baa20bd5ec3d2e736d025f727389075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:46 +0000
Subject: [PATCH 54/85] fix: is_aggregate and has_unique_object_representations
 use the built-in traits clang has

---
 sprout/detail/predef.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sprout/detail/predef.hpp b/sprout/detail/predef.hpp
index aa56ce6..4955726 100644
--- a/sprout/detail/predef.hpp
+++ b/sprout/detail/predef.hpp
@@ -73,7 +73,11 @@
 // SPROUT_CLANG_HAS_FUTURE
 //
 #if SPROUT_AVAILABLE_CLANG
-#	define SPROUT_CLANG_HAS_FUTURE(future) (__has_feature(future))
+#	if defined(__has_builtin)
+#		define SPROUT_CLANG_HAS_FUTURE(future) (__has_feature(future) || __has_builtin(__ ## future))
+#	else
+#		define SPROUT_CLANG_HAS_FUTURE(future) (__has_feature(future))
+#	endif
 #else
 #	define SPROUT_CLANG_HAS_FUTURE(future) (0)
 #endif
-- 
2.43.0


From 390ee5f75d1e7984c81465274c786541a2871705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:53 +0000
Subject: [PATCH 55/85] fix: common_type and undecayed_common_type of unrelated
 types have no type, rather than being ill-formed

---
 sprout/type_traits/common_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/type_traits/common_type.hpp b/sprout/type_traits/common_type.hpp
index 24fec8f..60ccae4 100644
--- a/sprout/type_traits/common_type.hpp
+++ b/sprout/type_traits/common_type.hpp
@@ -34,7 +34,7 @@ namespace sprout {
 			: public sprout::identity<T>
 		{};
 		template<typename T1, typename T2, typename... Tail>
-		struct undecayed_common_type_impl<typename sprout::head_element<void, typename sprout::detail::undecayed_common_type2<T1, T2>::type>::type, T1, T2, Tail...>
+		struct undecayed_common_type_impl<typename sprout::head_element<void, decltype(std::declval<bool>() ? std::declval<T1>() : std::declval<T2>())>::type, T1, T2, Tail...>
 			: public sprout::detail::undecayed_common_type_impl<void, typename sprout::detail::undecayed_common_type2<T1, T2>::type, Tail...>
 		{};
 	}	// namespace detail
-- 
2.43.0


From fc55148c0b56079e40b9fa56a30ea4c17e081beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:30 +0000
Subject: [PATCH 56/85] fix: one_of and one_of_equal are false for two matches
 in one half and one in the other

---
 sprout/algorithm/one_of.hpp       | 12 ++++++++----
 sprout/algorithm/one_of_equal.hpp | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/sprout/algorithm/one_of.hpp b/sprout/algorithm/one_of.hpp
index f524e7f..4f4fcdc 100644
--- a/sprout/algorithm/one_of.hpp
+++ b/sprout/algorithm/one_of.hpp
@@ -43,18 +43,22 @@ namespace sprout {
 			)
 		{
 			return pivot == 0 ? pred(*first)
-				: sprout::detail::one_of_impl_ra(
+				: sprout::detail::one_of_impl_ra_1(
 					first, sprout::next(first, pivot), pred,
 					pivot / 2
 					)
-					? sprout::detail::one_of_impl_ra_1(
+					? sprout::detail::one_of_impl_ra(
 						sprout::next(first, pivot), last, pred,
 						(sprout::distance(first, last) - pivot) / 2
 						)
 					: sprout::detail::one_of_impl_ra(
-						sprout::next(first, pivot), last, pred,
-						(sprout::distance(first, last) - pivot) / 2
+						first, sprout::next(first, pivot), pred,
+						pivot / 2
 						)
+						&& sprout::detail::one_of_impl_ra_1(
+							sprout::next(first, pivot), last, pred,
+							(sprout::distance(first, last) - pivot) / 2
+							)
 				;
 		}
 		template<typename RandomAccessIterator, typename Predicate>
diff --git a/sprout/algorithm/one_of_equal.hpp b/sprout/algorithm/one_of_equal.hpp
index 35e9e67..9e1ea37 100644
--- a/sprout/algorithm/one_of_equal.hpp
+++ b/sprout/algorithm/one_of_equal.hpp
@@ -43,18 +43,22 @@ namespace sprout {
 			)
 		{
 			return pivot == 0 ? *first == value
-				: sprout::detail::one_of_equal_impl_ra(
+				: sprout::detail::one_of_equal_impl_ra_1(
 					first, sprout::next(first, pivot), value,
 					pivot / 2
 					)
-					? sprout::detail::one_of_equal_impl_ra_1(
+					? sprout::detail::one_of_equal_impl_ra(
 						sprout::next(first, pivot), last, value,
 						(sprout::distance(first, last) - pivot) / 2
 						)
 					: sprout::detail::one_of_equal_impl_ra(
-						sprout::next(first, pivot), last, value,
-						(sprout::distance(first, last) - pivot) / 2
+						first, sprout::next(first, pivot), value,
+						pivot / 2
 						)
+						&& sprout::detail::one_of_equal_impl_ra_1(
+							sprout::next(first, pivot), last, value,
+							(sprout::distance(first, last) - pivot) / 2
+							)
 				;
 		}
 		template<typename RandomAccessIterator, typename T>
-- 
2.43.0


From 1bc84e49816078d388163bc544678f7887a40880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:30 +0000
Subject: [PATCH 57/85] fix: types::one_of, one_of_same and tpp::one_of are
 false for two matches in one half and one in the other

---
 sprout/tpp/algorithm/one_of.hpp       | 7 ++++---
 sprout/type/algorithm/one_of.hpp      | 8 ++++++--
 sprout/type/algorithm/one_of_same.hpp | 8 ++++++--
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/sprout/tpp/algorithm/one_of.hpp b/sprout/tpp/algorithm/one_of.hpp
index dfd54e4..0c9345c 100644
--- a/sprout/tpp/algorithm/one_of.hpp
+++ b/sprout/tpp/algorithm/one_of.hpp
@@ -36,9 +36,10 @@ namespace sprout {
 			template<typename Tup, std::size_t First, std::size_t Last>
 			struct one_of_impl<Tup, First, Last, false>
 				: public sprout::bool_constant<
-					sprout::tpp::detail::one_of_impl<Tup, First, (First + Last) / 2>::value
-						? sprout::tpp::detail::one_of_impl_1<Tup, (First + Last) / 2, Last>::value
-						: sprout::tpp::detail::one_of_impl<Tup, (First + Last) / 2, Last>::value
+					sprout::tpp::detail::one_of_impl_1<Tup, First, (First + Last) / 2>::value
+						? sprout::tpp::detail::one_of_impl<Tup, (First + Last) / 2, Last>::value
+						: sprout::tpp::detail::one_of_impl<Tup, First, (First + Last) / 2>::value
+							&& sprout::tpp::detail::one_of_impl_1<Tup, (First + Last) / 2, Last>::value
 				>
 			{};
 		}	// namespace detail
diff --git a/sprout/type/algorithm/one_of.hpp b/sprout/type/algorithm/one_of.hpp
index 6f1ba25..5b74664 100644
--- a/sprout/type/algorithm/one_of.hpp
+++ b/sprout/type/algorithm/one_of.hpp
@@ -69,15 +69,19 @@ namespace sprout {
 			>
 			struct one_of_impl<Tuple, Predicate, First, Last, Pivot, false>
 				: public sprout::bool_constant<
-					sprout::types::detail::one_of_impl<
+					sprout::types::detail::one_of_impl_1<
 						Tuple, Predicate, First, First + Pivot,
 						Pivot / 2
 					>::value
-					? sprout::types::detail::one_of_impl_1<
+					? sprout::types::detail::one_of_impl<
 						Tuple, Predicate, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
 					: sprout::types::detail::one_of_impl<
+						Tuple, Predicate, First, First + Pivot,
+						Pivot / 2
+					>::value
+					&& sprout::types::detail::one_of_impl_1<
 						Tuple, Predicate, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
diff --git a/sprout/type/algorithm/one_of_same.hpp b/sprout/type/algorithm/one_of_same.hpp
index de23826..5e6b44a 100644
--- a/sprout/type/algorithm/one_of_same.hpp
+++ b/sprout/type/algorithm/one_of_same.hpp
@@ -68,15 +68,19 @@ namespace sprout {
 			>
 			struct one_of_same_impl<Tuple, T, First, Last, Pivot, false>
 				: public sprout::bool_constant<
-					sprout::types::detail::one_of_same_impl<
+					sprout::types::detail::one_of_same_impl_1<
 						Tuple, T, First, First + Pivot,
 						Pivot / 2
 					>::value
-					? sprout::types::detail::one_of_same_impl_1<
+					? sprout::types::detail::one_of_same_impl<
 						Tuple, T, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
 					: sprout::types::detail::one_of_same_impl<
+						Tuple, T, First, First + Pivot,
+						Pivot / 2
+					>::value
+					&& sprout::types::detail::one_of_same_impl_1<
 						Tuple, T, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
-- 
2.43.0


From f372aa05be1df532d9248e3cea0dd7d388efcba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:30 +0000
Subject: [PATCH 58/85] fix: types::one_of and one_of_same of an empty tuple
 are false

---
 sprout/type/algorithm/one_of.hpp      | 2 +-
 sprout/type/algorithm/one_of_same.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/type/algorithm/one_of.hpp b/sprout/type/algorithm/one_of.hpp
index 5b74664..3fe9320 100644
--- a/sprout/type/algorithm/one_of.hpp
+++ b/sprout/type/algorithm/one_of.hpp
@@ -93,7 +93,7 @@ namespace sprout {
 			{};
 			template<typename Tuple, typename Predicate>
 			struct one_of<Tuple, Predicate, 0>
-				: public sprout::true_type
+				: public sprout::false_type
 			{};
 		}	// namespace detail
 		//
diff --git a/sprout/type/algorithm/one_of_same.hpp b/sprout/type/algorithm/one_of_same.hpp
index 5e6b44a..d96faea 100644
--- a/sprout/type/algorithm/one_of_same.hpp
+++ b/sprout/type/algorithm/one_of_same.hpp
@@ -92,7 +92,7 @@ namespace sprout {
 			{};
 			template<typename Tuple, typename T>
 			struct one_of_same<Tuple, T, 0>
-				: public sprout::true_type
+				: public sprout::false_type
 			{};
 		}	// namespace detail
 		//
-- 
2.43.0


From 0f853da70780dbbb292a20079ec3c2d07c77bfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:03 +0000
Subject: [PATCH 59/85] fix: integer_range and index_range count down and start
 below zero

---
 sprout/index_tuple/integer_range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/index_tuple/integer_range.hpp b/sprout/index_tuple/integer_range.hpp
index d264c18..264d370 100644
--- a/sprout/index_tuple/integer_range.hpp
+++ b/sprout/index_tuple/integer_range.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 		>
 			: public sprout::detail::integer_range_next_even<
 				T, typename sprout::detail::integer_range_dispatch<T, First, Step, N / 2>::type,
-				N / 2 * Step
+				static_cast<T>(N / 2 * Step)
 			>
 		{};
 		template<typename T, T First, typename std::make_signed<T>::type Step, typename std::make_unsigned<T>::type N>
@@ -70,7 +70,7 @@ namespace sprout {
 		>
 			: public sprout::detail::integer_range_next_odd<
 				T, typename sprout::detail::integer_range_dispatch<T, First, Step, N / 2>::type,
-				N / 2 * Step, First + (N - 1) * Step
+				static_cast<T>(N / 2 * Step), static_cast<T>(First + (N - 1) * Step)
 			>
 		{};
 		template<typename T, T First, T Last, typename std::make_signed<T>::type Step, typename Enable = void>
-- 
2.43.0


From 90072243108668225b718839f257fed2fbad83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:03 +0000
Subject: [PATCH 60/85] fix: invoke of a member pointer with a pointer to the
 object dereferences the pointer

---
 sprout/type_traits/detail/invoke.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/detail/invoke.hpp b/sprout/type_traits/detail/invoke.hpp
index 9f80fce..046a9bc 100644
--- a/sprout/type_traits/detail/invoke.hpp
+++ b/sprout/type_traits/detail/invoke.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 		template<typename PMD, typename Pointer>
 		inline SPROUT_CONSTEXPR decltype((*std::declval<Pointer>()).*(std::declval<PMD>()))
 		invoke(PMD&& pmd, Pointer&& ptr) SPROUT_NOEXCEPT_IF_EXPR((*std::declval<Pointer>()).*(std::declval<PMD>())) {
-			return SPROUT_FORWARD(Pointer, ptr).*(SPROUT_FORWARD(PMD, pmd));
+			return (*SPROUT_FORWARD(Pointer, ptr)).*(SPROUT_FORWARD(PMD, pmd));
 		}
 
 		template<typename Base, typename T, typename Derived, typename... Args>
@@ -44,7 +44,7 @@ namespace sprout {
 		template<typename PMF, typename Pointer, typename... Args>
 		inline SPROUT_CONSTEXPR decltype(((*std::declval<Pointer>()).*(std::declval<PMF>()))(std::declval<Args>()...))
 		invoke(PMF&& pmf, Pointer&& ptr, Args&&... args) SPROUT_NOEXCEPT_IF_EXPR(((*std::declval<Pointer>()).*(std::declval<PMF>()))(std::declval<Args>()...)) {
-			return (SPROUT_FORWARD(Pointer, ptr).*(SPROUT_FORWARD(PMF, pmf)))(SPROUT_FORWARD(Args, args)...);
+			return ((*SPROUT_FORWARD(Pointer, ptr)).*(SPROUT_FORWARD(PMF, pmf)))(SPROUT_FORWARD(Args, args)...);
 		}
 
 		template<typename R, typename F, typename... Args>
-- 
2.43.0


From 08ac6597ba4225197118354c29d21e59f517f8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:39 +0000
Subject: [PATCH 61/85] fix: an array is an aggregate whatever its elements are

---
 sprout/type_traits/is_aggregate.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sprout/type_traits/is_aggregate.hpp b/sprout/type_traits/is_aggregate.hpp
index eb0e600..b898bc6 100644
--- a/sprout/type_traits/is_aggregate.hpp
+++ b/sprout/type_traits/is_aggregate.hpp
@@ -12,7 +12,6 @@
 #include <sprout/detail/predef.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
 #include <sprout/type_traits/remove_cv.hpp>
-#include <sprout/type_traits/remove_all_extents.hpp>
 
 namespace sprout {
 	//
@@ -22,7 +21,7 @@ namespace sprout {
 	template<typename T>
 	struct is_aggregate
 		: public sprout::bool_constant<
-			__is_aggregate(typename sprout::remove_cv<typename sprout::remove_all_extents<T>::type>::type)
+			__is_aggregate(typename sprout::remove_cv<T>::type)
 		>
 	{};
 #else	// #if SPROUT_CLANG_HAS_FUTURE(is_aggregate) || SPROUT_GCC_OR_LATER(7, 0, 0)
-- 
2.43.0


From fbe195c2f830211c7c6557af0ae7254994a09600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:39 +0000
Subject: [PATCH 62/85] fix: swap of seven iterators called itself with two
 arguments

---
 sprout/iterator/indexed_iterator.hpp |  8 ++++----
 sprout/iterator/move_iterator.hpp    |  4 ++--
 sprout/iterator/next_iterator.hpp    |  8 ++++----
 sprout/iterator/remake_iterator.hpp  | 24 ++++++++++++------------
 sprout/iterator/reverse_iterator.hpp |  4 ++--
 sprout/iterator/step_iterator.hpp    | 22 +++++++++++-----------
 sprout/iterator/valued_iterator.hpp  |  8 ++++----
 7 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/sprout/iterator/indexed_iterator.hpp b/sprout/iterator/indexed_iterator.hpp
index ac56dd5..dd1f1dc 100644
--- a/sprout/iterator/indexed_iterator.hpp
+++ b/sprout/iterator/indexed_iterator.hpp
@@ -121,12 +121,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(indexed_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(idx, other.idx))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(idx, other.idx))
 			)
 		{
-			swap(current, other.current);
-			swap(idx, other.idx);
+			sprout::swap(current, other.current);
+			sprout::swap(idx, other.idx);
 		}
 	};
 
diff --git a/sprout/iterator/move_iterator.hpp b/sprout/iterator/move_iterator.hpp
index 826af24..9df2cc5 100644
--- a/sprout/iterator/move_iterator.hpp
+++ b/sprout/iterator/move_iterator.hpp
@@ -123,10 +123,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(move_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(current, other.current);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/next_iterator.hpp b/sprout/iterator/next_iterator.hpp
index 9addf3f..3ac7e83 100644
--- a/sprout/iterator/next_iterator.hpp
+++ b/sprout/iterator/next_iterator.hpp
@@ -90,12 +90,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(next_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(holder_, other.holder_))
-			&& SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(holder_, other.holder_))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(holder_, other.holder_);
-			swap(current, other.current);
+			sprout::swap(holder_, other.holder_);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/remake_iterator.hpp b/sprout/iterator/remake_iterator.hpp
index af576e1..3feeba2 100644
--- a/sprout/iterator/remake_iterator.hpp
+++ b/sprout/iterator/remake_iterator.hpp
@@ -202,20 +202,20 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(remake_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(current2, other.current2))
-			&& SPROUT_NOEXCEPT_EXPR(swap(fst, other.fst))
-			&& SPROUT_NOEXCEPT_EXPR(swap(lst_, other.lst_))
-			&& SPROUT_NOEXCEPT_EXPR(swap(begin_off, other.begin_off))
-			&& SPROUT_NOEXCEPT_EXPR(swap(end_off, other.end_off))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(current2, other.current2))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(fst, other.fst))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(lst_, other.lst_))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(begin_off, other.begin_off))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(end_off, other.end_off))
 			)
 		{
-			swap(current, other.current);
-			swap(current2, other.current2);
-			swap(fst, other.fst);
-			swap(lst_, other.lst_);
-			swap(begin_off, other.begin_off);
-			swap(end_off, other.end_off);
+			sprout::swap(current, other.current);
+			sprout::swap(current2, other.current2);
+			sprout::swap(fst, other.fst);
+			sprout::swap(lst_, other.lst_);
+			sprout::swap(begin_off, other.begin_off);
+			sprout::swap(end_off, other.end_off);
 		}
 	};
 
diff --git a/sprout/iterator/reverse_iterator.hpp b/sprout/iterator/reverse_iterator.hpp
index 2990599..0d6c427 100644
--- a/sprout/iterator/reverse_iterator.hpp
+++ b/sprout/iterator/reverse_iterator.hpp
@@ -109,10 +109,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(reverse_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(current, other.current);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 8e8a39c..0813a21 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -155,19 +155,19 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(step_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(last, other.last))
-			&& SPROUT_NOEXCEPT_EXPR(swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(swap(back, other.back))
-			&& SPROUT_NOEXCEPT_EXPR(swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(swap(is_last, other.is_last))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(last, other.last))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(back, other.back))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(is_last, other.is_last))
 			)
 		{
-			swap(current, other.current);
-			swap(last, other.last);
-			swap(wid, other.wid);
-			swap(back, other.back);
-			swap(is_last, other.is_last);
+			sprout::swap(current, other.current);
+			sprout::swap(last, other.last);
+			sprout::swap(wid, other.wid);
+			sprout::swap(back, other.back);
+			sprout::swap(is_last, other.is_last);
 		}
 	};
 
diff --git a/sprout/iterator/valued_iterator.hpp b/sprout/iterator/valued_iterator.hpp
index 92e6fc6..70e5cbc 100644
--- a/sprout/iterator/valued_iterator.hpp
+++ b/sprout/iterator/valued_iterator.hpp
@@ -129,12 +129,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(valued_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(holder, other.holder))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(holder, other.holder))
 			)
 		{
-			swap(current, other.current);
-			swap(holder, other.holder);
+			sprout::swap(current, other.current);
+			sprout::swap(holder, other.holder);
 		}
 	};
 
-- 
2.43.0


From 7aec493f330d02ac6e22054bd712f04f1deb2948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:21 +0000
Subject: [PATCH 63/85] fix: reverse iterators compare in the order they are
 traversed

---
 sprout/iterator/reverse_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/reverse_iterator.hpp b/sprout/iterator/reverse_iterator.hpp
index 0d6c427..edfbbc5 100644
--- a/sprout/iterator/reverse_iterator.hpp
+++ b/sprout/iterator/reverse_iterator.hpp
@@ -129,7 +129,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::reverse_iterator<Iterator1> const& lhs, sprout::reverse_iterator<Iterator2> const& rhs) {
-		return lhs.base() < rhs.base();
+		return rhs.base() < lhs.base();
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From 87b07799d272b971ab4929e46a83d0ce73706155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:21 +0000
Subject: [PATCH 64/85] fix: alternate_iterator steps back by odd numbers and
 subtracts in the right direction

---
 sprout/iterator/alternate_iterator.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sprout/iterator/alternate_iterator.hpp b/sprout/iterator/alternate_iterator.hpp
index db9af14..1eb8606 100644
--- a/sprout/iterator/alternate_iterator.hpp
+++ b/sprout/iterator/alternate_iterator.hpp
@@ -46,11 +46,14 @@ namespace sprout {
 		iterator2_type current2;
 		bool in_left;
 	private:
-		SPROUT_CONSTEXPR alternate_iterator advance_impl_1(difference_type n) const {
-			return alternate_iterator(sprout::next(current1, n / 2), sprout::next(current2, n / 2), !(n % 2));
+		SPROUT_CONSTEXPR alternate_iterator advance_impl_1(difference_type n, bool in_left) const {
+			return alternate_iterator(sprout::next(current1, n), sprout::next(current2, n), in_left);
+		}
+		SPROUT_CONSTEXPR alternate_iterator advance_impl_2(difference_type n) const {
+			return advance_impl_1(n % 2 < 0 ? n / 2 - 1 : n / 2, n % 2 == 0);
 		}
 		SPROUT_CONSTEXPR alternate_iterator advance_impl(difference_type n) const {
-			return advance_impl_1(n + (!is_in_left() ? 1 : 0));
+			return advance_impl_2(n + (!is_in_left() ? 1 : 0));
 		}
 		SPROUT_CONSTEXPR alternate_iterator(iterator_type it1, iterator2_type it2, bool in_left)
 			: current1(it1), current2(it2), in_left(in_left)
@@ -250,7 +253,7 @@ namespace sprout {
 	{
 		return sprout::limited::plus(
 			sprout::limited::multiplies(lhs.base() - rhs.base(), 2),
-			lhs.is_in_left() ? (rhs.is_in_left() ? 0 : 1) : (rhs.is_in_left() ? 1 : 0)
+			lhs.is_in_left() ? (rhs.is_in_left() ? 0 : -1) : (rhs.is_in_left() ? 1 : 0)
 			);
 	}
 	template<typename LIterator, typename RIterator>
-- 
2.43.0


From 11cd598deee29ad718ef1405c9bbb9cba1c7c38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:21 +0000
Subject: [PATCH 65/85] fix: the difference of a joint_iterator in the left
 range and one in the right range is negative

---
 sprout/iterator/joint_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/joint_iterator.hpp b/sprout/iterator/joint_iterator.hpp
index 57702a1..1354301 100644
--- a/sprout/iterator/joint_iterator.hpp
+++ b/sprout/iterator/joint_iterator.hpp
@@ -271,7 +271,7 @@ namespace sprout {
 	{
 		return lhs.is_in_left() && rhs.is_in_left() ? lhs.base() - rhs.base()
 			: !lhs.is_in_left() && !rhs.is_in_left() ? lhs.base2() - rhs.base2()
-			: lhs.is_in_left() ? sprout::limited::plus(lhs.left_end() - lhs.base(), rhs.base2() - rhs.right_begin())
+			: lhs.is_in_left() ? sprout::limited::plus(lhs.base() - lhs.left_end(), rhs.right_begin() - rhs.base2())
 			: sprout::limited::plus(lhs.base2() - lhs.right_begin(), rhs.left_end() - rhs.base())
 			;
 	}
-- 
2.43.0


From a20dca0df1d68c4bf7ba6a27a95256693311ceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:21 +0000
Subject: [PATCH 66/85] fix: insert_range_iterator compares an iterator in the
 inserted range with one behind it correctly

---
 sprout/iterator/insert_range_iterator.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sprout/iterator/insert_range_iterator.hpp b/sprout/iterator/insert_range_iterator.hpp
index fb3b495..62215f5 100644
--- a/sprout/iterator/insert_range_iterator.hpp
+++ b/sprout/iterator/insert_range_iterator.hpp
@@ -222,9 +222,8 @@ namespace sprout {
 		sprout::insert_range_iterator<DstIterator2, SrcIterator2> const& rhs
 		)
 	{
-		return lhs.is_in_base() && rhs.is_in_base() ? lhs.base() < rhs.base()
-			: !lhs.is_in_base() && !rhs.is_in_base() ? lhs.base2() < rhs.base2()
-			: lhs.is_in_base()
+		return lhs.base() < rhs.base()
+			|| (lhs.base() == rhs.base() && lhs.base2() < rhs.base2())
 			;
 	}
 	template<
-- 
2.43.0


From b92b2c2e7906e8901c2ae0d81db9f8cfb4510d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:21 +0000
Subject: [PATCH 67/85] fix: size_enum_iterator with separators steps back and
 indexes as it iterates

---
 sprout/iterator/size_enum_iterator.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sprout/iterator/size_enum_iterator.hpp b/sprout/iterator/size_enum_iterator.hpp
index 5dd6d0f..951eb9c 100644
--- a/sprout/iterator/size_enum_iterator.hpp
+++ b/sprout/iterator/size_enum_iterator.hpp
@@ -162,6 +162,10 @@ namespace sprout {
 		iterator_type current;
 		value_type sep_size;
 		bool is_sep;
+	private:
+		SPROUT_CONSTEXPR size_enum_iterator advance_impl(difference_type n) const {
+			return size_enum_iterator(current + (n % 2 < 0 ? n / 2 - 1 : n / 2), sep_size, n % 2 != 0);
+		}
 	public:
 		SPROUT_CONSTEXPR size_enum_iterator()
 			: current(), sep_size(), is_sep()
@@ -238,23 +242,23 @@ namespace sprout {
 			return temp;
 		}
 		SPROUT_CONSTEXPR size_enum_iterator operator+(difference_type n) const {
-			return size_enum_iterator(current + (n + is_sep) / 2, sep_size, (n + is_sep) % 2);
+			return advance_impl(n + is_sep);
 		}
 		SPROUT_CONSTEXPR size_enum_iterator operator-(difference_type n) const {
-			return size_enum_iterator(current - (n - is_sep) / 2, sep_size, (n - is_sep) % 2);
+			return advance_impl(-n + is_sep);
 		}
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator+=(difference_type n) {
-			size_enum_iterator temp(current + (n + is_sep) / 2, sep_size, (n + is_sep) % 2);
+			size_enum_iterator temp(advance_impl(n + is_sep));
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator-=(difference_type n) {
-			size_enum_iterator temp(current - (n - is_sep) / 2, sep_size, (n - is_sep) % 2);
+			size_enum_iterator temp(advance_impl(-n + is_sep));
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CONSTEXPR reference operator[](difference_type n) const {
-			return sprout::size(current[(n + is_sep) / 2]);
+			return *(*this + n);
 		}
 		SPROUT_CONSTEXPR size_enum_iterator next() const {
 			return is_sep
-- 
2.43.0


From 117c52c6d982ca3b0654709e8260105ebc62d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:21 +0000
Subject: [PATCH 68/85] fix: remake_iterator keeps its place in the copied
 range when it steps past the end of it

---
 sprout/iterator/remake_iterator.hpp | 35 +++++++++--------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/sprout/iterator/remake_iterator.hpp b/sprout/iterator/remake_iterator.hpp
index 3feeba2..0414b58 100644
--- a/sprout/iterator/remake_iterator.hpp
+++ b/sprout/iterator/remake_iterator.hpp
@@ -41,32 +41,19 @@ namespace sprout {
 		typedef typename sprout::common_iterator_pointer<DstIterator, SrcIterator>::type pointer;
 		typedef typename sprout::common_iterator_reference<DstIterator, SrcIterator>::type reference;
 	private:
-		SPROUT_CONSTEXPR remake_iterator advance_impl(difference_type n) const {
-			return n >= 0
-				? remake_iterator(
-					sprout::next(current, n),
-					begin_off - n >= 0 ? fst
-						: (end_off - begin_off >= sprout::distance(fst, lst_) && begin_off - n <= -sprout::distance(fst, lst_)) ? lst_
-						: begin_off <= 0
-							? sprout::next(current2, NS_SSCRISK_CEL_OR_SPROUT::min(NS_SSCRISK_CEL_OR_SPROUT::min(n, end_off), sprout::distance(current2, lst_)))
-							: sprout::next(current2, NS_SSCRISK_CEL_OR_SPROUT::min(NS_SSCRISK_CEL_OR_SPROUT::min(n - begin_off, end_off), sprout::distance(current2, lst_)))
-						,
-					fst, lst_,
-					begin_off - n, end_off - n
-					)
-				: remake_iterator(
-					sprout::next(current, n),
-					begin_off - n >= 0 ? fst
-						: (end_off - begin_off >= sprout::distance(fst, lst_) && begin_off - n <= -sprout::distance(fst, lst_)) ? lst_
-						: begin_off >= -sprout::distance(fst, lst_)
-							? sprout::next(current2, n)
-							: sprout::next(current2, n - (begin_off + sprout::distance(fst, lst_)))
-						,
-					fst, lst_,
-					begin_off - n, end_off - n
-					)
+		SPROUT_CONSTEXPR difference_type copied_distance(difference_type n, difference_type size) const {
+			return n <= 0 ? 0
+				: NS_SSCRISK_CEL_OR_SPROUT::min(NS_SSCRISK_CEL_OR_SPROUT::min(n, size), sprout::distance(fst, lst_))
 				;
 		}
+		SPROUT_CONSTEXPR remake_iterator advance_impl(difference_type n) const {
+			return remake_iterator(
+				sprout::next(current, n),
+				sprout::next(fst, copied_distance(n - begin_off, end_off - begin_off)),
+				fst, lst_,
+				begin_off - n, end_off - n
+				);
+		}
 	protected:
 		iterator_type current;
 		iterator2_type current2;
-- 
2.43.0


From 56e7388001791ada2c0926934cddb1a8d468eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:42 +0000
Subject: [PATCH 69/85] fix: step ranges end: iterators at the end of the steps
 compare equal, step back and count from there

---
 sprout/iterator/step_iterator.hpp | 44 +++++++++++--------------------
 sprout/range/adaptor/steps.hpp    |  6 ++---
 2 files changed, 19 insertions(+), 31 deletions(-)

diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 0813a21..be14306 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -36,13 +36,12 @@ namespace sprout {
 		typedef typename base_type::reference reference;
 	private:
 		static SPROUT_CONSTEXPR iterator_type get_back(iterator_type it, difference_type wid, iterator_type last) {
-			return sprout::next(it, (sprout::distance(it, last) - 1) / wid * wid);
+			return it == last ? it
+				: sprout::next(it, (sprout::distance(it, last) - 1) / wid * wid)
+				;
 		}
 		static SPROUT_CONSTEXPR difference_type next_distance(step_iterator const& it, difference_type n) {
-			return n >= 0 ? NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(it.current, it.back), n * it.wid)
-				: it.is_last ? 0
-				: NS_SSCRISK_CEL_OR_SPROUT::max(-sprout::distance(it.current, it.back), n * it.wid)
-				;
+			return (NS_SSCRISK_CEL_OR_SPROUT::max<difference_type>(it.rest(), 1) - NS_SSCRISK_CEL_OR_SPROUT::max<difference_type>(it.rest() - n, 1)) * it.wid;
 		}
 	protected:
 		iterator_type current;
@@ -54,7 +53,7 @@ namespace sprout {
 	private:
 		SPROUT_CONSTEXPR step_iterator(step_iterator const& other, difference_type n)
 			: current(sprout::next(other.current, next_distance(other, n))), last(other.last), wid(other.wid)
-			, back(other.back), is_last(next_distance(other, n) == 0)
+			, back(other.back), is_last(other.rest() <= n)
 		{}
 	public:
 		SPROUT_CONSTEXPR step_iterator()
@@ -92,6 +91,9 @@ namespace sprout {
 		SPROUT_CONSTEXPR bool is_end() const {
 			return is_last;
 		}
+		SPROUT_CONSTEXPR difference_type rest() const {
+			return is_last ? 0 : sprout::distance(current, back) / wid + 1;
+		}
 		SPROUT_CONSTEXPR reference operator*() const {
 			return *current;
 		}
@@ -99,33 +101,19 @@ namespace sprout {
 			return &*current;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator++() {
-			if (current == back) {
-				is_last = true;
-			}
-			current += next_distance(*this, 1);
-			return *this;
+			return *this += 1;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator operator++(int) {
 			step_iterator result(*this);
-			if (current == back) {
-				is_last = true;
-			}
-			current += next_distance(*this, 1);
+			*this += 1;
 			return result;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator--() {
-			current += next_distance(*this, -1);
-			if (current != back) {
-				is_last = false;
-			}
-			return *this;
+			return *this -= 1;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator operator--(int) {
 			step_iterator temp(*this);
-			current += next_distance(*this, -1);
-			if (current != back) {
-				is_last = false;
-			}
+			*this -= 1;
 			return temp;
 		}
 		SPROUT_CONSTEXPR step_iterator operator+(difference_type n) const {
@@ -145,7 +133,7 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR reference operator[](difference_type n) const {
-			return *(current + n * wid);
+			return *sprout::next(current, next_distance(*this, n));
 		}
 		SPROUT_CONSTEXPR step_iterator next() const {
 			return step_iterator(*this, 1);
@@ -174,7 +162,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator==(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return lhs.base() == rhs.base() && lhs.is_end() == rhs.is_end();
+		return lhs.is_end() == rhs.is_end() && (lhs.is_end() || lhs.base() == rhs.base());
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
@@ -184,7 +172,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return lhs.base() < rhs.base() || (lhs.base() == rhs.base() && !lhs.is_end() && rhs.is_end());
+		return !lhs.is_end() && (rhs.is_end() || lhs.base() < rhs.base());
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
@@ -204,7 +192,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR decltype(std::declval<Iterator1>() - std::declval<Iterator2>())
 	operator-(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return (lhs.base() - rhs.base()) / lhs.width() + (lhs.is_end() ? 1 : 0) - (rhs.is_end() ? 1 : 0);
+		return rhs.rest() - lhs.rest();
 	}
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR sprout::step_iterator<Iterator>
diff --git a/sprout/range/adaptor/steps.hpp b/sprout/range/adaptor/steps.hpp
index 6aef1aa..5ab6a92 100644
--- a/sprout/range/adaptor/steps.hpp
+++ b/sprout/range/adaptor/steps.hpp
@@ -46,19 +46,19 @@ namespace sprout {
 			explicit SPROUT_CONSTEXPR steps_range(range_type& range)
 				: base_type(
 					iterator(sprout::begin(range), 1, sprout::end(range)),
-					iterator(sprout::end(range), 1, sprout::end(range))
+					iterator(sprout::begin(range), 1, sprout::end(range)) + static_cast<difference_type>(sprout::size(range))
 					)
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, range_type& range)
 				: base_type(
 					iterator(sprout::begin(range), width, sprout::end(range)),
-					iterator(sprout::end(range), width, sprout::end(range))
+					iterator(sprout::begin(range), width, sprout::end(range)) + static_cast<difference_type>(sprout::size(range))
 					)
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, difference_type init, range_type& range)
 				: base_type(
 					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min(init, static_cast<difference_type>(sprout::size(range)))), width, sprout::end(range)),
-					iterator(sprout::end(range), width, sprout::end(range))
+					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min(init, static_cast<difference_type>(sprout::size(range)))), width, sprout::end(range)) + static_cast<difference_type>(sprout::size(range))
 					)
 			{}
 		};
-- 
2.43.0


From 2c62ddfe2943abafc0096262c9142d468e57e176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:32 +0000
Subject: [PATCH 70/85] fix: the difference of separated size_enum_iterators
 counts the separators

---
 sprout/iterator/size_enum_iterator.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sprout/iterator/size_enum_iterator.hpp b/sprout/iterator/size_enum_iterator.hpp
index 951eb9c..a4601ac 100644
--- a/sprout/iterator/size_enum_iterator.hpp
+++ b/sprout/iterator/size_enum_iterator.hpp
@@ -371,12 +371,9 @@ namespace sprout {
 		sprout::size_enum_iterator<Iterator2, true> const& rhs
 		)
 	{
-		return lhs.base() - rhs.base() + (
-			lhs.is_separator()
-				? rhs.is_separator() ? 0 : -1
-				: rhs.is_separator() ? 1 : 0
-				)
-		;
+		return (lhs.base() - rhs.base()) * 2
+			+ (lhs.is_separator() ? 1 : 0) - (rhs.is_separator() ? 1 : 0)
+			;
 	}
 	template<typename Iterator, bool Separated>
 	inline SPROUT_CONSTEXPR sprout::size_enum_iterator<Iterator, Separated>
-- 
2.43.0


From 6d467ff10af251c7f7430516516c5fa273b0a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:59 +0000
Subject: [PATCH 71/85] fix: bytes_iterator steps back within and across
 elements

---
 sprout/iterator/bytes_iterator.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sprout/iterator/bytes_iterator.hpp b/sprout/iterator/bytes_iterator.hpp
index 65e73ee..1451114 100644
--- a/sprout/iterator/bytes_iterator.hpp
+++ b/sprout/iterator/bytes_iterator.hpp
@@ -59,26 +59,30 @@ namespace sprout {
 	private:
 		iterator_type it_;
 		difference_type i_;
+	private:
+		static SPROUT_CONSTEXPR difference_type bytes() {
+			return static_cast<difference_type>(traits_type::size());
+		}
 	private:
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i)
 			: it_(it) , i_(i)
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, next_tag)
-			: it_(i / traits_type::size() == 0 ? it : sprout::next(it))
-			, i_(i % traits_type::size())
+			: it_(i / bytes() == 0 ? it : sprout::next(it))
+			, i_(i % bytes())
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, prev_tag)
-			: it_((i + 1 - traits_type::size()) / traits_type::size() == 0 ? it : sprout::prev(it))
-			, i_(i % traits_type::size() + traits_type::size())
+			: it_(i >= 0 ? it : sprout::prev(it))
+			, i_(i >= 0 ? i : i + bytes())
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, ra_tag)
 			: it_(i >= 0
-				? sprout::next(it, i / traits_type::size())
-				: sprout::next(it, (i + 1 - traits_type::size()) / traits_type::size())
+				? sprout::next(it, i / bytes())
+				: sprout::next(it, (i + 1 - bytes()) / bytes())
 				)
 			, i_(i >= 0
-				? i % traits_type::size()
-				: i % traits_type::size() + traits_type::size()
+				? i % bytes()
+				: (i + 1) % bytes() + bytes() - 1
 				)
 		{}
 	public:
-- 
2.43.0


From 64e7eaa5e02f5e2480d472c98db7ab9761886c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:04 +0000
Subject: [PATCH 72/85] fix: cend of complex and quaternion is the end

---
 sprout/complex/complex.hpp            | 2 +-
 sprout/math/quaternion/quaternion.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/complex/complex.hpp b/sprout/complex/complex.hpp
index 01a9bc6..dea691c 100644
--- a/sprout/complex/complex.hpp
+++ b/sprout/complex/complex.hpp
@@ -167,7 +167,7 @@ namespace sprout {
 			return elems_.cbegin();
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-			return elems_.cbegin();
+			return elems_.cend();
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 			return elems_.crbegin();
diff --git a/sprout/math/quaternion/quaternion.hpp b/sprout/math/quaternion/quaternion.hpp
index 9be6bba..1da7e86 100644
--- a/sprout/math/quaternion/quaternion.hpp
+++ b/sprout/math/quaternion/quaternion.hpp
@@ -281,7 +281,7 @@ namespace sprout {
 				return elems_.cbegin();
 			}
 			SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-				return elems_.cbegin();
+				return elems_.cend();
 			}
 			SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 				return elems_.crbegin();
@@ -580,7 +580,7 @@ namespace sprout {
 				return elems_.cbegin(); \
 			} \
 			SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT { \
-				return elems_.cbegin(); \
+				return elems_.cend(); \
 			} \
 			SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT { \
 				return elems_.crbegin(); \
-- 
2.43.0


From edc2aa4f971cc810b00a8c2dd306ef20ae071794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:04 +0000
Subject: [PATCH 73/85] fix: valarray is empty when it has no elements

---
 sprout/valarray/valarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 467d76d..8a53531 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -526,7 +526,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR bool
 		empty() const SPROUT_NOEXCEPT {
-			return size() != 0;
+			return size() == 0;
 		}
 		// element access (array):
 		SPROUT_CXX14_CONSTEXPR reference
-- 
2.43.0


From 20ee3f724c2a168469a3db9754434c570911d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:04 +0000
Subject: [PATCH 74/85] fix: sized_pit iterates over as many elements as it has

---
 sprout/sized_pit/sized_pit.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/sized_pit/sized_pit.hpp b/sprout/sized_pit/sized_pit.hpp
index f9fd429..0855171 100644
--- a/sprout/sized_pit/sized_pit.hpp
+++ b/sprout/sized_pit/sized_pit.hpp
@@ -81,10 +81,10 @@ namespace sprout {
 		}
 		// iterators:
 		SPROUT_CXX14_CONSTEXPR iterator begin() {
-			return iterator(elem, enumerable_size);
+			return iterator(elem, size_);
 		}
 		SPROUT_CONSTEXPR const_iterator begin() const {
-			return const_iterator(elem, enumerable_size);
+			return const_iterator(elem, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR iterator end() SPROUT_NOEXCEPT {
 			return iterator(elem, 0);
@@ -105,7 +105,7 @@ namespace sprout {
 			return const_reverse_iterator(begin());
 		}
 		SPROUT_CONSTEXPR const_iterator cbegin() const SPROUT_NOEXCEPT {
-			return const_iterator(elem, enumerable_size);
+			return const_iterator(elem, size_);
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
 			return const_iterator(elem, 0);
-- 
2.43.0


From f9f7cf924114f1c51bf7436eb3140d41f50c573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:04 +0000
Subject: [PATCH 75/85] fix: assignment and swap of sized_pit carry the size

---
 sprout/sized_pit/sized_pit.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sprout/sized_pit/sized_pit.hpp b/sprout/sized_pit/sized_pit.hpp
index 0855171..472b1b1 100644
--- a/sprout/sized_pit/sized_pit.hpp
+++ b/sprout/sized_pit/sized_pit.hpp
@@ -60,10 +60,12 @@ namespace sprout {
 		{}
 		SPROUT_CXX14_CONSTEXPR sized_pit& operator=(sized_pit const& rhs) {
 			elem = rhs.elem;
+			size_ = rhs.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR sized_pit& operator=(sized_pit&& rhs) {
 			elem = sprout::move(rhs.elem);
+			size_ = rhs.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR sized_pit& operator=(value_type const& rhs) {
@@ -78,6 +80,7 @@ namespace sprout {
 		SPROUT_NOEXCEPT_IF_EXPR(sprout::swap(elem, other.elem))
 		{
 			sprout::swap(elem, other.elem);
+			sprout::swap(size_, other.size_);
 		}
 		// iterators:
 		SPROUT_CXX14_CONSTEXPR iterator begin() {
-- 
2.43.0


From d9cbc85275175b09c060d8b1b0ef7766f164d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:04 +0000
Subject: [PATCH 76/85] fix: the reversed range of an optional reaches its
 value

---
 sprout/optional/optional.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index 73ec217..fbf1b78 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -371,10 +371,14 @@ namespace sprout {
 				;
 		}
 		SPROUT_CXX14_CONSTEXPR iterator end() SPROUT_NOEXCEPT {
-			return iterator();
+			return is_initialized() ? iterator(val, 0)
+				: iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_iterator end() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CXX14_CONSTEXPR reverse_iterator rbegin() SPROUT_NOEXCEPT {
 			return reverse_iterator(end());
@@ -394,7 +398,9 @@ namespace sprout {
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 			return const_reverse_iterator(end());
-- 
2.43.0


From 928495fa7ee6599ac202030fe1866e3aee1cbd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:04 +0000
Subject: [PATCH 77/85] fix: at of slice_array checks the index against the
 size of the slice

---
 sprout/valarray/slice_array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/valarray/slice_array.hpp b/sprout/valarray/slice_array.hpp
index 062ff9c..71d7595 100644
--- a/sprout/valarray/slice_array.hpp
+++ b/sprout/valarray/slice_array.hpp
@@ -209,7 +209,9 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR reference
 		at(size_type i) const {
-			return arr_->at(slice_.start() + slice_.stride() * i);
+			return i < size() ? arr_->at(slice_.start() + slice_.stride() * i)
+				: (throw std::out_of_range("slice_array<>: index out of range"), (*this)[i])
+				;
 		}
 		SPROUT_CONSTEXPR reference
 		front() const {
-- 
2.43.0


From 1582cc7b5a9c127bfaf767fbb0ff2b104fc883be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:13 +0000
Subject: [PATCH 78/85] fix: checksums of wide strings measure them with the
 traits of their character type

---
 sprout/checksum/md5.hpp  |  6 +++---
 sprout/checksum/sha1.hpp |  6 +++---
 sprout/checksum/sum.hpp  | 18 +++++++++---------
 sprout/checksum/xor.hpp  |  6 +++---
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/sprout/checksum/md5.hpp b/sprout/checksum/md5.hpp
index fe8e468..292f8a1 100644
--- a/sprout/checksum/md5.hpp
+++ b/sprout/checksum/md5.hpp
@@ -504,16 +504,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::md5::value_type
 	make_md5(wchar_t const* s) {
-		return sprout::md5().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::md5().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::md5::value_type
 	make_md5(char16_t const* s) {
-		return sprout::md5().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::md5().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::md5::value_type
 	make_md5(char32_t const* s) {
-		return sprout::md5().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::md5().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 }	// namespace sprout
diff --git a/sprout/checksum/sha1.hpp b/sprout/checksum/sha1.hpp
index c6256a9..5d273eb 100644
--- a/sprout/checksum/sha1.hpp
+++ b/sprout/checksum/sha1.hpp
@@ -546,16 +546,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::sha1::value_type
 	make_sha1(wchar_t const* s) {
-		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sha1().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::sha1::value_type
 	make_sha1(char16_t const* s) {
-		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::sha1::value_type
 	make_sha1(char32_t const* s) {
-		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 }	// namespace sprout
diff --git a/sprout/checksum/sum.hpp b/sprout/checksum/sum.hpp
index f37fbf2..c664d15 100644
--- a/sprout/checksum/sum.hpp
+++ b/sprout/checksum/sum.hpp
@@ -146,16 +146,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::sum8::value_type
 	make_sum8(wchar_t const* s) {
-		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum8().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::sum8::value_type
 	make_sum8(char16_t const* s) {
-		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::sum8::value_type
 	make_sum8(char32_t const* s) {
-		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 	//
@@ -177,16 +177,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::sum16::value_type
 	make_sum16(wchar_t const* s) {
-		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum16().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::sum16::value_type
 	make_sum16(char16_t const* s) {
-		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::sum16::value_type
 	make_sum16(char32_t const* s) {
-		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 	//
@@ -208,16 +208,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::sum32::value_type
 	make_sum32(wchar_t const* s) {
-		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum32().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::sum32::value_type
 	make_sum32(char16_t const* s) {
-		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::sum32::value_type
 	make_sum32(char32_t const* s) {
-		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 }	// namespace sprout
diff --git a/sprout/checksum/xor.hpp b/sprout/checksum/xor.hpp
index 570098b..35433f2 100644
--- a/sprout/checksum/xor.hpp
+++ b/sprout/checksum/xor.hpp
@@ -127,16 +127,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::xor8::value_type
 	make_xor8(wchar_t const* s) {
-		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::xor8().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::xor8::value_type
 	make_xor8(char16_t const* s) {
-		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::xor8::value_type
 	make_xor8(char32_t const* s) {
-		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 }	// namespace sprout
-- 
2.43.0


From 5fb3d2be079835c296e68b9c373a912247270979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:13 +0000
Subject: [PATCH 79/85] fix: nth of a const string without index iterators is
 named nth

---
 sprout/string/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index b4bff5f..f2d3f04 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -1112,13 +1112,13 @@ namespace sprout {
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator
-		th(size_type i) const {
+		nth(size_type i) const {
 			return i < size()
 				? data() + i
 				: (throw std::out_of_range("basic_string<>: index out of range"), const_iterator())
 				;
-		}SPROUT_CXX14_CONSTEXPR
-		SPROUT_CONSTEXPR size_type
+		}
+		SPROUT_CXX14_CONSTEXPR size_type
 		index_of(iterator p) SPROUT_NOEXCEPT {
 			return sprout::distance(begin(), p);
 		}
-- 
2.43.0


From b0d8cfbc025db6bb127e5f506a1b5adac4ea1c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:13 +0000
Subject: [PATCH 80/85] fix: tuple_get of types::packer counts its own types
 (without template aliases)

---
 sprout/type/packer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/type/packer.hpp b/sprout/type/packer.hpp
index 1eb246d..5b98c4d 100644
--- a/sprout/type/packer.hpp
+++ b/sprout/type/packer.hpp
@@ -66,7 +66,7 @@ namespace sprout {
 	template<std::size_t I, typename... Types>
 	inline SPROUT_CONSTEXPR typename std::tuple_element<I, sprout::types::packer<Types...> >::type
 	tuple_get(sprout::types::packer<Types...>) SPROUT_NOEXCEPT {
-		static_assert(I < sizeof...(Values), "tuple_get: index out of range");
+		static_assert(I < sizeof...(Types), "tuple_get: index out of range");
 		typedef typename std::tuple_element<I, sprout::types::packer<Types...> >::type type;
 		return type();
 	}
-- 
2.43.0


From 8f4681738bccd366fe22aed123a779a97a62f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:36 +0000
Subject: [PATCH 81/85] fix: back of a container that is not const and has no
 member back is its last element

---
 sprout/container/detail/range_back.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/container/detail/range_back.hpp b/sprout/container/detail/range_back.hpp
index d9a9462..62d6af1 100644
--- a/sprout/container/detail/range_back.hpp
+++ b/sprout/container/detail/range_back.hpp
@@ -91,7 +91,7 @@ namespace sprout {
 			typename sprout::container_traits<Container>::reference
 		>::type
 		range_back_impl(Container& cont) {
-			return *sprout::begin(cont);
+			return *sprout::next(sprout::begin(cont), sprout::size(cont) - 1);
 		}
 		template<typename Container>
 		inline SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From 3ecd2ce6a605a471cb257539f9d4bea1512eab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:29 +0000
Subject: [PATCH 82/85] fix: converting a step iterator keeps where its last
 step was

---
 sprout/iterator/step_iterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index be14306..75ef811 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -25,6 +25,8 @@ namespace sprout {
 	class step_iterator
 		: public sprout::detail::iterator_base<Iterator>::type
 	{
+		template<typename U>
+		friend class step_iterator;
 	private:
 		typedef typename sprout::detail::iterator_base<Iterator>::type base_type;
 	public:
@@ -71,7 +73,7 @@ namespace sprout {
 		template<typename U>
 		SPROUT_CONSTEXPR step_iterator(step_iterator<U> const& it)
 			: current(it.base()), last(it.end()), wid(it.width())
-			, back(get_back(it.base(), it.width(), it.end())), is_last(it.is_end())
+			, back(it.back), is_last(it.is_end())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator=(step_iterator<U> const& it) {
-- 
2.43.0


From 02d9dbb5a2881582fff1f04df30cbbd66d90aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:20 +0000
Subject: [PATCH 83/85] fix: subtracting a quaternion from a scalar or a
 complex number negates all its components

---
 sprout/math/quaternion/arithmetic_operators.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index 95839a3..7dd0664 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -74,9 +74,9 @@ namespace sprout {
 		operator-(T const& lhs, sprout::math::quaternion<T> const& rhs) {
 			return sprout::math::quaternion<T>(
 				lhs - rhs.R_component_1(),
-				rhs.R_component_2(),
-				rhs.R_component_3(),
-				rhs.R_component_4()
+				-rhs.R_component_2(),
+				-rhs.R_component_3(),
+				-rhs.R_component_4()
 				);
 		}
 		template<typename T>
@@ -95,8 +95,8 @@ namespace sprout {
 			return sprout::math::quaternion<T>(
 				lhs.real() - rhs.R_component_1(),
 				lhs.imag() - rhs.R_component_2(),
-				rhs.R_component_3(),
-				rhs.R_component_4()
+				-rhs.R_component_3(),
+				-rhs.R_component_4()
 				);
 		}
 		template<typename T>
-- 
2.43.0


From 3d18faac445016736207c204ac2e3a073047dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:20 +0000
Subject: [PATCH 84/85] fix: a scalar over a quaternion is the scalar times the
 inverse of the quaternion

---
 .../math/quaternion/arithmetic_operators.hpp   | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index 7dd0664..306cd00 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -205,16 +205,6 @@ namespace sprout {
 		//
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
-		operator/(T const& lhs, sprout::math::quaternion<T> const& rhs) {
-			return sprout::math::quaternion<T>(
-				lhs / rhs.R_component_1(),
-				lhs / rhs.R_component_2(),
-				lhs / rhs.R_component_3(),
-				lhs / rhs.R_component_4()
-				);
-		}
-		template<typename T>
-		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator/(sprout::math::quaternion<T> const& lhs, T const& rhs) {
 			return sprout::math::quaternion<T>(
 				lhs.R_component_1() / rhs,
@@ -269,6 +259,14 @@ namespace sprout {
 		}	// namespace detail
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
+		operator/(T const& lhs, sprout::math::quaternion<T> const& rhs) {
+			return sprout::math::detail::div_qq_impl(
+				lhs, static_cast<T>(0), static_cast<T>(0), static_cast<T>(0),
+				sprout::array<T, 4>{{rhs.R_component_1(), rhs.R_component_2(), rhs.R_component_3(), rhs.R_component_4()}}
+				);
+		}
+		template<typename T>
+		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator/(sprout::complex<T> const& lhs, sprout::math::quaternion<T> const& rhs) {
 			return sprout::math::detail::div_qq_impl(
 				lhs.real(), lhs.imag(), static_cast<T>(0), static_cast<T>(0),
-- 
2.43.0


From c8e5e4944d6c77693bd529ddc95ef414585b22dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:20 +0000
Subject: [PATCH 85/85] fix: += -= /= of a rational number with itself read the
 operand before it is changed

---
 sprout/rational/rational.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/sprout/rational/rational.hpp b/sprout/rational/rational.hpp
index 8873073..6351bf3 100644
--- a/sprout/rational/rational.hpp
+++ b/sprout/rational/rational.hpp
@@ -118,21 +118,25 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR rational& operator+=(rational const& rhs) {
-			IntType g = sprout::gcd(den_, rhs.den_);
+			IntType const n = rhs.num_;
+			IntType const d = rhs.den_;
+			IntType g = sprout::gcd(den_, d);
 			den_ /= g;
-			num_ = num_ * (rhs.den_ / g) + rhs.num_ * den_;
+			num_ = num_ * (d / g) + n * den_;
 			g = sprout::gcd(num_, g);
 			num_ /= g;
-			den_ *= rhs.den_ / g;
+			den_ *= d / g;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator-=(rational const& rhs) {
-			IntType g = sprout::gcd(den_, rhs.den_);
+			IntType const n = rhs.num_;
+			IntType const d = rhs.den_;
+			IntType g = sprout::gcd(den_, d);
 			den_ /= g;
-			num_ = num_ * (rhs.den_ / g) - rhs.num_ * den_;
+			num_ = num_ * (d / g) - n * den_;
 			g = sprout::gcd(num_, g);
 			num_ /= g;
-			den_ *= rhs.den_ / g;
+			den_ *= d / g;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator*=(rational const& rhs) {
@@ -149,10 +153,12 @@ namespace sprout {
 			if (num_ == IntType(0)) {
 				return *this;
 			}
-			IntType gcd1 = sprout::gcd(num_, rhs.num_);
-			IntType gcd2 = sprout::gcd(rhs.den_, den_);
-			num_ =(num_ / gcd1) * (rhs.den_ / gcd2);
-			den_ =(den_ / gcd2) * (rhs.num_ / gcd1);
+			IntType const n = rhs.num_;
+			IntType const d = rhs.den_;
+			IntType gcd1 = sprout::gcd(num_, n);
+			IntType gcd2 = sprout::gcd(d, den_);
+			num_ =(num_ / gcd1) * (d / gcd2);
+			den_ =(den_ / gcd2) * (n / gcd1);
 			if (den_ < IntType(0)) {
 				num_ = -num_;
 				den_ = -den_;
-- 
2.43.0

