From 31f619eefc134b93de08bb1ba52516575773f0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:38 +0000
Subject: [PATCH 01/28] fix: don't run the alignment prologue past the end of
 short ranges

---
 vir/simd_execution.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 383307b..f394f99 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -595,6 +595,10 @@ case0:
                 return;
               const auto misaligned_by_elements = misaligned_by_bytes / sizeof(T);
               const auto to_process = max_misalignment - misaligned_by_elements;
+              if (to_process > remaining)
+                // The range ends before the first aligned address. It is therefore shorter than one
+                // chunk and handled completely by the epilogue.
+                return;
               if constexpr (use_aligned_loadstore)
                 do_prologue(max_misalignment, to_process);
               else if (remaining * sizeof(T) > 4000
@@ -796,8 +800,10 @@ case0:
                 const auto leftover = distance % size;
                 if (leftover)
                   {
+                    // without prologue d_first isn't necessarily aligned
                     simd_transform_epilogue<V1, OutV, std::iter_value_t<It2>...>(
-                      op, leftover, last1, d_first, flags, std::to_address(first2)...);
+                      op, leftover, last1, d_first, stdx::element_aligned,
+                      std::to_address(first2)...);
                     d_first += leftover;
                   }
               }
@@ -1078,9 +1084,10 @@ case0:
               }
             else if constexpr (lo_size > 0)
               {
-                // leftover > 0 by construction
+                // leftover > 0 by construction; without prologue first1 isn't necessarily aligned
                 return simd_transform_reduce_epilogue<lo_size>(
-                         acc1, first1, leftover, reduce_op, transform_op, flags, first2...);
+                         acc1, first1, leftover, reduce_op, transform_op, stdx::element_aligned,
+                         first2...);
               }
             else
               unreachable();
@@ -1167,7 +1174,9 @@ case0:
 
           if constexpr (not assume_matching_size and size > 1)
             if (leftover)
-              detail::simd_for_each_epilogue<V, write_back>(fun, leftover, last, flags);
+              // without prologue the leftover elements aren't necessarily aligned
+              detail::simd_for_each_epilogue<V, write_back>(fun, leftover, last,
+                                                            stdx::element_aligned);
         }
     }
 
-- 
2.43.0


From 0c501c3380e4cd2f05a9fd541dad41dab9eedd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:38 +0000
Subject: [PATCH 02/28] fix: transform_reduce/reduce when the prologue consumes
 the complete range

---
 vir/simd_execution.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index f394f99..2fa3dc9 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1084,7 +1084,10 @@ case0:
               }
             else if constexpr (lo_size > 0)
               {
-                // leftover > 0 by construction; without prologue first1 isn't necessarily aligned
+                // the prologue may already have processed the complete range
+                if (leftover == 0)
+                  return acc1[0];
+                // without prologue first1 isn't necessarily aligned
                 return simd_transform_reduce_epilogue<lo_size>(
                          acc1, first1, leftover, reduce_op, transform_op, stdx::element_aligned,
                          first2...);
-- 
2.43.0


From 8d0bc256868ffcaefb00cd386f99f162de0c5ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:38 +0000
Subject: [PATCH 03/28] fix: constant-evaluated for_each must not process
 leftovers if there are none

---
 vir/simd_execution.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 2fa3dc9..2148354 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1145,8 +1145,9 @@ case0:
                                                         stdx::element_aligned, detail::no_unroll);
 
           if constexpr (size > 1)
-            detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
-                                                          stdx::element_aligned);
+            if (distance % size != 0)
+              detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
+                                                            stdx::element_aligned);
         }
       else
         {
-- 
2.43.0


From f5dcc01a077ad940033d8ef841971853fceaf23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:38 +0000
Subject: [PATCH 04/28] fix: rotate with negative offset and non-power-of-2
 size

---
 vir/simd_permute.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 5502830..dcba53f 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -144,7 +144,11 @@ namespace vir
 
 	VIR_CONSTEVAL int
 	operator()(int i, auto size) const
-	{ return (i + Offset) % size.value; }
+	{
+	  constexpr int n = size.value;
+	  const int j = (i + Offset) % n;
+	  return j < 0 ? j + n : j;
+	}
       };
 
     /// Rotate the elements by \p Offset.
-- 
2.43.0


From 69b8b1831b06443ea9acda3c911917859f48cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:38 +0000
Subject: [PATCH 05/28] fix: AVX2 rotation by negative or large offsets and
 with resize

---
 vir/simd_permute.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index dcba53f..a4ea130 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -193,7 +193,7 @@ namespace vir
 #if defined __AVX2__
 	    using v4df [[gnu::vector_size(32)]] = double;
 	    if constexpr (std::same_as<T, float> and std::is_trivially_copyable_v<V>
-			    and sizeof(v4df) == sizeof(V)
+			    and sizeof(v4df) == sizeof(V) and std::same_as<V, R>
 			    and requires {
 			      F::is_even_rotation;
 			      F::Offset;
@@ -202,10 +202,11 @@ namespace vir
 			    })
 	      {
 		const v4df intrin = detail::bit_cast<v4df>(v);
-		constexpr int control = ((F::Offset / 2) << 0)
-					  | (((F::Offset / 2 + 1) % 4) << 2)
-					  | (((F::Offset / 2 + 2) % 4) << 4)
-					  | (((F::Offset / 2 + 3) % 4) << 6);
+		constexpr int offset2 = (F::Offset / 2 % 4 + 4) % 4;
+		constexpr int control = (offset2 << 0)
+					  | (((offset2 + 1) % 4) << 2)
+					  | (((offset2 + 2) % 4) << 4)
+					  | (((offset2 + 3) % 4) << 6);
 		return detail::bit_cast<R>(__builtin_ia32_permdf256(intrin, control));
 	      }
 #endif
-- 
2.43.0


From f4941f9129b403beb48fd2763cc4fbd86a3f6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:38 +0000
Subject: [PATCH 06/28] fix: include detail.h in simd_permute.h for bit_cast
 and shufflevector support

---
 vir/simd_permute.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index a4ea130..bcc9801 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -19,6 +19,7 @@
 
 #include "simd.h"
 #include "constexpr_wrapper.h"
+#include "detail.h"
 #include <bit>
 
 namespace vir
-- 
2.43.0


From e657dadfa6b03002b97b203d667bd29fad579956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:43 +0000
Subject: [PATCH 07/28] fix: masked load constructor of scalar simd_mask

---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index 5f2d6a8..f5c50c9 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -665,7 +665,7 @@ namespace vir::stdx
       template <typename Flags>
         constexpr
         simd_mask(const value_type* mem, simd_mask k, Flags)
-        : data(k ? mem[0] : false)
+        : data(k.data ? mem[0] : false)
         {}
 
       // loads [simd_mask.load]
-- 
2.43.0


From aefbf479d38e5f42fbda2196d8edb8e18a2c877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:43 +0000
Subject: [PATCH 08/28] fix: masked hmin/hmax must return one of the selected
 elements (infinities)

---
 vir/simd.h | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index f5c50c9..8c49d70 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -2374,13 +2374,10 @@ namespace vir::stdx
     hmin(const const_where_expression<M, V>& x) noexcept
     {
       using T = typename V::value_type;
-      constexpr T id_elem =
-#ifdef __FINITE_MATH_ONLY__
-        std::numeric_limits<T>::max();
-#else
-        std::numeric_limits<T>::infinity();
-#endif
-      return reduce(x, id_elem, [](const auto& l, const auto& r) {
+      const auto& k = get_mask(x);
+      if (none_of(k))
+        return std::numeric_limits<T>::max();
+      return reduce(x, get_lvalue(x)[find_first_set(k)], [](const auto& l, const auto& r) {
                using std::min;
                return min(l, r);
              });
@@ -2392,13 +2389,10 @@ namespace vir::stdx
     hmax(const const_where_expression<M, V>& x) noexcept
     {
       using T = typename V::value_type;
-      constexpr T id_elem =
-#ifdef __FINITE_MATH_ONLY__
-        std::numeric_limits<T>::lowest();
-#else
-        -std::numeric_limits<T>::infinity();
-#endif
-      return reduce(x, id_elem, [](const auto& l, const auto& r) {
+      const auto& k = get_mask(x);
+      if (none_of(k))
+        return std::numeric_limits<T>::lowest();
+      return reduce(x, get_lvalue(x)[find_first_set(k)], [](const auto& l, const auto& r) {
                using std::max;
                return max(l, r);
              });
-- 
2.43.0


From fbfb778c9246d540f339161cca4a0adb895a52d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:43 +0000
Subject: [PATCH 09/28] fix: to_fixed_size, to_native, and to_compatible must
 preserve size and elements

---
 vir/simd.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 8c49d70..4737481 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -1811,35 +1811,35 @@ namespace vir::stdx
 
   template <typename T>
     constexpr fixed_size_simd<T, 1>
-    to_fixed_size(const simd<T> x)
+    to_fixed_size(const simd<T, simd_abi::scalar>& x)
     { return x[0]; }
 
   template <typename T>
     constexpr fixed_size_simd_mask<T, 1>
-    to_fixed_size(const simd_mask<T> x)
+    to_fixed_size(const simd_mask<T, simd_abi::scalar>& x)
     { return fixed_size_simd_mask<T, 1>(x[0]); }
 
   // to_native
-  template <typename T>
-    constexpr simd<T>
-    to_native(const fixed_size_simd<T, 1> x)
-    { return x[0]; }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == native_simd<T>::size(), native_simd<T>>
+    to_native(const fixed_size_simd<T, N>& x)
+    { return native_simd<T>([&x](size_t i) { return x[i]; }); }
 
-  template <typename T>
-    constexpr simd_mask<T>
-    to_native(const fixed_size_simd_mask<T, 1> x)
-    { return simd_mask<T>(x[0]); }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == native_simd_mask<T>::size(), native_simd_mask<T>>
+    to_native(const fixed_size_simd_mask<T, N>& x)
+    { return native_simd_mask<T>([&x](size_t i) { return x[i]; }); }
 
   // to_compatible
-  template <typename T>
-    constexpr simd<T>
-    to_compatible(const fixed_size_simd<T, 1> x)
-    { return x[0]; }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == simd<T>::size(), simd<T>>
+    to_compatible(const fixed_size_simd<T, N>& x)
+    { return simd<T>([&x](size_t i) { return x[i]; }); }
 
-  template <typename T>
-    constexpr simd_mask<T>
-    to_compatible(const fixed_size_simd_mask<T, 1> x)
-    { return simd_mask<T>(x[0]); }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == simd_mask<T>::size(), simd_mask<T>>
+    to_compatible(const fixed_size_simd_mask<T, N>& x)
+    { return simd_mask<T>([&x](size_t i) { return x[i]; }); }
 
   // split(simd)
   template <typename V, int N, size_t Parts = N / V::size()>
-- 
2.43.0


From fae3d09597be9341eb3c45dacd85a6d12808f72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:43 +0000
Subject: [PATCH 10/28] fix: run-time simd_permute of simd_mask

---
 vir/simd_permute.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index bcc9801..2b36a57 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -189,7 +189,10 @@ namespace vir
 
 #if defined __GNUC__
       if (not std::is_constant_evaluated())
-	if constexpr (std::has_single_bit(sizeof(V)) and V::size() <= stdx::native_simd<T>::size())
+	if constexpr (not vir::vectorizable<T>)
+	  ; // simd_mask elements are not vectorizable => no native_simd<bool>
+	else if constexpr (std::has_single_bit(sizeof(V))
+			     and V::size() <= stdx::native_simd<T>::size())
 	  {
 #if defined __AVX2__
 	    using v4df [[gnu::vector_size(32)]] = double;
-- 
2.43.0


From c27a521122fea1cde891140f4105c5223ac1c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:36 +0000
Subject: [PATCH 11/28] fix: simd_resize(simd_mask) on top of
 std::experimental::simd

---
 vir/simd_resize.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vir/simd_resize.h b/vir/simd_resize.h
index af5dee6..4d93e5c 100644
--- a/vir/simd_resize.h
+++ b/vir/simd_resize.h
@@ -28,6 +28,11 @@ namespace vir
     constexpr vir::detail::deduced_simd_mask<T, N>
     simd_resize(const stdx::simd_mask<T, A>& x)
     {
+#if VIR_GLIBCXX_STDX_SIMD
+      // no generator constructor for simd_mask
+      return std::experimental::parallelism_v2::__proposed::resizing_simd_cast<
+               vir::detail::deduced_simd_mask<T, N>>(x);
+#else
       constexpr int xn = stdx::simd_size_v<T, A>;
       return vir::detail::deduced_simd_mask<T, N>([&x](auto i) {
                if constexpr (i < xn)
@@ -35,6 +40,7 @@ namespace vir
                else
                  return false;
              });
+#endif
     }
 
   template <typename V, typename A>
-- 
2.43.0


From 1e9d9fcf0417e66dc9590c394b4f3514ac288b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:22 +0000
Subject: [PATCH 12/28] fix: recognise the 0B prefix in _cw literals

---
 vir/constexpr_wrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/constexpr_wrapper.h b/vir/constexpr_wrapper.h
index 2f1cfae..5db8a2b 100644
--- a/vir/constexpr_wrapper.h
+++ b/vir/constexpr_wrapper.h
@@ -397,7 +397,7 @@ namespace vir
         constexpr std::array arr = cw_prepare_array<Chars...>();
         constexpr int base = arr[0] == '0' and 2 < arr.size()
                                ? arr[1] == 'x' or arr[1] == 'X' ? 16
-                                                                : arr[1] == 'b' ? 2 : 8
+                                                                : arr[1] == 'b' or arr[1] == 'B' ? 2 : 8
                                : 10;
         constexpr int offset = base == 10 ? 0 : base == 8 ? 1 : 2;
         constexpr bool valid_chars = std::all_of(arr.begin() + offset, arr.end(), [=](char c) {
-- 
2.43.0


From 9461134e36285c51693e371e31cdb27dc8cd3c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:09 +0000
Subject: [PATCH 13/28] fix: no dangling else in simd_permute

---
 vir/simd_permute.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 2b36a57..fbc97e8 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -189,10 +189,9 @@ namespace vir
 
 #if defined __GNUC__
       if (not std::is_constant_evaluated())
-	if constexpr (not vir::vectorizable<T>)
-	  ; // simd_mask elements are not vectorizable => no native_simd<bool>
-	else if constexpr (std::has_single_bit(sizeof(V))
-			     and V::size() <= stdx::native_simd<T>::size())
+	// simd_mask elements are not vectorizable => no native_simd<bool>
+	if constexpr (vir::vectorizable<T>)
+	if constexpr (std::has_single_bit(sizeof(V)) and V::size() <= stdx::native_simd<T>::size())
 	  {
 #if defined __AVX2__
 	    using v4df [[gnu::vector_size(32)]] = double;
-- 
2.43.0


From 8aadafe3cf23dcf444fb9738c7332840b3703df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:06 +0000
Subject: [PATCH 14/28] fix: simdize load of three floats must keep the element
 order

The unordered load (lane i held object (3*i)%8) combined with the ordered store permuted the
objects of a range, e.g. in for_each with write back.
---
 vir/simdize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index a3b7ecd..db3e726 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -667,7 +667,7 @@ namespace vir
 		      // c = [b5 c5 a6 b6 c6 a7 b7 c7] 233 = 121+112
 
 		      using v8sf [[gnu::vector_size(32)]] = float;
-		      if constexpr (true) // allow_unordered
+		      if constexpr (false) // allow_unordered: store and lane order must match
 			{
 			  v8sf x0, x1, x2, a0, b0, c0;
 			  std::memcpy(&x0, byte_ptr +  0, 32);
-- 
2.43.0


From e0f278adb0f0a756d668bd80dbeea324875da4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:38 +0000
Subject: [PATCH 15/28] fix: include <cstdio> for the precondition failure
 message

---
 vir/simd.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vir/simd.h b/vir/simd.h
index 4737481..97ace17 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -18,6 +18,7 @@
 
 #include "simd_version.h"
 
+#include <cstdio> // std::fprintf
 #include <cstdlib> // std::abort
 
 #if __has_include (<experimental/simd>) && !defined VIR_DISABLE_STDX_SIMD \
-- 
2.43.0


From f81c4191f1ef16199deacbbc537020863170e244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:38 +0000
Subject: [PATCH 16/28] fix: define the default precondition check level before
 it is used

---
 vir/simd.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 97ace17..83e794c 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -38,6 +38,19 @@
 #endif
 #endif
 
+/* VIR_CHECK_PRECONDITIONS:
+ * 0: Compile-time warning, invoke UB on run-time failure.
+ * 1: Compile-time   error, invoke UB on run-time failure.
+ * 2: Compile-time warning, trap on run-time failure.
+ * 3: Compile-time   error, trap on run-time failure.
+ * 4: Compile-time warning, print error and abort on run-time failure.
+ * 5: Compile-time   error, print error and abort on run-time failure.
+ */
+
+#ifndef VIR_CHECK_PRECONDITIONS
+#define VIR_CHECK_PRECONDITIONS 3
+#endif
+
 namespace vir::detail
 {
   [[noreturn]] VIR_GNU_COLD VIR_ALWAYS_INLINE void
@@ -84,19 +97,6 @@ namespace vir::detail
 #define VIR_SIMD_TOSTRING(x) VIR_SIMD_TOSTRING_IMPL(x)
 #define VIR_SIMD_LOC __FILE__ ":" VIR_SIMD_TOSTRING(__LINE__) ": "
 
-/* VIR_CHECK_PRECONDITIONS:
- * 0: Compile-time warning, invoke UB on run-time failure.
- * 1: Compile-time   error, invoke UB on run-time failure.
- * 2: Compile-time warning, trap on run-time failure.
- * 3: Compile-time   error, trap on run-time failure.
- * 4: Compile-time warning, print error and abort on run-time failure.
- * 5: Compile-time   error, print error and abort on run-time failure.
- */
-
-#ifndef VIR_CHECK_PRECONDITIONS
-#define VIR_CHECK_PRECONDITIONS 3
-#endif
-
 #if VIR_CHECK_PRECONDITIONS > 5 or VIR_CHECK_PRECONDITIONS < 0
 #warning "Invalid value for VIR_CHECK_PRECONDITIONS."
 #endif
-- 
2.43.0


From 74e812fbc20ee797b36b8875dc40f33da83c7175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:22 +0000
Subject: [PATCH 17/28] fix: do not use the text of a precondition as printf
 format

---
 vir/simd.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 83e794c..e206c36 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -135,8 +135,8 @@ namespace vir::detail
         { vir::detail::trap(); }();                                                         \
     else if (__builtin_expect(not precondition_result, false))                              \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_);                                                              \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, #expr);                                                       \
   } while(false)
 
 #define vir_simd_precondition_vaargs(expr, msg, ...)                                        \
@@ -149,8 +149,8 @@ namespace vir::detail
         { vir::detail::trap(); }();                                                         \
     else if (__builtin_expect(not precondition_result, false))                              \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_, __VA_ARGS__);                                                 \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, __VA_ARGS__, #expr);                                          \
   } while(false)
 
 #else
@@ -159,8 +159,8 @@ namespace vir::detail
     const bool precondition_result = bool(expr);                                            \
     if (not precondition_result) [[unlikely]]                                               \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_);                                                              \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, #expr);                                                       \
   } while(false)
 
 #define vir_simd_precondition_vaargs(expr, msg, ...)                                        \
@@ -168,8 +168,8 @@ namespace vir::detail
     const bool precondition_result = bool(expr);                                            \
     if (not precondition_result) [[unlikely]]                                               \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_, __VA_ARGS__);                                                 \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, __VA_ARGS__, #expr);                                          \
   } while(false)
 
 #endif
-- 
2.43.0


From 46affe9f0e047b22e36e9c2fc647976d4745000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:35 +0000
Subject: [PATCH 18/28] fix: simd_permute of vectors with padding elements

A simd with a number of elements that is not a power of two can be stored in a
builtin vector with additional elements. The result of the shuffle needs to fill
those too (it failed to compile otherwise), and the zero index needs to refer to
the second operand of the shuffle rather than the padding of the first.
---
 vir/simd_permute.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index fbc97e8..7d83523 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -223,7 +223,9 @@ namespace vir
 		  {
 		    const VBuiltin vec = detail::bit_cast<VBuiltin>(v);
 		    constexpr auto idx_perm2 = [=](constexpr_value auto i) {
-		      if constexpr (detail::index_permutation_function_nosize<F>)
+		      if constexpr (i >= R::size()) // padding
+			return vir::cw<simd_permute_uninit>;
+		      else if constexpr (detail::index_permutation_function_nosize<F>)
 			return vir::cw<idx_perm(i)>;
 		      else
 			return vir::cw<idx_perm(i, vir::cw<V::size()>)>;
@@ -231,7 +233,7 @@ namespace vir
 		    constexpr auto adj_idx = [](constexpr_value auto i) {
 		      constexpr int j = i;
 		      if constexpr (j == simd_permute_zero)
-			return vir::cw<V::size()>;
+			return vir::cw<int(sizeof(V) / sizeof(T))>; // V may have padding
 		      else if constexpr (j == simd_permute_uninit)
 			return vir::cw<-1>;
 		      else if constexpr (j < 0)
@@ -249,7 +251,7 @@ namespace vir
 		      return detail::bit_cast<R>(
 			       __builtin_shufflevector(vec, VBuiltin{},
 						       adj_idx(idx_perm2(vir::cw<Is>)).value...));
-		    }(std::make_index_sequence<R::size()>());
+		    }(std::make_index_sequence<sizeof(R) / sizeof(T)>());
 		  }
 	      }
 #endif
-- 
2.43.0


From c469b14447deacd50a42078fda21582184e0c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:43 +0000
Subject: [PATCH 19/28] fix: rotation of 5, 6 or 7 floats with AVX2

The fast path for even rotations permutes all 8 elements of the AVX register.
Don't use it if the simd has fewer than 8 elements.
---
 vir/simd_permute.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 7d83523..717caa7 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -197,6 +197,7 @@ namespace vir
 	    using v4df [[gnu::vector_size(32)]] = double;
 	    if constexpr (std::same_as<T, float> and std::is_trivially_copyable_v<V>
 			    and sizeof(v4df) == sizeof(V) and std::same_as<V, R>
+			    and V::size() == 8 // no padding
 			    and requires {
 			      F::is_even_rotation;
 			      F::Offset;
-- 
2.43.0


From dc6fce211037fe3035d53cdadbb6c31712774335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:54 +0000
Subject: [PATCH 20/28] fix: include struct_reflect.h after simd.h with
 VIR_DISABLE_STDX_SIMD

vir::detail sees vir::stdx::detail via its using directive, making the
unqualified name ambiguous.
---
 vir/struct_reflect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/struct_reflect.h b/vir/struct_reflect.h
index 9e46179..b3882ff 100644
--- a/vir/struct_reflect.h
+++ b/vir/struct_reflect.h
@@ -378,7 +378,7 @@ namespace vir
     template <typename T>
       concept aggregate_without_tuple_size
 	= std::is_aggregate_v<T> and not has_tuple_size<T>
-	    and requires (const T& x) { detail::struct_size<T>(); };
+	    and requires (const T& x) { vir::detail::struct_size<T>(); };
 
     // traits
     template <typename From, typename To>
-- 
2.43.0


From 132790c837d381badcfa17845d9f0dfcceb37dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:10 +0000
Subject: [PATCH 21/28] fix: simdize of std::tuple with two or three members of
 equal size

The permuting loads and stores require that the members are stored in the order
of their index. libstdc++'s std::tuple stores them in reverse order, which
swapped the members (and read before/after the given range).
---
 vir/simdize.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index db3e726..83d0b61 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -524,6 +524,8 @@ namespace vir
       static constexpr auto _flat_member_idx_seq = std::make_index_sequence<_flat_member_count>();
       static constexpr auto _struct_size = struct_size_v<T>;
       static constexpr auto _struct_size_idx_seq = std::make_index_sequence<_struct_size>();
+      // get<I> of tuple-likes (e.g. std::tuple) doesn't tell anything about memory layout
+      static constexpr bool _members_in_memory_order = detail::aggregate_without_tuple_size<T>;
 
       constexpr base_type&
       _as_base_type()
@@ -583,7 +585,7 @@ namespace vir
 #if VIR_HAVE_WORKING_SHUFFLEVECTOR
 	if (not std::is_constant_evaluated())
 	  if constexpr (N > 1 and sizeof(T) * N == sizeof(base_type) and _flat_member_count >= 2
-			  and std::has_single_bit(unsigned(N)))
+			  and std::has_single_bit(unsigned(N)) and _members_in_memory_order)
 	    {
 	      const std::byte* byte_ptr = reinterpret_cast<const std::byte*>(addr);
 	      // struct_size_v == 2 doesn't need anything, the fallback works fine, unless
@@ -819,7 +821,7 @@ namespace vir
 	  if (not std::is_constant_evaluated())
 	    if constexpr (N > 2 and _flat_member_count >= 2
 			    and sizeof(T) * N == sizeof(base_type)
-			    and std::has_single_bit(unsigned(N)))
+			    and std::has_single_bit(unsigned(N)) and _members_in_memory_order)
 	      {
 		using V0 = detail::flat_element_t<0, tuple_type>;
 		//using V1 = detail::flat_element_t<1, tuple_type>;
-- 
2.43.0


From 2be9f541e994c62f4a985603c7104da6d677bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:51 +0000
Subject: [PATCH 22/28] fix: struct_size of aggregates that inherit their
 members

An aggregate whose data members are all in a base class was counted as a
single member (the base), although such types are documented as supported.
---
 vir/struct_reflect.h | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/vir/struct_reflect.h b/vir/struct_reflect.h
index b3882ff..6dca7f2 100644
--- a/vir/struct_reflect.h
+++ b/vir/struct_reflect.h
@@ -46,6 +46,38 @@ namespace vir
 	  operator T();
       };
 
+    template <typename Struct>
+      struct any_non_empty_base_of
+      {
+	template <typename T>
+	  requires (std::is_base_of_v<T, Struct> and not std::is_same_v<T, Struct>
+		      and not std::is_empty_v<T>)
+	  operator T();
+      };
+
+    // T has no non-static data members but inherits them from a single base class
+    template <typename T>
+      concept members_in_base
+	= requires { T{any_non_empty_base_of<T>()}; }
+	    or requires { T{any_empty_base_of<T>(), any_non_empty_base_of<T>()}; }
+	    or requires
+	  {
+	    T{any_empty_base_of<T>(), any_empty_base_of<T>(), any_non_empty_base_of<T>()};
+	  };
+
+    template <typename T, size_t... Indexes>
+      concept base_brace_constructible_impl
+	= requires { T{{{((void)Indexes, anything_but_base_of<T>())}...}}; }
+	    or requires
+	  {
+	    T{any_empty_base_of<T>(), {{((void)Indexes, anything_but_base_of<T>())}...}};
+	  }
+	    or requires
+	  {
+	    T{any_empty_base_of<T>(), any_empty_base_of<T>(),
+	      {{((void)Indexes, anything_but_base_of<T>())}...}};
+	  };
+
     template <typename T, size_t... Indexes>
       concept brace_constructible_impl
 	= requires { T{{((void)Indexes, anything_but_base_of<T>())}...}; }
@@ -66,7 +98,10 @@ namespace vir
 
     template <typename T, size_t N>
       concept aggregate_with_n_members = []<size_t... Is>(std::index_sequence<Is...>) {
-	return brace_constructible_impl<T, Is...>;
+	if constexpr (members_in_base<T>)
+	  return base_brace_constructible_impl<T, Is...>;
+	else
+	  return brace_constructible_impl<T, Is...>;
       }(std::make_index_sequence<N>());
 
     template <typename T, size_t Lo = 0, size_t Hi = sizeof(T) * CHAR_BIT, size_t N = 8>
-- 
2.43.0


From 6cc74f501a93c2dc6026783430824f0453a369ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:51 +0000
Subject: [PATCH 23/28] fix: accept all spellings of zero in the _cw literal

0x0_cw, 0b0_cw, and 00_cw failed to compile.
---
 vir/constexpr_wrapper.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vir/constexpr_wrapper.h b/vir/constexpr_wrapper.h
index 5db8a2b..7e6b8a0 100644
--- a/vir/constexpr_wrapper.h
+++ b/vir/constexpr_wrapper.h
@@ -441,7 +441,10 @@ namespace vir
                 }
               return x;
             }();
-            static_assert(x != 0, "constexpr_wrapper literal value out of range");
+            constexpr bool is_zero = std::all_of(arr.begin() + offset, arr.end(), [](char c) {
+                                       return c == '0';
+                                     });
+            static_assert(x != 0 or is_zero, "constexpr_wrapper literal value out of range");
             if constexpr (x <= std::numeric_limits<signed char>::max())
               return static_cast<signed char>(x);
             else if constexpr (x <= std::numeric_limits<signed short>::max())
-- 
2.43.0


From 60301969b0b4ba06787de8e4e5357bfc98b73906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:51 +0000
Subject: [PATCH 24/28] fix: simdize_size is 0 for types without simd members

The condition instantiated struct_size_v also for types that are not
reflectable, turning simdize_size_v<float> into an error instead of 0.
---
 vir/simdize.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index 83d0b61..1d9602a 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -38,12 +38,19 @@ namespace vir
 #ifndef DOXYGEN
 	if constexpr (stdx::is_simd_v<T>)
 	  return T::size();
-	else if constexpr (reflectable_struct<T> and []<std::size_t... Is>(
-			     std::index_sequence<Is...>) {
-			     return ((simdize_size<vir::struct_element_t<0, T>>::value
-					== simdize_size<vir::struct_element_t<Is, T>>::value) and ...);
-			   }(std::make_index_sequence<vir::struct_size_v<T>>()))
-	  return simdize_size<vir::struct_element_t<0, T>>::value;
+	else if constexpr (reflectable_struct<T>)
+	  {
+	    if constexpr (vir::struct_size_v<T> == 0)
+	      return 0;
+	    else
+	      {
+		constexpr int first = simdize_size<vir::struct_element_t<0, T>>::value;
+		constexpr bool all_equal = []<std::size_t... Is>(std::index_sequence<Is...>) {
+		  return ((first == simdize_size<vir::struct_element_t<Is, T>>::value) and ...);
+		}(std::make_index_sequence<vir::struct_size_v<T>>());
+		return all_equal ? first : 0;
+	      }
+	  }
 	else
 	  return 0;
 #endif
-- 
2.43.0


From e982389dc34c8f1c9e602354bc762663a0c1acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:51 +0000
Subject: [PATCH 25/28] fix: bit operators for fixed_size simds that are not
 trivially copyable

---
 vir/simd_float_ops.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vir/simd_float_ops.h b/vir/simd_float_ops.h
index f1c06ac..49c57b8 100644
--- a/vir/simd_float_ops.h
+++ b/vir/simd_float_ops.h
@@ -18,7 +18,8 @@ namespace vir
       operator&(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (sizeof(T) <= sizeof(long long)
+                        and std::is_trivially_copyable_v<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
@@ -36,7 +37,8 @@ namespace vir
       operator|(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (sizeof(T) <= sizeof(long long)
+                        and std::is_trivially_copyable_v<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
@@ -54,7 +56,8 @@ namespace vir
       operator^(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (sizeof(T) <= sizeof(long long)
+                        and std::is_trivially_copyable_v<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
-- 
2.43.0


From fb41dd5579a64f0626297ee2e326cc8aa6470bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:51 +0000
Subject: [PATCH 26/28] fix: native ABI of the fallback implementation for AVX
 without AVX2

The division bound to the second operand of the conditional only, so that
native_simd<float> had 32 elements.
---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index e206c36..0f12dcf 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -434,7 +434,7 @@ namespace vir::stdx
 #elif defined __AVX2__
                              32
 #elif defined __AVX__
-                             std::is_floating_point_v<T> ? 32 : 16
+                             (std::is_floating_point_v<T> ? 32 : 16)
 #else
                              16
 #endif
-- 
2.43.0


From 9172f146be6f6cee3085df5c284a567821fb6edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:51 +0000
Subject: [PATCH 27/28] fix: is_simd_flag_type is true for the flag types of
 the fallback implementation

---
 vir/simd.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vir/simd.h b/vir/simd.h
index 0f12dcf..36a820a 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -550,6 +550,18 @@ namespace vir::stdx
   template <class T>
     inline constexpr bool is_simd_flag_type_v = is_simd_flag_type<T>::value;
 
+  template <>
+    struct is_simd_flag_type<element_aligned_tag> : std::true_type
+    {};
+
+  template <>
+    struct is_simd_flag_type<vector_aligned_tag> : std::true_type
+    {};
+
+  template <size_t N>
+    struct is_simd_flag_type<overaligned_tag<N>> : std::true_type
+    {};
+
   template <class T, class A = simd_abi::compatible<T>>
     struct simd_size;
 
-- 
2.43.0


From 29c717efd1237f901631f1618219e4be58edfb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:41 +0000
Subject: [PATCH 28/28] fix: fake_modify returned garbage or failed to compile
 for operands without a register

An in/out operand with a memory-only alternative ("+v,x,g,m") is split by
GCC into an unrelated memory output and memory input, so the value is lost
whenever that alternative is chosen. Types without a machine mode (classes
of odd size) had no valid alternative at all. Use memory operands for
these and drop the separate memory alternative otherwise.
---
 vir/simd_benchmarking.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vir/simd_benchmarking.h b/vir/simd_benchmarking.h
index 2f66795..46c253f 100644
--- a/vir/simd_benchmarking.h
+++ b/vir/simd_benchmarking.h
@@ -24,7 +24,7 @@ namespace vir
     fake_modify_one(T& x)
     {
       if constexpr (std::is_floating_point_v<T>)
-	asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
+	asm volatile("" : "+" VIR_SIMD_REG "g"(x));
       else if constexpr (stdx::is_simd_v<T> || stdx::is_simd_mask_v<T>)
 	{
 #if defined _GLIBCXX_EXPERIMENTAL_SIMD && __cpp_lib_experimental_parallel_simd >= 201803
@@ -39,14 +39,14 @@ namespace vir
 	    fake_modify_one(d);
 #else
 	  // assuming vir::stdx::simd implementation
-	  if constexpr (sizeof(x) < 16)
-	    asm volatile("" : "+g"(x));
-	  else
-	    asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
+	  asm volatile("" : "+m"(x));
 #endif
 	}
+      else if constexpr (std::is_class_v<T> || std::is_union_v<T> || std::is_array_v<T>
+			   || sizeof(x) > sizeof(stdx::native_simd<float>)) // fits no register
+	asm volatile("" : "+m"(x));
       else if constexpr (sizeof(x) >= 16)
-	asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
+	asm volatile("" : "+" VIR_SIMD_REG "g"(x));
       else
 	asm volatile("" : "+g"(x));
     }
-- 
2.43.0

