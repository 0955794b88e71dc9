From 874a86c59d40c7a6dfd36a530e5b1da351297356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:36 +0000
Subject: [PATCH 1/9] fix: reload the value after locking in timed waits on
 lock-free atomics

wait_operations_generic::wait_until_fallback and wait_until_abs_timeout tested
the value loaded before the pool lock was taken. A store followed by a notify
between that load and the registration of the waiter was missed, and the wait
blocked until its timeout although the value had changed. Load the value again
once the wait state is registered under the lock, as the untimed wait() does.
---
 include/boost/atomic/detail/wait_ops_generic.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 7503d5c..916373c 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -93,6 +93,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             while (new_val == old_val)
             {
                 const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
@@ -128,6 +129,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             const timespec abs_timeout(posix_clock_traits< Clock >::to_timespec(timeout));
             if (BOOST_LIKELY(abs_timeout.tv_sec >= 0))
             {
-- 
2.43.0


From 11b0cde17bd370d4c8592ba6582244b379f19664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:08 +0000
Subject: [PATCH 2/9] fix: round negative durations correctly in the pre-C++17
 chrono::ceil

The remainder of a negative duration is negative, so testing it for
inequality with zero rounded -0.5 ns to +1 ns: a timed wait on a clock with
a resolution finer than a nanosecond blocked although its deadline had
already passed.
---
 include/boost/atomic/detail/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/atomic/detail/chrono.hpp b/include/boost/atomic/detail/chrono.hpp
index 154722f..15f9bb7 100644
--- a/include/boost/atomic/detail/chrono.hpp
+++ b/include/boost/atomic/detail/chrono.hpp
@@ -47,7 +47,7 @@ inline constexpr To ceil(std::chrono::duration< Rep, Period > from) noexcept
     using conv_ratio = std::ratio_divide< Period, typename To::period >;
     using common_rep = typename std::common_type< Rep, typename To::rep, decltype(conv_ratio::num) >::type;
     return To(static_cast< typename To::rep >((static_cast< common_rep >(from.count()) * conv_ratio::num) / conv_ratio::den +
-        static_cast< common_rep >(((static_cast< common_rep >(from.count()) * conv_ratio::num) % conv_ratio::den) != static_cast< common_rep >(0))));
+        static_cast< common_rep >(((static_cast< common_rep >(from.count()) * conv_ratio::num) % conv_ratio::den) > static_cast< common_rep >(0))));
 }
 
 #endif // defined(__cpp_lib_chrono) && (__cpp_lib_chrono >= 201510l)
-- 
2.43.0


From 12fd0c42cd54d99fa6e08d38d70e7705114188b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:52 +0000
Subject: [PATCH 3/9] fix: make consume thread fences compiler barriers in the
 x86 asm back-end

A consume fence is an acquire fence; fence_after and the other back-ends treat
it as such, but fence_arch_operations_gcc_x86::thread_fence emitted nothing, so
the compiler could hoist loads above it.
---
 include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp b/include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp
index 5a39367..9564057 100644
--- a/include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp
+++ b/include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp
@@ -45,7 +45,7 @@ struct fence_arch_operations_gcc_x86
             unsigned char dummy = 0u;
             __asm__ __volatile__ ("lock; notb %0" : "+m" (dummy) : : "memory");
         }
-        else if ((static_cast< unsigned int >(order) & (static_cast< unsigned int >(memory_order_acquire) | static_cast< unsigned int >(memory_order_release))) != 0u)
+        else if ((static_cast< unsigned int >(order) & (static_cast< unsigned int >(memory_order_consume) | static_cast< unsigned int >(memory_order_acquire) | static_cast< unsigned int >(memory_order_release))) != 0u)
         {
             __asm__ __volatile__ ("" ::: "memory");
         }
-- 
2.43.0


From 96ccd867640a4f1a06377de3b80517ced5c1feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:17 +0000
Subject: [PATCH 4/9] fix: AArch64, AArch32: 8 and 16-bit CAS modified an
 input-only asm operand

uxtb/uxth in the asm blocks of compare_exchange_* zero-extended the
register holding the expected value in place, while the operand was
declared as an input. The compiler may keep using that register with its
previous contents. Declare it as an early-clobbered in/out operand.
---
 .../atomic/detail/core_arch_ops_gcc_aarch32.hpp  | 16 ++++++++--------
 .../atomic/detail/core_arch_ops_gcc_aarch64.hpp  | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp b/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp
index 8eae197..3be70e2 100644
--- a/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp
+++ b/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp
@@ -143,8 +143,8 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             "st" st_mo "exb %[success], %[desired], %[storage]\n\t"\
             "eor %[success], %[success], #1\n\t"\
             "1:\n\t"\
-            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage)\
-            : [expected] "r" (expected), [desired] "r" (desired)\
+            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage), [expected] "+&r" (expected)\
+            : [desired] "r" (desired)\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
@@ -176,8 +176,8 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             "eors %[success], %[success], #1\n\t"\
             "beq 1b\n\t"\
             "2:\n\t"\
-            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage)\
-            : [expected] "r" (expected), [desired] "r" (desired)\
+            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage), [expected] "+&r" (expected)\
+            : [desired] "r" (desired)\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
@@ -425,8 +425,8 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             "st" st_mo "exh %[success], %[desired], %[storage]\n\t"\
             "eor %[success], %[success], #1\n\t"\
             "1:\n\t"\
-            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage)\
-            : [expected] "r" (expected), [desired] "r" (desired)\
+            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage), [expected] "+&r" (expected)\
+            : [desired] "r" (desired)\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
@@ -458,8 +458,8 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             "eors %[success], %[success], #1\n\t"\
             "beq 1b\n\t"\
             "2:\n\t"\
-            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage)\
-            : [expected] "r" (expected), [desired] "r" (desired)\
+            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage), [expected] "+&r" (expected)\
+            : [desired] "r" (desired)\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
diff --git a/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp b/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
index c249d60..9da1076 100644
--- a/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
+++ b/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
@@ -181,8 +181,8 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             "st" st_mo "xrb %w[success], %w[desired], %[storage]\n\t"\
             "eor %w[success], %w[success], #1\n\t"\
             "1:\n\t"\
-            : [success] "=&r" (success), [storage] "+Q" (storage), [original] "=&r" (original)\
-            : [desired] "r" (desired), [expected] "r" (expected)\
+            : [success] "=&r" (success), [storage] "+Q" (storage), [original] "=&r" (original), [expected] "+&r" (expected)\
+            : [desired] "r" (desired)\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
@@ -230,8 +230,8 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             "cbnz %w[success], 1b\n\t"\
             "2:\n\t"\
             "cset %w[success], eq\n\t"\
-            : [success] "=&r" (success), [storage] "+Q" (storage), [original] "=&r" (original)\
-            : [desired] "r" (desired), [expected] "r" (expected)\
+            : [success] "=&r" (success), [storage] "+Q" (storage), [original] "=&r" (original), [expected] "+&r" (expected)\
+            : [desired] "r" (desired)\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
@@ -587,8 +587,8 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             "st" st_mo "xrh %w[success], %w[desired], %[storage]\n\t"\
             "eor %w[success], %w[success], #1\n\t"\
             "1:\n\t"\
-            : [success] "=&r" (success), [storage] "+Q" (storage), [original] "=&r" (original)\
-            : [desired] "r" (desired), [expected] "r" (expected)\
+            : [success] "=&r" (success), [storage] "+Q" (storage), [original] "=&r" (original), [expected] "+&r" (expected)\
+            : [desired] "r" (desired)\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
@@ -636,8 +636,8 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             "cbnz %w[success], 1b\n\t"\
             "2:\n\t"\
             "cset %w[success], eq\n\t"\
-            : [success] "=&r" (success), [storage] "+Q" (storage), [original] "=&r" (original)\
-            : [desired] "r" (desired), [expected] "r" (expected)\
+            : [success] "=&r" (success), [storage] "+Q" (storage), [original] "=&r" (original), [expected] "+&r" (expected)\
+            : [desired] "r" (desired)\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-- 
2.43.0


From 05b07a745e23b6d3c6c5d25250fb2c3b32efed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:17 +0000
Subject: [PATCH 5/9] fix: AArch64: 128-bit CAS could return a torn value on
 failure

ldxp alone is not single-copy atomic for 128 bits; the two halves are only
known to belong to one value once a paired stxp succeeds. When the
comparison fails, store the loaded value back, as load() does, and retry
if that store fails.
---
 .../atomic/detail/core_arch_ops_gcc_aarch64.hpp    | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp b/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
index 9da1076..15e807e 100644
--- a/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
+++ b/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
@@ -1806,14 +1806,18 @@ struct core_arch_operations< 16u, Signed, Interprocess > :
 #define BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN(ld_mo, st_mo)\
         __asm__ __volatile__\
         (\
-            "mov %w[success], #0\n\t"\
+            "1:\n\t"\
             "ld" ld_mo "xp %x[original_0], %x[original_1], %[storage]\n\t"\
             "cmp %x[original_0], %x[expected_0]\n\t"\
             "ccmp %x[original_1], %x[expected_1], #0, eq\n\t"\
-            "b.ne 1f\n\t"\
+            "b.ne 2f\n\t"\
             "st" st_mo "xp %w[success], %x[desired_0], %x[desired_1], %[storage]\n\t"\
             "eor %w[success], %w[success], #1\n\t"\
-            "1:\n\t"\
+            "b 3f\n\t"\
+            "2:\n\t"\
+            "st" st_mo "xp %w[success], %x[original_0], %x[original_1], %[storage]\n\t"\
+            "cbnz %w[success], 1b\n\t"\
+            "3:\n\t"\
             : [success] "=&r" (success), [storage] "+Q" (storage), [original_0] "=&r" (original.as_uint64[0u]), [original_1] "=&r" (original.as_uint64[1u])\
             : [desired_0] "r" (d.as_uint64[0u]), [desired_1] "r" (d.as_uint64[1u]), [expected_0] "r" (e.as_uint64[0u]), [expected_1] "r" (e.as_uint64[1u])\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
@@ -1847,7 +1851,11 @@ struct core_arch_operations< 16u, Signed, Interprocess > :
             "b.ne 2f\n\t"\
             "st" st_mo "xp %w[success], %x[desired_0], %x[desired_1], %[storage]\n\t"\
             "cbnz %w[success], 1b\n\t"\
+            "b 3f\n\t"\
             "2:\n\t"\
+            "st" st_mo "xp %w[success], %x[original_0], %x[original_1], %[storage]\n\t"\
+            "cbnz %w[success], 1b\n\t"\
+            "3:\n\t"\
             "cset %w[success], eq\n\t"\
             : [success] "=&r" (success), [storage] "+Q" (storage), [original_0] "=&r" (original.as_uint64[0u]), [original_1] "=&r" (original.as_uint64[1u])\
             : [desired_0] "r" (d.as_uint64[0u]), [desired_1] "r" (d.as_uint64[1u]), [expected_0] "r" (e.as_uint64[0u]), [expected_1] "r" (e.as_uint64[1u])\
-- 
2.43.0


From 98fe73bc67e32719d42f4cd3e92980d36a962c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:52 +0000
Subject: [PATCH 6/9] fix: AArch64, AArch32: honor acquire failure order of CAS
 with release success order

The instructions were selected by success_order alone. The pair of release
success order and acquire (or consume) failure order is accepted by the
precondition checks and neither order includes the other, so a failed CAS
with these orders was performed as a relaxed load.
---
 .../detail/core_arch_ops_gcc_aarch32.hpp      | 17 ++++----
 .../detail/core_arch_ops_gcc_aarch64.hpp      | 40 ++++++++++---------
 .../atomic/detail/memory_order_utils.hpp      |  7 ++++
 3 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp b/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp
index 3be70e2..4dcf238 100644
--- a/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp
+++ b/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp
@@ -21,6 +21,7 @@
 #include <boost/atomic/detail/storage_traits.hpp>
 #include <boost/atomic/detail/core_arch_operations_fwd.hpp>
 #include <boost/atomic/detail/capabilities.hpp>
+#include <boost/atomic/detail/memory_order_utils.hpp>
 #include <boost/atomic/detail/ops_gcc_aarch32_common.hpp>
 #include <boost/atomic/detail/header.hpp>
 
@@ -148,7 +149,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
@@ -181,7 +182,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
@@ -430,7 +431,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
@@ -463,7 +464,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
@@ -711,7 +712,7 @@ struct core_arch_operations< 4u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
@@ -743,7 +744,7 @@ struct core_arch_operations< 4u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
@@ -1030,7 +1031,7 @@ struct core_arch_operations< 8u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
@@ -1064,7 +1065,7 @@ struct core_arch_operations< 8u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
diff --git a/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp b/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
index 15e807e..a589ff6 100644
--- a/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
+++ b/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
@@ -21,6 +21,7 @@
 #include <boost/atomic/detail/storage_traits.hpp>
 #include <boost/atomic/detail/core_arch_operations_fwd.hpp>
 #include <boost/atomic/detail/capabilities.hpp>
+#include <boost/atomic/detail/memory_order_utils.hpp>
 #include <boost/atomic/detail/ops_gcc_aarch64_common.hpp>
 #include <boost/atomic/detail/header.hpp>
 
@@ -42,7 +43,8 @@ struct core_arch_operations_gcc_aarch64_base
 // to use in the asm blocks below. Use %w prefix for the 32-bit registers and %x for 64-bit ones.
 
 // A note about compare_exchange implementations. Since failure_order must never include release semantics and
-// must not be stronger than success_order, we can always use success_order to select instructions. Thus, when
+// must not be stronger than success_order, we can always use success_order to select instructions, except that
+// acquire semantics has to be added to it if success_order is release and failure_order is not relaxed. Thus, when
 // CAS fails, only the acquire semantics of success_order is applied, which may be stronger than failure_order.
 
 template< bool Signed, bool Interprocess >
@@ -165,7 +167,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -186,7 +188,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -213,7 +215,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -235,7 +237,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -571,7 +573,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -592,7 +594,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -619,7 +621,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -641,7 +643,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -977,7 +979,7 @@ struct core_arch_operations< 4u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -997,7 +999,7 @@ struct core_arch_operations< 4u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -1024,7 +1026,7 @@ struct core_arch_operations< 4u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -1045,7 +1047,7 @@ struct core_arch_operations< 4u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -1381,7 +1383,7 @@ struct core_arch_operations< 8u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -1401,7 +1403,7 @@ struct core_arch_operations< 8u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -1428,7 +1430,7 @@ struct core_arch_operations< 8u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -1449,7 +1451,7 @@ struct core_arch_operations< 8u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -1823,7 +1825,7 @@ struct core_arch_operations< 16u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
         expected = original.as_storage;
@@ -1862,7 +1864,7 @@ struct core_arch_operations< 16u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(atomics::detail::merge_cas_orders(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
         expected = original.as_storage;
diff --git a/include/boost/atomic/detail/memory_order_utils.hpp b/include/boost/atomic/detail/memory_order_utils.hpp
index c831033..3c0cdd5 100644
--- a/include/boost/atomic/detail/memory_order_utils.hpp
+++ b/include/boost/atomic/detail/memory_order_utils.hpp
@@ -38,6 +38,13 @@ BOOST_FORCEINLINE constexpr bool cas_failure_order_must_not_be_stronger_than_suc
     return (static_cast< unsigned int >(failure_order) & 15u) <= (static_cast< unsigned int >(success_order) & 15u);
 }
 
+//! Returns the order for implementing a CAS with a single order that must satisfy both success and failure orders
+BOOST_FORCEINLINE constexpr memory_order merge_cas_orders(memory_order success_order, memory_order failure_order) noexcept
+{
+    // The only case when the failure order is not included in the success order
+    return (success_order == memory_order_release && failure_order != memory_order_relaxed) ? memory_order_acq_rel : success_order;
+}
+
 } // namespace detail
 } // namespace atomics
 } // namespace boost
-- 
2.43.0


From 156b806b13d20acf330f69eae7798f24c058352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:17 +0000
Subject: [PATCH 7/9] fix: PowerPC: 8 and 16-bit CAS compared undefined bits of
 the expected value

cmpw compares 32-bit registers, but the bits of an asm operand of an 8 or
16-bit type past its width are not defined (e.g. clang leaves the carry of
a narrowing addition there), so CAS could fail although the values were
equal. Zero-extend the expected value explicitly.
---
 include/boost/atomic/detail/core_arch_ops_gcc_ppc.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/boost/atomic/detail/core_arch_ops_gcc_ppc.hpp b/include/boost/atomic/detail/core_arch_ops_gcc_ppc.hpp
index d1ea947..58906ec 100644
--- a/include/boost/atomic/detail/core_arch_ops_gcc_ppc.hpp
+++ b/include/boost/atomic/detail/core_arch_ops_gcc_ppc.hpp
@@ -17,6 +17,7 @@
 #define BOOST_ATOMIC_DETAIL_CORE_ARCH_OPS_GCC_PPC_HPP_INCLUDED_
 
 #include <cstddef>
+#include <cstdint>
 #include <boost/memory_order.hpp>
 #include <boost/atomic/detail/config.hpp>
 #include <boost/atomic/detail/storage_traits.hpp>
@@ -433,7 +434,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             "li %1, 1\n\t"
             BOOST_ATOMIC_DETAIL_PPC_ASM_LABEL("1")
             : "=&b" (expected), "=&b" (success), "+Z" (storage)
-            : "b" (expected), "b" (desired)
+            : "b" (static_cast< std::uint32_t >(expected)), "b" (desired)
             : "cr0"
         );
         if (success)
@@ -467,7 +468,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             "li %1, 1\n\t"
             BOOST_ATOMIC_DETAIL_PPC_ASM_LABEL("1")
             : "=&b" (expected), "=&b" (success), "+Z" (storage)
-            : "b" (expected), "b" (desired)
+            : "b" (static_cast< std::uint32_t >(expected)), "b" (desired)
             : "cr0"
         );
         if (success)
@@ -801,7 +802,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             "li %1, 1\n\t"
             BOOST_ATOMIC_DETAIL_PPC_ASM_LABEL("1")
             : "=&b" (expected), "=&b" (success), "+Z" (storage)
-            : "b" (expected), "b" (desired)
+            : "b" (static_cast< std::uint32_t >(expected)), "b" (desired)
             : "cr0"
         );
         if (success)
@@ -835,7 +836,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             "li %1, 1\n\t"
             BOOST_ATOMIC_DETAIL_PPC_ASM_LABEL("1")
             : "=&b" (expected), "=&b" (success), "+Z" (storage)
-            : "b" (expected), "b" (desired)
+            : "b" (static_cast< std::uint32_t >(expected)), "b" (desired)
             : "cr0"
         );
         if (success)
-- 
2.43.0


From 39de531cc80721738e2205393c7c42c262949799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:17 +0000
Subject: [PATCH 8/9] fix: x86: 64-bit store with preserved ebx modified esi
 and the input-only eax

The asm block exchanged ebx with esi, put the stored value into ebx and
exchanged back, leaving the stored value in esi, which was neither an
operand nor a clobber, and the old value in eax, which was declared as
input only. Pass the value in esi, as exchange does.
---
 include/boost/atomic/detail/core_arch_ops_gcc_x86.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/atomic/detail/core_arch_ops_gcc_x86.hpp b/include/boost/atomic/detail/core_arch_ops_gcc_x86.hpp
index 7dc2550..0659f92 100644
--- a/include/boost/atomic/detail/core_arch_ops_gcc_x86.hpp
+++ b/include/boost/atomic/detail/core_arch_ops_gcc_x86.hpp
@@ -510,7 +510,6 @@ struct gcc_dcas_x86
             __asm__ __volatile__
             (
                 "xchgl %%ebx, %%esi\n\t"
-                "movl %%eax, %%ebx\n\t"
                 "movl (%[dest]), %%eax\n\t"
                 "movl 4(%[dest]), %%edx\n\t"
                 ".align 16\n\t"
@@ -518,8 +517,8 @@ struct gcc_dcas_x86
                 "jne 1b\n\t"
                 "xchgl %%ebx, %%esi\n\t"
                 :
-                : "a" ((std::uint32_t)v), "c" ((std::uint32_t)(v >> 32u)), [dest] "D" (&storage)
-                : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "edx", "memory"
+                : "S" ((std::uint32_t)v), "c" ((std::uint32_t)(v >> 32u)), [dest] "D" (&storage)
+                : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "eax", "edx", "memory"
             );
 #else // defined(BOOST_ATOMIC_DETAIL_X86_ASM_PRESERVE_EBX)
             __asm__ __volatile__
-- 
2.43.0


From 627b69cb11bf4d93afb22ff91610d1ece335de4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:02 +0000
Subject: [PATCH 9/9] fix: SPARC: acquire barriers after operations did not
 order loads

fence_after issued 'membar #StoreStore | #LoadStore' (the release barrier)
for consume and acquire, so that later loads were not ordered after the
atomic operation. Use '#LoadLoad | #LoadStore', as thread_fence does.
---
 include/boost/atomic/detail/core_arch_ops_gcc_sparc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/atomic/detail/core_arch_ops_gcc_sparc.hpp b/include/boost/atomic/detail/core_arch_ops_gcc_sparc.hpp
index bacd0ac..491fe72 100644
--- a/include/boost/atomic/detail/core_arch_ops_gcc_sparc.hpp
+++ b/include/boost/atomic/detail/core_arch_ops_gcc_sparc.hpp
@@ -52,7 +52,7 @@ struct gcc_sparc_cas_base
         if (order == memory_order_seq_cst)
             __asm__ __volatile__ ("membar #Sync" ::: "memory");
         else if ((static_cast< unsigned int >(order) & (static_cast< unsigned int >(memory_order_consume) | static_cast< unsigned int >(memory_order_acquire))) != 0u)
-            __asm__ __volatile__ ("membar #StoreStore | #LoadStore" ::: "memory");
+            __asm__ __volatile__ ("membar #LoadLoad | #LoadStore" ::: "memory");
     }
 
     static BOOST_FORCEINLINE void fence_after_store(memory_order order) noexcept
-- 
2.43.0

