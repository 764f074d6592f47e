From be56336b8a12ee7d86f44043a9714a2842a56629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:22 +0000
Subject: [PATCH 1/7] fix: let exceptions of the function passed to transform()
 propagate

ConstructPayloadFromFunction() was noexcept whenever the payload is nothrow constructible
from the function's result, even though invoking the function itself may throw. So e.g.
tiny::optional<int>{1}.transform(f) called std::terminate() if f threw.
---
 include/tiny/optional.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 7b5a9b6..a2cae18 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -1082,7 +1082,8 @@ namespace impl
 
     template <class FuncT, class ArgT>
     void ConstructPayloadFromFunction(FuncT && func, ArgT && arg) noexcept(
-        std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
+        std::is_nothrow_invocable_v<FuncT, ArgT>
+        && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
     {
       assert(!has_value());
       FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
@@ -1092,7 +1093,9 @@ namespace impl
       // NOLINTBEGIN(clang-analyzer-core.uninitialized.Assign)
 
       // In analogy to ConstructPayload().
-      if constexpr (std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
+      if constexpr (
+          std::is_nothrow_invocable_v<FuncT, ArgT>
+          && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
         ::new (const_cast<void *>(static_cast<void volatile const *>(std::addressof(GetPayload()))))
             PayloadType(std::invoke(std::forward<FuncT>(func), std::forward<ArgT>(arg)));
       }
-- 
2.43.0


From 2787e8fdb3b0e18d9a059b042cfcb28fc492190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:33 +0000
Subject: [PATCH 2/7] fix: destroy the empty flag when an empty optional gets
 destroyed

The destructor of an empty optional never called invalidate_empty_flag(), so the flag object
created by a custom init_empty_flag() was leaked (contrary to what the readme documents). The
same happened if a constructor of the optional failed because the payload's constructor threw.
---
 include/tiny/optional.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index a2cae18..30a1232 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -960,17 +960,18 @@ namespace impl
 
     template <class... ArgsT>
     explicit StorageBase(std::in_place_t, ArgsT &&... args)
-    {
       // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
+      // Delegating also means that our destructor cleans up the IsEmpty flag if the payload's construction throws.
+      : StorageBase()
+    {
       ConstructPayload(std::forward<ArgsT>(args)...);
     }
 
     template <class FuncT, class ArgT>
     StorageBase(DirectInitializationFromFunctionTag, FuncT && func, ArgT && arg)
+      // See the constructor above.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayloadFromFunction(std::forward<FuncT>(func), std::forward<ArgT>(arg));
     }
 
@@ -980,6 +981,10 @@ namespace impl
       if (has_value()) {
         DestroyPayload();
       }
+      else {
+        // Destroy the flag object that was created by init_empty_flag().
+        FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
+      }
     }
 
     // The proper implemention of the following are defined in the derived classes.
-- 
2.43.0


From 3b56c74afcdc4846216237023240d267d65f9ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:05 +0000
Subject: [PATCH 3/7] fix: std::optional <=>
 optional_inplace/optional_sentinel_via_type with gcc

---
 include/tiny/optional.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 30a1232..e1d6866 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2732,6 +2732,17 @@ namespace impl
   {
     return (lhs && rhs) ? (*lhs <=> *rhs) : (lhs.has_value() <=> rhs.has_value());
   }
+
+  #ifdef TINY_OPTIONAL_GCC_WORKAROUND_CWG2445
+  template <class U, class D1, class F1>
+    requires(std::three_way_comparable_with<U, typename TinyOptionalImpl<D1, F1>::value_type>)
+  [[nodiscard]] std::compare_three_way_result_t<U, typename TinyOptionalImpl<D1, F1>::value_type> operator<=>(
+      std::optional<U> const & lhs,
+      TinyOptionalImpl<D1, F1> const & rhs)
+  {
+    return (lhs && rhs) ? (*lhs <=> *rhs) : (lhs.has_value() <=> rhs.has_value());
+  }
+  #endif
 } // namespace impl
 
 template <class P, auto e, auto i, std::three_way_comparable_with<P> U>
-- 
2.43.0


From 699801a7d3d1eb5c4197b9ca7789f7a00ff70ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:15 +0000
Subject: [PATCH 4/7] fix: optional of extended floating point types failed to
 compile

std::is_floating_point is true also for types such as std::float32_t (C++23) and
__float128 (gnu modes), for which no unused bit pattern is defined. Such payloads
now use a separate flag as documented for all types without known unused bits.
---
 include/tiny/optional.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index e1d6866..6b2ae53 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -864,7 +864,8 @@ namespace impl
   template <class PayloadType>
   inline constexpr bool SentinelForExploitingUnusedBitsIsKnown =
 #ifndef TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS
-      (std::is_floating_point_v<PayloadType> && !std::is_same_v<std::remove_cv_t<PayloadType>, long double>)
+      // Not std::is_floating_point_v because it might be true also for extended types (__float128, std::float32_t, etc).
+      std::is_same_v<std::remove_cv_t<PayloadType>, double> || std::is_same_v<std::remove_cv_t<PayloadType>, float>
       || std::is_same_v<std::remove_cv_t<PayloadType>, bool>
       || std::is_pointer_v<PayloadType>; // Pointers and function pointers, but not member pointers or member
                                          // function pointers.
-- 
2.43.0


From bba7dd18dd0e39b737dee5e839f799668a4b89d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:19 +0000
Subject: [PATCH 5/7] fix: out-of-range unscoped enumerator accepted as
 sentinel

tiny::optional<unsigned char, A> with 'enum E { A = 300 };' silently used 44 as
sentinel. Apply the same range check as for integral sentinels.
---
 include/tiny/optional.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 6b2ae53..216e500 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -794,6 +794,16 @@ namespace impl
             "'optional<unsigned, -1>' triggers this because the value -1 cannot be held by an 'unsigned'.");
         return static_cast<FlagTypeNoCV>(SentinelValue::value);
       }
+      else if constexpr (
+          std::is_integral_v<FlagTypeNoCV> && std::is_enum_v<ValueType>
+          && std::is_convertible_v<ValueType, FlagTypeNoCV>) {
+        // Same as above: The implicit conversion of an unscoped enumeration must not change the numeric value.
+        static_assert(
+            IsIntegralInRange<FlagTypeNoCV>(static_cast<std::underlying_type_t<ValueType>>(SentinelValue::value)),
+            "The specified enumerator for the empty value is outside of the range supported by the type of the "
+            "variable used by the optional as IsEmpty-flag.");
+        return static_cast<FlagTypeNoCV>(SentinelValue::value);
+      }
       else if constexpr (std::is_floating_point_v<FlagTypeNoCV> || std::is_floating_point_v<ValueType>) {
         // Compile-time floating point values are fiddly, so for safety we require the types to be the same in this
         // case.
-- 
2.43.0


From 5b050451812c81ec280eece5158d49a8f134978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:42 +0000
Subject: [PATCH 6/7] fix: free swap() of tiny::optional loses the value if a
 move throws and has the wrong noexcept

---
 include/tiny/optional.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 216e500..99ed8ec 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2290,6 +2290,28 @@ public:
 };
 
 
+// Required in addition to the swap() for TinyOptionalImpl because the latter needs a derived-to-base conversion, i.e. the
+// generic std::swap() would be the better match for an unqualified call after 'using std::swap'. But std::swap() uses
+// three moves and thus does not provide the noexcept and exception guarantees of the swap() for std::optional.
+// clang-format off
+template <
+    class PayloadType,
+    auto sentinelOrMemPtr,
+    auto irrelevantOrSentinel,
+    std::enable_if_t<
+        std::is_move_constructible_v<PayloadType>
+        && std::is_swappable_v<PayloadType>,
+      int> = 0>
+void swap(
+    optional<PayloadType, sentinelOrMemPtr, irrelevantOrSentinel> & lhs,
+    optional<PayloadType, sentinelOrMemPtr, irrelevantOrSentinel> & rhs)
+  noexcept(noexcept(lhs.swap(rhs)))
+{
+  lhs.swap(rhs);
+}
+// clang-format on
+
+
 // Deduction guide.
 template <class T>
 optional(T) -> optional<T, UseDefaultValue, UseDefaultValue>;
-- 
2.43.0


From 50af72aaaef431ea80789b632b1b0fc8d57bcc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:45 +0000
Subject: [PATCH 7/7] fix: do not use the overloaded operator& of a payload or
 flag when a sentinel is stored

sentinel_flag_manipulator constructed the sentinel at &payload, i.e. in the wrong place (or not at all) if the payload
overloads operator&, and AssignmentFlagManipulator did not compile for flag types with a deleted operator&.
---
 include/tiny/optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 99ed8ec..0e66e55 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -237,7 +237,7 @@ struct sentinel_flag_manipulator
 
   static void init_empty_flag(PayloadType & uninitializedPayloadMemory) noexcept
   {
-    ::new (&uninitializedPayloadMemory) PayloadType(SentinelValue);
+    ::new (static_cast<void *>(std::addressof(uninitializedPayloadMemory))) PayloadType(SentinelValue);
   }
 
   static void invalidate_empty_flag(PayloadType & emptyPayload) noexcept
@@ -844,7 +844,7 @@ namespace impl
       // static_assert: Because tiny::optional requires init_empty_flag() to be noexcept; otherwise, it could not
       // give the same noexcept guarantees as std::optional.
       static_assert(
-          noexcept(*const_cast<std::remove_cv_t<FlagType> *>(&uninitializedIsEmptyFlagMemory) = valueToIndicateEmpty),
+          noexcept(*const_cast<std::remove_cv_t<FlagType> *>(std::addressof(uninitializedIsEmptyFlagMemory)) = valueToIndicateEmpty),
           "The assignment operator of the flag type must be noexcept.");
       // Regarding the cast: https://stackoverflow.com/q/63325244/3740047
       ::new (const_cast<void *>(static_cast<void volatile const *>(std::addressof(uninitializedIsEmptyFlagMemory))))
-- 
2.43.0

