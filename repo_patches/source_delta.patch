From ef040cf2cd1256a8d83d21fb9f85d4fe55b9faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 01/29] fix: opt::sentinel_f with more than one sentinel value
 does not compile

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d9bd0f0..49ad88e 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3977,7 +3977,7 @@ namespace impl {
         if (Compare{}(value, Value)) { return I; }
 
         if constexpr (sizeof...(Values) > 0) {
-            return sentinel_get_level_impl<T, Compare, I + 1, Values...>(value);
+            return sentinel_f_get_level_impl<T, Compare, I + 1, Values...>(value);
         } else {
             return std::uintmax_t(-1);
         }
@@ -3987,7 +3987,7 @@ namespace impl {
         if (level == I) { Set{}(value, Value); return; }
 
         if constexpr (sizeof...(Values) > 0) {
-            sentinel_set_level_impl<T, Set, I + 1, Values...>(value, level);
+            sentinel_f_set_level_impl<T, Set, I + 1, Values...>(value, level);
         } else {
             OPTION_VERIFY(false, "Level is out of range");
         }
-- 
2.43.0


From b9179862f221af3d74c066339e905d90782d2c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 02/29] fix: converting copy assignment of option references
 does not compile

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 49ad88e..35f970e 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2934,7 +2934,7 @@ public:
     constexpr option& operator=(const option<U>& other) {
         if constexpr (std::is_reference_v<T>) {
             if (other.has_value()) {
-                base::value = base::ref_to_ptr(static_cast<option<U>&&>(other.get()));
+                base::value = base::ref_to_ptr(other.get());
             } else {
                 reset();
             }
-- 
2.43.0


From 4f8a008226f3e2af5b3e517f360e04ef90537b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 03/29] fix: opt::get<T> by type on an rvalue opt::option does
 not compile

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 35f970e..7d225e5 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3475,9 +3475,9 @@ template<class T, class OptT>
 template<class T, class OptT>
 [[nodiscard]] constexpr auto get(const opt::option<OptT>& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(x); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<OptT>&&>(x)); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<OptT>&&>(x)); }
 
 namespace impl {
     template<std::size_t I, class Variant>
-- 
2.43.0


From f64366c95a8dd4e64a897f044953124183ee755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 04/29] fix: OPTION_USE_QUIET_NAN has no effect

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 7d225e5..50438db 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1090,14 +1090,14 @@ namespace impl {
                 if constexpr (sizeof(std::uintptr_t) == 4) {
                     return st::float64_qNaN;
                 } else {
-                    return limits::has_signaling_NaN ? st::float64_sNaN : st::float64_qNaN;
+                    return (limits::has_signaling_NaN && !(OPTION_USE_QUIET_NAN)) ? st::float64_sNaN : st::float64_qNaN;
                 }
             } else
             if constexpr (sizeof(T) == 4) {
                 if constexpr (sizeof(std::uintptr_t) == 4) {
                     return st::float32_qNaN;
                 } else {
-                    return limits::has_signaling_NaN ? st::float32_sNaN : st::float32_qNaN;
+                    return (limits::has_signaling_NaN && !(OPTION_USE_QUIET_NAN)) ? st::float32_sNaN : st::float32_qNaN;
                 }
             } else
             return st::none;
-- 
2.43.0


From 87e4c60533f45d9c4df33ea75811bd5c88e0c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 05/29] fix: signed overflow in get_level of sentinel
 enumerations

---
 include/opt/option.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 50438db..06ac67b 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1549,7 +1549,7 @@ namespace impl {
         static constexpr std::uintmax_t max_level = 1;
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
-            return std::uintmax_t(underlying(*value) - underlying(sentinel_value));
+            return std::uintmax_t(underlying(*value)) - std::uintmax_t(underlying(sentinel_value));
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level == 0, "Level is out of range");
@@ -1567,7 +1567,7 @@ namespace impl {
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
@@ -1585,7 +1585,7 @@ namespace impl {
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-- 
2.43.0


From 06423c5e0ff0b8ca26bca9c0db49facf3eafb68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 06/29] fix: opt::flatten does not compile with const lvalue
 opt::option

---
 include/opt/option.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 06ac67b..b099ea9 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1878,6 +1878,14 @@ namespace impl {
         using type = T&&;
     };
     template<class T, class U>
+    struct copy_lvalue_reference<T, const U&> {
+        using type = const T&;
+    };
+    template<class T, class U>
+    struct copy_lvalue_reference<T&&, const U&> {
+        using type = T&&;
+    };
+    template<class T, class U>
     using copy_lvalue_reference_t = typename copy_lvalue_reference<T, U>::type;
 
     template<class T>
-- 
2.43.0


From 7fb076d89e5ee7323a0502e439330b0dbfa760be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 07/29] fix: option of reference is constructible from any two
 arguments

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index b099ea9..de28c6e 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2769,7 +2769,7 @@ namespace impl {
         using from_args_ctor = std::enable_if<sizeof(First) == 0>;
 
         template<class T, class InPlaceT, class... Args>
-        using from_in_place_args_ctor = std::enable_if<sizeof...(Args) == 1>;
+        using from_in_place_args_ctor = std::enable_if<std::is_same_v<InPlaceT, std::in_place_t> && sizeof...(Args) == 1>;
 
         template<class T, class U, class QualU>
         using from_option_like_ctor = if_<
-- 
2.43.0


From 232ceb0a2c6f1a8de597c80d582c4af2774ccb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 08/29] fix: option with traits claims to hold a value after
 its constructor has thrown

---
 include/opt/option.hpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index de28c6e..f52a4d7 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -667,6 +667,37 @@ namespace impl {
     }
 #endif
 
+    // Restores the empty state if the construction of the contained value exits with an exception,
+    // because a partially constructed value may have already overwritten the stored level.
+    template<class Traits, class T>
+    struct construct_guard {
+        T* ptr;
+
+        ~construct_guard() {
+            if (ptr != nullptr) {
+                Traits::set_level(ptr, 0);
+            }
+        }
+    };
+    template<class Traits, class T, class... Args>
+    void guarded_construct_at(T* ptr, Args&&... args) {
+        construct_guard<Traits, T> guard{ptr};
+        impl::construct_at(ptr, static_cast<Args&&>(args)...);
+        guard.ptr = nullptr;
+    }
+    template<class Traits, class T, class... Args>
+    constexpr void construct_with_level_at(T* ptr, Args&&... args) {
+#if OPTION_HAS_BUILTIN(__builtin_is_constant_evaluated)
+        if constexpr (!std::is_nothrow_constructible_v<T, Args...>) {
+            if (!__builtin_is_constant_evaluated()) {
+                impl::guarded_construct_at<Traits>(ptr, static_cast<Args&&>(args)...);
+                return;
+            }
+        }
+#endif
+        impl::construct_at(ptr, static_cast<Args&&>(args)...);
+    }
+
     template<class T, class Traits, class = std::uintmax_t>
     inline constexpr bool has_get_level_method = false;
     template<class T, class Traits>
@@ -2051,7 +2082,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_with_level_at<traits>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
@@ -2109,7 +2140,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_with_level_at<traits>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
-- 
2.43.0


From 0359b4ec6c78f75d69e45a3d4980dd82a5cc597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:26 +0000
Subject: [PATCH 09/29] fix: opt::swap is disabled for options of values and
 ambiguous for options of references

---
 include/opt/option.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index f52a4d7..9172243 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2673,14 +2673,14 @@ namespace impl::option {
         and_v<
             std::is_move_constructible<T>,
             std::is_move_constructible<U>,
-            std::is_swappable_with<T, U>
+            std::is_swappable_with<T&, U&>
         >
     >;
     template<class T, class U>
     inline constexpr bool nothrow_swap =
         std::is_nothrow_move_constructible_v<T>
         && std::is_nothrow_move_constructible_v<U>
-        && std::is_nothrow_swappable_with_v<T, U>;
+        && std::is_nothrow_swappable_with_v<T&, U&>;
 }
 
 namespace impl {
@@ -3441,6 +3441,11 @@ template<class T, class U>
 constexpr impl::option::enable_swap<T, U> swap(option<T>& left, option<U>& right) noexcept(impl::option::nothrow_swap<T, U>) {
     left.swap(right);
 }
+// More specialized than both 'std::swap' and the overload above
+template<class T>
+constexpr impl::option::enable_swap<T, T> swap(option<T>& left, option<T>& right) noexcept(impl::option::nothrow_swap<T, T>) {
+    left.swap(right);
+}
 
 template<class Option>
 [[nodiscard]] constexpr auto flatten(Option&& opt) {
-- 
2.43.0


From 2b38485e1b5c2a9763c222c1e47619248ed7c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:25 +0000
Subject: [PATCH 10/29] fix: max_level of types with a small PADDING member
 exceeds what the member can store

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 9172243..f201b63 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1531,7 +1531,7 @@ namespace impl {
         using member_type = decltype(std::declval<T&>().PADDING);
         static_assert(std::is_unsigned_v<member_type>, ".PADDING member must be an unsigned integer");
     public:
-        static constexpr std::uintmax_t max_level = std::uintmax_t(~member_type(0));
+        static constexpr std::uintmax_t max_level = std::uintmax_t(member_type(~member_type(0)));
 
         static std::uintmax_t get_level(const T* const value) noexcept {
             return std::uintmax_t(std::uintmax_t(value->PADDING) - 1);
-- 
2.43.0


From ab5138a4de655112fbd5aa70afb87d61b6a91d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:13 +0000
Subject: [PATCH 11/29] fix: emplacing in C++17 destroys a temporary of types
 with trivial assignment and user-provided destructor

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index f201b63..5b0e39e 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -651,7 +651,7 @@ namespace impl {
 #else
     template<class T, class... Args>
     constexpr void construct_at(T* ptr, Args&&... args) {
-        if constexpr (impl::is_trivially_move_assignable_v<T>) {
+        if constexpr (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>) {
             if constexpr (std::is_aggregate_v<T>) {
                 *ptr = T{static_cast<Args&&>(args)...};
             } else {
-- 
2.43.0


From d419c7203f495784180edbc71780a9068d2ed255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:11 +0000
Subject: [PATCH 12/29] fix: flatten of an lvalue option holding an option of
 an rvalue reference did not compile

---
 include/opt/option.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 5b0e39e..a447946 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3451,7 +3451,11 @@ template<class Option>
 [[nodiscard]] constexpr auto flatten(Option&& opt) {
     if constexpr (!opt::is_option_v<typename impl::remove_cvref<Option>::value_type>) {
         using result_type = impl::copy_lvalue_reference_t<typename impl::remove_cvref<Option>::value_type, Option>;
-        return opt.has_value() ? opt::option<result_type>{static_cast<Option&&>(opt).get()} : opt::none;
+        if constexpr (std::is_rvalue_reference_v<result_type>) {
+            return opt.has_value() ? opt::option<result_type>{static_cast<result_type>(opt.get())} : opt::none;
+        } else {
+            return opt.has_value() ? opt::option<result_type>{static_cast<Option&&>(opt).get()} : opt::none;
+        }
     } else {
         return opt.has_value() ? flatten(static_cast<Option&&>(opt).get()) : opt::none;
     }
-- 
2.43.0


From 9ac76c2703c1dd89a7840cb89e0bb03e8fc8e815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:57 +0000
Subject: [PATCH 13/29] fix: option of an enumeration without a fixed
 underlying type did not compile with Clang

---
 include/opt/option.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index a447946..b3fb789 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -874,6 +874,18 @@ namespace impl {
 #endif
 
 #if OPTION_CAN_REFLECT_ENUM
+#if OPTION_CLANG
+    // Clang does not accept values outside of the range of an enumeration
+    // without a fixed underlying type in constant expressions
+    template<class E, class = void>
+    inline constexpr bool is_reflectable_enum = false;
+    template<class E>
+    inline constexpr bool is_reflectable_enum<E, decltype(void(E{0}))> = std::is_unsigned_v<std::underlying_type_t<E>>;
+#else
+    template<class E>
+    inline constexpr bool is_reflectable_enum = std::is_unsigned_v<std::underlying_type_t<E>>;
+#endif
+
     template<auto... Enumerators>
     constexpr std::uintmax_t max_enum_value_impl2(const std::uintmax_t max) {
         const char* const name = OPTION_CURRENT_FUNCTION();
@@ -1151,7 +1163,7 @@ namespace impl {
                 }
             } else
 #if OPTION_CAN_REFLECT_ENUM
-            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>>) {
+            if constexpr (is_reflectable_enum<T>) {
                 return st::enumeration;    
             } else
 #endif
-- 
2.43.0


From 87ef7eca81b524d3a186ed74c8c23ca58ea71634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 14/29] fix: converting an option of references into an option
 of other references did not compile

---
 include/opt/option.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index b3fb789..a296c77 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2699,6 +2699,8 @@ namespace impl {
     struct always_non_explicit {
         template<bool Condition>
         using is_explicit = std::enable_if<!Condition, int>;
+        template<bool Condition>
+        using constructor_is_explicit = std::enable_if<!Condition, int>;
     };
     template<class T, class U>
     struct check_from_value_ctor {
@@ -2819,7 +2821,8 @@ namespace impl {
             is_not_same_v<U, T>
             && (is_same_reference_wrapper_v<std::remove_reference_t<T>, std::remove_reference_t<U>>
                 || (std::is_convertible_v<std::remove_reference_t<U>*, std::remove_reference_t<T>*>
-                && (std::is_lvalue_reference_v<T> == std::is_lvalue_reference_v<U>))),
+                && (std::is_lvalue_reference_v<T> == std::is_lvalue_reference_v<U>)
+                && (std::is_reference_v<U> || !std::is_lvalue_reference_v<QualU>))),
             always_non_explicit, option_check_fail
         >;
         template<class T, class U, class QualU>
@@ -2827,7 +2830,8 @@ namespace impl {
             is_not_same_v<U, T>
             && (is_same_reference_wrapper_v<std::remove_reference_t<T>, std::remove_reference_t<U>>
                 || (std::is_convertible_v<std::remove_reference_t<U>*, std::remove_reference_t<T>*>
-                && (std::is_lvalue_reference_v<T> == std::is_lvalue_reference_v<U>))),
+                && (std::is_lvalue_reference_v<T> == std::is_lvalue_reference_v<U>)
+                && (std::is_reference_v<U> || !std::is_lvalue_reference_v<QualU>))),
             always_assign, option_check_fail
         >;
 
@@ -2926,7 +2930,11 @@ public:
         typename checks::template from_option_like_ctor<T, U, const U&>::template constructor_is_explicit<false>::type = 0>
     constexpr option(const option<U>& other) {
         if (other.has_value()) {
-            base::construct(other.get());
+            if constexpr (std::is_reference_v<T> && std::is_reference_v<U>) {
+                base::construct(static_cast<U&&>(other.get()));
+            } else {
+                base::construct(other.get());
+            }
         }
     }
     template<class U,
@@ -2985,7 +2993,11 @@ public:
     constexpr option& operator=(const option<U>& other) {
         if constexpr (std::is_reference_v<T>) {
             if (other.has_value()) {
-                base::value = base::ref_to_ptr(other.get());
+                if constexpr (std::is_reference_v<U>) {
+                    base::value = base::ref_to_ptr(static_cast<U&&>(other.get()));
+                } else {
+                    base::value = base::ref_to_ptr(other.get());
+                }
             } else {
                 reset();
             }
-- 
2.43.0


From d5293d9af134c13e0aca8deb4d1865159d8a65f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:38 +0000
Subject: [PATCH 15/29] fix: filter of an lvalue option of a T&& did not
 compile

---
 include/opt/option.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index a296c77..df03184 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2675,7 +2675,11 @@ namespace impl::option {
     template<class Self, class F>
     constexpr impl::remove_cvref<Self> filter(Self&& self, F&& f) {
         if (self.has_value() && bool(impl::invoke(static_cast<F&&>(f), self.get()))) {
-            return static_cast<Self&&>(self).get();
+            if constexpr (std::is_reference_v<typename impl::remove_cvref<Self>::value_type>) {
+                return self;
+            } else {
+                return static_cast<Self&&>(self).get();
+            }
         }
         return opt::none;
     }
-- 
2.43.0


From 9bc55daec6433471e5d696391fb3a9717a560816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 16/29] fix: option of an aggregate did not compile when built
 from an object convertible to the aggregate

---
 include/opt/option.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index df03184..064b133 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -646,19 +646,23 @@ namespace impl {
         return first.get().*obj;
     }
 
+    // Aggregates are initialized with braces, unless the arguments are convertible to the aggregate itself
+    template<class T, class... Args>
+    using initialized_with_braces = std::bool_constant<std::is_aggregate_v<T> && !std::is_constructible_v<T, Args...>>;
+
 #if OPTION_IS_CXX20
     using std::construct_at;
 #else
     template<class T, class... Args>
     constexpr void construct_at(T* ptr, Args&&... args) {
         if constexpr (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>) {
-            if constexpr (std::is_aggregate_v<T>) {
+            if constexpr (initialized_with_braces<T, Args...>::value) {
                 *ptr = T{static_cast<Args&&>(args)...};
             } else {
                 *ptr = T(static_cast<Args&&>(args)...);
             }
         } else {
-            if constexpr (std::is_aggregate_v<T>) {
+            if constexpr (initialized_with_braces<T, Args...>::value) {
                 ::new(static_cast<void*>(ptr)) T{static_cast<Args&&>(args)...};
             } else {
                 ::new(static_cast<void*>(ptr)) T(static_cast<Args&&>(args)...);
@@ -2591,7 +2595,7 @@ namespace impl::option {
         if (self.has_value()) {
             return static_cast<Self&&>(self).get();
         } else {
-            if constexpr (std::is_aggregate_v<T>) {
+            if constexpr (impl::initialized_with_braces<T, Args...>::value) {
                 return T{static_cast<Args&&>(args)...};
             } else {
                 return T(static_cast<Args&&>(args)...);
@@ -2901,29 +2905,29 @@ public:
     template<class U = std::remove_cv_t<T>, typename checks::template from_value_ctor<T, U>::template is_explicit<true>::type = 0>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr explicit option(U&& val)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, static_cast<U&&>(val)) {}
+        : base(std::in_place, impl::initialized_with_braces<T, U>{}, static_cast<U&&>(val)) {}
     template<class U = std::remove_cv_t<T>, typename checks::template from_value_ctor<T, U>::template is_explicit<false>::type = 0>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr option(U&& val)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, static_cast<U&&>(val)) {}
+        : base(std::in_place, impl::initialized_with_braces<T, U>{}, static_cast<U&&>(val)) {}
 
     template<class First, class Second, class... Args,
         class = typename checks::template from_args_ctor<T, First, Second, Args...>::type>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr option(First&& first, Second&& second, Args&&... args)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, static_cast<First&&>(first), static_cast<Second&&>(second), static_cast<Args&&>(args)...) {}
+        : base(std::in_place, impl::initialized_with_braces<T, First, Second, Args...>{}, static_cast<First&&>(first), static_cast<Second&&>(second), static_cast<Args&&>(args)...) {}
 
     template<class InPlaceT, class... Args,
         class = typename checks::template from_in_place_args_ctor<T, InPlaceT, Args...>::type>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr explicit option(const InPlaceT, Args&&... args)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, static_cast<Args&&>(args)...) {}
+        : base(std::in_place, impl::initialized_with_braces<T, Args...>{}, static_cast<Args&&>(args)...) {}
 
     template<class InPlaceT, class U, class... Args,
         class = typename checks::template from_in_place_args_ctor<T, InPlaceT, std::initializer_list<U>&, Args...>::type>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr explicit option(const InPlaceT, std::initializer_list<U> ilist, Args&&... args)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, ilist, static_cast<Args&&>(args)...) {}
+        : base(std::in_place, impl::initialized_with_braces<T, std::initializer_list<U>&, Args...>{}, ilist, static_cast<Args&&>(args)...) {}
 
     template<class F, class Arg>
     OPTION_RETURN_TYPESTATE(consumed)
-- 
2.43.0


From 0dd7a72b180392cbc3b945ce16084dfe8e3376c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:32 +0000
Subject: [PATCH 17/29] fix: moving an option of const moves from the const
 payload

---
 include/opt/option.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 064b133..28c7e53 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2236,7 +2236,8 @@ namespace impl {
         option_base(const option_base&) = default;
         option_base& operator=(const option_base&) = default;
         constexpr option_base(option_base&& other) noexcept(std::is_nothrow_move_constructible_v<T>) {
-            impl::option_construct_from_option(*this, static_cast<option_base&&>(other));
+            // Like the type traits above, move from `const T` if `T` is const
+            impl::option_construct_from_option(*this, static_cast<std::conditional_t<std::is_const_v<T>, const option_base, option_base>&&>(other));
         }
         constexpr option_base& operator=(option_base&& other) noexcept(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T>) {
             impl::option_assign_from_option(*this, static_cast<option_base&&>(other));
@@ -2258,7 +2259,8 @@ namespace impl {
             return *this;
         }
         constexpr option_base(option_base&& other) noexcept(std::is_nothrow_move_constructible_v<T>) {
-            impl::option_construct_from_option(*this, static_cast<option_base&&>(other));
+            // Like the type traits above, move from `const T` if `T` is const
+            impl::option_construct_from_option(*this, static_cast<std::conditional_t<std::is_const_v<T>, const option_base, option_base>&&>(other));
         }
         constexpr option_base& operator=(option_base&& other) noexcept(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T>) {
             impl::option_assign_from_option(*this, static_cast<option_base&&>(other));
@@ -2278,7 +2280,8 @@ namespace impl {
             return *this;
         }
         constexpr option_base(option_base&& other) noexcept(std::is_nothrow_move_constructible_v<T>) {
-            impl::option_construct_from_option(*this, static_cast<option_base&&>(other));
+            // Like the type traits above, move from `const T` if `T` is const
+            impl::option_construct_from_option(*this, static_cast<std::conditional_t<std::is_const_v<T>, const option_base, option_base>&&>(other));
         }
         constexpr option_base& operator=(option_base&& other) noexcept(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T>) {
             impl::option_assign_from_option(*this, static_cast<option_base&&>(other));
-- 
2.43.0


From 2631debbc328dc0c403f4626a33a5e559b865f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:08 +0000
Subject: [PATCH 18/29] fix: swap of options of different types did not compile

---
 include/opt/option.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 28c7e53..3d3aab4 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3325,21 +3325,22 @@ public:
 
     template<class U>
     constexpr void swap(option<U>& other) noexcept(impl::option::nothrow_swap<T, U>) {
+        typename option<U>::base& other_base = other;
         using std::swap;
         if (!has_value() && !other.has_value()) {
             return;
         }
         if (has_value() && other.has_value()) {
-            swap(base::value, other.base::value);
+            swap(base::value, other_base.value);
             return;
         }
         if (has_value()) {
-            other.base::construct(static_cast<T&&>(get()));
+            other_base.construct(static_cast<T&&>(get()));
             base::reset();
             return;
         }
         base::construct(static_cast<U&&>(other.get()));
-        other.base::reset();
+        other_base.reset();
     }
 };
 
-- 
2.43.0


From a16fc0552cace0ab1531d0b820560844ace4edc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:40 +0000
Subject: [PATCH 19/29] fix: wrappers of types without a default constructor
 broke compilation instead of not being default constructible

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 3d3aab4..c3f7f80 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3981,13 +3981,13 @@ template<class T1, class T2>
 namespace impl {
     template<class T>
     struct type_wrapper {
-        T m{};
+        T m;
 
+        // Also the default constructor (with empty 'Args'), which is available only if 'T' has one
         template<class... Args, std::enable_if_t<impl::is_initializable_from_v<T, Args...>, int> = 0>
         constexpr explicit type_wrapper(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>)
             : m{static_cast<Args&&>(args)...} {}
 
-        type_wrapper() = default;
         type_wrapper(const type_wrapper&) = default;
         type_wrapper(type_wrapper&&) = default;
         type_wrapper& operator=(const type_wrapper&) = default;
-- 
2.43.0


From 013db45429243a2cf4f8bd9cf22a7297a5c65b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:26 +0000
Subject: [PATCH 20/29] fix: in C++20 an option of an aggregate could not be
 built from arguments that need brace elision

---
 include/opt/option.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index c3f7f80..f791705 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -651,7 +651,14 @@ namespace impl {
     using initialized_with_braces = std::bool_constant<std::is_aggregate_v<T> && !std::is_constructible_v<T, Args...>>;
 
 #if OPTION_IS_CXX20
-    using std::construct_at;
+    template<class T, class... Args>
+    constexpr void construct_at(T* ptr, Args&&... args) {
+        if constexpr (initialized_with_braces<T, Args...>::value) {
+            std::construct_at(ptr, T{static_cast<Args&&>(args)...});
+        } else {
+            std::construct_at(ptr, static_cast<Args&&>(args)...);
+        }
+    }
 #else
     template<class T, class... Args>
     constexpr void construct_at(T* ptr, Args&&... args) {
@@ -1863,7 +1870,6 @@ namespace impl {
     template<class Tuple>
     using tuple_like_of_options_t = typename tuple_like_of_options<Tuple>::type;
 
-#if !OPTION_IS_CXX20
     template<bool IsAggregate, bool IsConstructible, class, class T, class... Args>
     struct is_initializable_from_impl
         : std::bool_constant<IsConstructible> {};
@@ -1879,10 +1885,6 @@ namespace impl {
     template<class T, class... Args>
     using is_initializable_from = is_initializable_from_impl<__is_aggregate(T), __is_constructible(T, Args...), void, T, Args...>;
     #endif
-#else // ^^^ !OPTION_IS_CXX20 / vvv OPTION_IS_CXX20
-    template<class T, class... Args>
-    using is_initializable_from = std::is_constructible<T, Args...>;
-#endif
     template<class T, class... Args>
     inline constexpr bool is_initializable_from_v = is_initializable_from<T, Args...>::value;
 
-- 
2.43.0


From 09a4bb89c84c7f5c5c8ee799112f38a560e49c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:16 +0000
Subject: [PATCH 21/29] fix: OPTION_PFR_FILE without OPTION_USE_PFR does not
 compile

---
 include/opt/option.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index f791705..47d4e63 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -144,6 +144,10 @@
             #include OPTION_PFR_FILE
             #if BOOST_PFR_ENABLED
                 #define OPTION_HAS_PFR
+                #define OPTION_PFR_NAMESPACE ::boost::pfr::
+            #elif PFR_ENABLED
+                #define OPTION_HAS_PFR
+                #define OPTION_PFR_NAMESPACE ::pfr::
             #endif
         #endif
     #else
-- 
2.43.0


From 23db3877270cf493715560b77039f82d621347d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:46 +0000
Subject: [PATCH 22/29] fix: OPTION_USE_PFR without OPTION_PFR_FILE does not
 compile

---
 include/opt/option.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 47d4e63..6b83d1a 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -119,6 +119,13 @@
 
 #ifdef OPTION_USE_PFR
     #if OPTION_USE_PFR
+        #ifndef OPTION_PFR_FILE
+            #if !__has_include(<boost/pfr.hpp>) && __has_include(<pfr.hpp>)
+                #define OPTION_PFR_FILE <pfr.hpp>
+            #else
+                #define OPTION_PFR_FILE <boost/pfr.hpp>
+            #endif
+        #endif
         #if __has_include(OPTION_PFR_FILE)
             #include OPTION_PFR_FILE
             #if defined(BOOST_PFR_ENABLED)
-- 
2.43.0


From 8aa4d8a3762a76bd7dce94642f2f1711fb1ec48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:06 +0000
Subject: [PATCH 23/29] fix: at, at_front and at_back run container code and
 are not pure

---
 include/opt/option.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 6b83d1a..f68957c 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3671,7 +3671,7 @@ template<class T, class NoneCase>
 }
 
 template<class T>
-[[nodiscard]] OPTION_PURE constexpr auto at(T&& container OPTION_LIFETIMEBOUND, const std::size_t index) noexcept {
+[[nodiscard]] constexpr auto at(T&& container OPTION_LIFETIMEBOUND, const std::size_t index) noexcept {
     using type = impl::copy_reference_t<decltype(static_cast<T&&>(container)[index]), T>;
 
     if (index >= container.size()) { return opt::option<type>{opt::none}; }
@@ -3679,7 +3679,7 @@ template<class T>
 }
 
 template<class T>
-[[nodiscard]] OPTION_PURE constexpr auto at_front(T&& container OPTION_LIFETIMEBOUND) noexcept {
+[[nodiscard]] constexpr auto at_front(T&& container OPTION_LIFETIMEBOUND) noexcept {
     using type = impl::copy_reference_t<decltype(static_cast<T&&>(container).front()), T>;
     if (container.size() == 0) {
         return opt::option<type>{};
@@ -3688,7 +3688,7 @@ template<class T>
 }
 
 template<class T>
-[[nodiscard]] OPTION_PURE constexpr auto at_back(T&& container OPTION_LIFETIMEBOUND) noexcept {
+[[nodiscard]] constexpr auto at_back(T&& container OPTION_LIFETIMEBOUND) noexcept {
     using type = impl::copy_reference_t<decltype(static_cast<T&&>(container).back()), T>;
     if (container.size() == 0) {
         return opt::option<type>{};
-- 
2.43.0


From 9b964b72909aa659b187d6f158bc61b20641e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:58 +0000
Subject: [PATCH 24/29] fix: inspect of an rvalue option compiles in C++23

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index f68957c..fb26185 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2689,7 +2689,7 @@ namespace impl::option {
         if (self.has_value()) {
             impl::invoke(static_cast<F&&>(f), static_cast<Self&&>(self).get());
         }
-        return self;
+        return static_cast<Self&>(self);
     }
 
     template<class Self, class F>
-- 
2.43.0


From 71c5e04b494f0ac5dd89f5d7f717b08f058c6b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 25/29] fix: option of a union does not compile with boost.pfr

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index fb26185..3b2715b 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -886,7 +886,7 @@ namespace impl {
 #ifdef OPTION_HAS_PFR
     template<class Struct>
     inline constexpr bool pfr_is_option_reflectable =
-        OPTION_PFR_NAMESPACE is_implicitly_reflectable_v<Struct, option_tag>;
+        !std::is_union_v<Struct> && OPTION_PFR_NAMESPACE is_implicitly_reflectable_v<Struct, option_tag>;
 
     template<class Struct>
     struct pfr_find_max_level;
-- 
2.43.0


From b12d6cae6474c95747f5b14678cf64ad46ba59c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:55 +0000
Subject: [PATCH 26/29] fix: option of an aggregate with a base class does not
 compile with boost.pfr

---
 include/opt/option.hpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 3b2715b..2e77a67 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -884,9 +884,36 @@ namespace impl {
     };
 
 #ifdef OPTION_HAS_PFR
+    // Aggregates with base classes are not supported by boost.pfr.
+    // Their first initializer is the one of a base class
+    struct pfr_not_a_base {
+        pfr_not_a_base(const pfr_not_a_base&) = delete;
+    };
+    template<class Struct>
+    struct pfr_any_base {
+        pfr_any_base(const pfr_any_base&) = delete;
+        template<class Base, std::enable_if_t<std::is_base_of_v<Base, Struct> && !std::is_same_v<Base, Struct>, int> = 0>
+        operator Base() const noexcept;
+    };
+    template<class Struct, class First, class = void>
+    inline constexpr bool pfr_is_first_initializer = false;
+    template<class Struct, class First>
+    inline constexpr bool pfr_is_first_initializer<Struct, First, std::void_t<decltype(Struct{std::declval<First&>()})>> = true;
+
+    template<class Struct>
+    inline constexpr bool pfr_has_base = pfr_is_first_initializer<Struct, pfr_any_base<Struct>>
+        && !pfr_is_first_initializer<Struct, pfr_not_a_base>;
+
+    template<class Struct>
+    constexpr bool pfr_is_option_reflectable_impl() noexcept {
+        if constexpr (!std::is_union_v<Struct> && OPTION_PFR_NAMESPACE is_implicitly_reflectable_v<Struct, option_tag>) {
+            return !pfr_has_base<Struct>;
+        } else {
+            return false;
+        }
+    }
     template<class Struct>
-    inline constexpr bool pfr_is_option_reflectable =
-        !std::is_union_v<Struct> && OPTION_PFR_NAMESPACE is_implicitly_reflectable_v<Struct, option_tag>;
+    inline constexpr bool pfr_is_option_reflectable = pfr_is_option_reflectable_impl<Struct>();
 
     template<class Struct>
     struct pfr_find_max_level;
-- 
2.43.0


From b34e16391ee6bf2324f88810b15c30d0dd202236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:35 +0000
Subject: [PATCH 27/29] fix: value_type of the iterators of a const option is
 not const

std::partial_sum, std::adjacent_difference and all generic code which declares a variable of the value type did not compile.
---
 include/opt/option.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 2e77a67..eb590e5 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2506,10 +2506,10 @@ namespace impl {
         using iterator_concept = std::contiguous_iterator_tag;
 #endif
         using iterator_category = std::random_access_iterator_tag;
-        using value_type = std::remove_reference_t<T>;
-        using reference = value_type&;
+        using value_type = std::remove_cv_t<std::remove_reference_t<T>>;
+        using reference = std::remove_reference_t<T>&;
         using difference_type = std::ptrdiff_t;
-        using pointer = value_type*;
+        using pointer = std::remove_reference_t<T>*;
     private:
         pointer ptr{};
     public:
-- 
2.43.0


From 536625c5a63bf7d75efd547b468a529e16d344d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:35 +0000
Subject: [PATCH 28/29] fix: the iterators of an empty option form a valid
 empty range

begin() < end(), begin() + 0 and so on were reported (and assumed not to happen in release builds), so that std::partial_sort, std::is_heap, std::copy_n and others could not be used on an empty option.
---
 include/opt/option.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index eb590e5..fd8b207 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2551,25 +2551,25 @@ namespace impl {
             return tmp;
         }
         constexpr option_iterator& operator+=(const difference_type offset) noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             ptr += offset;
             return *this;
         }
         [[nodiscard]] constexpr option_iterator operator+(const difference_type offset) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{ptr + offset};
         }
         [[nodiscard]] friend constexpr option_iterator operator+(const difference_type offset, const option_iterator& it) noexcept {
-            OPTION_VERIFY(it.ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(it.ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{it.ptr + offset};
         }
         constexpr option_iterator& operator-=(const difference_type offset) noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             ptr -= offset;
             return *this;
         }
         [[nodiscard]] constexpr option_iterator operator-(const difference_type offset) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{ptr - offset};
         }
         [[nodiscard]] constexpr difference_type operator-(const option_iterator& right) const noexcept {
@@ -2586,13 +2586,11 @@ namespace impl {
             return ptr != right.ptr;
         }
         [[nodiscard]] constexpr bool operator<(const option_iterator& right) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot compare value-initialized option iterator");
-            OPTION_VERIFY(right.ptr != nullptr, "Cannot compare value-initialized option iterator");
+            OPTION_VERIFY((ptr == nullptr) == (right.ptr == nullptr), "Cannot compare value-initialized option iterator");
             return ptr < right.ptr;
         }
         [[nodiscard]] constexpr bool operator>(const option_iterator& right) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot compare value-initialized option iterator");
-            OPTION_VERIFY(right.ptr != nullptr, "Cannot compare value-initialized option iterator");
+            OPTION_VERIFY((ptr == nullptr) == (right.ptr == nullptr), "Cannot compare value-initialized option iterator");
             return ptr > right.ptr;
         }
         [[nodiscard]] constexpr bool operator<=(const option_iterator& right) const noexcept {
-- 
2.43.0


From 71cf7eb6ce3f56dabc7e1466f54100a009f5d0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:35 +0000
Subject: [PATCH 29/29] fix: std::to_address of the iterators of an empty
 option

std::span, std::ranges::data and std::views::counted of an empty option reported an access of the value.
---
 include/opt/option.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index fd8b207..22a9fe9 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2511,6 +2511,9 @@ namespace impl {
         using difference_type = std::ptrdiff_t;
         using pointer = std::remove_reference_t<T>*;
     private:
+#if OPTION_IS_CXX20
+        friend struct std::pointer_traits<option_iterator>;
+#endif
         pointer ptr{};
     public:
         option_iterator() = default;
@@ -4189,6 +4192,18 @@ namespace impl {
 
 }
 
+#if OPTION_IS_CXX20
+// Unlike 'operator->', 'std::to_address' is also used with the iterators of an empty option
+template<class T>
+struct std::pointer_traits<::opt::impl::option_iterator<T>> {
+    using pointer = ::opt::impl::option_iterator<T>;
+    using element_type = std::remove_reference_t<T>;
+    using difference_type = std::ptrdiff_t;
+
+    [[nodiscard]] static constexpr element_type* to_address(const pointer& it) noexcept { return it.ptr; }
+};
+#endif
+
 template<class T>
 struct std::hash<::opt::impl::enable_hash_helper1<
     opt::option<T>, ::opt::impl::enable_hash_helper2<std::remove_const_t<T>>
-- 
2.43.0

