From 301e5bcacda49832f866c23393359201c256b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 01/32] fix: cast to the actual option type in opt::get<T> for
 rvalue options

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d9bd0f0..b5a7af4 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3475,9 +3475,9 @@ template<class T, class OptT>
 template<class T, class OptT>
 [[nodiscard]] constexpr auto get(const opt::option<OptT>& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(x); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<OptT>&&>(x)); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<OptT>&&>(x)); }
 
 namespace impl {
     template<std::size_t I, class Variant>
-- 
2.43.0


From 65fea76537aca3f63c48692c469bd1f9251fb052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 02/32] fix: recurse into the sentinel_f functions for
 opt::sentinel_f with several sentinel values

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index b5a7af4..5e4246d 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3977,7 +3977,7 @@ namespace impl {
         if (Compare{}(value, Value)) { return I; }
 
         if constexpr (sizeof...(Values) > 0) {
-            return sentinel_get_level_impl<T, Compare, I + 1, Values...>(value);
+            return sentinel_f_get_level_impl<T, Compare, I + 1, Values...>(value);
         } else {
             return std::uintmax_t(-1);
         }
@@ -3987,7 +3987,7 @@ namespace impl {
         if (level == I) { Set{}(value, Value); return; }
 
         if constexpr (sizeof...(Values) > 0) {
-            sentinel_set_level_impl<T, Set, I + 1, Values...>(value, level);
+            sentinel_f_set_level_impl<T, Set, I + 1, Values...>(value, level);
         } else {
             OPTION_VERIFY(false, "Level is out of range");
         }
-- 
2.43.0


From 2dc06a5a378f35b663d224c78b21088c313964b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 03/32] fix: assignment of an lvalue option<U&> to option<T&>

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 5e4246d..7d225e5 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2934,7 +2934,7 @@ public:
     constexpr option& operator=(const option<U>& other) {
         if constexpr (std::is_reference_v<T>) {
             if (other.has_value()) {
-                base::value = base::ref_to_ptr(static_cast<option<U>&&>(other.get()));
+                base::value = base::ref_to_ptr(other.get());
             } else {
                 reset();
             }
-- 
2.43.0


From 91aa678d6c1ea96661e6e58e6797b0bfabbe5fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 04/32] fix: max_level of the PADDING member option traits for
 types narrower than int

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 7d225e5..c3a7520 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1500,7 +1500,7 @@ namespace impl {
         using member_type = decltype(std::declval<T&>().PADDING);
         static_assert(std::is_unsigned_v<member_type>, ".PADDING member must be an unsigned integer");
     public:
-        static constexpr std::uintmax_t max_level = std::uintmax_t(~member_type(0));
+        static constexpr std::uintmax_t max_level = std::uintmax_t(member_type(~member_type(0)));
 
         static std::uintmax_t get_level(const T* const value) noexcept {
             return std::uintmax_t(std::uintmax_t(value->PADDING) - 1);
-- 
2.43.0


From c809974c9663c00cbd927f11dd7f7f5e615d1fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 05/32] fix: do not construct via assignment when the
 destructor is not trivial

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index c3a7520..2bc59f0 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -651,7 +651,7 @@ namespace impl {
 #else
     template<class T, class... Args>
     constexpr void construct_at(T* ptr, Args&&... args) {
-        if constexpr (impl::is_trivially_move_assignable_v<T>) {
+        if constexpr (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>) {
             if constexpr (std::is_aggregate_v<T>) {
                 *ptr = T{static_cast<Args&&>(args)...};
             } else {
-- 
2.43.0


From 7c5859a9441873d1c51e1a332d8ae2f0cc6e1283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 06/32] fix: restore the sentinel when the construction of the
 contained value throws

---
 include/opt/option.hpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 2bc59f0..6111736 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -667,6 +667,34 @@ namespace impl {
     }
 #endif
 
+    // Sets the value back to an empty state if the construction is exited by an exception
+    template<class T, class Traits>
+    struct restore_level_guard {
+        T* ptr;
+
+        OPTION_CONSTEXPR_CXX20 ~restore_level_guard() {
+            if (ptr != nullptr) {
+                Traits::set_level(ptr, 0);
+            }
+        }
+    };
+
+    // Partially constructed value could overwrite the sentinel representation,
+    // so it needs to be restored when the constructor throws an exception
+    template<class Traits, class T, class... Args>
+    constexpr void construct_at_or_restore_level(T* ptr, Args&&... args) {
+        constexpr bool by_assignment = !OPTION_IS_CXX20
+            && impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>;
+
+        if constexpr (by_assignment || std::is_nothrow_constructible_v<T, Args&&...>) {
+            impl::construct_at(ptr, static_cast<Args&&>(args)...);
+        } else {
+            restore_level_guard<T, Traits> guard{ptr};
+            impl::construct_at(ptr, static_cast<Args&&>(args)...);
+            guard.ptr = nullptr;
+        }
+    }
+
     template<class T, class Traits, class = std::uintmax_t>
     inline constexpr bool has_get_level_method = false;
     template<class T, class Traits>
@@ -2043,7 +2071,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_at_or_restore_level<traits>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
@@ -2101,7 +2129,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_at_or_restore_level<traits>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
-- 
2.43.0


From 3ff9675bcea0106b9c52b80a6b60b28bb05e175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 07/32] fix: signed overflow in get_level of the sentinel
 enumeration option traits

---
 include/opt/option.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 6111736..1ae9555 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1577,7 +1577,7 @@ namespace impl {
         static constexpr std::uintmax_t max_level = 1;
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
-            return std::uintmax_t(underlying(*value) - underlying(sentinel_value));
+            return std::uintmax_t(underlying(*value)) - std::uintmax_t(underlying(sentinel_value));
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level == 0, "Level is out of range");
@@ -1595,7 +1595,7 @@ namespace impl {
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
@@ -1613,7 +1613,7 @@ namespace impl {
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-- 
2.43.0


From 41bc973177ab053cb463aafd0698a2ec3264636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 08/32] fix: do not use out-of-range values of enumerations
 with bool underlying type as sentinels

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 1ae9555..90f92c8 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1148,7 +1148,7 @@ namespace impl {
                 }
             } else
 #if OPTION_CAN_REFLECT_ENUM
-            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>>) {
+            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>> && !std::is_same_v<std::underlying_type_t<T>, bool>) {
                 return st::enumeration;    
             } else
 #endif
-- 
2.43.0


From 8f213199f9ea9d818e5dd4a334a7663df29f6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 09/32] fix: do not store the level inside of const members

---
 include/opt/option.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 90f92c8..c7776b5 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1091,6 +1091,10 @@ namespace impl {
         if constexpr (dispatch_st != st::other) {
             return dispatch_st;
         } else
+        // The level cannot be stored inside of a 'const' (or 'volatile') member
+        if constexpr (std::is_const_v<T> || std::is_volatile_v<T>) {
+            return st::none;
+        } else
         if constexpr (std::is_pointer_v<T>) {
             if constexpr (sizeof(T) == 8) {
                 return st::pointer_64;
-- 
2.43.0


From 3f7f40ef617daa4f73ead02560910975822a5133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 10/32] fix: option traits of option with a const contained
 type

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index c7776b5..7138430 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1026,7 +1026,7 @@ namespace impl {
     template<class T>
     struct dispatch_specializations<opt::option<T>> {
         static constexpr option_strategy value
-            = opt::option_traits<T>::max_level >= 1
+            = opt::option_traits<std::remove_cv_t<T>>::max_level >= 1
                 ? option_strategy::avaliable_option
                 : option_strategy::unavaliable_option;
     };
@@ -3309,7 +3309,7 @@ namespace impl {
     template<class T>
     struct internal_option_traits<opt::option<T>, option_strategy::avaliable_option> {
         using base = typename opt::option<T>::base;
-        using traits = opt::option_traits<T>;
+        using traits = opt::option_traits<std::remove_cv_t<T>>;
 
         static constexpr std::uintmax_t max_level = traits::max_level - 1;
 
-- 
2.43.0


From 4e6ab35171dbcec8a4c9b953d9c54207227fdead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:48 +0000
Subject: [PATCH 11/32] fix: enable opt::swap and noexcept of swap for
 non-reference types

---
 include/opt/option.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 7138430..980b7cc 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2666,14 +2666,14 @@ namespace impl::option {
         and_v<
             std::is_move_constructible<T>,
             std::is_move_constructible<U>,
-            std::is_swappable_with<T, U>
+            std::is_swappable_with<T&, U&>
         >
     >;
     template<class T, class U>
     inline constexpr bool nothrow_swap =
         std::is_nothrow_move_constructible_v<T>
         && std::is_nothrow_move_constructible_v<U>
-        && std::is_nothrow_swappable_with_v<T, U>;
+        && std::is_nothrow_swappable_with_v<T&, U&>;
 }
 
 namespace impl {
@@ -3435,6 +3435,12 @@ constexpr impl::option::enable_swap<T, U> swap(option<T>& left, option<U>& right
     left.swap(right);
 }
 
+// More specialized than `std::swap`, so that an unqualified `swap(left, right)` is not ambiguous
+template<class T>
+constexpr impl::option::enable_swap<T, T> swap(option<T>& left, option<T>& right) noexcept(impl::option::nothrow_swap<T, T>) {
+    left.swap(right);
+}
+
 template<class Option>
 [[nodiscard]] constexpr auto flatten(Option&& opt) {
     if constexpr (!opt::is_option_v<typename impl::remove_cvref<Option>::value_type>) {
-- 
2.43.0


From 3df73cb184bdacfd9291fbef7bb9a2dbfa95dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:30 +0000
Subject: [PATCH 12/32] fix: value_or of an rvalue option with a const
 contained type

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 980b7cc..a0d61b6 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3209,7 +3209,7 @@ public:
     template<class U = std::remove_cv_t<T>>
     [[nodiscard]] constexpr std::remove_cv_t<T> value_or(U&& default_value) && {
         if (has_value()) {
-            return static_cast<std::remove_cv_t<T>&&>(get());
+            return static_cast<T&&>(get());
         } else {
             return static_cast<std::remove_cv_t<T>>(static_cast<U&&>(default_value));
         }
-- 
2.43.0


From 6e3faa7e6f36f7d8696a9f71d47c4caa5e04f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 13/32] fix: default constructibility of the sentinel and
 member wrappers follows the wrapped type

---
 include/opt/option.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index a0d61b6..461f5fd 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3935,13 +3935,16 @@ template<class T1, class T2>
 namespace impl {
     template<class T>
     struct type_wrapper {
-        T m{};
+        T m;
 
-        template<class... Args, std::enable_if_t<impl::is_initializable_from_v<T, Args...>, int> = 0>
+        template<class U = T, std::enable_if_t<std::is_default_constructible_v<U>, int> = 0>
+        constexpr type_wrapper() noexcept(std::is_nothrow_default_constructible_v<U>)
+            : m{} {}
+
+        template<class... Args, std::enable_if_t<(sizeof...(Args) > 0) && impl::is_initializable_from_v<T, Args...>, int> = 0>
         constexpr explicit type_wrapper(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>)
             : m{static_cast<Args&&>(args)...} {}
 
-        type_wrapper() = default;
         type_wrapper(const type_wrapper&) = default;
         type_wrapper(type_wrapper&&) = default;
         type_wrapper& operator=(const type_wrapper&) = default;
-- 
2.43.0


From cd2770283c1d8f494717a4fdd016c9322ad605c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:14 +0000
Subject: [PATCH 14/32] fix: constrain the assignment of the sentinel and
 member wrappers

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 461f5fd..998d828 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3955,7 +3955,7 @@ namespace impl {
         constexpr type_wrapper(T&& x) noexcept(std::is_nothrow_move_constructible_v<T>)
             : m{static_cast<T&&>(x)} {}
 
-        template<class U = T>
+        template<class U = T, std::enable_if_t<std::is_assignable_v<T&, U>, int> = 0>
         constexpr type_wrapper& operator=(U&& x) {
             m = static_cast<U&&>(x);
             return *this;
-- 
2.43.0


From 220dd539fa5c97babab5f235f993411c0683d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:11 +0000
Subject: [PATCH 15/32] fix: flatten of a constant lvalue option

---
 include/opt/option.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 998d828..c0da99a 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3444,7 +3444,10 @@ constexpr impl::option::enable_swap<T, T> swap(option<T>& left, option<T>& right
 template<class Option>
 [[nodiscard]] constexpr auto flatten(Option&& opt) {
     if constexpr (!opt::is_option_v<typename impl::remove_cvref<Option>::value_type>) {
-        using result_type = impl::copy_lvalue_reference_t<typename impl::remove_cvref<Option>::value_type, Option>;
+        using value_type = typename impl::remove_cvref<Option>::value_type;
+        // A constant lvalue option gives a reference to the constant contained value
+        constexpr bool is_const_lvalue = std::is_lvalue_reference_v<Option> && std::is_const_v<std::remove_reference_t<Option>>;
+        using result_type = impl::copy_lvalue_reference_t<std::conditional_t<is_const_lvalue, const value_type, value_type>, Option>;
         return opt.has_value() ? opt::option<result_type>{static_cast<Option&&>(opt).get()} : opt::none;
     } else {
         return opt.has_value() ? flatten(static_cast<Option&&>(opt).get()) : opt::none;
-- 
2.43.0


From 3c2380f72ca488004b6e8c4e41b5cf1a1dc1204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:34 +0000
Subject: [PATCH 16/32] fix: element access of elements that are themselves
 options

---
 include/opt/option.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index c0da99a..84efb0a 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3417,7 +3417,7 @@ template<class T>
     if (nullable_ptr == nullptr) {
         return {};
     } else {
-        return {*nullable_ptr};
+        return opt::option<T&>{std::in_place, *nullable_ptr};
     }
 }
 
@@ -3486,7 +3486,7 @@ namespace impl {
         using type = impl::copy_reference_t<decltype(get<I>(static_cast<Self&&>(self).get())), Self>;
 
         if (self.has_value()) {
-            return opt::option<type>{static_cast<type>(get<I>(static_cast<Self&&>(self).get()))};
+            return opt::option<type>{std::in_place, static_cast<type>(get<I>(static_cast<Self&&>(self).get()))};
         }
         return opt::option<type>{opt::none};
     }
@@ -3496,7 +3496,7 @@ namespace impl {
         using type = impl::copy_reference_t<decltype(get<T>(static_cast<Self&&>(self).get())), Self>;
 
         if (self.has_value()) {
-            return opt::option<type>{static_cast<type>(get<T>(static_cast<Self&&>(self).get()))};
+            return opt::option<type>{std::in_place, static_cast<type>(get<T>(static_cast<Self&&>(self).get()))};
         }
         return opt::option<type>{opt::none};
     }
@@ -3525,13 +3525,13 @@ namespace impl {
     constexpr auto variant_get(Variant&& v) noexcept {
         auto* const ptr = std::get_if<I>(&v);
         using type = impl::copy_reference_t<decltype(*ptr), Variant>;
-        return ptr == nullptr ? opt::none : opt::option<type>{static_cast<type>(*ptr)};
+        return ptr == nullptr ? opt::none : opt::option<type>{std::in_place, static_cast<type>(*ptr)};
     }
     template<class T, class Variant>
     constexpr auto variant_get(Variant&& v) noexcept {
         auto* const ptr = std::get_if<T>(&v);
         using type = impl::copy_reference_t<decltype(*ptr), Variant>;
-        return ptr == nullptr ? opt::none : opt::option<type>{static_cast<type>(*ptr)};
+        return ptr == nullptr ? opt::none : opt::option<type>{std::in_place, static_cast<type>(*ptr)};
     }
 }
 
@@ -3619,7 +3619,7 @@ template<class T>
     using type = impl::copy_reference_t<decltype(static_cast<T&&>(container)[index]), T>;
 
     if (index >= container.size()) { return opt::option<type>{opt::none}; }
-    return opt::option<type>{static_cast<type>(static_cast<T&&>(container)[index])};
+    return opt::option<type>{std::in_place, static_cast<type>(static_cast<T&&>(container)[index])};
 }
 
 template<class T>
@@ -3628,7 +3628,7 @@ template<class T>
     if (container.size() == 0) {
         return opt::option<type>{};
     }
-    return opt::option<type>{static_cast<type>(static_cast<T&&>(container).front())};
+    return opt::option<type>{std::in_place, static_cast<type>(static_cast<T&&>(container).front())};
 }
 
 template<class T>
@@ -3637,7 +3637,7 @@ template<class T>
     if (container.size() == 0) {
         return opt::option<type>{};
     }
-    return opt::option<type>{static_cast<type>(static_cast<T&&>(container).back())};
+    return opt::option<type>{std::in_place, static_cast<type>(static_cast<T&&>(container).back())};
 }
 
 namespace impl {
@@ -3655,13 +3655,13 @@ template<class T, class K>
         if (it == associative_container.end()) {
             return opt::option<type>{};
         }
-        return opt::option<type>{it->second};
+        return opt::option<type>{std::in_place, it->second};
     } else {
         using type = decltype(*it);
         if (it == associative_container.end()) {
             return opt::option<type>{};
         }
-        return opt::option<type>{*it};
+        return opt::option<type>{std::in_place, *it};
     }
 }
 
-- 
2.43.0


From bf77afc4fa8fc9ae2c15c63e9a9f9fcf0a9ef042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:34 +0000
Subject: [PATCH 17/32] fix: constructors of reference options from several
 arguments require std::in_place

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 84efb0a..824c700 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2793,7 +2793,7 @@ namespace impl {
         using from_args_ctor = std::enable_if<sizeof(First) == 0>;
 
         template<class T, class InPlaceT, class... Args>
-        using from_in_place_args_ctor = std::enable_if<sizeof...(Args) == 1>;
+        using from_in_place_args_ctor = std::enable_if<std::is_same_v<InPlaceT, std::in_place_t> && sizeof...(Args) == 1>;
 
         template<class T, class U, class QualU>
         using from_option_like_ctor = if_<
-- 
2.43.0


From a2637f6bac5cbc2f4a13afe00318006f7cd6693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:26 +0000
Subject: [PATCH 18/32] fix: construction of reference options from options of
 other references

---
 include/opt/option.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 824c700..08d2131 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2680,6 +2680,8 @@ namespace impl {
     struct always_non_explicit {
         template<bool Condition>
         using is_explicit = std::enable_if<!Condition, int>;
+        template<bool Condition>
+        using constructor_is_explicit = std::enable_if<!Condition, int>;
     };
     template<class T, class U>
     struct check_from_value_ctor {
-- 
2.43.0


From 6fbdb210c73440e9d152691d9d9b849cff7650f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:05 +0000
Subject: [PATCH 19/32] fix: iterator arithmetic and comparison over an empty
 option

---
 include/opt/option.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 08d2131..65274fb 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2485,25 +2485,25 @@ namespace impl {
             return tmp;
         }
         constexpr option_iterator& operator+=(const difference_type offset) noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             ptr += offset;
             return *this;
         }
         [[nodiscard]] constexpr option_iterator operator+(const difference_type offset) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{ptr + offset};
         }
         [[nodiscard]] friend constexpr option_iterator operator+(const difference_type offset, const option_iterator& it) noexcept {
-            OPTION_VERIFY(it.ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(it.ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{it.ptr + offset};
         }
         constexpr option_iterator& operator-=(const difference_type offset) noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             ptr -= offset;
             return *this;
         }
         [[nodiscard]] constexpr option_iterator operator-(const difference_type offset) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{ptr - offset};
         }
         [[nodiscard]] constexpr difference_type operator-(const option_iterator& right) const noexcept {
@@ -2520,13 +2520,11 @@ namespace impl {
             return ptr != right.ptr;
         }
         [[nodiscard]] constexpr bool operator<(const option_iterator& right) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot compare value-initialized option iterator");
-            OPTION_VERIFY(right.ptr != nullptr, "Cannot compare value-initialized option iterator");
+            OPTION_VERIFY((ptr == nullptr) == (right.ptr == nullptr), "Cannot compare value-initialized option iterator");
             return ptr < right.ptr;
         }
         [[nodiscard]] constexpr bool operator>(const option_iterator& right) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot compare value-initialized option iterator");
-            OPTION_VERIFY(right.ptr != nullptr, "Cannot compare value-initialized option iterator");
+            OPTION_VERIFY((ptr == nullptr) == (right.ptr == nullptr), "Cannot compare value-initialized option iterator");
             return ptr > right.ptr;
         }
         [[nodiscard]] constexpr bool operator<=(const option_iterator& right) const noexcept {
-- 
2.43.0


From d0557a0e210a61e5426a857405a8157ed69fd11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:36 +0000
Subject: [PATCH 20/32] fix: accessors which may raise an assertion are not
 declared pure

---
 include/opt/option.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 65274fb..2c0e73a 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -94,7 +94,10 @@
     #define OPTION_LIFETIMEBOUND
 #endif
 
-#if OPTION_HAS_ATTRIBUTE(pure)
+// A call which may raise an assertion isn't pure: the compiler would be allowed to discard it
+#if defined(OPTION_VERIFY) || !defined(NDEBUG)
+    #define OPTION_PURE
+#elif OPTION_HAS_ATTRIBUTE(pure)
     #define OPTION_PURE __attribute__((pure))
 #elif OPTION_MSVC
     #define OPTION_PURE __declspec(noalias)
-- 
2.43.0


From eacd354a361c46814e070cb188b758a58c18eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 21/32] fix: the address of an iterator over an empty option
 can be taken (std::to_address)

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 2c0e73a..2147313 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2461,8 +2461,8 @@ namespace impl {
             OPTION_VERIFY(ptr != nullptr, "Cannot dereference value-initialized option iterator");
             return *ptr;
         }
+        // Also called by `std::to_address`, which is valid for any iterator, including those of an empty option
         [[nodiscard]] constexpr pointer operator->() const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot dereference value-initialized option iterator");
             return ptr;
         }
         constexpr option_iterator& operator++() noexcept {
-- 
2.43.0


From dcbd6e903c5565eee8884a616e32c2db4ed75f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:11 +0000
Subject: [PATCH 22/32] fix: parentheses and commas in the name of an
 enumeration do not disturb the search for unused values

---
 include/opt/option.hpp | 78 +++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 35 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 2147313..c61fa2e 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -877,54 +877,62 @@ namespace impl {
     template<auto... Enumerators>
     constexpr std::uintmax_t max_enum_value_impl2(const std::uintmax_t max) {
         const char* const name = OPTION_CURRENT_FUNCTION();
-#if !OPTION_GCC
+#if OPTION_GCC
+        const char* it = name;
+        while (*it != '{') { it += 1; }
+#else
         const std::size_t size = __builtin_strlen(name);
+        const char* it = __builtin_char_memchr(name, '<', size);
+#endif
+        it += 1;
 
-        const char* const start = __builtin_char_memchr(name, '<', size) + 1;
-    #if OPTION_CLANG && __clang_major__ <= 12
-        if (*start < '0' || *start > '9') { return 0; }
-    #else
-        if (*start != '(') { return 0; }
-    #endif
+        // A value without an enumerator is printed as '(E)123'. The name of 'E' can itself contain
+        // parentheses and commas (template arguments), so skip it as a whole using its size.
+        std::size_t prefix_size = 0;
+#if OPTION_CLANG && __clang_major__ <= 12
+        // '123'
+#else
+        if (*it != '(') { return 0; }
+        for (int depth = 0;;) {
+            const char c = it[prefix_size];
+            prefix_size += 1;
+            if (c == '(') { depth += 1; }
+            else if (c == ')') {
+                depth -= 1;
+                if (depth == 0) { break; }
+            }
+            else if (c == '\0') { return 0; }
+        }
+#endif
+        if (it[prefix_size] < '0' || it[prefix_size] > '9') { return 0; }
 
+        [[maybe_unused]] const char second = it[1];
         std::uintmax_t current = max;
-        for (const char* it = start;;) {
+        while (true) {
             current -= 1;
+            it += prefix_size;
+#if OPTION_GCC
+            while (*it != ',') {
+                if (*it == '}') { return 0; }
+                it += 1;
+            }
+            it += 2; // skip whitespace
+#else
             it = __builtin_char_memchr(it, ',', size - std::size_t(it - name));
-
             if (it == nullptr) { return 0; }
     #if OPTION_CLANG
-        #if __clang_major__ <= 12
-            it += 2;
-            if (*it < '0' || *it > '9') { break; }
-        #else
-            it += 2;
-            if (*it != '(') { break; }
-            it = __builtin_char_memchr(it, ')', size - std::size_t(it - name));
-            if (it[1] == ':') { break; }
-        #endif
+            it += 2; // skip whitespace
     #else
             it += 1;
-            if (*it != '(') { break; }
     #endif
-        }
+#endif
+#if OPTION_CLANG && __clang_major__ <= 12
+            if (*it < '0' || *it > '9') { break; }
 #else
-        std::size_t start = 0;
-        while (name[start] != '{') {
-            start += 1;
-        }
-        if (name[start + 1] != '(') { return 0; }
-
-        std::uintmax_t current = max;
-        for (std::size_t i = start + 1;;) {
-            current -= 1;
-            for (; name[i] != ','; ++i) {
-                if (name[i] == '}') { return 0; }
-            }
-            i += 2; // skip whitespace
-            if (name[i] != '(') { break; }
-        }
+            // Enumerators inside anonymous namespaces can be printed as '(anonymous namespace)::a'
+            if (*it != '(' || it[1] != second) { break; }
 #endif
+        }
         // https://graphics.stanford.edu/%7Eseander/bithacks.html#RoundUpPowerOf2
         // Round up to the next highest power of 2
         current--;
-- 
2.43.0


From 6304bc2386541d9aace7f2a61b9c7c5c67f50b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:17 +0000
Subject: [PATCH 23/32] fix: options of enumerations without a fixed underlying
 type compile with clang 16 and later

---
 include/opt/option.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index c61fa2e..5155dca 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -730,6 +730,17 @@ namespace impl {
     template<class T>
     inline constexpr bool has_sentinel_end_enumerator<T, decltype(T::SENTINEL_END, void())> = true;
 
+#if OPTION_CLANG && __clang_major__ >= 16
+    // Values outside the range of an enumeration without a fixed underlying type can't be used in constant expressions
+    template<class T, class = void>
+    inline constexpr bool can_probe_enumerators = false;
+    template<class T>
+    inline constexpr bool can_probe_enumerators<T, decltype(T{0}, void())> = true;
+#else
+    template<class T>
+    inline constexpr bool can_probe_enumerators = true;
+#endif
+
     template<class T, class = void>
     inline constexpr bool is_custom_tuple_like = false;
     template<class T>
@@ -1163,7 +1174,7 @@ namespace impl {
                 }
             } else
 #if OPTION_CAN_REFLECT_ENUM
-            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>> && !std::is_same_v<std::underlying_type_t<T>, bool>) {
+            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>> && !std::is_same_v<std::underlying_type_t<T>, bool> && can_probe_enumerators<T>) {
                 return st::enumeration;    
             } else
 #endif
-- 
2.43.0


From 9430071a5903cdb1a272b25593cccd2b016187e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:50 +0000
Subject: [PATCH 24/32] fix: OPTION_USE_QUIET_NAN selects the quiet NaN
 sentinels for floating point numbers

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 5155dca..66b924a 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1144,14 +1144,14 @@ namespace impl {
                 if constexpr (sizeof(std::uintptr_t) == 4) {
                     return st::float64_qNaN;
                 } else {
-                    return limits::has_signaling_NaN ? st::float64_sNaN : st::float64_qNaN;
+                    return (limits::has_signaling_NaN && !(OPTION_USE_QUIET_NAN && limits::has_quiet_NaN)) ? st::float64_sNaN : st::float64_qNaN;
                 }
             } else
             if constexpr (sizeof(T) == 4) {
                 if constexpr (sizeof(std::uintptr_t) == 4) {
                     return st::float32_qNaN;
                 } else {
-                    return limits::has_signaling_NaN ? st::float32_sNaN : st::float32_qNaN;
+                    return (limits::has_signaling_NaN && !(OPTION_USE_QUIET_NAN && limits::has_quiet_NaN)) ? st::float32_sNaN : st::float32_qNaN;
                 }
             } else
             return st::none;
-- 
2.43.0


From 66351c9a8b9ed99edee4260347018249a8c7e895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:08 +0000
Subject: [PATCH 25/32] fix: the destructor of option does not throw, whatever
 the destructor of the contained type

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 66b924a..f734456 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2025,7 +2025,7 @@ namespace impl {
         constexpr option_destruct_base(construct_from_invoke_tag, std::false_type, F&& f, Arg&& arg)
             : value(impl::invoke(static_cast<F&&>(f), static_cast<Arg&&>(arg))), has_value_flag(true) {}
 
-        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() {
+        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() noexcept {
             if (has_value_flag) {
                 value.~T();
             }
@@ -2137,7 +2137,7 @@ namespace impl {
             : value(impl::invoke(static_cast<F&&>(f), static_cast<Arg&&>(arg))) {
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
-        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() {
+        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() noexcept {
             if (has_value()) {
                 value.~T();
             }
-- 
2.43.0


From d854e1cd0c8f8d2dd8aba890470a2a563b91e615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:16 +0000
Subject: [PATCH 26/32] fix: options of unions compile when Boost.PFR is
 available

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index f734456..f99a122 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -875,7 +875,7 @@ namespace impl {
 #ifdef OPTION_HAS_PFR
     template<class Struct>
     inline constexpr bool pfr_is_option_reflectable =
-        OPTION_PFR_NAMESPACE is_implicitly_reflectable_v<Struct, option_tag>;
+        !std::is_union_v<Struct> && OPTION_PFR_NAMESPACE is_implicitly_reflectable_v<Struct, option_tag>;
 
     template<class Struct>
     struct pfr_find_max_level;
-- 
2.43.0


From 0ab9ab5d71bdcd0cd7feeb3fc6e35eae07ac64c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:57 +0000
Subject: [PATCH 27/32] fix: constexpr destructor of options whose contained
 type has an implicit destructor (clang)

---
 include/opt/option.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index f99a122..2fdb068 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2025,7 +2025,7 @@ namespace impl {
         constexpr option_destruct_base(construct_from_invoke_tag, std::false_type, F&& f, Arg&& arg)
             : value(impl::invoke(static_cast<F&&>(f), static_cast<Arg&&>(arg))), has_value_flag(true) {}
 
-        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() noexcept {
+        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() {
             if (has_value_flag) {
                 value.~T();
             }
@@ -2137,7 +2137,7 @@ namespace impl {
             : value(impl::invoke(static_cast<F&&>(f), static_cast<Arg&&>(arg))) {
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
-        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() noexcept {
+        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() {
             if (has_value()) {
                 value.~T();
             }
@@ -2893,6 +2893,8 @@ public:
 
     option(option&&) = default;
 
+    ~option() noexcept = default;
+
     template<class U = std::remove_cv_t<T>, typename checks::template from_value_ctor<T, U>::template is_explicit<true>::type = 0>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr explicit option(U&& val)
-- 
2.43.0


From 391daf2805aa3e84e4b5b63d5472811d65bf2680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:55 +0000
Subject: [PATCH 28/32] fix: in C++20 options of aggregates accept the
 arguments of direct-list-initialization (brace elision)

---
 include/opt/option.hpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 2fdb068..16260df 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -651,6 +651,18 @@ namespace impl {
 
 #if OPTION_IS_CXX20
     using std::construct_at;
+
+    // `std::construct_at` parenthesizes the arguments, which does not permit brace elision
+    template<class T, class... Args, std::enable_if_t<std::is_aggregate_v<T> && !std::is_constructible_v<T, Args...>, int> = 0>
+    constexpr void construct_at(T* ptr, Args&&... args) {
+        if constexpr (std::is_move_constructible_v<T>) {
+            if (std::is_constant_evaluated()) {
+                std::construct_at(ptr, T{static_cast<Args&&>(args)...});
+                return;
+            }
+        }
+        ::new(static_cast<void*>(ptr)) T{static_cast<Args&&>(args)...};
+    }
 #else
     template<class T, class... Args>
     constexpr void construct_at(T* ptr, Args&&... args) {
@@ -1870,25 +1882,21 @@ namespace impl {
     template<class Tuple>
     using tuple_like_of_options_t = typename tuple_like_of_options<Tuple>::type;
 
-#if !OPTION_IS_CXX20
-    template<bool IsAggregate, bool IsConstructible, class, class T, class... Args>
+    // aggregates are always list-initialized, see `construct_at`
+    template<bool IsAggregate, class, class T, class... Args>
     struct is_initializable_from_impl
-        : std::bool_constant<IsConstructible> {};
+        : std::bool_constant<!IsAggregate && std::is_constructible_v<T, Args...>> {};
 
     template<class T, class... Args>
-    struct is_initializable_from_impl<true, false, decltype(T{std::declval<Args>()...}, void()), T, Args...>
+    struct is_initializable_from_impl<true, decltype(T{std::declval<Args>()...}, void()), T, Args...>
         : std::true_type {};
 
-    #if !OPTION_MSVC
-    template<class T, class... Args>
-    using is_initializable_from = is_initializable_from_impl<std::is_aggregate_v<T>, std::is_constructible_v<T, Args...>, void, T, Args...>;
-    #else // ^^^ !OPTION_MSVC / vvv OPTION_MSVC
+#if !OPTION_MSVC
     template<class T, class... Args>
-    using is_initializable_from = is_initializable_from_impl<__is_aggregate(T), __is_constructible(T, Args...), void, T, Args...>;
-    #endif
-#else // ^^^ !OPTION_IS_CXX20 / vvv OPTION_IS_CXX20
+    using is_initializable_from = is_initializable_from_impl<std::is_aggregate_v<T>, void, T, Args...>;
+#else // ^^^ !OPTION_MSVC / vvv OPTION_MSVC
     template<class T, class... Args>
-    using is_initializable_from = std::is_constructible<T, Args...>;
+    using is_initializable_from = is_initializable_from_impl<__is_aggregate(T), void, T, Args...>;
 #endif
     template<class T, class... Args>
     inline constexpr bool is_initializable_from_v = is_initializable_from<T, Args...>::value;
-- 
2.43.0


From 27d27b494225aa90bb9a180f17a5eff92665f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:33 +0000
Subject: [PATCH 29/32] fix: swap of options with different contained types
 compiles

---
 include/opt/option.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 16260df..269bb82 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3316,20 +3316,21 @@ public:
     template<class U>
     constexpr void swap(option<U>& other) noexcept(impl::option::nothrow_swap<T, U>) {
         using std::swap;
+        auto& other_base = static_cast<typename option<U>::base&>(other);
         if (!has_value() && !other.has_value()) {
             return;
         }
         if (has_value() && other.has_value()) {
-            swap(base::value, other.base::value);
+            swap(base::value, other_base.value);
             return;
         }
         if (has_value()) {
-            other.base::construct(static_cast<T&&>(get()));
+            other_base.construct(static_cast<T&&>(get()));
             base::reset();
             return;
         }
         base::construct(static_cast<U&&>(other.get()));
-        other.base::reset();
+        other_base.reset();
     }
 };
 
-- 
2.43.0


From 01189fb5e43dbfa51d4be505bd62917424ce7db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:00 +0000
Subject: [PATCH 30/32] fix: type_wrapper (sentinel, member, enforce)
 list-initializes aggregates only

---
 include/opt/option.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 269bb82..09fe37b 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3977,9 +3977,13 @@ namespace impl {
         constexpr type_wrapper() noexcept(std::is_nothrow_default_constructible_v<U>)
             : m{} {}
 
-        template<class... Args, std::enable_if_t<(sizeof...(Args) > 0) && impl::is_initializable_from_v<T, Args...>, int> = 0>
+        // Only aggregates are list-initialized, see `construct_at`
+        template<class... Args, std::enable_if_t<(sizeof...(Args) > 0) && std::is_aggregate_v<T> && impl::is_initializable_from_v<T, Args...>, int> = 0>
         constexpr explicit type_wrapper(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>)
             : m{static_cast<Args&&>(args)...} {}
+        template<class... Args, std::enable_if_t<(sizeof...(Args) > 0) && !std::is_aggregate_v<T> && impl::is_initializable_from_v<T, Args...>, int> = 0>
+        constexpr explicit type_wrapper(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>)
+            : m(static_cast<Args&&>(args)...) {}
 
         type_wrapper(const type_wrapper&) = default;
         type_wrapper(type_wrapper&&) = default;
@@ -3987,9 +3991,9 @@ namespace impl {
         type_wrapper& operator=(type_wrapper&&) = default;
 
         constexpr type_wrapper(const T& x) noexcept(std::is_nothrow_copy_constructible_v<T>)
-            : m{x} {}
+            : m(x) {}
         constexpr type_wrapper(T&& x) noexcept(std::is_nothrow_move_constructible_v<T>)
-            : m{static_cast<T&&>(x)} {}
+            : m(static_cast<T&&>(x)) {}
 
         template<class U = T, std::enable_if_t<std::is_assignable_v<T&, U>, int> = 0>
         constexpr type_wrapper& operator=(U&& x) {
-- 
2.43.0


From 8bdcf4c08d342fffaf7f8bdd24d42cbd04261998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:04 +0000
Subject: [PATCH 31/32] fix: options of std::unique_ptr<T[]> compile

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 09fe37b..e70d2cb 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1473,7 +1473,7 @@ namespace impl {
         }
         static void set_level(std::unique_ptr<Elem, std::default_delete<Elem>>* const value, const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-            impl::construct_at(value, reinterpret_cast<Elem*>(sentinel_ptr + level));
+            impl::construct_at(value, reinterpret_cast<std::remove_extent_t<Elem>*>(sentinel_ptr + level));
         }
     };
 
-- 
2.43.0


From fb91b7c3e93f9ed6f15ad95d991a452425ed2c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:41 +0000
Subject: [PATCH 32/32] fix: in C++20 a throwing conversion leaves the value of
 an option of a scalar assigned to

---
 include/opt/option.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index e70d2cb..28b7146 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -701,7 +701,8 @@ namespace impl {
         constexpr bool by_assignment = !OPTION_IS_CXX20
             && impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>;
 
-        if constexpr (by_assignment || std::is_nothrow_constructible_v<T, Args&&...>) {
+        // A scalar can't be partially constructed: only the conversion of the argument may throw
+        if constexpr (by_assignment || std::is_scalar_v<T> || std::is_nothrow_constructible_v<T, Args&&...>) {
             impl::construct_at(ptr, static_cast<Args&&>(args)...);
         } else {
             restore_level_guard<T, Traits> guard{ptr};
-- 
2.43.0

