From 2d126b64b65b38056afc15028bf1ef6d9075a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:18:16 +0000
Subject: [PATCH 01/50] fix: keep the unused bits of a bitset's last storage
 element clear

Setting, flipping, complementing, shifting left or constructing from an
integer left bits above the size set. They came back through a right
shift, lowest_unset and transform_reduce.
---
 include/stdx/bitset.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index a48b7d9..f4bebfb 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -87,6 +87,11 @@ class bitset {
     constexpr auto highbits() const -> elem_t {
         return storage.back() & lastmask;
     }
+    constexpr auto clear_padding() -> void {
+        if constexpr (N > 0) {
+            storage.back() &= lastmask;
+        }
+    }
 
     [[nodiscard]] constexpr static auto indices(std::size_t pos) {
         struct locator {
@@ -194,6 +199,7 @@ class bitset {
                 value >>= storage_elem_size;
             }
         }
+        clear_padding();
     }
 
     template <typename... Bs>
@@ -323,6 +329,7 @@ class bitset {
         for (auto &elem : storage) {
             elem = allbits;
         }
+        clear_padding();
         return *this;
     }
 
@@ -371,6 +378,7 @@ class bitset {
         for (auto &elem : storage) {
             elem ^= allbits;
         }
+        clear_padding();
         return *this;
     }
 
@@ -417,6 +425,7 @@ class bitset {
         for (auto i = std::size_t{}; i < storage_size; ++i) {
             result.storage[i] = static_cast<elem_t>(~storage[i]);
         }
+        result.clear_padding();
         return result;
     }
 
@@ -463,6 +472,7 @@ class bitset {
             while (dst > std::size_t{}) {
                 storage[--dst] = 0;
             }
+            clear_padding();
         }
         return *this;
     }
-- 
2.43.0


From 3d4d8d5f5e9ee1f3b8e4598471f51bc5264ef7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:18:16 +0000
Subject: [PATCH 02/50] fix: shifting a bitset by its size or more empties it

A shift distance of at least the storage width indexed outside the
storage.
---
 include/stdx/bitset.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index f4bebfb..d035fc6 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -449,6 +449,9 @@ class bitset {
     }
 
     constexpr auto operator<<=(std::size_t pos) LIFETIMEBOUND->bitset & {
+        if (pos >= N) {
+            return reset();
+        }
         if constexpr (N != 0) {
             auto dst = storage_size - 1;
             auto const start = dst - (pos / storage_elem_size);
@@ -478,6 +481,9 @@ class bitset {
     }
 
     constexpr auto operator>>=(std::size_t pos) LIFETIMEBOUND->bitset & {
+        if (pos >= N) {
+            return reset();
+        }
         if constexpr (N != 0) {
             auto dst = std::size_t{};
             auto const start = pos / storage_elem_size;
-- 
2.43.0


From fc839706f933ce634cc514074eaf7fc5ccf8ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:18:16 +0000
Subject: [PATCH 03/50] fix: visiting the bits of an empty bitset reads no
 storage

---
 include/stdx/bitset.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index d035fc6..552e348 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -152,14 +152,16 @@ class bitset {
 
     template <detail::bit_spec Spec, typename F>
     constexpr auto for_each(F &&f) const -> F {
-        std::size_t idx = 0;
-        for (auto i = std::size_t{}; i < storage_size - 1; ++i) {
-            Spec::template fn<bit, iter_arg_t,
-                              std::numeric_limits<elem_t>::max()>(storage[i],
-                                                                  idx, f);
-            idx += std::numeric_limits<elem_t>::digits;
+        if constexpr (N > 0) {
+            std::size_t idx = 0;
+            for (auto i = std::size_t{}; i < storage_size - 1; ++i) {
+                Spec::template fn<bit, iter_arg_t,
+                                  std::numeric_limits<elem_t>::max()>(
+                    storage[i], idx, f);
+                idx += std::numeric_limits<elem_t>::digits;
+            }
+            Spec::template fn<bit, iter_arg_t, lastmask>(highbits(), idx, f);
         }
-        Spec::template fn<bit, iter_arg_t, lastmask>(highbits(), idx, f);
         return std::forward<F>(f);
     }
 
-- 
2.43.0


From da01e977c6165a1e07488b05a16b3cd6eed087f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:18:16 +0000
Subject: [PATCH 04/50] fix: convert a multi-element bitset to an enumeration
 type

The intermediate result was cast to the enumeration and did not convert
back to its underlying type. The initial narrowing is now explicit too.
---
 include/stdx/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 552e348..c1c1919 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -248,9 +248,9 @@ class bitset {
         if constexpr (std::is_same_v<elem_t, U>) {
             return static_cast<T>(storage[0] & lastmask);
         } else {
-            U result{highbits()};
+            auto result = static_cast<U>(highbits());
             for (auto i = storage_size - 2u; i < storage_size; --i) {
-                result = static_cast<T>(result << storage_elem_size);
+                result = static_cast<U>(result << storage_elem_size);
                 result |= storage[i];
             }
             return static_cast<T>(result);
-- 
2.43.0


From 87066e49bc6e2df12a70b16ea945f46725195636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:18:16 +0000
Subject: [PATCH 05/50] fix: address bits of a type_bitset by the deduplicated
 type list

With a repeated type, set, reset and flip used an index into the list
as written and changed the bit of another type.
---
 include/stdx/bitset.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index c1c1919..b711bfa 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -625,24 +625,24 @@ template <typename... Ts> class type_bitset {
 
     template <typename... Us>
     constexpr auto set(bool value = true) LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.set();
         } else {
-            (bs.set(detail::index_of<Us, type_list<Ts...>>, value), ...);
+            (bs.set(detail::index_of<Us, list_t>, value), ...);
         }
         return *this;
     }
 
     template <typename... Us>
     constexpr auto reset() LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.reset();
         } else {
-            (bs.reset(detail::index_of<Us, type_list<Ts...>>), ...);
+            (bs.reset(detail::index_of<Us, list_t>), ...);
         }
         return *this;
     }
@@ -654,12 +654,12 @@ template <typename... Ts> class type_bitset {
 
     template <typename... Us>
     constexpr auto flip() LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.flip();
         } else {
-            (bs.flip(detail::index_of<Us, type_list<Ts...>>), ...);
+            (bs.flip(detail::index_of<Us, list_t>), ...);
         }
         return *this;
     }
-- 
2.43.0


From a5de82ea634ef35ee4292165be87582ee231b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:18:16 +0000
Subject: [PATCH 06/50] fix: terminate an intrusive list after inserting at its
 end

With the unchecked policy a stale next pointer of the inserted node
stayed in place, and the list could become a cycle.
---
 include/stdx/intrusive_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdx/intrusive_list.hpp b/include/stdx/intrusive_list.hpp
index 2f8ccd4..8cff599 100644
--- a/include/stdx/intrusive_list.hpp
+++ b/include/stdx/intrusive_list.hpp
@@ -91,6 +91,7 @@ class intrusive_list {
             n->prev = p->prev;
             p->prev = n;
         } else {
+            n->next = nullptr;
             n->prev = tail;
             tail = n;
         }
-- 
2.43.0


From c05b6637a3d3497b3ef09544d0dd26e06ab1254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:18:16 +0000
Subject: [PATCH 07/50] fix: multiply 16-bit rollover values without signed
 overflow

Both operands were promoted to int, whose product can overflow.
---
 include/stdx/rollover.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdx/rollover.hpp b/include/stdx/rollover.hpp
index a791df8..5a9ae85 100644
--- a/include/stdx/rollover.hpp
+++ b/include/stdx/rollover.hpp
@@ -52,7 +52,9 @@ template <typename T> struct rollover_t {
         return *this;
     }
     constexpr auto operator*=(rollover_t other) -> rollover_t & {
-        value *= other.value;
+        // multiply as at least unsigned int: promotion of a narrow type to int
+        // could overflow
+        value = static_cast<underlying_t>(1u * value * other.value);
         return *this;
     }
     constexpr auto operator/=(rollover_t other) -> rollover_t & {
-- 
2.43.0


From bf27bb25c6f4fd9a555df2dd037c630b9b637337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:18:16 +0000
Subject: [PATCH 08/50] fix: round size conversions up exactly

Converting to a smaller element size that does not divide the larger one
always added one element. The conversion is also usable on constants.
---
 include/stdx/utility.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 19636af..4a3b480 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -141,8 +141,6 @@ template <typename T, typename U>
 [[nodiscard]] constexpr auto size_conversion(std::size_t sz) -> std::size_t {
     if constexpr (sizeof(T) == sizeof(U)) {
         return sz;
-    } else if constexpr (sizeof(T) > sizeof(U)) {
-        return (sz * sizeof(T) / sizeof(U)) + (sizeof(T) % sizeof(U) > 0);
     } else {
         return ((sz * sizeof(T)) + sizeof(U) - 1) / sizeof(U);
     }
@@ -151,7 +149,7 @@ template <typename T, typename U>
 
 template <typename T> struct sized {
     template <typename U = std::uint8_t>
-    [[nodiscard]] constexpr auto in() -> std::size_t {
+    [[nodiscard]] constexpr auto in() const -> std::size_t {
         return detail::size_conversion<T, U>(sz);
     }
 
-- 
2.43.0


From 23ae77a4d4360f676f3d63393cd51f0a823bb8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:18:35 +0000
Subject: [PATCH 09/50] fix: saturate_cast between types of different width and
 signedness

A wider unsigned source was clamped against the target's minimum
converted to unsigned, and a negative value cast to a wider unsigned
target wrapped instead of saturating at zero.
---
 include/stdx/numeric.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/stdx/numeric.hpp b/include/stdx/numeric.hpp
index 2706030..b888342 100644
--- a/include/stdx/numeric.hpp
+++ b/include/stdx/numeric.hpp
@@ -39,7 +39,9 @@ constexpr auto saturate_cast(From from) -> To {
     constexpr auto to_max = std::numeric_limits<To>::max();
 
     if constexpr (sizeof(From) > sizeof(To)) {
-        auto const clamped = std::clamp<From>(from, to_min, to_max);
+        constexpr auto from_min =
+            std::is_unsigned_v<From> ? From{} : static_cast<From>(to_min);
+        auto const clamped = std::clamp<From>(from, from_min, to_max);
         return static_cast<To>(clamped);
     }
 
@@ -49,11 +51,11 @@ constexpr auto saturate_cast(From from) -> To {
                 return to_max;
             }
         }
+    }
 
-        if constexpr (std::is_signed_v<From> and std::is_unsigned_v<To>) {
-            if (from < 0) {
-                return static_cast<To>(0);
-            }
+    if constexpr (std::is_signed_v<From> and std::is_unsigned_v<To>) {
+        if (from < 0) {
+            return static_cast<To>(0);
         }
     }
 
-- 
2.43.0


From c831b335dd1bc4f2346b1b4a2e7589cb0af2507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:18:54 +0000
Subject: [PATCH 10/50] fix: construct cx_vector reverse iterators explicitly

The conversion from an iterator is explicit, so rbegin, rend and their
const forms did not compile when used.
---
 include/stdx/cx_vector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdx/cx_vector.hpp b/include/stdx/cx_vector.hpp
index ef1bf2d..0d8814e 100644
--- a/include/stdx/cx_vector.hpp
+++ b/include/stdx/cx_vector.hpp
@@ -58,27 +58,27 @@ template <typename T, std::size_t N> class cx_vector {
     }
 
     [[nodiscard]] constexpr auto rbegin() LIFETIMEBOUND -> reverse_iterator {
-        return end();
+        return reverse_iterator{end()};
     }
     [[nodiscard]] constexpr auto rbegin() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return end();
+        return const_reverse_iterator{end()};
     }
     [[nodiscard]] constexpr auto crbegin() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return cend();
+        return const_reverse_iterator{cend()};
     }
 
     [[nodiscard]] constexpr auto rend() LIFETIMEBOUND -> reverse_iterator {
-        return begin();
+        return reverse_iterator{begin()};
     }
     [[nodiscard]] constexpr auto rend() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return begin();
+        return const_reverse_iterator{begin()};
     }
     [[nodiscard]] constexpr auto crend() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return cbegin();
+        return const_reverse_iterator{cbegin()};
     }
 
     [[nodiscard]] constexpr auto front() LIFETIMEBOUND -> reference {
-- 
2.43.0


From da0122695bbb0103ca5ecca99bc6c786cf1c3da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:18:54 +0000
Subject: [PATCH 11/50] fix: allow get on a cx_vector in constant expressions

---
 include/stdx/cx_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/cx_vector.hpp b/include/stdx/cx_vector.hpp
index 0d8814e..b01d6c3 100644
--- a/include/stdx/cx_vector.hpp
+++ b/include/stdx/cx_vector.hpp
@@ -165,12 +165,12 @@ template <typename T, typename... Ts>
 cx_vector(T, Ts...) -> cx_vector<T, 1 + sizeof...(Ts)>;
 
 template <std::size_t I, typename T, std::size_t N>
-auto get(cx_vector<T, N> &v LIFETIMEBOUND) -> decltype(auto) {
+constexpr auto get(cx_vector<T, N> &v LIFETIMEBOUND) -> decltype(auto) {
     return v.template get<I>();
 }
 
 template <std::size_t I, typename T, std::size_t N>
-auto get(cx_vector<T, N> const &v LIFETIMEBOUND) -> decltype(auto) {
+constexpr auto get(cx_vector<T, N> const &v LIFETIMEBOUND) -> decltype(auto) {
     return v.template get<I>();
 }
 
-- 
2.43.0


From bdcea5043ab28db5e3c6a659480e23f5a33ef2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:18:54 +0000
Subject: [PATCH 12/50] fix: drop repeated keys when constructing a cx_set or
 cx_map

A repeated key was stored twice, so the size was wrong and erasing the
key left a copy behind. The first occurrence is kept.
---
 include/stdx/cx_map.hpp | 12 +++++++++++-
 include/stdx/cx_set.hpp | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/stdx/cx_map.hpp b/include/stdx/cx_map.hpp
index 2ffbbf4..913b956 100644
--- a/include/stdx/cx_map.hpp
+++ b/include/stdx/cx_map.hpp
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <iterator>
 #include <type_traits>
+#include <utility>
 
 namespace stdx {
 inline namespace v1 {
@@ -40,7 +41,16 @@ template <typename Key, typename Value, std::size_t N> class cx_map {
     template <same_as<value_type>... Vs>
         requires(sizeof...(Vs) <= N)
     constexpr explicit cx_map(Vs const &...vs)
-        : storage{vs...}, current_size{sizeof...(Vs)} {}
+        : storage{vs...} {
+        for (auto i = size_type{}; i < sizeof...(Vs); ++i) {
+            if (not contains(storage[i].key)) {
+                if (i != current_size) {
+                    storage[current_size] = std::move(storage[i]);
+                }
+                ++current_size;
+            }
+        }
+    }
 
     [[nodiscard]] constexpr auto begin() LIFETIMEBOUND -> iterator {
         return std::data(storage);
diff --git a/include/stdx/cx_set.hpp b/include/stdx/cx_set.hpp
index 914d86f..2c21fa7 100644
--- a/include/stdx/cx_set.hpp
+++ b/include/stdx/cx_set.hpp
@@ -6,6 +6,7 @@
 #include <stdx/iterator.hpp>
 
 #include <cstddef>
+#include <utility>
 
 namespace stdx {
 inline namespace v1 {
@@ -26,7 +27,16 @@ template <typename Key, std::size_t N> class cx_set {
     template <convertible_to<key_type>... Ts>
         requires(sizeof...(Ts) <= N)
     constexpr explicit cx_set(Ts const &...ts)
-        : storage{static_cast<key_type>(ts)...}, current_size{sizeof...(Ts)} {}
+        : storage{static_cast<key_type>(ts)...} {
+        for (auto i = size_type{}; i < sizeof...(Ts); ++i) {
+            if (not contains(storage[i])) {
+                if (i != current_size) {
+                    storage[current_size] = std::move(storage[i]);
+                }
+                ++current_size;
+            }
+        }
+    }
 
     [[nodiscard]] constexpr auto begin() LIFETIMEBOUND -> iterator {
         return std::data(storage);
-- 
2.43.0


From 5c4f79ffe2bd7364c169b114c18e93d0ea86c8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:18:54 +0000
Subject: [PATCH 13/50] fix: erasing an absent value keeps a multimap key
 without values

The key was removed although the call reported that nothing was.
---
 include/stdx/cx_multimap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/cx_multimap.hpp b/include/stdx/cx_multimap.hpp
index 86ba742..5559bab 100644
--- a/include/stdx/cx_multimap.hpp
+++ b/include/stdx/cx_multimap.hpp
@@ -74,7 +74,7 @@ class cx_multimap {
         if (storage.contains(k)) {
             auto &s = storage.get(k);
             auto const r = s.erase(v);
-            if (s.empty()) {
+            if (r != 0 and s.empty()) {
                 storage.erase(k);
             }
             return r;
-- 
2.43.0


From 9b7b40b5a1305ef2169cdc5119fa65d676a1e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:19:18 +0000
Subject: [PATCH 14/50] fix: wrap the results of signed atomic addition and
 subtraction

The atomic operation wraps, but the value returned by the compound and
prefix forms was computed with overflowing signed arithmetic.
---
 include/stdx/atomic.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/stdx/atomic.hpp b/include/stdx/atomic.hpp
index c1a6d9f..9016fb4 100644
--- a/include/stdx/atomic.hpp
+++ b/include/stdx/atomic.hpp
@@ -39,6 +39,15 @@ template <typename T> class atomic {
 
     alignas(alignment) elem_t value;
 
+    // signed integral arithmetic wraps, like the atomic operation itself
+    template <typename V> constexpr static auto wrap(V v) {
+        if constexpr (std::is_integral_v<V> and std::is_signed_v<V>) {
+            return static_cast<std::make_unsigned_t<V>>(v);
+        } else {
+            return v;
+        }
+    }
+
   public:
     using value_type = T;
 
@@ -80,12 +89,16 @@ template <typename T> class atomic {
         return ::atomic::fetch_sub(value, static_cast<elem_t>(t), mo);
     }
 
-    auto operator+=(T t) -> T { return fetch_add(t) + t; }
-    auto operator-=(T t) -> T { return fetch_sub(t) - t; }
+    auto operator+=(T t) -> T {
+        return static_cast<T>(wrap(fetch_add(t)) + wrap(t));
+    }
+    auto operator-=(T t) -> T {
+        return static_cast<T>(wrap(fetch_sub(t)) - wrap(t));
+    }
 
     auto operator++() -> T {
         static_assert(requires(T t) { ++t; }, "T must support operator++()");
-        return ::atomic::fetch_add(value, 1) + 1;
+        return static_cast<T>(wrap(::atomic::fetch_add(value, 1)) + 1);
     }
     [[nodiscard]] auto operator++(int) -> T {
         static_assert(requires(T t) { t++; }, "T must support operator++(int)");
@@ -93,7 +106,7 @@ template <typename T> class atomic {
     }
     auto operator--() -> T {
         static_assert(requires(T t) { --t; }, "T must support operator--()");
-        return ::atomic::fetch_sub(value, 1) - 1;
+        return static_cast<T>(wrap(::atomic::fetch_sub(value, 1)) - 1);
     }
     [[nodiscard]] auto operator--(int) -> T {
         static_assert(requires(T t) { t--; }, "T must support operator--(int)");
-- 
2.43.0


From 0db6e422a92535ee078966acecf9c0b2d4d3f1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:19 +0000
Subject: [PATCH 15/50] fix: let STDX_PANIC pass on arguments that name local
 variables

The macro wraps the call in a lambda that captured nothing, so any
argument naming a local variable did not compile.
---
 include/stdx/panic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/panic.hpp b/include/stdx/panic.hpp
index e7db393..00e65fd 100644
--- a/include/stdx/panic.hpp
+++ b/include/stdx/panic.hpp
@@ -30,7 +30,7 @@ auto panic(Args &&...args) -> void {
 // NOLINTBEGIN(cppcoreguidelines-macro-usage)
 
 #define STDX_PANIC(MSG, ...)                                                   \
-    []() -> void {                                                             \
+    [&]() -> void {                                                            \
         using stdx::ct_string_literals::operator""_cts;                        \
         stdx::panic<MSG##_cts>(__VA_ARGS__);                                   \
     }()
-- 
2.43.0


From 5f30f64ef64619ebc26c8a5c2db99ad90cc41f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:07:42 +0000
Subject: [PATCH 16/50] fix: rotate by any count in the fallback rotl and rotr

---
 include/stdx/bit.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdx/bit.hpp b/include/stdx/bit.hpp
index 5587bfa..be67dd0 100644
--- a/include/stdx/bit.hpp
+++ b/include/stdx/bit.hpp
@@ -170,6 +170,7 @@ template <typename T>
 template <typename T>
 [[nodiscard]] constexpr auto rotl(T x, int s) noexcept
     -> std::enable_if_t<std::is_unsigned_v<T>, T> {
+    s %= std::numeric_limits<T>::digits;
     if (s == 0) {
         return x;
     }
@@ -182,6 +183,7 @@ template <typename T>
 template <typename T>
 [[nodiscard]] constexpr auto rotr(T x, int s) noexcept
     -> std::enable_if_t<std::is_unsigned_v<T>, T> {
+    s %= std::numeric_limits<T>::digits;
     if (s == 0) {
         return x;
     }
-- 
2.43.0


From f7a0f4544067c534ecbb993907a9384778edbd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:07:42 +0000
Subject: [PATCH 17/50] fix: compute fallback bit_ceil and bit_floor at the
 width of the argument

---
 include/stdx/bit.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/bit.hpp b/include/stdx/bit.hpp
index be67dd0..e255b87 100644
--- a/include/stdx/bit.hpp
+++ b/include/stdx/bit.hpp
@@ -223,7 +223,7 @@ template <typename T>
     if (x <= 1U) {
         return 1U;
     }
-    return T(1U << bit_width(x - 1U));
+    return static_cast<T>(T{1} << bit_width(static_cast<T>(x - 1U)));
 }
 
 template <typename T>
@@ -232,7 +232,7 @@ template <typename T>
     if (x == 0) {
         return x;
     }
-    return T(1U << (bit_width(x) - 1));
+    return static_cast<T>(T{1} << (bit_width(x) - 1));
 }
 #else
 using std::bit_ceil;
-- 
2.43.0


From b899bf15fc739bab0361569cfb2e87474853dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:18:12 +0000
Subject: [PATCH 18/50] fix: always use stdx::for_each_n in for_each_butlastn

An unqualified call with iterators associated with namespace std finds
std::for_each_n, which returns only an iterator.
---
 include/stdx/algorithm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/algorithm.hpp b/include/stdx/algorithm.hpp
index d2ccb99..926783a 100644
--- a/include/stdx/algorithm.hpp
+++ b/include/stdx/algorithm.hpp
@@ -93,7 +93,8 @@ constexpr auto for_each_butlastn(std::random_access_iterator_tag, RandIt first,
                                  RandIt last, N n, Operation op,
                                  RandItN... first_n) {
     auto const sz = std::distance(first, last);
-    return for_each_n(first, sz - static_cast<decltype(sz)>(n), op, first_n...);
+    return stdx::for_each_n(first, sz - static_cast<decltype(sz)>(n), op,
+                            first_n...);
 }
 } // namespace detail
 
-- 
2.43.0


From 12d3a7042c39dc24ecfdd5510191dc9036e186af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:22:05 +0000
Subject: [PATCH 19/50] fix: accept lvalue and move-only functions in tuple
 for_each

The function was returned through a lambda by value, so an lvalue could
not be returned as a reference and a move-only function was copied.
---
 include/stdx/tuple.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index dbb76c2..ad1a341 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -515,10 +515,9 @@ constexpr auto transform(Op &&op, T &&t) {
 
 template <typename Op, tuplelike T>
 constexpr auto for_each(Op &&op, T &&t) -> Op {
-    return std::forward<T>(t).apply([&]<typename... Ts>(Ts &&...ts) {
-        (op(std::forward<Ts>(ts)), ...);
-        return op;
-    });
+    std::forward<T>(t).apply(
+        [&]<typename... Ts>(Ts &&...ts) { (op(std::forward<Ts>(ts)), ...); });
+    return op;
 }
 
 template <typename... Ts>
-- 
2.43.0


From e585d9cbbf5191cd858f35b9349b33c24d854ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:22:05 +0000
Subject: [PATCH 20/50] fix: do not move one element into several cartesian
 products

cartesian_product_copy moved an rvalue element once for every combination
it belongs to, so all but one combination held a moved-from value. Also
qualify make_tuple, which is ambiguous for elements from namespace std.
---
 include/stdx/tuple_algorithms.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index be86d1f..56ef75d 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -442,8 +442,12 @@ template <tuplelike... Ts> constexpr auto cartesian_product_copy(Ts &&...ts) {
                                                         Elems &&...elems) {
                 [[maybe_unused]] auto const prepend = [&]<typename E>(E &&e) {
                     return c.apply([&](auto... subs) {
-                        return make_tuple(
-                            tuple_cat(make_tuple(std::forward<E>(e)), subs)...);
+                        using elem_t = stdx::conditional_t<
+                            sizeof...(subs) == 1, E &&,
+                            std::remove_reference_t<E> const &>;
+                        return stdx::make_tuple(tuple_cat(
+                            stdx::make_tuple(static_cast<elem_t>(e)),
+                            subs)...);
                     });
                 };
                 return tuple_cat(prepend(std::forward<Elems>(elems))...);
-- 
2.43.0


From 51fa38801ff8d728f5611038df6cd6bae833febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:22:05 +0000
Subject: [PATCH 21/50] fix: qualify forward_as_tuple in cartesian_product

The call is ambiguous for elements from namespace std.
---
 include/stdx/tuple_algorithms.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index 56ef75d..d4ea447 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -467,8 +467,9 @@ template <tuplelike... Ts> constexpr auto cartesian_product(Ts &&...ts) {
                 [&]<typename... Elems>(Elems &&...elems) {
                     auto const prepend = [&]<typename E>(E &&e) {
                         return c.apply([&](auto... subs) {
-                            return make_tuple(tuple_cat(
-                                forward_as_tuple(std::forward<E>(e)), subs)...);
+                            return stdx::make_tuple(tuple_cat(
+                                stdx::forward_as_tuple(std::forward<E>(e)),
+                                subs)...);
                         });
                     };
                     return tuple_cat(prepend(std::forward<Elems>(elems))...);
-- 
2.43.0


From 5e9592020273e0ebd72dc834d45a492a00c31241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:22:05 +0000
Subject: [PATCH 22/50] fix: decay the new element in tuple_cons and tuple_snoc

They are documented to decay it as make_tuple does; an array or function
argument did not compile.
---
 include/stdx/tuple_algorithms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index d4ea447..4202d99 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -103,7 +103,7 @@ template <typename T, has_tuple_protocol Tup>
     return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         using std::get;
         using new_tuple_t =
-            boost::mp11::mp_push_front<tuple_t, std::remove_cvref_t<T>>;
+            boost::mp11::mp_push_front<tuple_t, std::decay_t<T>>;
         return new_tuple_t{std::forward<T>(t),
                            get<Is>(std::forward<Tup>(tup))...};
     }(std::make_index_sequence<stdx::tuple_size_v<tuple_t>>{});
@@ -115,7 +115,7 @@ template <has_tuple_protocol Tup, typename T>
     return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         using std::get;
         using new_tuple_t =
-            boost::mp11::mp_push_back<tuple_t, std::remove_cvref_t<T>>;
+            boost::mp11::mp_push_back<tuple_t, std::decay_t<T>>;
         return new_tuple_t{get<Is>(std::forward<Tup>(tup))...,
                            std::forward<T>(t)};
     }(std::make_index_sequence<stdx::tuple_size_v<tuple_t>>{});
-- 
2.43.0


From 58656cd39f96ee028ab51caf685ffe3ea909563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:22:05 +0000
Subject: [PATCH 23/50] fix: transform to an indexed tuple in element order

The calls were function arguments, whose order of evaluation is
unspecified.
---
 include/stdx/tuple.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index ad1a341..bd93425 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -508,7 +508,10 @@ constexpr auto transform(Op &&op, T &&t) {
         });
     } else {
         return std::forward<T>(t).apply([&]<typename... Ts>(Ts &&...ts) {
-            return stdx::make_indexed_tuple<Fs...>(op(std::forward<Ts>(ts))...);
+            return stdx::indexed_tuple<
+                detail::index_function_list<Fs...>,
+                std::remove_cvref_t<decltype(op(std::forward<Ts>(ts)))>...>{
+                op(std::forward<Ts>(ts))...};
         });
     }
 }
-- 
2.43.0


From 865fd6e3f351227fb97512c2a254a127b1ed0a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:22:05 +0000
Subject: [PATCH 24/50] fix: zip-transform to an indexed tuple in element order

The calls were function arguments, whose order of evaluation is
unspecified.
---
 include/stdx/tuple_algorithms.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index 4202d99..048aa5d 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -192,9 +192,13 @@ constexpr auto transform(Op &&op, T &&t, Ts &&...ts) {
                                            std::forward<T>(t),
                                            std::forward<Ts>(ts)...)...};
         } else {
-            return stdx::make_indexed_tuple<Fs...>(
-                detail::invoke_at<Is>(std::forward<Op>(op), std::forward<T>(t),
-                                      std::forward<Ts>(ts)...)...);
+            return stdx::indexed_tuple<
+                detail::index_function_list<Fs...>,
+                std::remove_cvref_t<decltype(detail::invoke_at<Is>(
+                    std::forward<Op>(op), std::forward<T>(t),
+                    std::forward<Ts>(ts)...))>...>{detail::invoke_at<Is>(
+                std::forward<Op>(op), std::forward<T>(t),
+                std::forward<Ts>(ts)...)...};
         }
     }(std::make_index_sequence<detail::zip_length_for<T, Ts...>>{});
 }
-- 
2.43.0


From 494b3b1a74d4ed4a834c7509e9459556d6fe6db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:34:56 +0000
Subject: [PATCH 25/50] fix: call_by_need with an lvalue tuple of functions

tuple_size_v was applied to a reference type, so no functions were kept and
the call did not compile. The documented examples pass an lvalue.
---
 include/stdx/call_by_need.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/call_by_need.hpp b/include/stdx/call_by_need.hpp
index e4355cc..fa028d1 100644
--- a/include/stdx/call_by_need.hpp
+++ b/include/stdx/call_by_need.hpp
@@ -162,7 +162,7 @@ constexpr auto call_by_need(Fs &&fs, Args &&args) {
     auto new_fs = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         return tuple{get<Is>(std::forward<Fs>(fs))...,
                      cbn_detail::safe_forward{}};
-    }(std::make_index_sequence<tuple_size_v<Fs>>{});
+    }(std::make_index_sequence<tuple_size_v<std::remove_cvref_t<Fs>>>{});
 
     auto ret = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         return tuple<
-- 
2.43.0


From 5f1181f1bc5bb1857f1d0c401630f9d803b1a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:42:30 +0000
Subject: [PATCH 26/50] fix: ct_format keeps a tuple passed as a run-time
 argument in one piece

tuple{arg} with a tuple argument deduces a copy of it, so its elements became
separate arguments.
---
 include/stdx/ct_format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/ct_format.hpp b/include/stdx/ct_format.hpp
index 6f9c567..b8a4986 100644
--- a/include/stdx/ct_format.hpp
+++ b/include/stdx/ct_format.hpp
@@ -364,9 +364,9 @@ constexpr auto format1(Arg arg) {
         if constexpr (not Name.empty()) {
             using name_info_t = named_arg<Name, Arg, 0>;
             return make_format_result<type_list<name_info_t>>(
-                cts_t<Fmt>{}, tuple{std::move(arg)});
+                cts_t<Fmt>{}, tuple<Arg>{std::move(arg)});
         } else {
-            return make_format_result(cts_t<Fmt>{}, tuple{std::move(arg)});
+            return make_format_result(cts_t<Fmt>{}, tuple<Arg>{std::move(arg)});
         }
     }
 }
-- 
2.43.0


From e96836962e13d6b428a18b9d55fc8af7d15926d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:42:41 +0000
Subject: [PATCH 27/50] fix: split a ct_string at a null character

The search ran over the terminator as well, so splitting a string without an
embedded null at '\0' found the terminator and did not compile.
---
 include/stdx/ct_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdx/ct_string.hpp b/include/stdx/ct_string.hpp
index 0881b9e..a7f708b 100644
--- a/include/stdx/ct_string.hpp
+++ b/include/stdx/ct_string.hpp
@@ -101,14 +101,14 @@ using ct_string_to_type_t = decltype(ct_string_to_type<S, T>());
 
 template <ct_string S, char C> [[nodiscard]] consteval auto split() {
     constexpr auto it = [] {
-        for (auto i = S.value.cbegin(); i != S.value.cend(); ++i) {
+        for (auto i = S.begin(); i != S.end(); ++i) {
             if (*i == C) {
                 return i;
             }
         }
-        return S.value.cend();
+        return S.end();
     }();
-    if constexpr (it == S.value.cend()) {
+    if constexpr (it == S.end()) {
         return std::pair{S, ct_string{""}};
     } else {
         constexpr auto prefix_size =
-- 
2.43.0


From 0a4e99e660324d7d36aab5189ad959b139e517c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:45:03 +0000
Subject: [PATCH 28/50] fix: format bool in the freestanding ct_format

false was rendered as 0 and true did not compile, since bool was treated as an
integer to be divided by the base.
---
 include/stdx/detail/fmt.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/stdx/detail/fmt.hpp b/include/stdx/detail/fmt.hpp
index 13042a3..e6915be 100644
--- a/include/stdx/detail/fmt.hpp
+++ b/include/stdx/detail/fmt.hpp
@@ -65,6 +65,10 @@ consteval auto formatted_size(fmt_spec, char const *str) -> std::size_t {
 
 consteval auto formatted_size(fmt_spec, char) -> std::size_t { return 1; }
 
+consteval auto formatted_size(fmt_spec s, bool b) -> std::size_t {
+    return s.base == 16 ? 1 : b ? 4 : 5;
+}
+
 template <stdx::integral I>
 consteval auto formatted_size(fmt_spec s, I i) -> std::size_t {
     if (i == 0) {
@@ -117,6 +121,14 @@ consteval auto format_to(fmt_spec, It dest, char c) -> It {
     return dest;
 }
 
+template <typename It>
+consteval auto format_to(fmt_spec s, It dest, bool b) -> It {
+    if (s.base == 16) {
+        return format_to(s, dest, b ? '1' : '0');
+    }
+    return format_to(s, dest, b ? "true" : "false");
+}
+
 template <typename It, stdx::integral I>
 consteval auto format_to(fmt_spec s, It dest, I i) -> It {
     if (i == 0) {
-- 
2.43.0


From 3a1a3d01a17a17ca1a3d6cca346fb57e8b59f6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:50:17 +0000
Subject: [PATCH 29/50] fix: arity of functions with lvalue reference
 parameters

The generic arity was computed even when the signature gives the arity, and it
does not terminate for parameters that cannot bind to an arbitrary value.
---
 include/stdx/function_traits.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdx/function_traits.hpp b/include/stdx/function_traits.hpp
index 05adb7d..4e3a7b5 100644
--- a/include/stdx/function_traits.hpp
+++ b/include/stdx/function_traits.hpp
@@ -172,9 +172,10 @@ template <typename F, typename N> struct generic_arity {
 } // namespace detail
 
 template <typename F>
-using arity_t = boost::mp11::mp_eval_or<
-    detail::generic_arity_t<F, std::integral_constant<std::size_t, 0u>>,
-    nongeneric_arity_t, F>;
+using arity_t = typename boost::mp11::mp_if<
+    boost::mp11::mp_valid<nongeneric_arity_t, F>,
+    boost::mp11::mp_defer<nongeneric_arity_t, F>,
+    detail::generic_arity<F, std::integral_constant<std::size_t, 0u>>>::type;
 template <typename F> constexpr auto arity_v = arity_t<F>::value;
 } // namespace v1
 } // namespace stdx
-- 
2.43.0


From 03c568a414a167eaa705d2e6c0f754691e47deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:50:44 +0000
Subject: [PATCH 30/50] fix: function traits of noexcept functions

noexcept is part of the function type, so none of the specializations matched
noexcept functions, member functions or lambda expressions.
---
 include/stdx/function_traits.hpp | 74 ++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/include/stdx/function_traits.hpp b/include/stdx/function_traits.hpp
index 4e3a7b5..cc95660 100644
--- a/include/stdx/function_traits.hpp
+++ b/include/stdx/function_traits.hpp
@@ -18,7 +18,8 @@ template <auto> struct any_type {
 
 template <typename F> struct function_traits;
 
-template <typename R, typename... Args> struct function_traits<R(Args...)> {
+template <typename R, typename... Args, bool NE>
+struct function_traits<R(Args...) noexcept(NE)> {
     using return_type = R;
 
     template <template <typename...> typename List> using args = List<Args...>;
@@ -35,83 +36,90 @@ template <typename R, typename... Args> struct function_traits<R(Args...)> {
         -> std::invoke_result_t<R(Args...), any_type<Is>...>;
 };
 
-template <typename R, typename... Args>
-struct function_traits<R (*)(Args...)> : function_traits<R(Args...)> {};
+template <typename R, typename... Args, bool NE>
+struct function_traits<R (*)(Args...) noexcept(NE)>
+    : function_traits<R(Args...)> {};
 
-template <typename R, typename... Args>
-struct function_traits<R (*const)(Args...)> : function_traits<R(Args...)> {};
+template <typename R, typename... Args, bool NE>
+struct function_traits<R (*const)(Args...) noexcept(NE)>
+    : function_traits<R(Args...)> {};
 
-template <typename R, typename... Args>
-struct function_traits<R (*volatile)(Args...)> : function_traits<R(Args...)> {};
+template <typename R, typename... Args, bool NE>
+struct function_traits<R (*volatile)(Args...) noexcept(NE)>
+    : function_traits<R(Args...)> {};
 
-template <typename R, typename... Args>
-struct function_traits<R (*const volatile)(Args...)>
+template <typename R, typename... Args, bool NE>
+struct function_traits<R (*const volatile)(Args...) noexcept(NE)>
     : function_traits<R(Args...)> {};
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...)> : function_traits<R(Args...)> {
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) noexcept(NE)>
+    : function_traits<R(Args...)> {
     using obj_t = C;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) &> : function_traits<R(Args...)> {
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) & noexcept(NE)>
+    : function_traits<R(Args...)> {
     using obj_t = C &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const &>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const & noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) volatile &>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) volatile & noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C volatile &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const volatile &>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const volatile & noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const volatile &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) &&> : function_traits<R(Args...)> {
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) && noexcept(NE)>
+    : function_traits<R(Args...)> {
     using obj_t = C &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const &&>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const && noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) volatile &&>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) volatile && noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C volatile &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const volatile &&>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const volatile && noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const volatile &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const> : function_traits<R(Args...)> {
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const noexcept(NE)>
+    : function_traits<R(Args...)> {
     using obj_t = C const;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) volatile>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) volatile noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C volatile;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const volatile>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const volatile noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const volatile;
 };
-- 
2.43.0


From 46002f0b2ff789b51570fefb76ebbc726b535986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:50:44 +0000
Subject: [PATCH 31/50] fix: function traits of references to functions

A function passed by reference, as for_each_n_args does, had no traits, and its
arity could not be found if it has lvalue reference parameters.
---
 include/stdx/function_traits.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdx/function_traits.hpp b/include/stdx/function_traits.hpp
index cc95660..3b9bf25 100644
--- a/include/stdx/function_traits.hpp
+++ b/include/stdx/function_traits.hpp
@@ -36,6 +36,10 @@ struct function_traits<R(Args...) noexcept(NE)> {
         -> std::invoke_result_t<R(Args...), any_type<Is>...>;
 };
 
+template <typename R, typename... Args, bool NE>
+struct function_traits<R (&)(Args...) noexcept(NE)>
+    : function_traits<R(Args...)> {};
+
 template <typename R, typename... Args, bool NE>
 struct function_traits<R (*)(Args...) noexcept(NE)>
     : function_traits<R(Args...)> {};
-- 
2.43.0


From c6279d61fece112199c50a81253512e4d82052ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:04 +0000
Subject: [PATCH 32/50] fix: bind_front and bind_back return the result of the
 call unchanged

The call operators returned auto, so a reference result was copied (or did not
compile), unlike std::bind_front.
---
 include/stdx/functional.hpp | 40 ++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/include/stdx/functional.hpp b/include/stdx/functional.hpp
index c5355b9..7927c87 100644
--- a/include/stdx/functional.hpp
+++ b/include/stdx/functional.hpp
@@ -41,13 +41,15 @@ struct bind_front_t<F, std::index_sequence<Is...>, BoundArgs...> {
     bind_tuple_t<BoundArgs...> t{};
 
     template <typename... Args>
-    constexpr auto operator()(Args &&...args) const & {
+    constexpr auto operator()(Args &&...args) const & -> decltype(auto) {
         return f(get<Is>(t)..., std::forward<Args>(args)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) & {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) & -> decltype(auto) {
         return f(get<Is>(t)..., std::forward<Args>(args)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) && {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) && -> decltype(auto) {
         return std::move(f)(get<Is>(std::move(t))...,
                             std::forward<Args>(args)...);
     }
@@ -70,13 +72,15 @@ struct bind_front_value_t<F, std::index_sequence<Is...>, BoundArgs...> {
     bind_tuple_t<BoundArgs...> t{};
 
     template <typename... Args>
-    constexpr auto operator()(Args &&...args) const & {
+    constexpr auto operator()(Args &&...args) const & -> decltype(auto) {
         return F(get<Is>(t)..., std::forward<Args>(args)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) & {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) & -> decltype(auto) {
         return F(get<Is>(t)..., std::forward<Args>(args)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) && {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) && -> decltype(auto) {
         return F(get<Is>(std::move(t))..., std::forward<Args>(args)...);
     }
 };
@@ -97,13 +101,15 @@ struct bind_back_t<F, std::index_sequence<Is...>, BoundArgs...> {
     bind_tuple_t<BoundArgs...> t{};
 
     template <typename... Args>
-    constexpr auto operator()(Args &&...args) const & {
+    constexpr auto operator()(Args &&...args) const & -> decltype(auto) {
         return f(std::forward<Args>(args)..., get<Is>(t)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) & {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) & -> decltype(auto) {
         return f(std::forward<Args>(args)..., get<Is>(t)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) && {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) && -> decltype(auto) {
         return std::move(f)(std::forward<Args>(args)...,
                             get<Is>(std::move(t))...);
     }
@@ -126,13 +132,15 @@ struct bind_back_value_t<F, std::index_sequence<Is...>, BoundArgs...> {
     bind_tuple_t<BoundArgs...> t{};
 
     template <typename... Args>
-    constexpr auto operator()(Args &&...args) const & {
+    constexpr auto operator()(Args &&...args) const & -> decltype(auto) {
         return F(std::forward<Args>(args)..., get<Is>(t)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) & {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) & -> decltype(auto) {
         return F(std::forward<Args>(args)..., get<Is>(t)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) && {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) && -> decltype(auto) {
         return F(std::forward<Args>(args)..., get<Is>(std::move(t))...);
     }
 };
@@ -155,8 +163,8 @@ template <> struct unary_plus<void> {
     using is_transparent = int;
 
     template <typename T>
-    constexpr auto operator()(T &&arg) const
-        -> decltype(+std::forward<T>(arg)) {
+    constexpr auto
+    operator()(T &&arg) const -> decltype(+std::forward<T>(arg)) {
         return +std::forward<T>(arg);
     }
 };
@@ -181,8 +189,8 @@ template <> struct dereference<void> {
     using is_transparent = int;
 
     template <typename T>
-    constexpr auto operator()(T &&arg) const
-        -> decltype(*std::forward<T>(arg)) {
+    constexpr auto
+    operator()(T &&arg) const -> decltype(*std::forward<T>(arg)) {
         return *std::forward<T>(arg);
     }
 };
-- 
2.43.0


From 1d241fdee369cfb88f0740744b04b484d54d4c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:19 +0000
Subject: [PATCH 33/50] fix: bind_front and bind_back with a function

A function was stored as a member of function type, which does not compile;
the function is decayed like the bound arguments.
---
 include/stdx/functional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/functional.hpp b/include/stdx/functional.hpp
index 7927c87..37f193e 100644
--- a/include/stdx/functional.hpp
+++ b/include/stdx/functional.hpp
@@ -58,7 +58,7 @@ struct bind_front_t<F, std::index_sequence<Is...>, BoundArgs...> {
 
 template <typename F, typename... Args>
 constexpr auto bind_front(F &&f, Args &&...args) {
-    return detail::bind_front_t<std::remove_cvref_t<F>,
+    return detail::bind_front_t<std::decay_t<F>,
                                 std::make_index_sequence<sizeof...(Args)>,
                                 std::decay_t<Args>...>{
         std::forward<F>(f), {std::forward<Args>(args)...}};
@@ -118,7 +118,7 @@ struct bind_back_t<F, std::index_sequence<Is...>, BoundArgs...> {
 
 template <typename F, typename... Args>
 constexpr auto bind_back(F &&f, Args &&...args) {
-    return detail::bind_back_t<std::remove_cvref_t<F>,
+    return detail::bind_back_t<std::decay_t<F>,
                                std::make_index_sequence<sizeof...(Args)>,
                                std::decay_t<Args>...>{
         std::forward<F>(f), {std::forward<Args>(args)...}};
-- 
2.43.0


From 5026eea7f98c4e3f193c356a1ffd457236384d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:55:57 +0000
Subject: [PATCH 34/50] fix: forward_like of an lvalue as an rvalue type yields
 an rvalue

std::forward_like moves from its argument when T is not an lvalue
reference, whatever the value category of the argument.
---
 include/stdx/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 4a3b480..5f3c65d 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -116,7 +116,7 @@ template <typename T, typename U>
         if constexpr (t_is_const) {
             return std::move(std::as_const(u));
         } else {
-            return static_cast<U &&>(u);
+            return static_cast<std::remove_reference_t<U> &&>(u);
         }
     }
 }
-- 
2.43.0


From 82303c67f258fde9927e575f52815172b9427ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:39:37 +0000
Subject: [PATCH 35/50] fix: make counting_iterator dereference constexpr

Every other operation of counting_iterator can be evaluated at compile time, but
reading the value could not, so the iterator was unusable in constant expressions.
---
 include/stdx/iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/iterator.hpp b/include/stdx/iterator.hpp
index 90f7acc..28628f7 100644
--- a/include/stdx/iterator.hpp
+++ b/include/stdx/iterator.hpp
@@ -44,8 +44,8 @@ struct counting_iterator {
     using const_pointer = T const *;
     using iterator_category = std::contiguous_iterator_tag;
 
-    auto operator*() -> reference { return i; }
-    auto operator*() const -> const_reference { return i; }
+    constexpr auto operator*() -> reference { return i; }
+    constexpr auto operator*() const -> const_reference { return i; }
 
     constexpr auto operator++() -> counting_iterator & {
         ++i;
-- 
2.43.0


From 6f86855716c9c753dae4b89bdcf2a192c9fbea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:39:37 +0000
Subject: [PATCH 36/50] fix: make optional::emplace and optional::reset usable
 in constant expressions

Both are declared constexpr, but placement new is not allowed in a constant
expression. Construct the value with std::construct_at instead.
---
 include/stdx/optional.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index a8bb172..9a03a0c 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -186,13 +186,15 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
     template <typename... Args>
     constexpr auto emplace(Args &&...args) LIFETIMEBOUND -> value_type & {
         val.~value_type();
-        new (std::addressof(val)) value_type(std::forward<Args>(args)...);
+        std::construct_at(std::addressof(val), std::forward<Args>(args)...);
         return value();
     }
 
     constexpr auto reset() {
         val.~value_type();
-        new (std::addressof(val)) value_type(traits());
+        std::construct_at(std::addressof(val), with_result_of{[] {
+                              return value_type(traits());
+                          }});
     }
 
     template <typename F> constexpr auto transform(F &&f) & {
-- 
2.43.0


From 9f37c95fa3a01d760e2cebb97ffdc10e670fb8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:17:33 +0000
Subject: [PATCH 37/50] fix: let template_for_each and apply_sequence visit
 stdx::make_integer_sequence

stdx::make_integer_sequence<T, N> matched the partial specialization for
integer sequences with the single value N, so only N was visited.
---
 include/stdx/utility.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 5f3c65d..c80c368 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -278,6 +278,15 @@ using make_index_sequence = make_integer_sequence<std::size_t, N>;
 template <typename... Ts>
 using index_sequence_for = make_index_sequence<sizeof...(Ts)>;
 
+namespace detail {
+template <typename T, T N>
+struct for_each_t<make_integer_sequence<T, N>>
+    : for_each_t<std::make_integer_sequence<T, N>> {};
+template <typename T, T N>
+struct apply_sequence_t<make_integer_sequence<T, N>>
+    : apply_sequence_t<std::make_integer_sequence<T, N>> {};
+} // namespace detail
+
 template <std::size_t I, typename T, T N>
 constexpr auto get(make_integer_sequence<T, N>) {
     return std::integral_constant<T, I>{};
-- 
2.43.0


From a558dbff1362b07294a3f6a736e3d707fa4fc973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:40:01 +0000
Subject: [PATCH 38/50] fix: let is_structural_v answer for references to
 classes

---
 include/stdx/type_traits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/type_traits.hpp b/include/stdx/type_traits.hpp
index 9381289..fef987c 100644
--- a/include/stdx/type_traits.hpp
+++ b/include/stdx/type_traits.hpp
@@ -202,13 +202,14 @@ template <typename T> struct any_t {
 
 template <auto> using void_v = void;
 template <typename T, typename = void> constexpr auto detect_structural = false;
-template <typename T> constexpr auto detect_structural<T &, void> = true;
 template <typename T>
 constexpr auto detect_structural<T, void_v<try_construct<T>()>> = true;
 } // namespace detail
 
 template <typename T>
 constexpr bool is_structural_v = detail::detect_structural<T>;
+template <typename T> constexpr bool is_structural_v<T &> = true;
+template <typename T> constexpr bool is_structural_v<T &&> = false;
 
 template <typename T, typename = void> constexpr auto is_cx_value_v = false;
 template <typename T>
-- 
2.43.0


From ca4b6604cbd807a15ecbb1fb2877192e848fbc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:12:59 +0000
Subject: [PATCH 39/50] fix: keep names of types and enumerators whole when
 template arguments contain '=' or ')'

---
 include/stdx/ct_conversions.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/stdx/ct_conversions.hpp b/include/stdx/ct_conversions.hpp
index 0cd9005..8f5c28e 100644
--- a/include/stdx/ct_conversions.hpp
+++ b/include/stdx/ct_conversions.hpp
@@ -21,7 +21,7 @@ consteval static auto type_as_string() -> std::string_view {
                   "Unknown compiler, can't build type name.");
 #endif
 
-    constexpr auto lhs = function_name.rfind('=', rhs) + 2;
+    constexpr auto lhs = function_name.find('=') + 2;
     return function_name.substr(lhs, rhs - lhs + 1);
 }
 
@@ -44,7 +44,7 @@ consteval static auto enum_as_string() -> std::basic_string_view<char> {
 #endif
     constexpr auto qual_str = [&]() -> std::string_view {
         constexpr auto rhs = value_string.size() - 2;
-        if (auto const eq_pos = value_string.find_last_of('=');
+        if (auto const eq_pos = value_string.find('=');
             eq_pos != std::string_view::npos) {
             auto const lhs = eq_pos + 2;
             return value_string.substr(lhs, rhs - lhs + 1);
@@ -53,16 +53,9 @@ consteval static auto enum_as_string() -> std::basic_string_view<char> {
     }();
 
     constexpr auto cast_str = [&]() -> std::string_view {
-        if (auto const close_paren_pos = qual_str.find_last_of(')');
-            close_paren_pos != std::string_view::npos) {
-            if (qual_str[close_paren_pos + 1] != ':') {
-                return qual_str;
-            }
-        }
-
-        if (auto const colon_pos = qual_str.find_last_of(':');
-            colon_pos != std::string_view::npos) {
-            return qual_str.substr(colon_pos + 1);
+        if (auto const pos = qual_str.find_last_of(":)");
+            pos != std::string_view::npos and qual_str[pos] == ':') {
+            return qual_str.substr(pos + 1);
         }
 
         return qual_str;
-- 
2.43.0


From 7807936bbd822624f0bd558abd33666aa7ab9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:16 +0000
Subject: [PATCH 40/50] fix: check the size of every fixed-size source of a
 fixed-size span

A fixed-size span made from a smaller array through the range constructor, or
from a smaller fixed-size span, extended beyond the storage without a
diagnostic. Both are now refused like the other constructors.
---
 include/stdx/span.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/stdx/span.hpp b/include/stdx/span.hpp
index 4f6f1e7..a515ef9 100644
--- a/include/stdx/span.hpp
+++ b/include/stdx/span.hpp
@@ -55,6 +55,13 @@ template <typename T> class span_base<T, dynamic_extent> {
         return sz == 0u;
     }
 };
+
+template <typename> constexpr auto available_storage = dynamic_extent;
+template <typename T, std::size_t N>
+constexpr auto available_storage<std::array<T, N>> = N;
+template <typename T, std::size_t N>
+// NOLINTNEXTLINE(*-avoid-c-arrays)
+constexpr auto available_storage<T[N]> = N;
 } // namespace detail
 
 template <typename T, std::size_t Extent = dynamic_extent>
@@ -120,7 +127,11 @@ class span : public detail::span_base<T, Extent> {
     template <typename R>
         requires(dependent_extent<R> != dynamic_extent)
     explicit constexpr span(R &&r)
-        : ptr{std::to_address(std::begin(std::forward<R>(r)))} {}
+        : ptr{std::to_address(std::begin(std::forward<R>(r)))} {
+        static_assert(Extent <=
+                          detail::available_storage<std::remove_cvref_t<R>>,
+                      "Span extends beyond available storage");
+    }
 
     template <typename R>
         requires(dependent_extent<R> == dynamic_extent)
@@ -135,7 +146,10 @@ class span : public detail::span_base<T, Extent> {
     template <class U, std::size_t N>
         requires(dependent_extent<U> == dynamic_extent or N != dynamic_extent)
     constexpr explicit(false) span(span<U, N> const &s) noexcept
-        : base_t{s.data(), s.size()}, ptr{s.data()} {}
+        : base_t{s.data(), s.size()}, ptr{s.data()} {
+        static_assert(Extent == dynamic_extent or Extent <= N,
+                      "Span extends beyond available storage");
+    }
 
     [[nodiscard]] constexpr auto data() const noexcept -> pointer {
         return ptr;
@@ -226,6 +240,11 @@ class span : public detail::span_base<T, Extent> {
     }
 };
 
+namespace detail {
+template <typename T, std::size_t N>
+constexpr auto available_storage<span<T, N>> = N;
+} // namespace detail
+
 template <std::size_t I, typename T, std::size_t E>
 [[nodiscard]] constexpr auto get(span<T, E> s) -> decltype(s[I]) {
     static_assert(E == dynamic_extent or I < E, "get() out of range on span");
-- 
2.43.0


From e5f6029f83e7cf52bc2e20d55b1bd4c8fbfb56b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:16 +0000
Subject: [PATCH 41/50] fix: refuse to compare tuples that have only one
 element in common

Tuples of different sizes or incomparable element types that share exactly one
element were compared by that element alone. Such comparisons are now ambiguous
like those of tuples that share more elements.
---
 include/stdx/tuple.hpp | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index bd93425..a1039b6 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -364,6 +364,46 @@ struct tuple_impl<std::index_sequence<Is...>, index_function_list<Fs...>, Ts...>
     }
 
   private:
+    template <typename Funcs, typename... Us>
+        requires(... and std::equality_comparable_with<Ts, Us>)
+    constexpr static auto equality_comparable_to(
+        tuple_impl<std::index_sequence<Is...>, Funcs, Us...> const &) -> void;
+
+    template <typename Funcs, typename... Us>
+        requires(... and std::three_way_comparable_with<Ts, Us>)
+    constexpr static auto three_way_comparable_to(
+        tuple_impl<std::index_sequence<Is...>, Funcs, Us...> const &) -> void;
+
+    template <typename T>
+    constexpr static auto equality_mismatch =
+        not std::derived_from<T, tuple_impl> and
+        not requires(T const &t) { equality_comparable_to(t); };
+
+    template <typename T>
+    constexpr static auto three_way_mismatch =
+        not std::derived_from<T, tuple_impl> and
+        not requires(T const &t) { three_way_comparable_to(t); };
+
+    // Note: these make a comparison of mismatched tuples ambiguous even when
+    // they have just one element in common
+    template <tuple_comparable T>
+        requires equality_mismatch<T>
+    [[nodiscard]] friend constexpr auto operator==(tuple_impl const &,
+                                                   T const &) -> bool = delete;
+    template <tuple_comparable T>
+        requires equality_mismatch<T>
+    [[nodiscard]] friend constexpr auto operator==(T const &,
+                                                   tuple_impl const &)
+        -> bool = delete;
+    template <tuple_comparable T>
+        requires three_way_mismatch<T>
+    [[nodiscard]] friend constexpr auto operator<=>(tuple_impl const &,
+                                                    T const &) = delete;
+    template <tuple_comparable T>
+        requires three_way_mismatch<T>
+    [[nodiscard]] friend constexpr auto operator<=>(T const &,
+                                                    tuple_impl const &) = delete;
+
     template <typename Funcs, typename... Us>
         requires(... and std::equality_comparable_with<Ts, Us>)
     [[nodiscard]] friend constexpr auto
-- 
2.43.0


From 7453a986a813d4de5f4bb36eaa20c2b99cd8eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:35 +0000
Subject: [PATCH 42/50] fix: refuse element positions beyond the end of arrays
 and integer sequences

tuple_element of std::array and get of an integer sequence gave an answer for
any position.
---
 include/stdx/type_traits.hpp | 1 +
 include/stdx/utility.hpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/stdx/type_traits.hpp b/include/stdx/type_traits.hpp
index fef987c..e536f44 100644
--- a/include/stdx/type_traits.hpp
+++ b/include/stdx/type_traits.hpp
@@ -341,6 +341,7 @@ using tuple_element_t = typename tuple_element<I, T>::type;
 
 template <std::size_t I, typename T, std::size_t N>
 struct tuple_element<I, std::array<T, N>> {
+    static_assert(I < N);
     using type = T;
 };
 
diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index c80c368..4c67e53 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -289,6 +289,7 @@ struct apply_sequence_t<make_integer_sequence<T, N>>
 
 template <std::size_t I, typename T, T N>
 constexpr auto get(make_integer_sequence<T, N>) {
+    static_assert(I < N);
     return std::integral_constant<T, I>{};
 }
 
-- 
2.43.0


From 82d5c756fe0b8edab0391ab644652dfaffad5bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:00 +0000
Subject: [PATCH 43/50] fix: keep const in the element types of tuples

Without __type_pack_element an element type was found through the return
type of a function. A const scalar return type is not const, so tuple
algorithms lost the const of such elements.
---
 include/stdx/tuple.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index a1039b6..0a49659 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -57,7 +57,8 @@ template <std::size_t Index, typename T, typename... Ts> struct element {
 #if __has_builtin(__type_pack_element)
     using type = T;
 #else
-    constexpr static auto ugly_Value(index_constant<Index>) -> T;
+    constexpr static auto ugly_Value(index_constant<Index>)
+        -> std::type_identity<T>;
 
     [[nodiscard]] constexpr auto
     ugly_iGet_clvr(index_constant<Index>) const & noexcept LIFETIMEBOUND
@@ -186,9 +187,10 @@ struct tuple_impl<std::index_sequence<Is...>, index_function_list<Fs...>, Ts...>
     template <std::size_t I>
     using element_t = typename base_t<I, __type_pack_element<I, Ts...>>::type;
 #else
-    constexpr static auto ugly_Value(...) -> void;
+    constexpr static auto ugly_Value(...) -> std::type_identity<void>;
     using base_t<Is, Ts>::ugly_Value...;
-    template <std::size_t I> using element_t = decltype(ugly_Value(index<I>));
+    template <std::size_t I>
+    using element_t = typename decltype(ugly_Value(index<I>))::type;
 
     using base_t<Is, Ts>::ugly_iGet_clvr...;
     using base_t<Is, Ts>::ugly_iGet_lvr...;
-- 
2.43.0


From a2544e2b0dc2df23de3ef92dea26ae065bc39ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:49 +0000
Subject: [PATCH 44/50] fix: count a pushed vector element only once it is
 stored

push_back incremented the size before assigning the element. When the
assignment threw, the vector kept a stale extra element.
---
 include/stdx/cx_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdx/cx_vector.hpp b/include/stdx/cx_vector.hpp
index b01d6c3..b55fc27 100644
--- a/include/stdx/cx_vector.hpp
+++ b/include/stdx/cx_vector.hpp
@@ -129,10 +129,12 @@ template <typename T, std::size_t N> class cx_vector {
 
     constexpr auto push_back(value_type const &value) LIFETIMEBOUND
         -> reference {
-        return storage[current_size++] = value;
+        storage[current_size] = value;
+        return storage[current_size++];
     }
     constexpr auto push_back(value_type &&value) LIFETIMEBOUND -> reference {
-        return storage[current_size++] = std::move(value);
+        storage[current_size] = std::move(value);
+        return storage[current_size++];
     }
 
     [[nodiscard]] constexpr auto pop_back() -> value_type {
-- 
2.43.0


From 29675091df9305b318157edc99bbac73f250cda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:49 +0000
Subject: [PATCH 45/50] fix: move the queue indices only once an element is
 stored or taken

push advanced the index and the size before assigning the element, and pop
advanced the index before moving it out. When the element threw, the queue
had a stale extra element, or an index past the end of its storage.
---
 include/stdx/cx_queue.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/stdx/cx_queue.hpp b/include/stdx/cx_queue.hpp
index 3401836..317f17f 100644
--- a/include/stdx/cx_queue.hpp
+++ b/include/stdx/cx_queue.hpp
@@ -83,25 +83,25 @@ class cx_queue {
 
     constexpr auto push(value_type const &value) LIFETIMEBOUND -> reference {
         OverflowPolicy::check_push(current_size, N);
-        if (++push_index == N) {
-            push_index = 0;
-        }
+        auto const next = push_index + 1 == N ? 0 : push_index + 1;
+        storage[next] = value;
+        push_index = next;
         ++current_size;
-        return storage[push_index] = value;
+        return storage[push_index];
     }
     constexpr auto push(value_type &&value) LIFETIMEBOUND -> reference {
         OverflowPolicy::check_push(current_size, N);
-        if (++push_index == N) {
-            push_index = 0;
-        }
+        auto const next = push_index + 1 == N ? 0 : push_index + 1;
+        storage[next] = std::move(value);
+        push_index = next;
         ++current_size;
-        return storage[push_index] = std::move(value);
+        return storage[push_index];
     }
 
     [[nodiscard]] constexpr auto pop() -> value_type {
         OverflowPolicy::check_pop(current_size);
-        auto entry = std::move(storage[pop_index++]);
-        if (pop_index == N) {
+        auto entry = std::move(storage[pop_index]);
+        if (++pop_index == N) {
             pop_index = 0;
         }
         --current_size;
-- 
2.43.0


From bf17c2a73a4a7f655ac4edc5c440ba2c9cf2f6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:49 +0000
Subject: [PATCH 46/50] fix: count an inserted set key only once it is stored

insert incremented the size before assigning the key. When the assignment
threw, the set kept a stale extra key.
---
 include/stdx/cx_set.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdx/cx_set.hpp b/include/stdx/cx_set.hpp
index 2c21fa7..2282ee5 100644
--- a/include/stdx/cx_set.hpp
+++ b/include/stdx/cx_set.hpp
@@ -77,14 +77,16 @@ template <typename Key, std::size_t N> class cx_set {
         if (contains(key)) {
             return false;
         }
-        storage[current_size++] = key;
+        storage[current_size] = key;
+        ++current_size;
         return true;
     }
     constexpr auto insert(key_type &&key) -> bool {
         if (contains(key)) {
             return false;
         }
-        storage[current_size++] = std::move(key);
+        storage[current_size] = std::move(key);
+        ++current_size;
         return true;
     }
 
-- 
2.43.0


From 7ffb967deae3bf76cd9dd30321258069e2c7066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:49 +0000
Subject: [PATCH 47/50] fix: count an inserted map entry only once it is stored

insert_or_assign incremented the size before assigning the entry. When the
assignment threw, the map kept a stale extra entry.
---
 include/stdx/cx_map.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/cx_map.hpp b/include/stdx/cx_map.hpp
index 913b956..9174f43 100644
--- a/include/stdx/cx_map.hpp
+++ b/include/stdx/cx_map.hpp
@@ -127,7 +127,8 @@ template <typename Key, typename Value, std::size_t N> class cx_map {
                 return false;
             }
         }
-        storage[current_size++] = {key, value};
+        storage[current_size] = {key, value};
+        ++current_size;
         return true;
     }
     constexpr auto put(key_type const &key, mapped_type const &value) -> bool {
-- 
2.43.0


From 61aca769d019d52e799ade7082862b23689f5db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:03 +0000
Subject: [PATCH 48/50] fix: leave an optional empty when emplacing a value
 throws

emplace destroyed the old value before constructing the new one. When that
construction threw, the destructor destroyed the old value a second time.
---
 include/stdx/optional.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index 9a03a0c..3ec782f 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -98,6 +98,21 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
     using check_specialization_t [[maybe_unused]] = decltype(traits());
     T val{traits()};
 
+    constexpr auto construct_tombstone() -> void {
+        std::construct_at(std::addressof(val),
+                          with_result_of{[] { return T(traits()); }});
+    }
+
+    struct emplace_guard {
+        optional *opt;
+
+        constexpr ~emplace_guard() {
+            if (opt != nullptr) {
+                opt->construct_tombstone();
+            }
+        }
+    };
+
   public:
     using value_type = T;
 
@@ -186,15 +201,15 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
     template <typename... Args>
     constexpr auto emplace(Args &&...args) LIFETIMEBOUND -> value_type & {
         val.~value_type();
+        auto guard = emplace_guard{this};
         std::construct_at(std::addressof(val), std::forward<Args>(args)...);
+        guard.opt = nullptr;
         return value();
     }
 
     constexpr auto reset() {
         val.~value_type();
-        std::construct_at(std::addressof(val), with_result_of{[] {
-                              return value_type(traits());
-                          }});
+        construct_tombstone();
     }
 
     template <typename F> constexpr auto transform(F &&f) & {
-- 
2.43.0


From 4fab09f90f0df5d5196a115f64650fed4b93d680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:10 +0000
Subject: [PATCH 49/50] fix: let is_structural_v be used without exceptions

The unreachable branch of try_construct contained a throw-expression.
Compilers refuse it when exceptions are switched off: clang++ could not
include the header, g++ could not evaluate the trait for a type that is not
structural.
---
 include/stdx/type_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/type_traits.hpp b/include/stdx/type_traits.hpp
index e536f44..96c3726 100644
--- a/include/stdx/type_traits.hpp
+++ b/include/stdx/type_traits.hpp
@@ -187,7 +187,7 @@ template <typename T, typename... Ts> constexpr auto try_construct() -> T {
     } else if constexpr (sizeof...(Ts) < 10) {
         return try_construct<T, Ts..., any_t<T>>();
     } else {
-        throw;
+        __builtin_unreachable();
     }
 }
 
-- 
2.43.0


From 230aa9f7bbcbf3c438defcf812ede70e2f3a5ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:10 +0000
Subject: [PATCH 50/50] fix: make ct_capacity_v of an array of const
 unambiguous

An array of const elements matched both the specialization for arrays and the
one for const types, so asking for its capacity did not compile.
---
 include/stdx/iterator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdx/iterator.hpp b/include/stdx/iterator.hpp
index 28628f7..5f33ebe 100644
--- a/include/stdx/iterator.hpp
+++ b/include/stdx/iterator.hpp
@@ -27,6 +27,10 @@ constexpr auto ct_capacity_v<std::array<T, N>> = N;
 // NOLINTNEXTLINE(*-avoid-c-arrays)
 template <typename T, std::size_t N> constexpr auto ct_capacity_v<T[N]> = N;
 
+// NOLINTNEXTLINE(*-avoid-c-arrays)
+template <typename T, std::size_t N>
+constexpr auto ct_capacity_v<T const[N]> = N;
+
 template <typename T> constexpr auto ct_capacity_v<T const> = ct_capacity_v<T>;
 
 template <typename T>
-- 
2.43.0

