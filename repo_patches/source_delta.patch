From 4e953b45d067bdcb8f97bbd294fe6c3c929cb5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 01/19] fix: make copies of a cache independent of the original

The order iterators stored in a copied map and the copied last-accessed
object still referred to the original cache, so that using the copy
corrupted (or outlived) the original.
---
 include/lru/internal/base-cache.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index fe49a72..6b87747 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1523,14 +1523,21 @@ class BaseCache {
   }
 
   /// Looks up each key in the queue and re-assigns it to the proper key in the
-  /// map.
+  /// map, and the order iterator in the map to the proper node of the queue.
   ///
   /// After a copy, the reference (wrappers) in the order queue point
-  /// to the keys of the other cache's map. Thus we need to re-assign them.
+  /// to the keys of the other cache's map, the order iterators in the map point
+  /// into the other cache's queue and the last accessed object refers to an
+  /// entry of the other cache. Thus we need to re-assign them.
   void _reassign_references() noexcept {
-    for (auto& key_reference : _order) {
-      key_reference = std::ref(_map.find(key_reference)->first);
+    for (auto order = _order.begin(); order != _order.end(); ++order) {
+      auto iterator = _map.find(*order);
+      *order = std::ref(iterator->first);
+      iterator->second.order = order;
     }
+
+    // Whatever was copied still points into the other cache.
+    _last_accessed.invalidate();
   }
 
   /// Inserts a new key into the queue.
-- 
2.43.0


From 0b68004322a3f42d10627ca61177f30dac4b4721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 02/19] fix: copy non-const caches instead of treating them as
 ranges

For a non-const lvalue cache the range constructor and the range assignment
operator were better matches than the copy operations: the copy lost order
and capacity, and assignment moved the values out of the source.
---
 include/lru/cache.hpp               |  3 ++-
 include/lru/internal/base-cache.hpp |  6 ++++--
 include/lru/internal/utility.hpp    | 13 +++++++++++++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index 7150bfc..3bb304a 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -124,7 +124,8 @@ class Cache
   /// \param range A range to construct the cache with.
   /// \param hash The hash function to use for the internal map.
   /// \param key_equal The key equality function to use for the internal map.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_other_range<super, Range>>
   explicit Cache(Range&& range,
                  const HashFunction& hash = HashFunction(),
                  const KeyEqual& equal = KeyEqual())
diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 6b87747..21e3486 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -537,7 +537,8 @@ class BaseCache {
   ///
   /// \param range A range of pairs to assign to the cache.
   /// \returns The cache instance.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_other_range<BaseCache, Range>>
   BaseCache& operator=(const Range& range) {
     _clear_and_increase_capacity(range);
     insert(range);
@@ -550,7 +551,8 @@ class BaseCache {
   ///
   /// \param range A range of pairs to assign to the cache.
   /// \returns The cache instance.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_other_range<BaseCache, Range>>
   BaseCache& operator=(Range&& range) {
     _clear_and_increase_capacity(range);
     insert(std::move(range));
diff --git a/include/lru/internal/utility.hpp b/include/lru/internal/utility.hpp
index 2be5a8d..2d9a902 100644
--- a/include/lru/internal/utility.hpp
+++ b/include/lru/internal/utility.hpp
@@ -25,6 +25,7 @@
 #include <cstddef>
 #include <iterator>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 namespace LRU {
@@ -81,6 +82,18 @@ template <typename T>
 using enable_if_range = std::pair<decltype(std::declval<T>().begin()),
                                   decltype(std::declval<T>().end())>;
 
+/// A type trait that disables a template overload if a type is not a range, or
+/// if it is the given class itself or a class derived from it.
+///
+/// This keeps overloads for ranges from being preferred over the copy
+/// constructor or copy assignment operator for non-const lvalues.
+///
+/// \tparam Self The class whose instances are to be disregarded as ranges.
+/// \tparam T the type to check.
+template <typename Self, typename T>
+using enable_if_other_range = std::enable_if_t<
+    !std::is_base_of<Self, std::decay_t<T>>::value, enable_if_range<T>>;
+
 /// A type trait that disables a template overload if a type is not an iterator
 /// over a pair.
 ///
-- 
2.43.0


From 421c186910403d344bac32eabf10a0bd3537769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 03/19] fix: do not move from lvalue ranges assigned to a cache

---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 21e3486..751238c 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -555,7 +555,7 @@ class BaseCache {
             typename = Internal::enable_if_other_range<BaseCache, Range>>
   BaseCache& operator=(Range&& range) {
     _clear_and_increase_capacity(range);
-    insert(std::move(range));
+    insert(std::forward<Range>(range));
     return *this;
   }
 
-- 
2.43.0


From 7b40955b43dbf05f219bd7d94368c5fd4e049166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 04/19] fix: leave a moved-from cache in a valid state

The move constructor swapped an uninitialised capacity and default
constructed function objects into the moved-from cache.
---
 include/lru/internal/base-cache.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 751238c..226a716 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -498,7 +498,9 @@ class BaseCache {
   }
 
   /// Move constructor.
-  BaseCache(BaseCache&& other) {
+  BaseCache(BaseCache&& other)
+  : BaseCache(
+        other._capacity, other._map.hash_function(), other._map.key_eq()) {
     // Following the copy-swap idiom.
     swap(other);
   }
-- 
2.43.0


From 60260245433c6989192b33434a5b3939519849b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 05/19] fix: let front() and back() of an empty cache throw

They are documented to throw EmptyCache, but were noexcept and thus
terminated the program.
---
 include/lru/cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index 3bb304a..80407e2 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -178,7 +178,7 @@ class Cache
   }
 
   /// \returns The most-recently inserted element.
-  const Key& front() const noexcept {
+  const Key& front() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("front");
     } else {
@@ -188,7 +188,7 @@ class Cache
   }
 
   /// \returns The least-recently inserted element.
-  const Key& back() const noexcept {
+  const Key& back() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("back");
     } else {
-- 
2.43.0


From ea74b6f29c45cd0442dfcb87e242e6a1484311c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 06/19] fix: register a miss when the key accessed last has
 expired

---
 include/lru/internal/base-cache.hpp | 1 +
 include/lru/timed-cache.hpp         | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 226a716..df342fa 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -794,6 +794,7 @@ class BaseCache {
         // If this is the last accessed key, it's at the front anyway
         return true;
       } else {
+        _register_miss(key);
         return false;
       }
     }
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 0038932..74a9e2d 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -350,6 +350,7 @@ class TimedCache
   Value& _value_for_last_accessed() override {
     auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(_last_accessed.key());
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
@@ -362,6 +363,7 @@ class TimedCache
   const Value& _value_for_last_accessed() const override {
     const auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(_last_accessed.key());
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
-- 
2.43.0


From b507acb20b6888ec184285f6c9d7ff07827e8abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 07/19] fix: make a key that is inserted again after it expired
 usable

Inserting an expired key updated its value, but the key remained expired
forever since its insertion time could not be renewed.
---
 include/lru/internal/timed-information.hpp |  2 +-
 include/lru/timed-cache.hpp                | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/timed-information.hpp b/include/lru/internal/timed-information.hpp
index 72865a6..4fa879f 100644
--- a/include/lru/internal/timed-information.hpp
+++ b/include/lru/internal/timed-information.hpp
@@ -107,7 +107,7 @@ struct TimedInformation : public Information<Key, Value> {
   }
 
   /// The time at which the key of the information was insterted into a cache.
-  const Timestamp insertion_time;
+  Timestamp insertion_time;
 };
 
 }  // namespace Internal
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 74a9e2d..63f4cdd 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -370,6 +370,18 @@ class TimedCache
     }
   }
 
+  /// \copydoc BaseCache::_move_to_front(MapIterator, const Value&)
+  ///
+  /// If the element has expired, it is in effect inserted anew, so that its
+  /// time to live starts again.
+  void _move_to_front(MapIterator iterator, const Value& new_value) override {
+    const bool has_expired = _has_expired(iterator->second);
+    super::_move_to_front(iterator, new_value);
+    if (has_expired) {
+      iterator->second.insertion_time = Clock::now();
+    }
+  }
+
   /// Checks if a key has expired, given its information.
   ///
   /// \param information The information to check expiration with.
-- 
2.43.0


From 162ca2cff47019cbec4fa44999d255d3b9b17437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 08/19] fix: consider all keys in clear_expired() and
 all_expired()

Both assumed that the queue is ordered by age, but accessing a key moves it
to the front without making it any younger.
---
 include/lru/timed-cache.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 63f4cdd..b2c58b3 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -235,9 +235,10 @@ class TimedCache
     // By the laws of predicate logic, any statement about any empty set is true
     if (is_empty()) return true;
 
-    /// If the most-recently inserted key has expired, all others must have too.
-    auto latest = _map.find(_order.back());
-    return _has_expired(latest->second);
+    // The queue is ordered by use and not by age, so look at all keys.
+    return std::all_of(_map.begin(), _map.end(), [this](const auto& pair) {
+      return _has_expired(pair.second);
+    });
   }
 
   /// Erases all expired elements from the cache.
@@ -258,14 +259,14 @@ class TimedCache
     while (iterator != _order.end()) {
       auto map_iterator = _map.find(*iterator);
 
-      // If the current element hasn't expired, also all elements inserted
-      // after will not have, so we can stop.
-      if (!_has_expired(map_iterator->second)) break;
+      // The queue is ordered by use and not by age, so look at all keys. Note
+      // that erasing an element only invalidates iterators to that element.
+      ++iterator;
 
-      _erase(map_iterator);
-
-      iterator = _order.begin();
-      number_of_erasures += 1;
+      if (_has_expired(map_iterator->second)) {
+        _erase(map_iterator);
+        number_of_erasures += 1;
+      }
     }
 
     return number_of_erasures;
-- 
2.43.0


From 3e771e62e4fe31ef29646135923c0804ce3c19b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 09/19] fix: allow erasing an expired element through an
 ordered iterator

---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index df342fa..d9cba59 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1139,7 +1139,7 @@ class BaseCache {
     if (iterator == ordered_cend()) {
       throw LRU::Error::InvalidIterator();
     } else {
-      _erase(_map.find(iterator.key()));
+      _erase(_map.find(*iterator._iterator));
     }
   }
 
-- 
2.43.0


From cab0e3faa17b2ea7a43b04a4f128f7da78de73fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 10/19] fix: make Statistics::reset_all() compile

---
 include/lru/statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/statistics.hpp b/include/lru/statistics.hpp
index 0c97016..29b9ce4 100644
--- a/include/lru/statistics.hpp
+++ b/include/lru/statistics.hpp
@@ -208,7 +208,7 @@ class Statistics {
   /// Clears the statistics of all keys, but keeps on monitoring it them.
   void reset_all() {
     for (auto& pair : _key_map) {
-      _key_map.second.reset();
+      pair.second.reset();
     }
   }
 
-- 
2.43.0


From cbf37843f21e54b522fbfd500a8464e6b670538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 11/19] fix: accept two string literals as keys to monitor

They were taken for a pair of iterators, which did not compile.
---
 include/lru/statistics.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lru/statistics.hpp b/include/lru/statistics.hpp
index 29b9ce4..c52b2b1 100644
--- a/include/lru/statistics.hpp
+++ b/include/lru/statistics.hpp
@@ -85,8 +85,10 @@ class Statistics {
   ///
   /// \param begin The start iterator of a range of keys to monitor.
   /// \param end The end iterator of a range of keys to monitor.
-  template <typename Iterator,
-            typename = Internal::enable_if_iterator<Iterator>>
+  template <
+      typename Iterator,
+      typename = Internal::enable_if_iterator<Iterator>,
+      typename = std::enable_if_t<!std::is_convertible<Iterator, Key>::value>>
   Statistics(Iterator begin, Iterator end) : Statistics() {
     for (; begin != end; ++begin) {
       monitor(*begin);
-- 
2.43.0


From 97c6141aa0620f2fe882e248b3a1fc783f45f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 12/19] fix: give every wrapped function a cache of its own

The cache was a static variable shared by all wrappers of the same closure
type, so that wrappers of different functions of the same type returned each
other's results and only the first capacity counted. The cache arguments
were kept as references, dangling by the time the cache was constructed.
---
 include/lru/wrap.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/lru/wrap.hpp b/include/lru/wrap.hpp
index e384968..3817789 100644
--- a/include/lru/wrap.hpp
+++ b/include/lru/wrap.hpp
@@ -23,8 +23,12 @@
 #define LRU_WRAP_HPP
 
 #include <cstddef>
+#include <memory>
 #include <tuple>
 #include <type_traits>
+#include <typeindex>
+#include <typeinfo>
+#include <unordered_map>
 #include <utility>
 
 #include <lru/cache.hpp>
@@ -50,7 +54,13 @@ template <typename Function,
 auto wrap(Function original_function, Args&&... args) {
   return [
     original_function,
-    cache_args = std::forward_as_tuple(std::forward<Args>(args)...)
+    // The arguments must be stored by value to outlive the call to wrap()
+    cache_args =
+        std::tuple<const std::decay_t<Args>...>(std::forward<Args>(args)...),
+    // One cache for each combination of argument types, owned by the wrapper
+    // (and shared with its copies)
+    caches = std::make_shared<
+        std::unordered_map<std::type_index, std::shared_ptr<void>>>()
   ](auto&&... arguments) mutable {
     using Arguments = std::tuple<std::decay_t<decltype(arguments)>...>;
     using ReturnType = decltype(
@@ -59,9 +69,15 @@ auto wrap(Function original_function, Args&&... args) {
     static_assert(!std::is_void<ReturnType>::value,
                   "Return type of wrapped function must not be void");
 
-    static auto cache =
-        Internal::construct_from_tuple<CacheType<Arguments, ReturnType>>(
-            cache_args);
+    using ArgumentCache = CacheType<Arguments, ReturnType>;
+
+    auto& owner = (*caches)[typeid(ArgumentCache)];
+    if (!owner) {
+      owner = std::make_shared<ArgumentCache>(
+          Internal::construct_from_tuple<ArgumentCache>(cache_args));
+    }
+
+    auto& cache = *static_cast<ArgumentCache*>(owner.get());
 
     auto key = std::make_tuple(arguments...);
     auto iterator = cache.find(key);
-- 
2.43.0


From ca043c6ddbe6a64357e8beec7b8a38868acf9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 13/19] fix: check an unordered iterator before dereferencing
 it

---
 include/lru/internal/base-unordered-iterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-unordered-iterator.hpp b/include/lru/internal/base-unordered-iterator.hpp
index f294b13..017194e 100644
--- a/include/lru/internal/base-unordered-iterator.hpp
+++ b/include/lru/internal/base-unordered-iterator.hpp
@@ -179,11 +179,12 @@ class BaseUnorderedIterator
   /// \throws LRU::Error::KeyExpired if the key pointed to by the iterator has
   /// expired.
   Entry& entry() override {
+    _cache->throw_if_invalid(*this);
+
     if (!_entry.has_value()) {
       _entry.emplace(_iterator->first, _iterator->second.value);
     }
 
-    _cache->throw_if_invalid(*this);
     return *_entry;
   }
 
-- 
2.43.0


From 8868f7b2bd41535c247c28ac14d5dca36e2bc1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 14/19] fix: leave the cache unchanged when an insertion fails

When assigning the new value of an existing key threw, the key had already
been moved to the front; when the queue could not allocate a node for a new
key, the key stayed in the map without being in the queue.
---
 include/lru/internal/base-cache.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index d9cba59..7d45c9f 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1413,8 +1413,9 @@ class BaseCache {
     // Extract the current linked-list node and insert (splice it) at the end
     // The original iterator is not invalidated and now points to the new
     // position (which is still the same node).
-    _move_to_front(iterator->second.order);
+    // The assignment may throw, in which case nothing else must have changed.
     iterator->second.value = new_value;
+    _move_to_front(iterator->second.order);
   }
 
   /// Erases the element most recently inserted into the cache.
@@ -1555,7 +1556,13 @@ class BaseCache {
     if (_is_too_full()) {
       _evict_lru_for(key);
     } else {
-      _order.emplace_back(key);
+      try {
+        _order.emplace_back(key);
+      } catch (...) {
+        // Do not leave a key in the map that is not in the queue.
+        _map.erase(key);
+        throw;
+      }
     }
 
     return std::prev(_order.end());
-- 
2.43.0


From 929b1059dc9d864632b85c8ae2b9099e8ac1d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 15/19] fix: let a failing copy assignment throw and change
 nothing

It was noexcept and thus terminated the program when copying a key, a value
or a callback threw or memory ran out.
---
 include/lru/internal/base-cache.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 7d45c9f..566b789 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -506,13 +506,21 @@ class BaseCache {
   }
 
   /// Copy assignment operator.
-  BaseCache& operator=(const BaseCache& other) noexcept {
+  BaseCache& operator=(const BaseCache& other) {
     if (this != &other) {
-      _map = other._map;
-      _order = other._order;
+      using std::swap;
+
+      // Copying may throw, so do all of it before changing anything.
+      auto map = other._map;
+      auto order = other._order;
+      auto last_accessed = other._last_accessed;
+      auto callback_manager = other._callback_manager;
+
+      swap(_map, map);
+      swap(_order, order);
+      swap(_last_accessed, last_accessed);
+      swap(_callback_manager, callback_manager);
       _stats = other._stats;
-      _last_accessed = other._last_accessed;
-      _callback_manager = other._callback_manager;
       _capacity = other._capacity;
       _reassign_references();
     }
-- 
2.43.0


From b3cc96010c8379678a5ff17e6026127970ade8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 16/19] fix: decide once whether a key has expired in lookup()

lookup() registered a hit in find() and then checked again whether the key
had expired when taking the value from the iterator. A key expiring in
between was counted and called back as a hit, while KeyExpired was thrown.
---
 include/lru/internal/base-cache.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 566b789..34c50bf 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -833,7 +833,8 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator.value();
+      // find() has already decided that the key is valid
+      return iterator._iterator->second.value;
     }
   }
 
@@ -860,7 +861,8 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator.value();
+      // find() has already decided that the key is valid
+      return iterator._iterator->second.value;
     }
   }
 
-- 
2.43.0


From 96de69ef72bad5d78d8edfe047b0d21f55154520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:03 +0000
Subject: [PATCH 17/19] fix: let dereferencing an iterator throw when memory
 runs out

operator* and operator-> of the iterators allocate the entry they refer to
on first use, but were declared noexcept, so that std::bad_alloc terminated
the program instead of reaching the caller.
---
 include/lru/internal/base-iterator.hpp           | 4 ++--
 include/lru/internal/base-ordered-iterator.hpp   | 2 +-
 include/lru/internal/base-unordered-iterator.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lru/internal/base-iterator.hpp b/include/lru/internal/base-iterator.hpp
index b695a72..51b0e76 100644
--- a/include/lru/internal/base-iterator.hpp
+++ b/include/lru/internal/base-iterator.hpp
@@ -176,10 +176,10 @@ class BaseIterator : public std::iterator<IteratorTag, LRU::Entry<Key, Value>> {
   }
 
   /// \returns A reference to the current entry pointed to by the iterator.
-  virtual Entry& operator*() noexcept = 0;
+  virtual Entry& operator*() = 0;
 
   /// \returns A pointer to the current entry pointed to by the iterator.
-  Entry* operator->() noexcept {
+  Entry* operator->() {
     return &(**this);
   }
 
diff --git a/include/lru/internal/base-ordered-iterator.hpp b/include/lru/internal/base-ordered-iterator.hpp
index a0ed951..6d72545 100644
--- a/include/lru/internal/base-ordered-iterator.hpp
+++ b/include/lru/internal/base-ordered-iterator.hpp
@@ -269,7 +269,7 @@ class BaseOrderedIterator
     return previous;
   }
 
-  Entry& operator*() noexcept override {
+  Entry& operator*() override {
     return _maybe_lookup();
   }
 
diff --git a/include/lru/internal/base-unordered-iterator.hpp b/include/lru/internal/base-unordered-iterator.hpp
index 017194e..5645f83 100644
--- a/include/lru/internal/base-unordered-iterator.hpp
+++ b/include/lru/internal/base-unordered-iterator.hpp
@@ -166,7 +166,7 @@ class BaseUnorderedIterator
   /// \copydoc BaseIterator::operator*
   /// \details If the iterator is invalid, behavior is undefined. No exception
   /// handling is performed.
-  Entry& operator*() noexcept override {
+  Entry& operator*() override {
     if (!_entry.has_value()) {
       _entry.emplace(_iterator->first, _iterator->second.value);
     }
-- 
2.43.0


From c94e8fb47375b246013b275312f1ae568d1768c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:03 +0000
Subject: [PATCH 18/19] fix: do not allocate in has_expired() of an ordered
 iterator

has_expired(OrderedConstIterator) and with it is_valid() dereferenced their
copy of the iterator to get at the key, which allocates an entry. Both are
noexcept, so that running out of memory there terminated the program. The
key is right there in the queue.
---
 include/lru/internal/base-ordered-iterator.hpp | 3 +++
 include/lru/timed-cache.hpp                    | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-ordered-iterator.hpp b/include/lru/internal/base-ordered-iterator.hpp
index 6d72545..803e80b 100644
--- a/include/lru/internal/base-ordered-iterator.hpp
+++ b/include/lru/internal/base-ordered-iterator.hpp
@@ -298,6 +298,9 @@ class BaseOrderedIterator
   template <typename, typename, typename>
   friend class BaseOrderedIterator;
 
+  template <typename, typename, typename, typename, typename>
+  friend class LRU::TimedCache;
+
   /// Looks up the entry for a key if this was not done already.
   ///
   /// \returns The entry, which was possibly newly looked up.
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index b2c58b3..772df3f 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -284,7 +284,7 @@ class TimedCache
   /// \details If this is the end iterator, this method returns false.
   bool has_expired(OrderedConstIterator ordered_iterator) const noexcept {
     if (ordered_iterator == ordered_end()) return false;
-    auto iterator = _map.find(ordered_iterator->key());
+    auto iterator = _map.find(*ordered_iterator._iterator);
     assert(iterator != _map.end());
 
     return _has_expired(iterator->second);
-- 
2.43.0


From 985e86fb0a7dd3e1729c059e49dbd700f309c478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:21 +0000
Subject: [PATCH 19/19] fix: let converting a dereferenced iterator throw when
 memory runs out

Moving a dereferenced iterator into one to const entries copied its entry in
a noexcept constructor, so that std::bad_alloc terminated the program. Like
the copy constructor, leave the entry to be looked up when it is needed.
---
 include/lru/internal/base-iterator.hpp | 5 +++--
 include/lru/internal/optional.hpp      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/lru/internal/base-iterator.hpp b/include/lru/internal/base-iterator.hpp
index 51b0e76..5835232 100644
--- a/include/lru/internal/base-iterator.hpp
+++ b/include/lru/internal/base-iterator.hpp
@@ -129,7 +129,8 @@ class BaseIterator : public std::iterator<IteratorTag, LRU::Entry<Key, Value>> {
                                   AnyValueType,
                                   AnyCacheType,
                                   AnyUnderlyingIteratorType>& other)
-  : _iterator(other._iterator), _entry(other._entry), _cache(other._cache) {
+  : _iterator(other._iterator), _cache(other._cache) {
+    // The entry is of another type, so keeping it would require an allocation.
   }
 
   /// Generalized move constructor.
@@ -148,8 +149,8 @@ class BaseIterator : public std::iterator<IteratorTag, LRU::Entry<Key, Value>> {
                             AnyCacheType,
                             AnyUnderlyingIteratorType>&& other) noexcept
   : _iterator(std::move(other._iterator))
-  , _entry(std::move(other._entry))
   , _cache(std::move(other._cache)) {
+    // The entry is of another type, so keeping it would require an allocation.
   }
 
   /// Destructor.
diff --git a/include/lru/internal/optional.hpp b/include/lru/internal/optional.hpp
index 8336d3b..3c461e7 100644
--- a/include/lru/internal/optional.hpp
+++ b/include/lru/internal/optional.hpp
@@ -85,7 +85,7 @@ class Optional {
   /// \param other The other optional object to move into this one.
   template <typename U,
             typename = std::enable_if_t<std::is_convertible<T, U>::value>>
-  Optional(Optional<U>&& other) noexcept {
+  Optional(Optional<U>&& other) {
     if (other) {
       _value = std::make_unique<T>(std::move(*other));
     }
-- 
2.43.0

