From b85e42cfcaf83e08bc97beabc13eba1e4176d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 01/66] fix: copy out shared heap aggregates in clear, reserve
 and resize

---
 include/dart/heap/api.tcc   |  3 +++
 include/dart/heap/array.tcc | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index a0316f8..04d0a75 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -255,6 +255,9 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   void basic_heap<RefCount>::clear() {
+    // Make sure we copy out if our heap is shared.
+    copy_on_write();
+
     if (is_object()) get_fields().clear();
     else if (is_array()) get_elements().clear();
     else throw type_error("dart::heap is not an aggregate and cannot be cleared");
diff --git a/include/dart/heap/array.tcc b/include/dart/heap/array.tcc
index 45e0783..b7328e9 100644
--- a/include/dart/heap/array.tcc
+++ b/include/dart/heap/array.tcc
@@ -123,13 +123,21 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   void basic_heap<RefCount>::reserve(size_type count) {
+    // Make sure we copy out if our heap is shared.
+    copy_on_write();
     get_elements().reserve(count);
   }
 
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   void basic_heap<RefCount>::resize(size_type count, T const& def) {
-    get_elements().resize(count, convert::cast<basic_heap>(def));
+    // Take our own reference to the default value _before_ copying out,
+    // as it may well refer to ourselves.
+    basic_heap tmp_def = convert::cast<basic_heap>(def);
+
+    // Make sure we copy out if our heap is shared.
+    copy_on_write();
+    get_elements().resize(count, tmp_def);
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From edead27fbab0aebdd25832ad1bf041c6ddf70c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 02/66] fix: inserting an aggregate into itself must not build
 a reference cycle

---
 include/dart/heap/api.tcc | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index 04d0a75..c153a22 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -118,13 +118,15 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class ValueType, class EnableIf>
   auto basic_heap<RefCount>::insert(KeyType&& key, ValueType&& value) -> iterator {
+    // Cast and forward the key/value into something we can insert.
+    // We take our own references _before_ copying out, as the value may well
+    // be (or share ownership with) the very aggregate we're about to mutate.
+    basic_heap tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
+    basic_heap tmp_value = convert::cast<basic_heap>(std::forward<ValueType>(value));
+
     // Perform our copy on write if our heap is shared.
     copy_on_write();
 
-    // Cast and forward the key/value into something we can insert.
-    auto&& tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
-    auto&& tmp_value = convert::cast<basic_heap>(std::forward<ValueType>(value));
-
     // Perform the insertion.
     if (tmp_key.is_str()) {
       // Check to make sure we'll be able to encode the given string.
@@ -135,7 +137,7 @@ namespace dart {
       // Attempt the insertion.
       // Sucks that we have to copy the value here, but insert might fail,
       // and the standard doesn't guarantee that tmp_value wouldn't be consumed if so.
-      auto val = std::make_pair(std::forward<decltype(tmp_key)>(tmp_key), tmp_value);
+      auto val = std::make_pair(std::move(tmp_key), tmp_value);
       auto res = get_fields().insert(std::move(val));
 
       // If the key was already present, insert will fail without consuming our value.
@@ -146,7 +148,7 @@ namespace dart {
       auto& elements = get_elements();
       auto pos = static_cast<size_type>(tmp_key.integer());
       if (pos > elements.size()) throw std::out_of_range("dart::heap cannot insert at out of range index");
-      auto new_it = elements.insert(elements.begin() + pos, std::forward<decltype(tmp_value)>(tmp_value));
+      auto new_it = elements.insert(elements.begin() + pos, std::move(tmp_value));
       return detail::dynamic_iterator<RefCount> {new_it, [] (auto& it) -> auto const& { return *it; }};
     } else {
       throw type_error("dart::heap cannot insert keys with non string/integer types");
@@ -170,13 +172,15 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class ValueType, class EnableIf>
   auto basic_heap<RefCount>::set(KeyType&& key, ValueType&& value) -> iterator {
+    // Cast and forward the key/value into something we can use.
+    // We take our own references _before_ copying out, as the value may well
+    // be (or share ownership with) the very aggregate we're about to mutate.
+    basic_heap tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
+    basic_heap tmp_val = convert::cast<basic_heap>(std::forward<ValueType>(value));
+
     // Perform our copy on write if our heap is shared.
     copy_on_write();
 
-    // Cast and forward the key/value into something we can use.
-    auto&& tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
-    auto&& tmp_val = convert::cast<basic_heap>(std::forward<ValueType>(value));
-
     // Update the given value IF present.
     if (tmp_key.is_str()) {
       if (tmp_key.size() > std::numeric_limits<uint16_t>::max()) {
@@ -187,14 +191,14 @@ namespace dart {
       auto& fields = get_fields();
       auto it = fields.find(tmp_key);
       if (it == fields.end()) throw std::out_of_range("dart::heap cannot set a non-existent key");
-      it->second = std::forward<decltype(tmp_val)>(tmp_val);
+      it->second = std::move(tmp_val);
       return detail::dynamic_iterator<RefCount>{it, [] (auto& it) -> auto const& { return it->second; }};
     } else if (tmp_key.is_integer()) {
       auto& elements = get_elements();
       auto pos = static_cast<size_type>(tmp_key.integer());
       if (pos >= elements.size()) throw std::out_of_range("dart::heap cannot set a value at out of range index");
       auto it = elements.begin() + pos;
-      *it = std::forward<decltype(tmp_val)>(tmp_val);
+      *it = std::move(tmp_val);
       return detail::dynamic_iterator<RefCount> {it, [] (auto& it) -> auto const& { return *it; }};
     } else {
       throw type_error("dart::heap cannot set keys with non string/integer types");
-- 
2.43.0


From 6c353d57ca6eb519aff0a3ce2919fef0b3884900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:29 +0000
Subject: [PATCH 03/66] fix: finalized projection must reserve vtable space for
 every requested key

---
 include/dart/common.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index e8b306a..e524fa6 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -267,8 +267,9 @@ namespace dart {
         // Unwrap our buffers to get the underlying machine representation.
         auto* raw_base = get_object<RefCount>(base.raw);
 
-        // Maximum required size is that of the current object, as the new one must be smaller.
-        auto total_size = raw_base->get_sizeof();
+        // Maximum required size is that of the current object, plus space for a vtable entry for each of the
+        // requested keys, as the projection assumes they'll all be present while it's being laid out.
+        auto total_size = raw_base->get_sizeof() + (key_ptrs.size() * sizeof(object_entry));
         auto ref = aligned_alloc<RefCount>(total_size, raw_type::object, [&] (auto* ptr) {
           std::fill_n(ptr, total_size, gsl::byte {});
           new(ptr) detail::object<RefCount>(raw_base, key_ptrs);
-- 
2.43.0


From ae502aef9618b876933383a3f7e7d9a5067ad165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:29 +0000
Subject: [PATCH 04/66] fix: merging finalized objects must account for
 alignment padding

---
 include/dart/common.tcc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index e524fa6..7db8f82 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -250,7 +250,11 @@ namespace dart {
       auto* raw_incoming = get_object<RefCount>(incoming.raw);
       
       // Figure out the maximum amount of space we could need for the merged object.
-      auto total_size = raw_base->get_sizeof() + raw_incoming->get_sizeof();
+      // Interleaving the pairs can change the padding required by each of them,
+      // so leave room for the worst case alignment of every key and value.
+      auto max_pairs = raw_base->size() + raw_incoming->size();
+      auto max_padding = alignment_of<RefCount>(raw_type::string) + alignment_of<RefCount>(raw_type::object);
+      auto total_size = raw_base->get_sizeof() + raw_incoming->get_sizeof() + (max_pairs * max_padding);
 
       // Merge it.
       auto ref = aligned_alloc<RefCount>(total_size, raw_type::object, [&] (auto* ptr) {
-- 
2.43.0


From 9b2adf48c913c94032091bbb7caabea9b591bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:29 +0000
Subject: [PATCH 05/66] fix: compare finalized key prefixes as unsigned bytes

---
 include/dart/common.tcc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index 7db8f82..5998146 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -13,13 +13,15 @@ namespace dart {
 
     template <size_t bytes>
     int prefix_compare_impl(char const* prefix, char const* str, size_t const len) noexcept {
-      if (len && *prefix != *str) return *prefix - *str;
+      // Keys are sorted as sequences of unsigned bytes, so they must be compared as such.
+      auto const ours = static_cast<unsigned char>(*prefix);
+      if (len && *prefix != *str) return ours - static_cast<unsigned char>(*str);
       else if (len) return prefix_compare_impl<bytes - 1>(prefix + 1, str + 1, len - 1);
-      else return *prefix;
+      else return ours;
     }
     template <>
     inline int prefix_compare_impl<0>(char const*, char const* str, size_t const len) noexcept {
-      if (len) return -*str;
+      if (len) return -static_cast<unsigned char>(*str);
       else return 0;
     }
 
-- 
2.43.0


From b1c81fcf8c15f872574c307d082d1ac3a6cce879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:29 +0000
Subject: [PATCH 06/66] fix: finalized key lookup must not trust prefixes of
 saturated key lengths

---
 include/dart/common.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index 5998146..8885cd4 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -200,9 +200,10 @@ namespace dart {
       constexpr auto max_len = std::numeric_limits<uint8_t>::max();
 
       // Compare first by string lengths, then by lexical ordering.
-      // If they are longer than us, but we're capped at the max value,
+      // If we're capped at the max value, our real length is unknown, so unless they're definitely shorter
       // return equality to force key lookup to fall back on the general case.
-      if (our_len < their_len) return (our_len == max_len) ? 0 : -1;
+      if (our_len == max_len) return (their_len < max_len) ? 1 : 0;
+      else if (our_len < their_len) return -1;
       else if (our_len == their_len) return compare_impl(str.data(), their_len);
       else return 1;
     }
-- 
2.43.0


From b2f41dd55689ab00dd1e2ccef38af5836a96253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:29 +0000
Subject: [PATCH 07/66] fix: vtable prefixes of keys with embedded nulls must
 use the full key

---
 include/dart/object.tcc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 8258bc3..4b67c38 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -280,7 +280,8 @@ namespace dart {
 
         // Add an entry to the vtable.
         auto val_type = json_identify<RefCount>(it->value);
-        new(entry++) object_entry(val_type, static_cast<uint32_t>(offset), it->name.GetString());
+        new(entry++) object_entry(val_type, static_cast<uint32_t>(offset),
+            shim::string_view {it->name.GetString(), it->name.GetStringLength()});
 
         // Layout our key.
         offset += json_lower<RefCount>(aligned, it->name);
@@ -319,7 +320,7 @@ namespace dart {
         // Add an entry to the vtable.
         new(entry++)
           object_entry(pair.value.get_raw_type(),
-            static_cast<uint32_t>(offset), pair.key.str());
+            static_cast<uint32_t>(offset), pair.key.strv());
 
         // Layout our key.
         offset += pair.key.layout(aligned);
@@ -358,7 +359,7 @@ namespace dart {
         // Add an entry to the vtable.
         new(entry++)
           object_entry(field.second.get_raw_type(),
-              static_cast<uint32_t>(offset), field.first.str());
+              static_cast<uint32_t>(offset), field.first.strv());
 
         // Layout our key.
         offset += field.first.layout(aligned);
@@ -410,7 +411,7 @@ namespace dart {
         // Add an entry to the vtable.
         auto* key = get_string(raw_key);
         new(entry++) object_entry(raw_val.type,
-            static_cast<uint32_t>(offset), key->get_strv().data());
+            static_cast<uint32_t>(offset), key->get_strv());
 
         // Copy in our key.
         auto key_len = find_sizeof<RefCount>(raw_key);
@@ -459,7 +460,7 @@ namespace dart {
         // Add an entry to the vtable.
         auto* key = get_string(raw_key);
         new(entry++) object_entry(raw_val.type,
-            static_cast<uint32_t>(offset), key->get_strv().data());
+            static_cast<uint32_t>(offset), key->get_strv());
 
         // Copy in our key.
         auto key_len = find_sizeof<RefCount>(raw_key);
-- 
2.43.0


From 5077bb8e439dda08738e7bc38ea6fd0efc8e528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:29 +0000
Subject: [PATCH 08/66] fix: finding a missing key in a finalized object must
 yield the end iterator

---
 include/dart/object.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 4b67c38..27852a9 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -680,14 +680,14 @@ namespace dart {
 
     template <template <class> class RefCount>
     auto object<RefCount>::get_it(shim::string_view const key) const noexcept -> ll_iterator<RefCount> {
-      size_t idx;
+      size_t idx = size();
       get_key(key, [&] (auto target) { idx = target; });
       return ll_iterator<RefCount>(idx, DART_FROM_THIS, load_value);
     }
 
     template <template <class> class RefCount>
     auto object<RefCount>::get_key_it(shim::string_view const key) const noexcept -> ll_iterator<RefCount> {
-      size_t idx;
+      size_t idx = size();
       get_key(key, [&] (auto target) { idx = target; });
       return ll_iterator<RefCount>(idx, DART_FROM_THIS, load_key);
     }
-- 
2.43.0


From e162bc0498b42bfd442706ae41ca990886f3a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:59 +0000
Subject: [PATCH 09/66] fix: string equality must compare past embedded nulls

---
 include/dart/common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/common.h b/include/dart/common.h
index 7527ef3..311c85f 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -307,7 +307,7 @@ namespace dart {
     struct dynamic_string_layout {
       bool operator ==(dynamic_string_layout const& other) const noexcept {
         if (len != other.len) return false;
-        else return !strcmp(ptr.get(), other.ptr.get());
+        else return !memcmp(ptr.get(), other.ptr.get(), len);
       }
       bool operator !=(dynamic_string_layout const& other) const noexcept {
         return !(*this == other);
@@ -319,7 +319,7 @@ namespace dart {
     struct inline_string_layout {
       bool operator ==(inline_string_layout const& other) const noexcept {
         if (left != other.left) return false;
-        else return !strcmp(buffer.data(), other.buffer.data());
+        else return !memcmp(buffer.data(), other.buffer.data(), buffer.size() - left);
       }
       bool operator !=(inline_string_layout const& other) const noexcept {
         return !(*this == other);
-- 
2.43.0


From 4bb4f4a5b3047ca2ccc12ae29559281790983dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:59 +0000
Subject: [PATCH 10/66] fix: validation must accept adjacent zero-sized null
 values

---
 include/dart/array.tcc  | 4 +++-
 include/dart/object.tcc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dart/array.tcc b/include/dart/array.tcc
index dd67133..a234442 100644
--- a/include/dart/array.tcc
+++ b/include/dart/array.tcc
@@ -325,7 +325,9 @@ namespace dart {
           if (silent) return false;
           else throw validation_error("Serialized array value offset does not meet alignment requirements");
         }
-        prev = raw_val.buffer;
+
+        // Nulls don't occupy any space in the buffer, so the next value is allowed to share the same address.
+        if (raw_val.type != raw_type::null) prev = raw_val.buffer;
 
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         // If the buffer validation routine returns false, it means we're not throwing errors.
diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 27852a9..06641ac 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -583,7 +583,9 @@ namespace dart {
           if (silent) return false;
           else throw validation_error("Serialized object value offset does not meet alignment requirements");
         }
-        prev = raw_val.buffer;
+
+        // Nulls don't occupy any space in the buffer, so the next key is allowed to share the same address.
+        if (raw_val.type != raw_type::null) prev = raw_val.buffer;
 
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         auto valid_val = valid_buffer<silent, RefCount>(raw_val, total_size - val_offset);
-- 
2.43.0


From ca3a2b241fd0cdf111146a6fa2d9f871829475c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:59 +0000
Subject: [PATCH 11/66] fix: arithmetic with a scalar left operand must not
 swap its operands

---
 include/dart/operators.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dart/operators.tcc b/include/dart/operators.tcc
index 6637580..7ddf477 100644
--- a/include/dart/operators.tcc
+++ b/include/dart/operators.tcc
@@ -86,7 +86,7 @@ namespace dart {
     >                                                                                     \
   >                                                                                       \
   double operator op(T lhs, basic_number<Number> const& rhs) noexcept {                   \
-    return rhs op lhs;                                                                    \
+    return lhs op rhs.numeric();                                                          \
   }
 
   DART_DEFINE_ARITHMETIC_OPERATORS(+);
-- 
2.43.0


From aecfdad82ab3871af2138b51b03be4211fa42234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:20 +0000
Subject: [PATCH 12/66] fix: packet front_or and back_or must work on finalized
 packets

---
 include/dart/packet/array.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dart/packet/array.tcc b/include/dart/packet/array.tcc
index c19caa5..ae62610 100644
--- a/include/dart/packet/array.tcc
+++ b/include/dart/packet/array.tcc
@@ -236,7 +236,8 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount> basic_packet<RefCount>::front_or(T&& opt) const {
-    return get_heap().front_or(std::forward<T>(opt));
+    if (is_array() && !empty()) return front();
+    else return convert::cast<basic_packet>(std::forward<T>(opt));
   }
 
   template <template <class> class RefCount>
@@ -254,7 +255,8 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount> basic_packet<RefCount>::back_or(T&& opt) const {
-    return get_heap().back_or(std::forward<T>(opt));
+    if (is_array() && !empty()) return back();
+    else return convert::cast<basic_packet>(std::forward<T>(opt));
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From ffa8ff6efcd610a2a2bccbc5064342c58ee1154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:20 +0000
Subject: [PATCH 13/66] fix: rvalue packet at_front and at_back must not flow
 off the end of a value returning lambda

---
 include/dart/packet/array.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/packet/array.tcc b/include/dart/packet/array.tcc
index ae62610..2a6d50c 100644
--- a/include/dart/packet/array.tcc
+++ b/include/dart/packet/array.tcc
@@ -205,7 +205,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_packet<RefCount>&& basic_packet<RefCount>::at_front() && {
-    shim::visit([] (auto& v) -> basic_packet { v = std::move(v).at_front(); }, impl);
+    shim::visit([] (auto& v) { v = std::move(v).at_front(); }, impl);
     return std::move(*this);
   }
 
@@ -217,7 +217,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_packet<RefCount>&& basic_packet<RefCount>::at_back() && {
-    shim::visit([] (auto& v) -> basic_packet { v = std::move(v).at_back(); }, impl);
+    shim::visit([] (auto& v) { v = std::move(v).at_back(); }, impl);
     return std::move(*this);
   }
 
-- 
2.43.0


From 758b38a0ca4585e2c3ef1225a6ec377c122be19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:20 +0000
Subject: [PATCH 14/66] fix: at() with a dart key must compile

---
 include/dart/buffer/api.tcc | 4 ++--
 include/dart/heap/api.tcc   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dart/buffer/api.tcc b/include/dart/buffer/api.tcc
index 134be9f..54e2e1a 100644
--- a/include/dart/buffer/api.tcc
+++ b/include/dart/buffer/api.tcc
@@ -217,7 +217,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_buffer<RefCount> basic_buffer<RefCount>::at(KeyType const& identifier) const& {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return at(identifier.strv());
       case type::integer:
@@ -230,7 +230,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_buffer<RefCount>&& basic_buffer<RefCount>::at(KeyType const& identifier) && {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return std::move(*this).at(identifier.strv());
       case type::integer:
diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index c153a22..6eee607 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -392,7 +392,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_heap<RefCount> basic_heap<RefCount>::at(KeyType const& identifier) const {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return at(identifier.strv());
       case type::integer:
-- 
2.43.0


From 3381d31abbc3e0e153b3f89a62214a9e3beb5410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 15/66] fix: finalized JSON parsing must zero the padding of
 the buffer it builds

---
 include/dart/connector/json.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index acc8322..4e96bfb 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -101,6 +101,8 @@ namespace dart {
     // Allocate space to store our finalized representation.
     // FIXME: Make this allocation size more intelligent.
     auto block = detail::aligned_alloc<RefCount>(json.size() * 8, detail::raw_type::object, [&] (auto* buf) {
+      // XXX: std::fill_n is REQUIRED here so that we can perform memcmps for finalized packets.
+      std::fill_n(buf, json.size() * 8, gsl::byte {});
       detail::json_lower<RefCount>(buf, doc.get_root());
     });
 
@@ -184,6 +186,8 @@ namespace dart {
     // Allocate space to store our finalized representation.
     // FIXME: Make this allocation size more intelligent.
     auto block = detail::aligned_alloc<RefCount>(json.size() * 8, detail::raw_type::object, [&] (auto* buf) {
+      // XXX: std::fill_n is REQUIRED here so that we can perform memcmps for finalized packets.
+      std::fill_n(buf, json.size() * 8, gsl::byte {});
       detail::json_lower<RefCount>(buf, doc);
     });
 
-- 
2.43.0


From da31e3924db4d3eb826cf90011f0516c33b5cf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 16/66] fix: duplicate JSON keys must resolve identically for
 finalized and dynamic parsing

---
 include/dart/object.tcc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 06641ac..079d5f7 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -253,11 +253,11 @@ namespace dart {
       // Ugly that this is necessary, but key lookup assumes things
       // are lexicographically sorted.
       sorter sorted;
-      sorted.reserve(elems);
+      sorted.reserve(fields.MemberCount());
       for (auto it = fields.MemberBegin(); it != fields.MemberEnd(); ++it) {
         sorted.push_back(it);
       }
-      std::sort(sorted.begin(), sorted.end(), [] (auto& lhs, auto& rhs) {
+      std::stable_sort(sorted.begin(), sorted.end(), [] (auto& lhs, auto& rhs) {
         auto lhs_len = lhs->name.GetStringLength();
         auto rhs_len = rhs->name.GetStringLength();
         if (lhs_len == rhs_len) {
@@ -269,6 +269,15 @@ namespace dart {
         }
       });
 
+      // Keys must also be unique.
+      // Let the last of any run of duplicates win, as happens when parsing into a dart::heap.
+      sorted.erase(sorted.begin(), std::unique(sorted.rbegin(), sorted.rend(), [] (auto& lhs, auto& rhs) {
+        shim::string_view l {lhs->name.GetString(), lhs->name.GetStringLength()};
+        shim::string_view r {rhs->name.GetString(), rhs->name.GetStringLength()};
+        return l == r;
+      }).base());
+      elems = static_cast<uint32_t>(sorted.size());
+
       // Iterate over our elements and write each one into the buffer.
       object_entry* entry = vtable();
       size_t offset = reinterpret_cast<gsl::byte*>(&vtable()[elems]) - DART_FROM_THIS_MUT;
-- 
2.43.0


From 6a61455d2bd38a61c225ab37c7e88c90955d64db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 17/66] fix: finalized JSON parsing must reject keys it cannot
 encode

---
 include/dart/array.tcc  | 2 +-
 include/dart/common.h   | 4 ++--
 include/dart/object.tcc | 7 ++++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/dart/array.tcc b/include/dart/array.tcc
index a234442..7d73e12 100644
--- a/include/dart/array.tcc
+++ b/include/dart/array.tcc
@@ -208,7 +208,7 @@ namespace dart {
 
 #if DART_HAS_RAPIDJSON
     template <template <class> class RefCount>
-    array<RefCount>::array(rapidjson::Value const& vals) noexcept :
+    array<RefCount>::array(rapidjson::Value const& vals) :
       elems(static_cast<uint32_t>(vals.Size()))
     {
       // Iterate over our elements and write each one into the buffer.
diff --git a/include/dart/common.h b/include/dart/common.h
index 311c85f..75a53ec 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -629,7 +629,7 @@ namespace dart {
         explicit object(sajson::value fields) noexcept;
 #endif
 #if DART_HAS_RAPIDJSON
-        explicit object(rapidjson::Value const& fields) noexcept;
+        explicit object(rapidjson::Value const& fields);
 #endif
 
         // Direct constructors
@@ -722,7 +722,7 @@ namespace dart {
         explicit array(sajson::value elems) noexcept;
 #endif
 #if DART_HAS_RAPIDJSON
-        explicit array(rapidjson::Value const& elems) noexcept;
+        explicit array(rapidjson::Value const& elems);
 #endif
         array(packet_elements<RefCount> const* elems) noexcept;
         array(array const&) = delete;
diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 079d5f7..7b662fc 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -244,7 +244,7 @@ namespace dart {
 
 #if DART_HAS_RAPIDJSON
     template <template <class> class RefCount>
-    object<RefCount>::object(rapidjson::Value const& fields) noexcept :
+    object<RefCount>::object(rapidjson::Value const& fields) :
       elems(static_cast<uint32_t>(fields.MemberCount()))
     {
       using sorter = std::vector<rapidjson::Value::ConstMemberIterator>;
@@ -282,6 +282,11 @@ namespace dart {
       object_entry* entry = vtable();
       size_t offset = reinterpret_cast<gsl::byte*>(&vtable()[elems]) - DART_FROM_THIS_MUT;
       for (auto& it : sorted) {
+        // Check to make sure we'll be able to encode the key.
+        if (it->name.GetStringLength() > std::numeric_limits<uint16_t>::max()) {
+          throw std::invalid_argument("dart::buffer keys cannot be longer than UINT16_MAX");
+        }
+
         // Using the current offset, align a pointer for the key (string type).
         auto* unaligned = DART_FROM_THIS_MUT + offset;
         auto* aligned = align_pointer<RefCount>(unaligned, detail::raw_type::string);
-- 
2.43.0


From a4cea8e528e9ef7ab04951895b48f5939f5ef853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 18/66] fix: JSON integers beyond INT64_MAX must not wrap
 around

---
 include/dart/connector/json.tcc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index 4e96bfb..1618d83 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -385,7 +385,10 @@ namespace dart {
 
     template <template <class> class RefCount>
     bool heap_parser<RefCount>::Uint64(uint64_t num) {
-      return Int64(num);
+      // Integers that can't be represented fall back to decimals, as happens for finalized parsing.
+      constexpr uint64_t max = std::numeric_limits<int64_t>::max();
+      if (num > max) return Double(static_cast<double>(num));
+      else return Int64(static_cast<int64_t>(num));
     }
 
     template <template <class> class RefCount>
-- 
2.43.0


From 36f825eb1e2f99052349380e7f41e60f44973295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 19/66] fix: typed wrappers must honor JSON serialization flags

---
 include/dart/connector/json.tcc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index 1618d83..e143078 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -225,37 +225,37 @@ namespace dart {
   template <class Object>
   template <unsigned flags>
   std::string basic_object<Object>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Array>
   template <unsigned flags>
   std::string basic_array<Array>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class String>
   template <unsigned flags>
   std::string basic_string<String>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Number>
   template <unsigned flags>
   std::string basic_number<Number>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Boolean>
   template <unsigned flags>
   std::string basic_flag<Boolean>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Null>
   template <unsigned flags>
   std::string basic_null<Null>::to_json() const {
-    return value_type::make_null().to_json();
+    return value_type::make_null().template to_json<flags>();
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 226be9d17366ef59c1131500e63bc203e7c89410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 20/66] fix: complex YAML keys must be rejected instead of
 corrupting the parser stacks

---
 include/dart/connector/yaml.tcc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index c04d940..bb65461 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -86,6 +86,9 @@ namespace dart {
               continue;
             case YAML_MAPPING_START_EVENT:
               // Beginning a new object, push onto our stacks if we were holding anything.
+              if (state == detail::parse_state::mapping_key) {
+                throw std::runtime_error("dart::packet does not support complex YAML keys");
+              }
               if (curr_key) key_stack.push_back(std::move(curr_key));
               if (curr_obj) obj_stack.push_back(std::move(curr_obj));
               state_stack.push_back(state);
@@ -94,6 +97,9 @@ namespace dart {
               break;
             case YAML_SEQUENCE_START_EVENT:
               // Beginning a new array, push onto our stacks if we were holding anything.
+              if (state == detail::parse_state::mapping_key) {
+                throw std::runtime_error("dart::packet does not support complex YAML keys");
+              }
               if (curr_key) key_stack.push_back(std::move(curr_key));
               if (curr_obj) obj_stack.push_back(std::move(curr_obj));
               state_stack.push_back(state);
-- 
2.43.0


From a3ec69960ab2b847d20facba6a9f32f578861331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 21/66] fix: quoted YAML scalars must be parsed as strings

---
 include/dart/connector/yaml.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index bb65461..d7e4554 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -193,6 +193,9 @@ namespace dart {
       size_t len = event.data.scalar.length;
       char const* str = reinterpret_cast<char const*>(event.data.scalar.value);
 
+      // Only plain scalars are subject to type resolution, quoted and block scalars are always strings.
+      if (event.data.scalar.style != YAML_PLAIN_SCALAR_STYLE) return basic_heap<RefCount>::make_string({str, len});
+
       // Try to figure out what this is.
       int64_t int_val = 0;
       double dcm_val = 0.0;
-- 
2.43.0


From dbcc03ae9c1089f1c8e8f55b73ac727880dc416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:42 +0000
Subject: [PATCH 22/66] fix: objects must not compare equal when null values
 sit under different keys

---
 include/dart/conversion_traits.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dart/conversion_traits.h b/include/dart/conversion_traits.h
index 8a4c55a..fad65d0 100644
--- a/include/dart/conversion_traits.h
+++ b/include/dart/conversion_traits.h
@@ -299,7 +299,9 @@ namespace dart {
               typename std::decay_t<Rhs>::iterator k, v;
               std::tie(k, v) = rhs.kvbegin();
               while (v != rhs.end()) {
-                if (*v != lhs[*k]) return false;
+                // Absent keys read as null, so null values need an explicit check for presence.
+                if (v->is_null() && !lhs.has_key(*k)) return false;
+                else if (*v != lhs[*k]) return false;
                 ++k, ++v;
               }
               return true;
-- 
2.43.0


From 88778008eac19b033cb0c1cafff763283b9db97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 23/66] fix: aggregates of different reference counters must be
 comparable

---
 include/dart/conversion_traits.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/dart/conversion_traits.h b/include/dart/conversion_traits.h
index fad65d0..fedc745 100644
--- a/include/dart/conversion_traits.h
+++ b/include/dart/conversion_traits.h
@@ -214,6 +214,11 @@ namespace dart {
       // template, even if instantiated with different reference counters.
       template <class PacketType>
       struct typed_compare;
+
+      // Forward declaration of the structural fallback below.
+      template <class Lhs, class Rhs>
+      bool generic_compare(Lhs const& lhs, Rhs const& rhs) noexcept;
+
       template <template <class> class RefCount>
       struct typed_compare<basic_heap<RefCount>> {
         template <class OtherHeap>
@@ -228,16 +233,23 @@ namespace dart {
           else if (lhs.get_type() != rhs.get_type()) return false;
 
           // Defer to our underlying representation.
-          return shim::visit([] (auto& lhs, auto& rhs) {
-            using Lhs = std::decay_t<decltype(lhs)>;
-            using Rhs = std::decay_t<decltype(rhs)>;
+          return shim::visit([&] (auto& lhs_data, auto& rhs_data) {
+            using Lhs = std::decay_t<decltype(lhs_data)>;
+            using Rhs = std::decay_t<decltype(rhs_data)>;
 
             // Have to compare through pointers here, and we make the decision purely off of the
             // ability to dereference the incoming type to try to allow compatibility with custom
             // external smart-pointers that otherwise conform to the std::shared_ptr interface.
             auto comparator = dart::detail::typeless_comparator {};
-            auto& lval = dart::detail::maybe_dereference(lhs, meta::is_dereferenceable<Lhs> {});
-            auto& rval = dart::detail::maybe_dereference(rhs, meta::is_dereferenceable<Rhs> {});
+            auto& lval = dart::detail::maybe_dereference(lhs_data, meta::is_dereferenceable<Lhs> {});
+            auto& rval = dart::detail::maybe_dereference(rhs_data, meta::is_dereferenceable<Rhs> {});
+
+            // Aggregates of different reference counters have unrelated representations,
+            // and so have to be compared structurally.
+            bool aggregates = lhs.is_object() || lhs.is_array();
+            if (aggregates && !meta::are_comparable<decltype(lval), decltype(rval)>::value) {
+              return generic_compare(lhs, rhs);
+            }
             return comparator(lval, rval);
           }, lhs.data, rhs.data);
         }
-- 
2.43.0


From 59f415e921a2b0c448161703e8e271b77a515d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 24/66] fix: reading a finalized number as a boolean must be
 rejected as a type error

---
 include/dart/buffer/primitive.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dart/buffer/primitive.tcc b/include/dart/buffer/primitive.tcc
index 858fea8..0e7a27c 100644
--- a/include/dart/buffer/primitive.tcc
+++ b/include/dart/buffer/primitive.tcc
@@ -33,6 +33,7 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_buffer<RefCount>::boolean() const {
+    if (!is_boolean()) throw type_error("dart::buffer has no boolean value");
     return detail::get_primitive<bool>(raw)->get_data();
   }
 
-- 
2.43.0


From 58febead06e363ce8a0a267e6a73e6a256e98ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 25/66] fix: checked element access on values that are not
 arrays must be a type error

---
 include/dart/buffer/array.tcc | 8 ++++----
 include/dart/heap/array.tcc   | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/dart/buffer/array.tcc b/include/dart/buffer/array.tcc
index c2cb324..b75a450 100644
--- a/include/dart/buffer/array.tcc
+++ b/include/dart/buffer/array.tcc
@@ -83,27 +83,27 @@ namespace dart {
 
   template <template <class> class RefCount>
   basic_buffer<RefCount> basic_buffer<RefCount>::at_front() const& {
-    if (empty()) throw std::out_of_range("dart::buffer is empty and has no value at front");
+    if (is_array() && empty()) throw std::out_of_range("dart::buffer is empty and has no value at front");
     else return front();
   }
 
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_buffer<RefCount>&& basic_buffer<RefCount>::at_front() && {
-    if (empty()) throw std::out_of_range("dart::buffer is empty and has no value at front");
+    if (is_array() && empty()) throw std::out_of_range("dart::buffer is empty and has no value at front");
     else return std::move(*this).front();
   }
 
   template <template <class> class RefCount>
   basic_buffer<RefCount> basic_buffer<RefCount>::at_back() const& {
-    if (empty()) throw std::out_of_range("dart::buffer is empty and has no value at back");
+    if (is_array() && empty()) throw std::out_of_range("dart::buffer is empty and has no value at back");
     else return back();
   }
 
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_buffer<RefCount>&& basic_buffer<RefCount>::at_back() && {
-    if (empty()) throw std::out_of_range("dart::buffer is empty and has no value at back");
+    if (is_array() && empty()) throw std::out_of_range("dart::buffer is empty and has no value at back");
     else return std::move(*this).back();
   }
 
diff --git a/include/dart/heap/array.tcc b/include/dart/heap/array.tcc
index b7328e9..71ae642 100644
--- a/include/dart/heap/array.tcc
+++ b/include/dart/heap/array.tcc
@@ -184,19 +184,20 @@ namespace dart {
 
   template <template <class> class RefCount>
   basic_heap<RefCount> basic_heap<RefCount>::at(size_type index) const {
-    if (index < size()) return get_elements()[index];
+    auto& elems = get_elements();
+    if (index < elems.size()) return elems[index];
     else throw std::out_of_range("dart::heap does not contain requested index");
   }
 
   template <template <class> class RefCount>
   basic_heap<RefCount> basic_heap<RefCount>::at_front() const {
-    if (empty()) throw std::out_of_range("dart::heap is empty and has no value at front");
+    if (is_array() && empty()) throw std::out_of_range("dart::heap is empty and has no value at front");
     else return front();
   }
 
   template <template <class> class RefCount>
   basic_heap<RefCount> basic_heap<RefCount>::at_back() const {
-    if (empty()) throw std::out_of_range("dart::heap is empty and has no value at back");
+    if (is_array() && empty()) throw std::out_of_range("dart::heap is empty and has no value at back");
     else return back();
   }
 
-- 
2.43.0


From 15a6903a735b1facba3de05038a07727cb4b9503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 26/66] fix: get_or on an array must return the default for
 identifiers that are not integers

---
 include/dart/heap/api.tcc   | 4 ++--
 include/dart/packet/api.tcc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index 6eee607..771c738 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -379,10 +379,10 @@ namespace dart {
   template <class KeyType, class T, class EnableIf>
   basic_heap<RefCount> basic_heap<RefCount>::get_or(KeyType const& identifier, T&& opt) const {
     // Need an extra check for objects because objects return null if the key is missing.
-    // Array access with throw if the identifier isn't within or range, or isn't an integer.
+    // Array access will throw if the identifier isn't an integer, so check that as well.
     if (is_object() && has_key(identifier)) {
       return get(identifier);
-    } else if (is_array() && size() > static_cast<size_t>(identifier.integer())) {
+    } else if (is_array() && identifier.is_integer() && size() > static_cast<size_t>(identifier.integer())) {
       return get(identifier);
     } else {
       return convert::cast<basic_heap>(std::forward<T>(opt));
diff --git a/include/dart/packet/api.tcc b/include/dart/packet/api.tcc
index d3b7285..17349ce 100644
--- a/include/dart/packet/api.tcc
+++ b/include/dart/packet/api.tcc
@@ -259,7 +259,7 @@ namespace dart {
   basic_packet<RefCount> basic_packet<RefCount>::get_or(KeyType const& identifier, T&& opt) const {
     if (is_object() && has_key(identifier)) {
       return get(identifier);
-    } else if (is_array() && size() > static_cast<size_t>(identifier.integer())) {
+    } else if (is_array() && identifier.is_integer() && size() > static_cast<size_t>(identifier.integer())) {
       return get(identifier);
     } else {
       return convert::cast<basic_packet>(std::forward<T>(opt));
-- 
2.43.0


From 586218e36bd422a0cabea97e1e12748b9ad93174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 27/66] fix: an odd number of values must be rejected instead
 of read past when making dynamic objects

---
 include/dart/heap/object.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dart/heap/object.tcc b/include/dart/heap/object.tcc
index bf08c94..7586a24 100644
--- a/include/dart/heap/object.tcc
+++ b/include/dart/heap/object.tcc
@@ -276,6 +276,9 @@ namespace dart {
   void basic_heap<RefCount>::inject_pairs(basic_heap& obj, Span pairs) {
     // Validate that what we're being asked to do makes sense.
     if (!obj.is_object()) throw type_error("dart::heap is not an object and cannot inject key-value pairs");
+    if (pairs.size() & 1) {
+      throw std::invalid_argument("dart::heap objects can only be extended by a sequence of key-value PAIRS");
+    }
 
     // Insert each of the requested pairs.
     auto end = std::end(pairs);
-- 
2.43.0


From 3a94b346c8d8da7c261bca6f3c70f1cc9b55a225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 28/66] fix: validation accepted booleans that are neither true
 nor false

---
 include/dart/primitive.tcc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dart/primitive.tcc b/include/dart/primitive.tcc
index 06eca5e..dd8dc4e 100644
--- a/include/dart/primitive.tcc
+++ b/include/dart/primitive.tcc
@@ -127,6 +127,12 @@ namespace dart {
         if (silent) return false;
         else throw validation_error("Serialized primitive value is truncated");
       }
+
+      // Loading a boolean that's neither zero nor one is undefined behavior
+      if (std::is_same<T, bool>::value && *reinterpret_cast<unsigned char const*>(this) > 1) {
+        if (silent) return false;
+        else throw validation_error("Serialized boolean is neither true nor false");
+      }
       return true;
     }
 
-- 
2.43.0


From c12e574d28444131f1d963a8ae81a57e702b86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 29/66] fix: validation accepted elements that overlap each
 other or the vtable

---
 include/dart/array.tcc  | 14 ++++++++------
 include/dart/object.tcc | 20 +++++++++++---------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/dart/array.tcc b/include/dart/array.tcc
index 7d73e12..5391761 100644
--- a/include/dart/array.tcc
+++ b/include/dart/array.tcc
@@ -311,28 +311,30 @@ namespace dart {
 
       // We now know the entire vtable is within bounds,
       // so iterate over it and check all contained children.
-      void const* prev = this;
+      // Everything must begin after the end of whatever came before it, as otherwise validating,
+      // or copying, a small buffer could take exponential time and space.
+      gsl::byte const* prev = vtable_end;
       for (auto raw_val : *this) {
         // Load the base address of the value and verify that it's within bounds.
         auto val_offset = raw_val.buffer - DART_FROM_THIS;
         if (val_offset > total_size) {
           if (silent) return false;
           else throw validation_error("Serialized array value offset is out of bounds");
-        } else if (raw_val.buffer <= prev) {
+        } else if (raw_val.buffer < prev) {
           if (silent) return false;
-          else throw validation_error("Serialized array value contained a negative or cyclic offset");
+          else throw validation_error("Serialized array value contained a negative, cyclic, or overlapping offset");
         } else if (align_pointer<RefCount>(raw_val.buffer, raw_val.type) != raw_val.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized array value offset does not meet alignment requirements");
         }
 
-        // Nulls don't occupy any space in the buffer, so the next value is allowed to share the same address.
-        if (raw_val.type != raw_type::null) prev = raw_val.buffer;
-
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         // If the buffer validation routine returns false, it means we're not throwing errors.
         auto valid_val = valid_buffer<silent, RefCount>(raw_val, total_size - val_offset);
         if (!valid_val) return false;
+
+        // Nulls don't occupy any space in the buffer, so the next value is allowed to share the same address.
+        prev = raw_val.buffer + find_sizeof<RefCount>(raw_val);
       }
       return true;
     }
diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 7b662fc..092b9c8 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -555,7 +555,9 @@ namespace dart {
 
       // We now know the entire vtable is within bounds,
       // so iterate over it and check all contained children.
-      void const* prev = this;
+      // Everything must begin after the end of whatever came before it, as code that copies
+      // fields around assumes their sizes sum to, at most, the size of the object.
+      gsl::byte const* prev = vtable_end;
       auto key_it = key_begin(), val_it = begin();
       while (val_it != end()) {
         // We know the whole vtable is within bounds, but it could still specify offsets that aren't,
@@ -567,14 +569,13 @@ namespace dart {
           // Key offset is out of bounds
           if (silent) return false;
           else throw validation_error("Serialized object key offset is out of bounds");
-        } else if (raw_key.buffer <= prev) {
+        } else if (raw_key.buffer < prev) {
           if (silent) return false;
-          else throw validation_error("Serialized object key contained a negative or cyclic offset");
+          else throw validation_error("Serialized object key contained a negative, cyclic, or overlapping offset");
         } else if (align_pointer<RefCount>(raw_key.buffer, raw_key.type) != raw_key.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized object key offset does not meet alignment requirements");
         }
-        prev = raw_key.buffer;
 
         // We now know that at least up to the base of the key is within bounds, so recurse on the key.
         // If the buffer validation routine returns false, it means we're not throwing errors.
@@ -582,6 +583,7 @@ namespace dart {
         // loads offset information from the key, and we haven't check if it's safe yet.
         auto valid_key = valid_buffer<silent, RefCount>(raw_key, total_size - key_offset);
         if (!valid_key) return false;
+        prev = raw_key.buffer + find_sizeof<RefCount>(raw_key);
 
         // Now we can dereference the value iterator since we know the key appears reasonable.
         // Load the base address of the value and verify that it's within bounds.
@@ -590,21 +592,21 @@ namespace dart {
         if (val_offset > total_size) {
           if (silent) return false;
           else throw validation_error("Serialized object value offset is out of bounds");
-        } else if (raw_val.buffer <= prev) {
+        } else if (raw_val.buffer < prev) {
           if (silent) return false;
-          else throw validation_error("Serialized object value contained a negative or cyclic offset");
+          else throw validation_error("Serialized object value contained a negative, cyclic, or overlapping offset");
         } else if (align_pointer<RefCount>(raw_val.buffer, raw_val.type) != raw_val.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized object value offset does not meet alignment requirements");
         }
 
-        // Nulls don't occupy any space in the buffer, so the next key is allowed to share the same address.
-        if (raw_val.type != raw_type::null) prev = raw_val.buffer;
-
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         auto valid_val = valid_buffer<silent, RefCount>(raw_val, total_size - val_offset);
         if (!valid_val) return false;
 
+        // Nulls don't occupy any space in the buffer, so the next key is allowed to share the same address.
+        prev = raw_val.buffer + find_sizeof<RefCount>(raw_val);
+
         // Check the next pair.
         ++key_it, ++val_it;
       }
-- 
2.43.0


From 1bb48540b1b6fcb5f7b885c4be19f3b3b9b68155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 30/66] fix: validation read misaligned buffers

---
 include/dart/common.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/dart/common.h b/include/dart/common.h
index 75a53ec..4e4c624 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -1292,6 +1292,17 @@ namespace dart {
       }
     }
 
+// Unfortunately some versions of GCC and MSVC aren't smart enough to figure
+// out that if this function is declared noexcept the throwing cases are dead code
+#if DART_USING_GCC
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wpragmas"
+#pragma GCC diagnostic ignored "-Wterminate"
+#elif DART_USING_MSVC
+#pragma warning(push)
+#pragma warning(disable: 4297)
+#endif
+
     template <bool silent, template <class> class RefCount>
     bool valid_buffer(raw_element elem, size_t bytes) noexcept(silent) {
       // Null is a special case because it occupies zero space in the network buffer
@@ -1300,10 +1311,22 @@ namespace dart {
       if (elem.type == raw_type::null) return true;
       else if (!valid_type(elem.type)) return false;
 
+      // Nothing can safely be loaded through a misaligned pointer, not even to validate it.
+      if (align_pointer<RefCount>(elem.buffer, elem.type) != elem.buffer) {
+        if (silent) return false;
+        else throw validation_error("Serialized buffer does not meet alignment requirements");
+      }
+
       // Call through to our implementation
       return generic_deref<RefCount>([=] (auto& v) { return v.template is_valid<silent>(bytes); }, elem);
     }
 
+#if DART_USING_GCC
+#pragma GCC diagnostic pop
+#elif DART_USING_MSVC
+#pragma warning(pop)
+#endif
+
     template <template <class> class RefCount>
     constexpr size_t sso_bytes() {
       return basic_heap<RefCount>::sso_bytes;
-- 
2.43.0


From 7a84f0390f8be31a01abeee947d3fb05d08bb708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 31/66] fix: validating an empty region terminated the program

---
 include/dart/common.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dart/common.h b/include/dart/common.h
index 4e4c624..0face4d 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -1311,6 +1311,12 @@ namespace dart {
       if (elem.type == raw_type::null) return true;
       else if (!valid_type(elem.type)) return false;
 
+      // An empty region is allowed to have no address at all.
+      if (!elem.buffer) {
+        if (silent) return false;
+        else throw validation_error("Serialized buffer is empty");
+      }
+
       // Nothing can safely be loaded through a misaligned pointer, not even to validate it.
       if (align_pointer<RefCount>(elem.buffer, elem.type) != elem.buffer) {
         if (silent) return false;
-- 
2.43.0


From f14573472bdf8b8a8c8bc2ae3803249ae0272060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 32/66] fix: decimals in JSON were not parsed to the nearest
 double

---
 include/dart/connector/json.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index e143078..065bd02 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -146,7 +146,7 @@ namespace dart {
 
     // Parse!
     rapidjson::MemoryStream ss(json.data(), json.size());
-    if (reader.Parse<flags>(ss, context)) {
+    if (reader.Parse<flags | rapidjson::kParseFullPrecisionFlag>(ss, context)) {
       return context.curr_obj;
     } else {
       auto err = reader.GetParseErrorCode();
@@ -170,7 +170,7 @@ namespace dart {
 
     // Fire up RapidJSON.
     rapidjson::Document doc;
-    if (doc.ParseInsitu<flags>(buf.get()).HasParseError()) {
+    if (doc.ParseInsitu<flags | rapidjson::kParseFullPrecisionFlag>(buf.get()).HasParseError()) {
       auto err = doc.GetParseError();
       auto off = doc.GetErrorOffset();
       std::string errmsg = "dart::buffer could not parse the given string due to: \"";
-- 
2.43.0


From 1d4e63d3e62b7cf506acceeab95880284577275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 33/66] fix: undo full precision parsing, RapidJSON 1.1.0 reads
 out of bounds in that mode

---
 include/dart/connector/json.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index 065bd02..e143078 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -146,7 +146,7 @@ namespace dart {
 
     // Parse!
     rapidjson::MemoryStream ss(json.data(), json.size());
-    if (reader.Parse<flags | rapidjson::kParseFullPrecisionFlag>(ss, context)) {
+    if (reader.Parse<flags>(ss, context)) {
       return context.curr_obj;
     } else {
       auto err = reader.GetParseErrorCode();
@@ -170,7 +170,7 @@ namespace dart {
 
     // Fire up RapidJSON.
     rapidjson::Document doc;
-    if (doc.ParseInsitu<flags | rapidjson::kParseFullPrecisionFlag>(buf.get()).HasParseError()) {
+    if (doc.ParseInsitu<flags>(buf.get()).HasParseError()) {
       auto err = doc.GetParseError();
       auto off = doc.GetErrorOffset();
       std::string errmsg = "dart::buffer could not parse the given string due to: \"";
-- 
2.43.0


From b89ccf5f555d9b4c5f3dbbb714ef0083ecc4cb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 34/66] fix: switching the reference counter of an element of a
 finalized value threw

---
 include/dart/buffer/api.tcc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/dart/buffer/api.tcc b/include/dart/buffer/api.tcc
index 54e2e1a..e14b7ea 100644
--- a/include/dart/buffer/api.tcc
+++ b/include/dart/buffer/api.tcc
@@ -185,7 +185,15 @@ namespace dart {
   template <template <class> class RefCount>
   template <template <class> class NewCount>
   basic_buffer<NewCount> basic_buffer<RefCount>::transmogrify(basic_buffer const& buffer) {
-    return basic_buffer<NewCount> {buffer.dup_bytes()};
+    // Null doesn't occupy any space in the network buffer.
+    if (buffer.is_null()) return basic_buffer<NewCount>::make_null();
+    else if (buffer.is_object()) return basic_buffer<NewCount> {buffer.dup_bytes()};
+
+    // Anything else can only exist inside of an object, and so has to bring it along.
+    auto* base = buffer.buffer_ref.get();
+    auto dup = basic_buffer {{detail::raw_type::object, base}, buffer.buffer_ref}.dup_bytes();
+    detail::raw_element elem {buffer.raw.type, dup.get() + (buffer.raw.buffer - base)};
+    return basic_buffer<NewCount> {elem, basic_buffer<NewCount> {std::move(dup)}.buffer_ref};
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 8db385c94245ad81f484aa6568d236a5f916ff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:28 +0000
Subject: [PATCH 35/66] fix: importing bytes from a span kept reading the
 caller's memory

---
 include/dart.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dart.h b/include/dart.h
index b3ce7ac..1507213 100644
--- a/include/dart.h
+++ b/include/dart.h
@@ -8007,9 +8007,12 @@ namespace dart {
         >
       >
       explicit basic_buffer(gsl::span<gsl::byte const> buffer) :
-        raw({detail::raw_type::object, buffer.data()}),
+        raw({detail::raw_type::object, nullptr}),
         buffer_ref(allocate_pointer(buffer))
-      {}
+      {
+        // Refer to our own copy, the given memory may go away.
+        raw.buffer = buffer_ref.get();
+      }
 
       /**
        *  @brief
-- 
2.43.0


From 5a97fc1deace14f1fa3e6e7c9b70f20e00cc40c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 36/66] fix: string_view searches disagreed with
 std::string_view (rfind, find_last_of, find_*_not_of, overflow in find)

---
 include/dart/support/string_view.h   | 16 +++++++-------
 include/dart/support/string_view.tcc | 33 ++++++++++++++--------------
 2 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/include/dart/support/string_view.h b/include/dart/support/string_view.h
index fd453a6..84f3ee1 100644
--- a/include/dart/support/string_view.h
+++ b/include/dart/support/string_view.h
@@ -124,29 +124,29 @@ namespace dart {
       constexpr auto find(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
       constexpr auto find(const_pointer target, size_type offset = 0) const noexcept -> size_type;
       constexpr auto rfind(basic_string_view target, size_type offset = npos) const noexcept -> size_type;
-      constexpr auto rfind(value_type target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto rfind(value_type target, size_type offset = npos) const noexcept -> size_type;
       constexpr auto rfind(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
-      constexpr auto rfind(const_pointer target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto rfind(const_pointer target, size_type offset = npos) const noexcept -> size_type;
 
       // Membership Checks.
       constexpr auto find_first_of(basic_string_view target, size_type offset = 0) const noexcept -> size_type;
       constexpr auto find_first_of(value_type target, size_type offset = 0) const noexcept -> size_type;
       constexpr auto find_first_of(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
       constexpr auto find_first_of(const_pointer target, size_type offset = 0) const noexcept -> size_type;
-      constexpr auto find_last_of(basic_string_view target, size_type offset = 0) const noexcept -> size_type;
-      constexpr auto find_last_of(value_type target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto find_last_of(basic_string_view target, size_type offset = npos) const noexcept -> size_type;
+      constexpr auto find_last_of(value_type target, size_type offset = npos) const noexcept -> size_type;
       constexpr auto find_last_of(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
-      constexpr auto find_last_of(const_pointer target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto find_last_of(const_pointer target, size_type offset = npos) const noexcept -> size_type;
 
       // Negated Membership Checks.
       constexpr auto find_first_not_of(basic_string_view target, size_type offset = 0) const noexcept -> size_type;
       constexpr auto find_first_not_of(value_type target, size_type offset = 0) const noexcept -> size_type;
       constexpr auto find_first_not_of(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
       constexpr auto find_first_not_of(const_pointer target, size_type offset = 0) const noexcept -> size_type;
-      constexpr auto find_last_not_of(basic_string_view target, size_type offset = 0) const noexcept -> size_type;
-      constexpr auto find_last_not_of(value_type target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto find_last_not_of(basic_string_view target, size_type offset = npos) const noexcept -> size_type;
+      constexpr auto find_last_not_of(value_type target, size_type offset = npos) const noexcept -> size_type;
       constexpr auto find_last_not_of(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
-      constexpr auto find_last_not_of(const_pointer target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto find_last_not_of(const_pointer target, size_type offset = npos) const noexcept -> size_type;
 
       /*----- Iteration -----*/
 
diff --git a/include/dart/support/string_view.tcc b/include/dart/support/string_view.tcc
index f3283e5..583a629 100644
--- a/include/dart/support/string_view.tcc
+++ b/include/dart/support/string_view.tcc
@@ -219,7 +219,7 @@ namespace dart {
     -> size_type
   {
     // Short circuit if we can't possibly contain the target.
-    if (target.size() + offset > size()) return npos;
+    if (offset > size() || target.size() > size() - offset) return npos;
 
     // Search until we find it or walk off the end.
     while (offset + target.size() <= size()) {
@@ -254,13 +254,13 @@ namespace dart {
   constexpr auto basic_string_view<CharT, Traits>::rfind(basic_string_view target, size_type offset) const noexcept
     -> size_type
   {
-    // Clamp our offset.
-    ssize_t safe_offset = std::min(offset, size());
+    // Short circuit if we can't possibly contain the target.
+    if (target.size() > size()) return npos;
 
-    // Search until we find it or walk off the front.
-    while (safe_offset - static_cast<ssize_t>(target.size()) >= 0) {
-      if (compare(offset, target.size(), target) == 0) return offset;
-      --offset;
+    // Search backwards from the last place the target could start until we find it or walk off the front.
+    auto curr = std::min(offset, size() - target.size()) + 1;
+    while (curr-- > 0) {
+      if (compare(curr, target.size(), target) == 0) return curr;
     }
     return npos;
   }
@@ -330,11 +330,11 @@ namespace dart {
     -> size_type
   {
     // Short-circuit if we know this can't work.
-    auto len = size();
-    if (offset >= len) return npos;
+    if (empty()) return npos;
 
-    // Try to find one of the requested characters.
-    auto found = std::find_if(rbegin() + offset, rend(), [=] (auto c) {
+    // Try to find one of the requested characters, walking backwards from the given position.
+    auto skipped = size() - 1 - std::min(offset, size() - 1);
+    auto found = std::find_if(rbegin() + skipped, rend(), [=] (auto c) {
       return target.find(c) != npos;
     });
     return found != rend() ? rend() - found - 1 : npos;
@@ -373,7 +373,7 @@ namespace dart {
     auto found = std::find_if(begin() + offset, end(), [=] (auto c) {
       return target.find(c) == npos;
     });
-    return found != end() ? begin() - found : npos;
+    return found != end() ? found - begin() : npos;
   }
 
   template <class CharT, class Traits>
@@ -406,13 +406,14 @@ namespace dart {
     -> size_type
   {
     // Short-circuit if we know this can't work.
-    if (offset >= size()) return npos;
+    if (empty()) return npos;
 
-    // Try to find one of the requested characters.
-    auto found = std::find_if(rbegin() + offset, rend(), [=] (auto c) {
+    // Try to find one of the requested characters, walking backwards from the given position.
+    auto skipped = size() - 1 - std::min(offset, size() - 1);
+    auto found = std::find_if(rbegin() + skipped, rend(), [=] (auto c) {
       return target.find(c) == npos;
     });
-    return found != rend() ? rbegin() - found : npos;
+    return found != rend() ? rend() - found - 1 : npos;
   }
 
   template <class CharT, class Traits>
-- 
2.43.0


From df10796727923994a827de25581238aaf9e311ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 37/66] fix: string_view::compare with an offset past the end
 terminated instead of throwing

---
 include/dart/support/string_view.h   | 4 ++--
 include/dart/support/string_view.tcc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dart/support/string_view.h b/include/dart/support/string_view.h
index 84f3ee1..8a781d3 100644
--- a/include/dart/support/string_view.h
+++ b/include/dart/support/string_view.h
@@ -106,9 +106,9 @@ namespace dart {
       constexpr int compare(size_type offset_one, size_type count_one,
           basic_string_view other, size_type offset_two, size_type count_two) const;
       constexpr int compare(const_pointer other) const noexcept;
-      constexpr int compare(size_type offset, size_type count, const_pointer other) const noexcept;
+      constexpr int compare(size_type offset, size_type count, const_pointer other) const;
       constexpr int compare(size_type offset,
-          size_type count_one, const_pointer other, size_type count_two) const noexcept;
+          size_type count_one, const_pointer other, size_type count_two) const;
 
       // Prefix/suffix checks.
       constexpr bool starts_with(basic_string_view other) const noexcept;
diff --git a/include/dart/support/string_view.tcc b/include/dart/support/string_view.tcc
index 583a629..de621ef 100644
--- a/include/dart/support/string_view.tcc
+++ b/include/dart/support/string_view.tcc
@@ -174,13 +174,13 @@ namespace dart {
 
   template <class CharT, class Traits>
   constexpr int basic_string_view<CharT, Traits>::compare(size_type offset,
-      size_type count, const_pointer other) const noexcept {
+      size_type count, const_pointer other) const {
     return substr(offset, count).compare(basic_string_view {other});
   }
 
   template <class CharT, class Traits>
   constexpr int basic_string_view<CharT, Traits>::compare(size_type offset,
-      size_type count_one, const_pointer other, size_type count_two) const noexcept {
+      size_type count_one, const_pointer other, size_type count_two) const {
     return substr(offset, count_one).compare(basic_string_view {other, count_two});
   }
 
-- 
2.43.0


From 6470f3b4b9db95628f2712db7e969f71c842b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 38/66] fix: streaming a string_view ignored its size

---
 include/dart/support/string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/support/string_view.h b/include/dart/support/string_view.h
index 8a781d3..a811f2c 100644
--- a/include/dart/support/string_view.h
+++ b/include/dart/support/string_view.h
@@ -204,8 +204,8 @@ namespace dart {
   template <class CharT, class Traits>
   std::basic_ostream<CharT, Traits>&
   operator <<(std::basic_ostream<CharT, Traits>& os, basic_string_view<CharT, Traits> str) {
-    // Not standard compliant, and will fail with embedded nulls, but it'll work.
-    return (os << str.data());
+    // The characters aren't necessarily terminated, and may contain embedded nulls.
+    return (os << std::basic_string<CharT, Traits>(str.data(), str.size()));
   }
 
   using string_view = basic_string_view<char>;
-- 
2.43.0


From c47fe97bc03c51da63dbac966a46db9627827b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 39/66] fix: compound assignment of ordered values converted
 the operand before computing

---
 include/dart/support/ordered.tcc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/dart/support/ordered.tcc b/include/dart/support/ordered.tcc
index da6c253..c813f54 100644
--- a/include/dart/support/ordered.tcc
+++ b/include/dart/support/ordered.tcc
@@ -87,28 +87,28 @@ namespace dart {
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator +=(Operand op) noexcept -> ordered& {
-      increment(op);
+      mutate([&] (auto v) { return static_cast<value_type>(v + op); });
       return *this;
     }
 
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator -=(Operand op) noexcept -> ordered& {
-      increment(-op);
+      mutate([&] (auto v) { return static_cast<value_type>(v - op); });
       return *this;
     }
 
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator *=(Operand op) noexcept -> ordered& {
-      scale(op);
+      mutate([&] (auto v) { return static_cast<value_type>(v * op); });
       return *this;
     }
 
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator /=(Operand op) noexcept -> ordered& {
-      shrink(op);
+      mutate([&] (auto v) { return static_cast<value_type>(v / op); });
       return *this;
     }
 
@@ -136,14 +136,14 @@ namespace dart {
     template <class T, class O>
     template <class Value, class EnableIf>
     auto ordered<T, O>::operator ++() noexcept -> ordered& {
-      increment(1);
+      *this += 1;
       return *this;
     }
 
     template <class T, class O>
     template <class Value, class EnableIf>
     auto ordered<T, O>::operator --() noexcept -> ordered& {
-      increment(-1);
+      *this -= 1;
       return *this;
     }
 
@@ -151,7 +151,7 @@ namespace dart {
     template <class Value, class EnableIf>
     auto ordered<T, O>::operator ++(int) noexcept -> value_type {
       auto that = get();
-      increment(1);
+      *this += 1;
       return that;
     }
 
@@ -159,7 +159,7 @@ namespace dart {
     template <class Value, class EnableIf>
     auto ordered<T, O>::operator --(int) noexcept -> value_type {
       auto that = get();
-      increment(-1);
+      *this -= 1;
       return that;
     }
 
-- 
2.43.0


From 222ce23a5635ef7dd098f5bd11837a1d64039cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 40/66] fix: optional::value did not compile for rvalues

---
 include/dart/support/optional.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/support/optional.tcc b/include/dart/support/optional.tcc
index fc1f311..8caa848 100644
--- a/include/dart/support/optional.tcc
+++ b/include/dart/support/optional.tcc
@@ -233,13 +233,13 @@ namespace dart {
 
   template <class T>
   auto optional<T>::value() && -> value_type&& {
-    if (*this) return *access();
+    if (*this) return std::move(*access());
     else throw bad_optional_access {};
   }
 
   template <class T>
   auto optional<T>::value() const&& -> value_type const&& {
-    if (*this) return *access();
+    if (*this) return std::move(*access());
     else throw bad_optional_access {};
   }
 
-- 
2.43.0


From 086a9f4141c6c3bd0175c430ef8e095d05691fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 41/66] fix: assigning a counted pointer from inside of what it
 owns used freed memory

---
 include/dart/support/ptrs.tcc | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 9ad51bf..45f4031 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -90,12 +90,9 @@ namespace dart {
     template <class U, class EnableIf>
     counted_ptr_base<T, Counter>&
     counted_ptr_base<T, Counter>::operator =(counted_ptr_base<U, Counter>&& other) noexcept {
-      if (value == other.value) return *this;
-
-      // Defer to destructor and move constructor to keep from copying stateful, easy to screw up, code
-      // all over the place.
-      this->~counted_ptr_base();
-      new(this) counted_ptr_base(std::move(other));
+      // Take ownership before letting go of what we had, as other might live inside of it.
+      counted_ptr_base tmp(std::move(other));
+      std::swap(value, tmp.value);
       return *this;
     }
 
@@ -113,10 +110,9 @@ namespace dart {
     counted_ptr_base<T, Counter>& counted_ptr_base<T, Counter>::operator =(counted_ptr_base&& other) noexcept {
       if (this == &other) return *this;
 
-      // Defer to destructor and move constructor to keep from copying stateful, easy to screw up, code
-      // all over the place.
-      this->~counted_ptr_base();
-      new(this) counted_ptr_base(std::move(other));
+      // Take ownership before letting go of what we had, as other might live inside of it.
+      counted_ptr_base tmp(std::move(other));
+      std::swap(value, tmp.value);
       return *this;
     }
 
@@ -196,8 +192,7 @@ namespace dart {
 
     template <class T, class Counter>
     void counted_ptr_base<T, Counter>::reset() noexcept {
-      this->~counted_ptr_base();
-      new(this) counted_ptr_base();
+      counted_ptr_base tmp(std::move(*this));
     }
 
     template <class T, class Counter>
@@ -296,8 +291,11 @@ namespace dart {
     // XXX: If you have a throwing move constructor, you get what you deserve.
     // I'm not allocating to avoid this, and I'm definitely not adding a "valueless by exception" state.
     // Good people don't throw from move constructors.
+
+    // Take ownership before letting go of what we had, as other might live inside of it.
+    shareable_ptr tmp {std::move(other)};
     this->~shareable_ptr();
-    new(this) shareable_ptr(std::move(other));
+    new(this) shareable_ptr(std::move(tmp));
     return *this;
   }
 
@@ -322,8 +320,11 @@ namespace dart {
     // I'm not allocating to avoid this, and I'm definitely not adding a "valueless by exception" state.
     // Good people don't throw from move constructors.
     if (this == &other) return *this;
+
+    // Take ownership before letting go of what we had, as other might live inside of it.
+    shareable_ptr tmp {std::move(other)};
     this->~shareable_ptr();
-    new(this) shareable_ptr(std::move(other));
+    new(this) shareable_ptr(std::move(tmp));
     return *this;
   }
 
-- 
2.43.0


From 024af86336c931d84c0711b7938296af0bda2f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 42/66] fix: counted pointers to nothing claimed to hold
 something and compared unequal

---
 include/dart/support/ptrs.tcc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 45f4031..39806b9 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -139,7 +139,7 @@ namespace dart {
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator ==(counted_ptr_base const& other) const noexcept {
-      return value == other.value;
+      return get() == other.get();
     }
 
     template <class T, class Counter>
@@ -149,27 +149,27 @@ namespace dart {
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator <(counted_ptr_base const& other) const noexcept {
-      return value < other.value;
+      return get() < other.get();
     }
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator <=(counted_ptr_base const& other) const noexcept {
-      return value <= other.value;
+      return get() <= other.get();
     }
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator >(counted_ptr_base const& other) const noexcept {
-      return value > other.value;
+      return get() > other.get();
     }
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator >=(counted_ptr_base const& other) const noexcept {
-      return value >= other.value;
+      return get() >= other.get();
     }
 
     template <class T, class Counter>
     counted_ptr_base<T, Counter>::operator bool() const noexcept {
-      return value != nullptr;
+      return get() != nullptr;
     }
 
     template <class T, class Counter>
-- 
2.43.0


From e0c39fdc07bdc78d9726249b1b07ecedd8cb83cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 43/66] fix: taking ownership of a pointer leaked or
 double-freed it when the reference counter could not be allocated

---
 include/dart/buffer/detail.tcc |  5 +++--
 include/dart/refcount_traits.h |  9 ++-------
 include/dart/support/ptrs.h    |  6 ++----
 include/dart/support/ptrs.tcc  | 18 ++++++++++++++++--
 4 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/include/dart/buffer/detail.tcc b/include/dart/buffer/detail.tcc
index 372a50e..be84b31 100644
--- a/include/dart/buffer/detail.tcc
+++ b/include/dart/buffer/detail.tcc
@@ -46,8 +46,9 @@ namespace dart {
     // This whole business is necessary to allow std::unique_ptr<gsl::byte const[]>
     // to convert to std::shared_ptr<gsl::byte const>, which the STL doesn't define
     // a conversion for, but is convenient for this library.
-    buffer_ref_type tmp(ptr.get(), std::move(ptr.get_deleter()));
-    ptr.release();
+    // The reference counter owns the pointer from here on, even if it fails.
+    auto* owned = ptr.release();
+    buffer_ref_type tmp(owned, std::move(ptr.get_deleter()));
     return tmp;
   }
 
diff --git a/include/dart/refcount_traits.h b/include/dart/refcount_traits.h
index b3027ed..9c37f4d 100644
--- a/include/dart/refcount_traits.h
+++ b/include/dart/refcount_traits.h
@@ -32,13 +32,8 @@ namespace dart {
         >
       >
       static void perform(T* that, Args&&... the_args) {
-        auto* owner = new typename T::element_type(std::forward<Args>(the_args)...);
-        try {
-          new(that) T(owner);
-        } catch (...) {
-          delete owner;
-          throw;
-        }
+        // Like std::shared_ptr, the reference counter owns the pointer from here on, even if it fails.
+        new(that) T(new typename T::element_type(std::forward<Args>(the_args)...));
       }
 
     };
diff --git a/include/dart/support/ptrs.h b/include/dart/support/ptrs.h
index 423d174..008f2a3 100644
--- a/include/dart/support/ptrs.h
+++ b/include/dart/support/ptrs.h
@@ -73,12 +73,10 @@ namespace dart {
         counted_ptr_base() noexcept : value(nullptr) {}
         counted_ptr_base(std::nullptr_t) noexcept : value(nullptr) {}
         explicit counted_ptr_base(ptr_type<T> ptr) :
-          value(new managed_ptr_eraser<counter_type, ptr_type<T>, managed_ptr_deleter<ptr_type<T>>>(ptr, 1))
+          counted_ptr_base(ptr, managed_ptr_deleter<ptr_type<T>> {})
         {}
         template <class Deleter>
-        counted_ptr_base(ptr_type<T> ptr, Deleter&& deleter) :
-          value(new managed_ptr_eraser<counter_type, ptr_type<T>, Deleter>(ptr, 1, std::move(deleter)))
-        {}
+        counted_ptr_base(ptr_type<T> ptr, Deleter&& deleter);
         template <class U, class EnableIf =
           std::enable_if_t<
             std::is_convertible<ptr_type<U>, ptr_type<T>>::value
diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 39806b9..dfef359 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -26,6 +26,19 @@ namespace dart {
       deleter(reinterpret_cast<std::decay_t<PtrType>>(this->ptr));
     }
 
+    template <class T, class Counter>
+    template <class Deleter>
+    counted_ptr_base<T, Counter>::counted_ptr_base(ptr_type<T> ptr, Deleter&& deleter) {
+      // Like std::shared_ptr, we own the pointer from here on, even if we fail.
+      using eraser = managed_ptr_eraser<counter_type, ptr_type<T>, std::decay_t<Deleter>>;
+      try {
+        value = new eraser(ptr, 1, std::forward<Deleter>(deleter));
+      } catch (...) {
+        deleter(ptr);
+        throw;
+      }
+    }
+
     template <class T, class Counter>
     template <class U, class EnableIf>
     counted_ptr_base<T, Counter>::counted_ptr_base(counted_ptr_base<U, Counter> const& other) noexcept :
@@ -240,8 +253,9 @@ namespace dart {
   shareable_ptr<T>::shareable_ptr(std::unique_ptr<U, D>&& ptr)
     noexcept(refcount_traits<T>::template can_nothrow_take<U*, D>::value)
   {
-    refcount_traits<T>::take(&impl, ptr.get(), std::move(ptr.get_deleter()));
-    ptr.release();
+    // The reference counter owns the pointer from here on, even if it fails.
+    auto* owned = ptr.release();
+    refcount_traits<T>::take(&impl, owned, std::move(ptr.get_deleter()));
   }
 
   template <class T>
-- 
2.43.0


From 9cb99a9b92f1b5b8f9109fe621e15e9acdb84f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:17 +0000
Subject: [PATCH 44/66] fix: converting assignment of optionals was never
 selected

---
 include/dart/support/optional.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dart/support/optional.h b/include/dart/support/optional.h
index c12b097..10aadc2 100644
--- a/include/dart/support/optional.h
+++ b/include/dart/support/optional.h
@@ -61,9 +61,8 @@ namespace dart {
 
     template <class T, class U>
     struct assignment_conversion_check {
-      static constexpr auto value = !(
-        constructor_conversion_check<T, U>::value
-        || std::is_assignable<T&, optional<U>&>::value
+      static constexpr auto value = constructor_conversion_check<T, U>::value && !(
+        std::is_assignable<T&, optional<U>&>::value
         || std::is_assignable<T&, optional<U> const&>::value
         || std::is_assignable<T&, optional<U>&&>::value
         || std::is_assignable<T&, optional<U> const&&>::value
-- 
2.43.0


From 356c1b8ce66c654c8d86c8b71507b2c5bf27414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 45/66] fix: a counted pointer made from an empty unique_ptr
 counted an owner

---
 include/dart/support/ptrs.tcc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index dfef359..5874f24 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -57,15 +57,15 @@ namespace dart {
 
     template <class T, class Counter>
     template <class U, class Deleter, class EnableIf>
-    counted_ptr_base<T, Counter>::counted_ptr_base(std::unique_ptr<U, Deleter>&& ptr) :
-      value(
-        new managed_ptr_eraser<
-          Counter,
-          ptr_type<typename std::unique_ptr<U, Deleter>::element_type>,
-          Deleter
-        >(ptr.get(), 1, std::move(ptr.get_deleter()))
-      )
-    {
+    counted_ptr_base<T, Counter>::counted_ptr_base(std::unique_ptr<U, Deleter>&& ptr) : value(nullptr) {
+      // Nothing to own.
+      if (!ptr) return;
+
+      value = new managed_ptr_eraser<
+        Counter,
+        ptr_type<typename std::unique_ptr<U, Deleter>::element_type>,
+        Deleter
+      >(ptr.get(), 1, std::move(ptr.get_deleter()));
       ptr.release();
     }
 
-- 
2.43.0


From 66dc3b8806fac830e308093ba53a48f87ecb9e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 46/66] fix: a map with a null-like value compared equal to an
 object without that key

---
 include/dart/conversions.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index ba22069..3986dfb 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -70,8 +70,12 @@ namespace dart {
         // and the same if not, so iterate over the map.
         typename Packet::view v = pkt;
         for (auto& pair : map) {
-          auto val = cb(v, pair.first);
-          if (val != pair.second) return false;
+          auto&& key = cb(pair.first);
+          auto val = v[key];
+
+          // Absent keys read as null, so null values need an explicit check for presence.
+          if (val.is_null() && !v.has_key(key)) return false;
+          else if (val != pair.second) return false;
         }
         return true;
       }
@@ -79,7 +83,7 @@ namespace dart {
       // General case of comparing a Dart type against a std map.
       template <class Packet, class Map>
       bool generic_map_compare(Packet const& pkt, Map const& map, std::true_type) {
-        return generic_map_compare_impl(pkt, map, [] (auto& v, auto& k) { return v[k]; });
+        return generic_map_compare_impl(pkt, map, [] (auto& k) -> auto& { return k; });
       }
 
       template <class Packet, class Map>
@@ -90,7 +94,7 @@ namespace dart {
         // but which is NOT convertible into std::string_view
         // which means our only recourse is to create a temporary
         // packet for each key with which to perform the lookup.
-        return generic_map_compare_impl(pkt, map, [] (auto& v, auto& k) { return v[convert::cast(k)]; });
+        return generic_map_compare_impl(pkt, map, [] (auto& k) { return convert::cast(k); });
       }
 
       template <class Packet, class Map, class Extract, class Next>
-- 
2.43.0


From 0e72d95f83856fe067aa79bd1de0df0b69028f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 47/66] fix: a multimap compared equal to an object with
 further keys

---
 include/dart/conversions.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index 3986dfb..b338149 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -101,10 +101,12 @@ namespace dart {
       bool generic_multimap_compare_impl(Packet const& pkt, Map const& map, Extract&& extract, Next&& next) {
         auto end = map.end();
         auto it = map.begin();
+        size_t unique_keys = 0;
         typename Packet::view v = pkt;
         while (it != end) {
           // Find the end iterator for this key
           auto edge = next(it, end);
+          ++unique_keys;
           
           // Get the Dart equivalent.
           auto val = extract(v, it->first);
@@ -120,7 +122,9 @@ namespace dart {
           // Skip past all records with this key.
           it = edge;
         }
-        return true;
+
+        // Every key we were given was present, so make sure those are all there are.
+        return v.size() == unique_keys;
       }
 
       template <class Packet, class Key, class Value, class Comp, class Alloc>
-- 
2.43.0


From c0774bfb87adc561a4ca8f9265faff98fe110763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 48/66] fix: comparing an array against a shorter
 std::forward_list read past the end of the list

---
 include/dart/conversions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index b338149..047e39b 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -598,7 +598,7 @@ namespace dart {
         auto it = lst.cbegin();
         typename Packet::view v = pkt;
         for (auto val : v) {
-          if (val != *it) return false;
+          if (it == lst.cend() || val != *it) return false;
           ++it;
         }
         return it == lst.cend();
-- 
2.43.0


From d5ad6b053a5d93fb00c4e6af4150814a5465480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 49/66] fix: running out of memory while converting to a
 variant selected another alternative

---
 include/dart/conversions.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index 047e39b..8af9713 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -1275,6 +1275,9 @@ namespace dart {
         auto opt = [&] () -> shim::optional<Curr> {
           try {
             return convert::cast<Curr>(pkt);
+          } catch (std::bad_alloc const&) {
+            // Doesn't tell us anything about whether the conversion was possible.
+            throw;
           } catch (...) {
             return shim::nullopt;
           }
-- 
2.43.0


From fed6e70dd0d33e8dd3bcad0c52b5f4ad78d44735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 50/66] fix: integers were silently truncated by conversions to
 narrower integer types

---
 include/dart/conversion_traits.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/dart/conversion_traits.h b/include/dart/conversion_traits.h
index fedc745..458d8b3 100644
--- a/include/dart/conversion_traits.h
+++ b/include/dart/conversion_traits.h
@@ -979,7 +979,15 @@ namespace dart {
           if (!pkt.is_integer()) {
             report_type_mismatch(dart::detail::type::integer, pkt.get_type());
           }
-          return static_cast<T>(pkt.integer());
+
+          // Don't silently truncate integers that the requested type can't represent.
+          // Types as wide as our own wrap around losslessly, as they did on the way in.
+          auto val = pkt.integer();
+          auto conv = static_cast<T>(val);
+          if (sizeof(T) < sizeof(val) && static_cast<int64_t>(conv) != val) {
+            throw type_error("Encountered integer out of range of the requested type during serialization");
+          }
+          return conv;
         }
       };
       template <>
-- 
2.43.0


From 3b038542952bc84d95e071382571c3a01acf2aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 51/66] fix: date strings with trailing characters or
 impossible fields were silently accepted

---
 include/dart/conversions.h | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index 8af9713..e3c0b9e 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -1530,27 +1530,38 @@ namespace dart {
         return date;
       }
 
-      sys_time_point convert(char const* str) {
+      sys_time_point convert(shim::string_view str) {
         // It's the year 2020
         float s;
-        int y, M, d, h, m;
-        int ret = sscanf(str, "%d-%d-%dT%d:%d:%fZ", &y, &M, &d, &h, &m, &s);
-        if (ret != 6) {
+        int y, M, d, h, m, read = 0;
+        int ret = sscanf(str.data(), "%4d-%2d-%2dT%2d:%2d:%fZ%n", &y, &M, &d, &h, &m, &s, &read);
+        if (ret != 6 || static_cast<size_t>(read) != str.size()) {
           throw type_error("Unable to parse date string during serialization");
         }
 
         // And I'm still parsing my dates
-        std::tm time;
+        std::tm time {};
         time.tm_year = y - 1900;              // Year since 1900
         time.tm_mon = M - 1;                  // 0-11
         time.tm_mday = d;                     // 1-31
         time.tm_hour = h;                     // 0-23
         time.tm_min = m;                      // 0-59
-        time.tm_sec = static_cast<int>(s);    // 0-59
 
         // With sscanf
         // Unbelievable
-        auto tp = std::chrono::system_clock::from_time_t(shim::timegm(&time));
+        // Conversion normalizes its argument, so anything it changed was out of range.
+        auto t = shim::timegm(&time);
+        bool exact = time.tm_mon == M - 1 && time.tm_mday == d && time.tm_hour == h && time.tm_min == m;
+        if (!exact || !(s >= 0 && s < 61)) {
+          throw type_error("Date string contained fields out of range during serialization");
+        }
+        using std::chrono::system_clock;
+        using std::chrono::seconds;
+        auto limit = std::chrono::duration_cast<seconds>(system_clock::duration::max()) - seconds(61);
+        if (t > limit.count() || t < -limit.count()) {
+          throw type_error("Date string is outside of the range of the clock");
+        }
+        auto tp = system_clock::from_time_t(t + static_cast<int>(s));
         return std::chrono::time_point_cast<Duration>(tp);
       }
 
@@ -1564,7 +1575,7 @@ namespace dart {
         if (!pkt.is_str()) {
           detail::report_type_mismatch(dart::detail::type::string, pkt.get_type());
         }
-        return convert(pkt.str());
+        return convert(pkt.strv());
       }
 
       // Equality
-- 
2.43.0


From c9bff26b2ed8b3920644245f97fb23a95c7227fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 52/66] fix: comparing a set with an array mixing integers and
 decimals matched elements the set lacks

---
 include/dart/conversions.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index e3c0b9e..861ab1d 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -996,7 +996,7 @@ namespace dart {
         // sets as arrays, so we don't have any efficient way to look up set
         // members in constant time.
         // Thus, this currently hands off to std::is_permutation.
-        return std::is_permutation(pkt.begin(), pkt.end(), set.begin());
+        return std::is_permutation(set.begin(), set.end(), pkt.begin());
       }
     };
 
@@ -1065,7 +1065,7 @@ namespace dart {
         // sets as arrays, so we don't have any efficient way to look up set
         // members in constant time.
         // Thus, this currently hands off to std::is_permutation.
-        return std::is_permutation(pkt.begin(), pkt.end(), set.begin());
+        return std::is_permutation(set.begin(), set.end(), pkt.begin());
       }
     };
 
@@ -1137,7 +1137,7 @@ namespace dart {
         // sets as arrays, so we don't have any efficient way to look up set
         // members in constant time.
         // Thus, this currently hands off to std::is_permutation.
-        return std::is_permutation(pkt.begin(), pkt.end(), set.begin());
+        return std::is_permutation(set.begin(), set.end(), pkt.begin());
       }
     };
 
@@ -1206,7 +1206,7 @@ namespace dart {
         // sets as arrays, so we don't have any efficient way to look up set
         // members in constant time.
         // Thus, this currently hands off to std::is_permutation.
-        return std::is_permutation(pkt.begin(), pkt.end(), set.begin());
+        return std::is_permutation(set.begin(), set.end(), pkt.begin());
       }
     };
 
-- 
2.43.0


From 60444a41426ae6a82e3c69637788a38db6482e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 53/66] fix: concatenating a native string with a typed string
 ignored the order of the operands

---
 include/dart/operators.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/operators.tcc b/include/dart/operators.tcc
index 7ddf477..7fdfa63 100644
--- a/include/dart/operators.tcc
+++ b/include/dart/operators.tcc
@@ -63,8 +63,8 @@ namespace dart {
     >
   >
   basic_string<String> operator +(Str const& lhs, basic_string<String> const& rhs) {
-    shim::string_view str = rhs;
-    return basic_string<String> {lhs, str};
+    shim::string_view str = lhs;
+    return basic_string<String> {str, rhs};
   }
 
 #define DART_DEFINE_ARITHMETIC_OPERATORS(op)                                              \
-- 
2.43.0


From d3f2ed410f2a88d58e36e9716d1e0293d4247a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 54/66] fix: assigning a native value to a packet holding a
 finalized value threw or terminated

---
 include/dart/packet/api.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dart/packet/api.tcc b/include/dart/packet/api.tcc
index 17349ce..f5af719 100644
--- a/include/dart/packet/api.tcc
+++ b/include/dart/packet/api.tcc
@@ -12,7 +12,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount>& basic_packet<RefCount>::operator =(T&& other) & {
-    get_heap() = std::forward<T>(other);
+    *this = convert::cast<basic_packet>(std::forward<T>(other));
     return *this;
   }
 
-- 
2.43.0


From 2641a140740fde97719051bb249a98359d091d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 55/66] fix: failed initialisers of the C interface left a
 handle that could not be destroyed

---
 include/dart/abi.h |  3 ++-
 src/generic.cc     |  6 ++++--
 src/helpers.h      | 44 +++++++++++++++++++++++++++++++++++---------
 3 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/include/dart/abi.h b/include/dart/abi.h
index 2cac295..2c35bda 100644
--- a/include/dart/abi.h
+++ b/include/dart/abi.h
@@ -54,7 +54,8 @@
 #define DART_FOR_EACH_IMPL(aggr, value, it_func, it_name, err_name)                         \
   dart_iterator_t it_name;                                                                  \
   dart_err_t err_name = it_func(&it_name, aggr);                                            \
-  err_name = (err_name) ? err_name : dart_iterator_get_err(value, &it_name);                \
+  err_name = (err_name) ? (dart_init_err(value), err_name)                                  \
+                        : dart_iterator_get_err(value, &it_name);                           \
   for (; !dart_iterator_done_destroy(&it_name, value) && err_name == DART_NO_ERROR;         \
           err_name = (dart_iterator_next(&it_name),                                         \
                       dart_destroy(value),                                                  \
diff --git a/src/generic.cc b/src/generic.cc
index 5d0b574..c92989f 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -650,8 +650,10 @@ namespace {
         // Thankfully, all of the Dart types have a builtin type member, generic_type, which will
         // compute the type we actually need to initialize here.
         using type = typename std::decay_t<decltype(src_curr)>::value_type::generic_type;
-        if (src_curr == src_end) throw std::runtime_error("dart_iterator has been exhausted");
-        return packet_construct([&src_curr] (type* dst) { new(dst) type(*src_curr); }, dst);
+        return packet_construct([&src_curr, &src_end] (type* dst) {
+          if (src_curr == src_end) throw std::runtime_error("dart_iterator has been exhausted");
+          new(dst) type(*src_curr);
+        }, dst);
       },
       src
     );
diff --git a/src/helpers.h b/src/helpers.h
index 7c7c2ab..048abdb 100644
--- a/src/helpers.h
+++ b/src/helpers.h
@@ -319,6 +319,24 @@ namespace {
     )(is_callable<Func, Args...> {}, std::forward<Func>(cb), std::forward<Args>(the_args)...);
   }
 
+  // Every initializing function hands back a destroyable handle,
+  // so if construction fails for any reason the handle is left null.
+  template <class Func, class... Ts>
+  dart_err_t construct_or_default(Func&& cb, Ts*... ptrs) {
+    auto fallback = [&] {
+      int expand[] {(new(ptrs) Ts(), 0)...};
+      static_cast<void>(expand);
+    };
+    try {
+      auto err = safe_call(std::forward<Func>(cb), ptrs...);
+      if (err) fallback();
+      return err;
+    } catch (...) {
+      fallback();
+      throw;
+    }
+  }
+
   template <bool is_const, class Func>
   dart_err_t heap_unwrap_impl(Func&& cb, dart_heap_t* pkt) {
     switch (pkt->rtti.rc_id) {
@@ -403,12 +421,12 @@ namespace {
       case DART_RC_SAFE:
         {
           auto* rt_ptr = reinterpret_cast<dart::heap*>(DART_RAW_BYTES(pkt));
-          return safe_call(std::forward<Func>(cb), rt_ptr);
+          return construct_or_default(std::forward<Func>(cb), rt_ptr);
         }
       case DART_RC_UNSAFE:
         {
           auto* rt_ptr = reinterpret_cast<dart::unsafe_heap*>(DART_RAW_BYTES(pkt));
-          return safe_call(std::forward<Func>(cb), rt_ptr);
+          return construct_or_default(std::forward<Func>(cb), rt_ptr);
         }
       default:
         dart::detail::errmsg = "Unknown reference counter passed for dart_heap";
@@ -437,12 +455,12 @@ namespace {
       case DART_RC_SAFE:
         {
           auto* rt_ptr = reinterpret_cast<dart::buffer*>(DART_RAW_BYTES(pkt));
-          return safe_call(std::forward<Func>(cb), rt_ptr);
+          return construct_or_default(std::forward<Func>(cb), rt_ptr);
         }
       case DART_RC_UNSAFE:
         {
           auto* rt_ptr = reinterpret_cast<dart::unsafe_buffer*>(DART_RAW_BYTES(pkt));
-          return safe_call(std::forward<Func>(cb), rt_ptr);
+          return construct_or_default(std::forward<Func>(cb), rt_ptr);
         }
       default:
         dart::detail::errmsg = "Unknown reference counter passed for dart_buffer";
@@ -471,12 +489,12 @@ namespace {
       case DART_RC_SAFE:
         {
           auto* rt_ptr = reinterpret_cast<dart::packet*>(DART_RAW_BYTES(pkt));
-          return safe_call(std::forward<Func>(cb), rt_ptr);
+          return construct_or_default(std::forward<Func>(cb), rt_ptr);
         }
       case DART_RC_UNSAFE:
         {
           auto* rt_ptr = reinterpret_cast<dart::unsafe_packet*>(DART_RAW_BYTES(pkt));
-          return safe_call(std::forward<Func>(cb), rt_ptr);
+          return construct_or_default(std::forward<Func>(cb), rt_ptr);
         }
       default:
         dart::detail::errmsg = "Unknown reference counter passed for dart_packet";
@@ -533,9 +551,9 @@ namespace {
 
   // Function takes a generic lambda and a pointer to a C type,
   // and performs the pointer arithmetic and casting necessary
-  // to return a pointer to the nested C++ object for construction.
+  // to return pointers to the pair of nested C++ iterators.
   template <class Func, class Ptr>
-  dart_err_t iterator_construct(Func&& cb, Ptr* it) {
+  dart_err_t iterator_visit(Func&& cb, Ptr* it) {
     // Should do this in two functions, but honestly this was kind of fun.
     auto rc_switch = [&] (auto id) {
       constexpr auto is_const = std::is_const<Ptr>::value;
@@ -573,12 +591,20 @@ namespace {
     }
   }
 
+  // Function takes a generic lambda and a pointer to a C type,
+  // and performs the pointer arithmetic and casting necessary
+  // to return a pointer to the nested C++ object for construction.
+  template <class Func>
+  dart_err_t iterator_construct(Func&& cb, dart_iterator_t* it) {
+    return iterator_visit([&] (auto* begin, auto* end) { return construct_or_default(cb, begin, end); }, it);
+  }
+
   // Functions take a generic lambda and a pointer to a C type,
   // and call the generic lambda with the underlying C++ object.
   // Functions assume the C++ object has already been constructed.
   template <class Func, class Ptr>
   dart_err_t iterator_unwrap(Func&& cb, Ptr* it) {
-    return iterator_construct([&] (auto* begin, auto* end) { std::forward<Func>(cb)(*begin, *end); }, it);
+    return iterator_visit([&] (auto* begin, auto* end) { std::forward<Func>(cb)(*begin, *end); }, it);
   }
 
   // Function is a top level error handler for all code in the ABI
-- 
2.43.0


From 5af76e624daf4bf313e028dad216071c3c741b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 56/66] fix: variadic C initialisers leaked the values read
 before a malformed format character

---
 src/generic.cc | 20 ++++++++++++--------
 src/heap.cc    | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/generic.cc b/src/generic.cc
index c92989f..7b2ef04 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -778,12 +778,14 @@ extern "C" {
     return packet_typed_constructor_access(
       compose(
         [format, args] (dart::packet& dst) mutable {
-          dst = dart::packet::make_object();
-          parse_pairs(dst, format, args);
+          auto tmp = dart::packet::make_object();
+          parse_pairs(tmp, format, args);
+          dst = std::move(tmp);
         },
         [format, args] (dart::unsafe_packet& dst) mutable {
-          dst = dart::unsafe_packet::make_object();
-          parse_pairs(dst, format, args);
+          auto tmp = dart::unsafe_packet::make_object();
+          parse_pairs(tmp, format, args);
+          dst = std::move(tmp);
         }
       ),
       dst,
@@ -861,12 +863,14 @@ extern "C" {
     return packet_typed_constructor_access(
       compose(
         [format, args] (dart::packet& dst) mutable {
-          dst = dart::packet::make_array();
-          parse_vals(dst, format, args);
+          auto tmp = dart::packet::make_array();
+          parse_vals(tmp, format, args);
+          dst = std::move(tmp);
         },
         [format, args] (dart::unsafe_packet& dst) mutable {
-          dst = dart::unsafe_packet::make_array();
-          parse_vals(dst, format, args);
+          auto tmp = dart::unsafe_packet::make_array();
+          parse_vals(tmp, format, args);
+          dst = std::move(tmp);
         }
       ),
       dst,
diff --git a/src/heap.cc b/src/heap.cc
index e49e273..7902805 100644
--- a/src/heap.cc
+++ b/src/heap.cc
@@ -656,12 +656,14 @@ extern "C" {
     return heap_typed_constructor_access(
       compose(
         [format, args] (dart::heap& dst) mutable {
-          dst = dart::heap::make_object();
-          parse_pairs(dst, format, args);
+          auto tmp = dart::heap::make_object();
+          parse_pairs(tmp, format, args);
+          dst = std::move(tmp);
         },
         [format, args] (dart::unsafe_heap& dst) mutable {
-          dst = dart::unsafe_heap::make_object();
-          parse_pairs(dst, format, args);
+          auto tmp = dart::unsafe_heap::make_object();
+          parse_pairs(tmp, format, args);
+          dst = std::move(tmp);
         }
       ),
       dst,
@@ -739,12 +741,14 @@ extern "C" {
     return heap_typed_constructor_access(
       compose(
         [format, args] (dart::heap& dst) mutable {
-          dst = dart::heap::make_array();
-          parse_vals(dst, format, args);
+          auto tmp = dart::heap::make_array();
+          parse_vals(tmp, format, args);
+          dst = std::move(tmp);
         },
         [format, args] (dart::unsafe_heap& dst) mutable {
-          dst = dart::unsafe_heap::make_array();
-          parse_vals(dst, format, args);
+          auto tmp = dart::unsafe_heap::make_array();
+          parse_vals(tmp, format, args);
+          dst = std::move(tmp);
         }
       ),
       dst,
-- 
2.43.0


From e214a201d7f6fed1a0ad032723727aead8dd47dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 57/66] fix: taking a finalized value through the generic C
 interface left it in place

---
 src/generic.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/generic.cc b/src/generic.cc
index 7b2ef04..2e2c7e5 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -27,6 +27,13 @@ namespace {
     punned_dst->rc_id = punned_src->rc_id;
   }
 
+  // Functions that take ownership of a value promise to leave it null,
+  // which moving from it doesn't guarantee (finalized values are copied).
+  template <class Packet>
+  void reset(Packet& pkt) {
+    pkt = Packet {};
+  }
+
   // XXX: Thank microsoft for this whole mess.
   // MSVC can't do generic lambdas inside of extern C functions.
   // It ends up improperly propagating the function linkage to the lambda,
@@ -72,6 +79,7 @@ namespace {
         [key, len, val] (auto& dst) {
           return generic_access([&dst, key, len] (auto& val) {
             safe_insert(dst, string_view {key, len}, std::move(val));
+            reset(val);
           }, val);
         }
       ),
@@ -133,6 +141,7 @@ namespace {
         [key, len, val] (auto& dst) {
           return generic_access([&dst, key, len] (auto& val) {
             safe_set(dst, string_view {key, len}, std::move(val));
+            reset(val);
           }, val);
         }
       ),
@@ -201,7 +210,10 @@ namespace {
     return generic_access(
       mutable_visitor(
         [idx, val] (auto& dst) {
-          return generic_access([&dst, idx] (auto& val) { safe_insert(dst, idx, std::move(val)); }, val);
+          return generic_access([&dst, idx] (auto& val) {
+            safe_insert(dst, idx, std::move(val));
+            reset(val);
+          }, val);
         }
       ),
       dst
@@ -258,7 +270,10 @@ namespace {
     return generic_access(
       mutable_visitor(
         [idx, val] (auto& dst) {
-          return generic_access([&dst, idx] (auto& val) { safe_set(dst, idx, std::move(val)); }, val);
+          return generic_access([&dst, idx] (auto& val) {
+            safe_set(dst, idx, std::move(val));
+            reset(val);
+          }, val);
         }
       ),
       dst
-- 
2.43.0


From bc7be40606cf7575cfde64ea51b2c39847be515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 58/66] fix: dart_to_buffer failed on buffers and finalized
 packets that are not objects

---
 src/generic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generic.cc b/src/generic.cc
index 2e2c7e5..db61645 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -478,7 +478,7 @@ namespace {
     return generic_access(
       [=] (auto& src) {
         auto tmp {src};
-        return buffer_construct([&tmp] (auto* dst) { safe_construct(dst, std::move(tmp).lift()); }, dst);
+        return buffer_construct([&tmp] (auto* dst) { safe_construct(dst, std::move(tmp).lower()); }, dst);
       },
       src
     );
-- 
2.43.0


From a3d3a28b7bc14514a9db25859243a5f2987abed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 59/66] fix: running out of memory in erase(iterator) was
 reported as a type error

---
 include/dart/heap/api.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index 771c738..d537dc7 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -248,6 +248,9 @@ namespace dart {
       try {
         return erase_key_impl(iterator_key(pos),
             shim::get<fields_layout>(pos.impl->impl).deref, shim::get<fields_type>(data));
+      } catch (std::bad_alloc const&) {
+        // Doesn't tell us anything about the iterator.
+        throw;
       } catch (...) {
         throw type_error("dart::heap cannot erase with iterator of wrong type");
       }
-- 
2.43.0


From 7b936290ee781a891315a5b892c6c2fb11281f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:52 +0000
Subject: [PATCH 60/66] fix: a shareable pointer whose construction failed
 destroyed a counter that was never built

---
 include/dart/support/ptrs.h   | 6 +++++-
 include/dart/support/ptrs.tcc | 5 ++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/dart/support/ptrs.h b/include/dart/support/ptrs.h
index 008f2a3..6456e02 100644
--- a/include/dart/support/ptrs.h
+++ b/include/dart/support/ptrs.h
@@ -363,7 +363,11 @@ namespace dart {
 
       /*----- Private Lifecycle Functions -----*/
 
-      shareable_ptr(partial_construction_tag) {}
+      // Constructs in place, so that nothing is left to destroy should it fail.
+      template <class... Args>
+      explicit shareable_ptr(partial_construction_tag, Args&&... the_args) {
+        refcount_traits<T>::construct(&impl, std::forward<Args>(the_args)...);
+      }
 
       /*----- Private Members -----*/
 
diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 5874f24..7529149 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -449,9 +449,8 @@ namespace dart {
 
   template <class T, class... Args>
   shareable_ptr<T> make_shareable(Args&&... the_args) {
-    shareable_ptr<T> ptr(typename shareable_ptr<T>::partial_construction_tag {});
-    refcount_traits<T>::construct(&ptr.impl, std::forward<Args>(the_args)...);
-    return ptr;
+    using tag = typename shareable_ptr<T>::partial_construction_tag;
+    return shareable_ptr<T>(tag {}, std::forward<Args>(the_args)...);
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 957671445f3d86d6c758bd24d6ccdc2219203246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 61/66] fix: projecting a typed object did not compile

---
 include/dart/object.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 092b9c8..7d38623 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -129,13 +129,13 @@ namespace dart {
 
   template <class Object>
   basic_object<Object> basic_object<Object>::project(std::initializer_list<shim::string_view> keys) const {
-    return val.project(keys);
+    return basic_object {val.project(keys)};
   }
 
   template <class Object>
   template <class StringSpan, class EnableIf>
   basic_object<Object> basic_object<Object>::project(StringSpan const& keys) const {
-    return val.project(keys);
+    return basic_object {val.project(keys)};
   }
 
   template <class Object>
-- 
2.43.0


From 4f1cdd1fc26b468b3ab16c102118d21d243d03cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 62/66] fix: reporting an error through the C interface
 terminated when its message could not be allocated

---
 src/helpers.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/helpers.h b/src/helpers.h
index 048abdb..011042b 100644
--- a/src/helpers.h
+++ b/src/helpers.h
@@ -607,6 +607,16 @@ namespace {
     return iterator_visit([&] (auto* begin, auto* end) { std::forward<Func>(cb)(*begin, *end); }, it);
   }
 
+  // Function records an error message without ever throwing,
+  // as a failure to copy the message must not mask (or escalate) the error itself.
+  inline void set_error(char const* msg) noexcept {
+    try {
+      dart::detail::errmsg = msg;
+    } catch (...) {
+      dart::detail::errmsg.clear();
+    }
+  }
+
   // Function is a top level error handler for all code in the ABI
   // Catches all exceptions, turns them into corresponding error codes
   // and updates the global error string.
@@ -614,22 +624,22 @@ namespace {
   dart_err_t err_handler(Func&& cb) noexcept try {
     return std::forward<Func>(cb)();
   } catch (dart::type_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_error(err.what());
     return DART_TYPE_ERROR;
   } catch (dart::state_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_error(err.what());
     return DART_STATE_ERROR;
   } catch (dart::parse_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_error(err.what());
     return DART_PARSE_ERROR;
   } catch (std::logic_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_error(err.what());
     return DART_LOGIC_ERROR;
   } catch (std::runtime_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_error(err.what());
     return DART_RUNTIME_ERROR;
   } catch (...) {
-    dart::detail::errmsg = "Dart caught an unexpected error type. This is a bug, please make a report";
+    set_error("Dart caught an unexpected error type. This is a bug, please make a report");
     return DART_UNKNOWN_ERROR;
   }
 
-- 
2.43.0


From 87109314c4cd0a23de2e92318945902a6f5f8f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 63/66] fix: the to_json functions of the C interface wrote
 through a null pointer when out of memory

---
 src/buffer.cc  | 1 +
 src/generic.cc | 1 +
 src/heap.cc    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/buffer.cc b/src/buffer.cc
index ff56675..f163cfb 100644
--- a/src/buffer.cc
+++ b/src/buffer.cc
@@ -123,6 +123,7 @@ namespace {
       auto inlen = instr.size();
       if (len) *len = inlen;
       outstr = reinterpret_cast<char*>(malloc(inlen + 1));
+      if (!outstr) throw std::bad_alloc();
       memcpy(outstr, instr.data(), inlen + 1);
     };
     auto ret = buffer_access(
diff --git a/src/generic.cc b/src/generic.cc
index db61645..f54a4f5 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -452,6 +452,7 @@ namespace {
         auto inlen = instr.size();
         if (len) *len = inlen;
         outstr = reinterpret_cast<char*>(malloc(inlen + 1));
+        if (!outstr) throw std::bad_alloc();
         memcpy(outstr, instr.data(), inlen + 1);
       },
       src
diff --git a/src/heap.cc b/src/heap.cc
index 7902805..bf031ce 100644
--- a/src/heap.cc
+++ b/src/heap.cc
@@ -516,6 +516,7 @@ namespace {
       auto inlen = instr.size();
       if (len) *len = inlen;
       outstr = reinterpret_cast<char*>(malloc(inlen + 1));
+      if (!outstr) throw std::bad_alloc();
       memcpy(outstr, instr.data(), inlen + 1);
     };
     auto ret = heap_access(
-- 
2.43.0


From 7dd64df769b05fcd71204b51a393f8f79a60b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 64/66] fix: changing a value in place was not ordered after
 the reads of those who had let go of it

---
 include/dart/heap/detail.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dart/heap/detail.tcc b/include/dart/heap/detail.tcc
index 9474205..6425f4c 100644
--- a/include/dart/heap/detail.tcc
+++ b/include/dart/heap/detail.tcc
@@ -57,6 +57,10 @@ namespace dart {
     if (refcount() > overcount) {
       if (is_object()) data = fields_type(new packet_fields(get_fields()));
       else if (is_array()) data = elements_type(new packet_elements(get_elements()));
+    } else {
+      // Reading the count doesn't have to order anything (std::shared_ptr's is a relaxed load),
+      // but whoever let go of their reference must be done reading before anything is written.
+      std::atomic_thread_fence(std::memory_order_acquire);
     }
   }
 
-- 
2.43.0


From 2b277511a5e425446309274a315ecb95aa9e1165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:05 +0000
Subject: [PATCH 65/66] fix: YAML decimals were strings in locales which do not
 use a dot for them

---
 include/dart/connector/yaml.tcc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index d7e4554..7f73b12 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -5,6 +5,10 @@
 
 #include "../common.h"
 
+/*----- System Includes -----*/
+
+#include <clocale>
+
 /*----- Function Implementations -----*/
 
 #if DART_HAS_YAML
@@ -181,9 +185,13 @@ namespace dart {
         return parse_state {type::string, 0, 0.0};
       } else {
         // It's either a decimal, or it's a string.
+        // YAML always separates decimals with a dot, but strtod expects whatever the current locale does.
+        std::string spelling(str, len);
+        auto point = spelling.find('.');
+        if (point != std::string::npos) spelling.replace(point, 1, localeconv()->decimal_point);
         errno = 0;
-        double second_try = strtod(str, &problem);
-        if (!errno && problem - str == len) return parse_state {type::decimal, 0, second_try};
+        double second_try = strtod(spelling.data(), &problem);
+        if (!errno && problem == spelling.data() + spelling.size()) return parse_state {type::decimal, 0, second_try};
         return parse_state {type::string, 0, 0.0};
       }
     }
-- 
2.43.0


From 84ee8dee8ca8e47cecaf6f7438363e1714a9a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:05 +0000
Subject: [PATCH 66/66] fix: dates could not be read in locales which do not
 use a dot for decimals

---
 include/dart/conversions.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index 861ab1d..bf88ba9 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -1532,10 +1532,16 @@ namespace dart {
 
       sys_time_point convert(shim::string_view str) {
         // It's the year 2020
-        float s;
-        int y, M, d, h, m, read = 0;
-        int ret = sscanf(str.data(), "%4d-%2d-%2dT%2d:%2d:%fZ%n", &y, &M, &d, &h, &m, &s, &read);
-        if (ret != 6 || static_cast<size_t>(read) != str.size()) {
+        int y, M, d, h, m, s, read = 0;
+        int ret = sscanf(str.data(), "%4d-%2d-%2dT%2d:%2d:%2d%n", &y, &M, &d, &h, &m, &s, &read);
+
+        // Fractions of a second aren't kept, and sscanf would expect whichever
+        // decimal point the current locale happens to use.
+        auto* rest = str.data() + read;
+        if (ret == 6 && *rest == '.') {
+          do ++rest; while (*rest >= '0' && *rest <= '9');
+        }
+        if (ret != 6 || *rest != 'Z' || rest + 1 != str.data() + str.size()) {
           throw type_error("Unable to parse date string during serialization");
         }
 
@@ -1561,7 +1567,7 @@ namespace dart {
         if (t > limit.count() || t < -limit.count()) {
           throw type_error("Date string is outside of the range of the clock");
         }
-        auto tp = system_clock::from_time_t(t + static_cast<int>(s));
+        auto tp = system_clock::from_time_t(t + s);
         return std::chrono::time_point_cast<Duration>(tp);
       }
 
-- 
2.43.0

