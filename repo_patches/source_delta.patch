From c657cd3365b65e5ae5d3e937c410561cd5a99ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 001/182] fix: assigning short data to a shared dynamic
 BLString used an uninitialized instance

---
 blend2d/core/string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 92beef7..446d229 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -119,8 +119,8 @@ static BLResult modify_and_copy(BLStringCore* self, BLModifyOp op, const char* s
     char* dst = nullptr;
 
     if (size_after <= BLString::kSSOCapacity && !bl_modify_op_does_grow(op)) {
-      init_sso(self, size_after);
-      dst = self->_d.char_data;
+      init_sso(&newO, size_after);
+      dst = newO._d.char_data;
     }
     else {
       BLObjectImplSize impl_size = expand_impl_size_with_modify_op(impl_size_from_capacity(size_after), op);
-- 
2.43.0


From 6e8120665e571a2f8df676ac29cddf3fe3ffd74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 002/182] fix: shrinking an array of objects with resize
 released its first items instead of the removed ones

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 5ecfb55..7da8155 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -577,7 +577,7 @@ BL_API_IMPL BLResult bl_array_resize(BLArrayCore* self, size_t n, const void* fi
     }
     else {
       set_size(self, n);
-      release_content_by_type(u.data, (u.size - n) * item_size, array_type);
+      release_content_by_type(u.data + n * item_size, (u.size - n) * item_size, array_type);
       return BL_SUCCESS;
     }
   }
-- 
2.43.0


From 197fa2227627704af57da2916aab4428a201ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 003/182] fix: BLArray::assign_data allocated room for the old
 size and left new object items uninitialized

---
 blend2d/core/array.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 7da8155..166423b 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -883,7 +883,7 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
     if (BL_UNLIKELY(n > maximum_capacity_table[array_type]))
       return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
 
-    BLObjectImplSize impl_size = impl_size_from_capacity(u.size, item_size);
+    BLObjectImplSize impl_size = impl_size_from_capacity(n, item_size);
     BLArrayCore newO;
     BL_PROPAGATE(init_dynamic(&newO, array_type, n, impl_size));
 
@@ -902,6 +902,7 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
     const uint8_t* src = static_cast<const uint8_t*>(items);
 
     assign_content_objects(u.data, src, replace_size * item_size);
+    init_content_objects(u.data + replace_size * item_size, src + replace_size * item_size, (n - replace_size) * item_size);
     release_content_objects(u.data + replace_size * item_size, (u.size - replace_size) * item_size);
 
     return BL_SUCCESS;
-- 
2.43.0


From 2e1edae8b60f5ee74c81627062b1fcb7ef80c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 004/182] fix: BLArray::replace_data misplaced the tail,
 ignored the capacity and missed overlapping items

---
 blend2d/core/array.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 166423b..58f3c81 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -1188,7 +1188,7 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
   size_t tail_size = u.size - end;
   size_t size_after = u.size - range_size + n;
 
-  if (is_instance_mutable(self)) {
+  if (is_instance_mutable(self) && size_after <= u.capacity) {
     // 0           |<-Start   End->|          | <- Size
     // ^***********^***************^**********^
     // | Unchanged |  Replacement  | TailSize |
@@ -1199,14 +1199,14 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
     const uint8_t* items_ptr = static_cast<const uint8_t*>(items);
     const uint8_t* items_end = items_ptr + item_size * n;
 
-    if (BL_LIKELY(items_ptr >= u.data + u.size * n || items_end <= u.data)) {
+    if (BL_LIKELY(items_ptr >= u.data + u.size * item_size || items_end <= u.data)) {
       // Non-overlaping case (the expected one).
       if (range_size == n) {
         assign_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
       }
       else {
         release_content_by_type(u.data + index * item_size, range_size * item_size, array_type);
-        memmove(u.data + (index + range_size) * item_size, u.data + end * item_size, tail_size * item_size);
+        memmove(u.data + (index + n) * item_size, u.data + end * item_size, tail_size * item_size);
         init_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
         set_size(self, size_after);
       }
@@ -1214,7 +1214,7 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
     }
   }
 
-  // Array is either immmutable or its data overlaps with `items`.
+  // Array is either immmutable, doesn't have the required capacity, or its data overlaps with `items`.
   BLArrayCore newO;
   uint8_t* dst;
   BL_PROPAGATE(init_array(&newO, array_type, size_after, size_after, &dst));
-- 
2.43.0


From 81e8261454f377dfb5159beb92c7db12a8314a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 005/182] fix: destroying an array of objects never released
 its items

---
 blend2d/core/array.cpp  |  4 +++-
 blend2d/core/array_p.h  | 10 +++++-----
 blend2d/core/object.cpp |  2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 58f3c81..989eadb 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -302,9 +302,11 @@ static BL_NOINLINE BLResult realloc_to_dynamic(BLArrayCore* self, BLObjectType a
   return replace_instance(self, &newO);
 }
 
-BLResult free_impl(BLArrayImpl* impl) noexcept {
+BLResult free_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept {
   if (ObjectInternal::is_impl_external(impl))
     ObjectInternal::call_external_destroy_func(impl, impl->data);
+  else
+    release_content_by_type(impl->data, impl->size * item_size_from_array_type(array_type), array_type);
   return ObjectInternal::free_impl(impl);
 }
 
diff --git a/blend2d/core/array_p.h b/blend2d/core/array_p.h
index 410c40a..adea4df 100644
--- a/blend2d/core/array_p.h
+++ b/blend2d/core/array_p.h
@@ -23,11 +23,11 @@ static BL_INLINE bool is_impl_mutable(const BLArrayImpl* impl) noexcept {
   return ObjectInternal::is_impl_mutable(impl);
 }
 
-BL_HIDDEN BLResult free_impl(BLArrayImpl* impl) noexcept;
+BL_HIDDEN BLResult free_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept;
 
 template<RCMode kRCMode>
-static BL_INLINE BLResult release_impl(BLArrayImpl* impl) noexcept {
-  return ObjectInternal::deref_impl_and_test<kRCMode>(impl) ? free_impl(impl) : BLResult(BL_SUCCESS);
+static BL_INLINE BLResult release_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept {
+  return ObjectInternal::deref_impl_and_test<kRCMode>(impl) ? free_impl(impl, array_type) : BLResult(BL_SUCCESS);
 }
 
 //! \}
@@ -56,7 +56,7 @@ static BL_INLINE BLResult retain_instance(const BLArrayCore* self, size_t n = 1)
 }
 
 static BL_INLINE BLResult release_instance(BLArrayCore* self) noexcept {
-  return self->_d.is_ref_counted_object() ? release_impl<RCMode::kForce>(get_impl(self)) : BLResult(BL_SUCCESS);
+  return self->_d.is_ref_counted_object() ? release_impl<RCMode::kForce>(get_impl(self), self->_d.raw_type()) : BLResult(BL_SUCCESS);
 }
 
 static BL_INLINE BLResult replace_instance(BLArrayCore* self, const BLArrayCore* other) noexcept {
@@ -65,7 +65,7 @@ static BL_INLINE BLResult replace_instance(BLArrayCore* self, const BLArrayCore*
   BLObjectInfo info = self->_d.info;
 
   self->_d = other->_d;
-  return info.is_ref_counted_object() ? release_impl<RCMode::kForce>(static_cast<BLArrayImpl*>(impl)) : BLResult(BL_SUCCESS);
+  return info.is_ref_counted_object() ? release_impl<RCMode::kForce>(static_cast<BLArrayImpl*>(impl), info.raw_type()) : BLResult(BL_SUCCESS);
 }
 
 //! \}
diff --git a/blend2d/core/object.cpp b/blend2d/core/object.cpp
index aca6a10..a03ad0b 100644
--- a/blend2d/core/object.cpp
+++ b/blend2d/core/object.cpp
@@ -148,7 +148,7 @@ BLResult bl_object_destroy_unknown_impl(BLObjectImpl* impl, BLObjectInfo info) n
     case BL_OBJECT_TYPE_ARRAY_STRUCT_20:
     case BL_OBJECT_TYPE_ARRAY_STRUCT_24:
     case BL_OBJECT_TYPE_ARRAY_STRUCT_32:
-      return bl::ArrayInternal::free_impl(static_cast<BLArrayImpl*>(impl));
+      return bl::ArrayInternal::free_impl(static_cast<BLArrayImpl*>(impl), info.raw_type());
 
     case BL_OBJECT_TYPE_BIT_SET:
       // NOTE: It's guaranteed that this BitSet is dynamic, so we don't have to correct the type.
-- 
2.43.0


From 4d9cc003ad2a0a5c87c232da38116a9a84834dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 006/182] fix: BLArray::modify_op leaked the replaced items
 when an array of objects was reallocated

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 989eadb..da4c1c2 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -763,7 +763,7 @@ BL_API_IMPL BLResult bl_array_modify_op(BLArrayCore* self, BLModifyOp op, size_t
     BL_PROPAGATE(init_dynamic(&newO, array_type, size_after, impl_size));
 
     uint8_t* dst = get_impl(&newO)->data_as<uint8_t>();
-    if (self->_d.is_dynamic_object() && bl::ObjectInternal::is_impl_mutable(self->_d.impl)) {
+    if (bl_modify_op_is_append(op) && self->_d.is_dynamic_object() && bl::ObjectInternal::is_impl_mutable(self->_d.impl)) {
       // Use memcpy() instead of weak copying if the original data is gonna be destroyed.
       memcpy(dst, u.data, index * item_size);
       // We have to patch the source Impl as release_instance() as we have moved the content.
-- 
2.43.0


From a8c470fdeec8f68a1b1e936d8689f7b048489679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 007/182] fix: bitset conversion of SSO dense data to segments
 wrote every word to the first segment

---
 blend2d/core/bitset.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index d7fc868..21e3f4f 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -905,6 +905,8 @@ static BL_NOINLINE uint32_t init_segments_from_dense_data(BLBitSetSegment* dst,
     do {
       dst->_data[i] = *words++;
     } while(++i != n);
+
+    dst++;
   }
 
   return last_segment_id - first_segment_id + 1u;
-- 
2.43.0


From c9620ff0abd03eef1a82765c54d0be88d9fe81ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 008/182] fix: bitset shrink reinterpreted the end of a range
 segment as dense SSO words

---
 blend2d/core/bitset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 21e3f4f..78b13df 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2225,8 +2225,8 @@ static BLResult optimize_internal(BLBitSetCore* self, bool shrink) noexcept {
       return replace_instance(self, &tmp);
     }
 
-    // Try SSO dense representation.
-    if (optimized_segment_count <= 2) {
+    // Try SSO dense representation - a Range segment spans more words than SSO storage can hold.
+    if (optimized_segment_count <= 2 && !optimized_segment_data[0].all_ones() && !optimized_segment_data[optimized_segment_count - 1].all_ones()) {
       if (optimized_segment_count == 1 || optimized_segment_data[0].end_word() == optimized_segment_data[1].start_word()) {
         uint32_t optimized_word_data[kSegmentWordCount * 2];
         bl::MemOps::copy_forward_inline_t(optimized_word_data, optimized_segment_data[0].data(), kSegmentWordCount);
-- 
2.43.0


From 21e636eeb0b27e3dc011c291572cb03cc9f026c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 009/182] fix: bitset chop of SSO dense data outside of the
 range read past its buffer

---
 blend2d/core/bitset.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 78b13df..13587ff 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2327,6 +2327,10 @@ BL_API_IMPL BLResult bl_bit_set_chop(BLBitSetCore* self, uint32_t start_bit, uin
       uint32_t tmp[kSSOWordCount + 2];
       SSODenseInfo info = chop_sso_dense_data(self, tmp, start_bit, end_bit);
 
+      // The range to chop doesn't intersect with SSO data.
+      if (!info.word_count())
+        return init_sso_empty(self);
+
       uint32_t i = 0;
       BL_NOUNROLL
       while (tmp[i] == 0)
-- 
2.43.0


From 4a687dd55bfe8ac457025bca2168caad96e9cd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 010/182] fix: bitset chop of a shared bit set dropped its
 content

---
 blend2d/core/bitset.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 13587ff..3c1eb9d 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2379,6 +2379,14 @@ BL_API_IMPL BLResult bl_bit_set_chop(BLBitSetCore* self, uint32_t start_bit, uin
     BLBitSetCore tmp;
     BL_PROPAGATE(init_dynamic(&tmp, impl_size_from_capacity(final_count)));
 
+    BLBitSetImpl* new_impl = get_impl(&tmp);
+    BLBitSetSegment* new_data = new_impl->segment_data();
+
+    bl::MemOps::copy_forward_inline_t(new_data, chopped.leading_data(), chopped.leading_count());
+    bl::MemOps::copy_forward_inline_t(new_data + chopped.leading_count(), segment_data + chopped.middle_index(), chopped.middle_count());
+    bl::MemOps::copy_forward_inline_t(new_data + chopped.leading_count() + chopped.middle_count(), chopped.trailing_data(), chopped.trailing_count());
+    new_impl->segment_count = final_count;
+
     return replace_instance(self, &tmp);
   }
 }
-- 
2.43.0


From 03734a1d2bfed7b1b8c8e295b4d064bf170b856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 011/182] fix: bitset add_range moved SSO dense data past the
 storage when the range starts far before it

---
 blend2d/core/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 3c1eb9d..b2e5fe8 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2644,7 +2644,7 @@ BL_API_IMPL BLResult bl_bit_set_add_range(BLBitSetCore* self, uint32_t range_sta
         // necessary.
         uint32_t n = get_sso_word_count_from_data(self->_d.u32_data, info.word_count());
 
-        if ((range_last_word - range_start_word) < kSSOWordCount && range_last_word < iStartWord + n) {
+        if ((range_last_word - range_start_word) < kSSOWordCount && (iStartWord + n) - range_start_word <= kSSOWordCount) {
           uint32_t tmp[kSSOWordCount];
           bl::MemOps::copy_forward_inline_t(tmp, self->_d.u32_data, kSSOWordCount);
 
-- 
2.43.0


From 5f3dd418edf1c2ff32be5b047b51458337bd1d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 012/182] fix: bitset add_range left a stale dense segment in
 front of the range segment it was merged with

---
 blend2d/core/bitset.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index b2e5fe8..b9d9254 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2804,8 +2804,7 @@ InitRange:
   if (segment_index < segment_count) {
     BLBitSetSegment& next = segment_data[segment_index];
     if (next.all_ones() && next.start_word() <= inserter.prev().start_word()) {
-      init_range_segment(inserter.current(), inserter.prev().start_word(), next.end_word());
-      inserter.advance();
+      init_range_segment(inserter.prev(), inserter.prev().start_word(), next.end_word());
       segment_index++;
     }
   }
-- 
2.43.0


From 4d8e176c2e292807f0635d11b890a7aefd0394c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 013/182] fix: bitset add_words merged SSO dense data at a
 wrong offset and overflowed SSO storage

---
 blend2d/core/bitset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index b9d9254..a2a2be1 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2878,12 +2878,12 @@ BL_API_IMPL BLResult bl_bit_set_add_words(BLBitSetCore* self, uint32_t start_wor
 
       if (start_word < sso_word_index) {
         uint32_t distance = sso_word_index - start_word;
-        if (distance + sso_word_count <= kSSOWordCount) {
+        if (distance + sso_word_count <= kSSOWordCount && word_count <= kSSOWordCount) {
           BLBitSetCore tmp;
           init_sso_dense(&tmp, start_word);
 
           bl::MemOps::copy_forward_inline_t(tmp._d.u32_data, word_data, word_count);
-          bl::MemOps::combine_small<bl::BitOperator::Or>(tmp._d.u32_data, self->_d.u32_data + distance, sso_word_count);
+          bl::MemOps::combine_small<bl::BitOperator::Or>(tmp._d.u32_data + distance, self->_d.u32_data, sso_word_count);
 
           self->_d = tmp._d;
           return BL_SUCCESS;
-- 
2.43.0


From 18213b5933324a24aa5f89b48ca3350cb1938aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 014/182] fix: bitset add_words lost the range flag and the
 position when merging with a range segment

---
 blend2d/core/bitset.cpp | 3 ++-
 blend2d/core/bitset.h   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index a2a2be1..cdbac86 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -3067,10 +3067,11 @@ BL_API_IMPL BLResult bl_bit_set_add_words(BLBitSetCore* self, uint32_t start_wor
       }
 
       // Create a Range segment if two or more full segments are next to each other.
-      if (initial_word_index - word_index > kSegmentWordCount) {
+      if (word_index - initial_word_index > kSegmentWordCount) {
         if (next) {
           if (next->all_ones() && word_index >= next->start_word()) {
             next->_set_range_start_word(initial_word_index);
+            segment_index += uint32_t(word_index == next->_range_end_word());
             continue;
           }
 
diff --git a/blend2d/core/bitset.h b/blend2d/core/bitset.h
index e381243..219e7fb 100644
--- a/blend2d/core/bitset.h
+++ b/blend2d/core/bitset.h
@@ -61,7 +61,7 @@ struct BLBitSetSegment {
   BL_INLINE_NODEBUG uint32_t _dense_start_word() const noexcept { return _start_word; }
   BL_INLINE_NODEBUG uint32_t _dense_end_word() const noexcept { return _start_word + BL_BIT_SET_SEGMENT_WORD_COUNT; }
 
-  BL_INLINE_NODEBUG void _set_range_start_word(uint32_t index) noexcept { _start_word = index; }
+  BL_INLINE_NODEBUG void _set_range_start_word(uint32_t index) noexcept { _start_word = index | BL_BIT_SET_RANGE_MASK; }
   BL_INLINE_NODEBUG void _set_range_end_word(uint32_t index) noexcept { _data[0] = index; }
 
   BL_INLINE_NODEBUG uint32_t start_word() const noexcept { return _start_word & ~BL_BIT_SET_RANGE_MASK; }
-- 
2.43.0


From 3548ba2de1c3ca66515b1e510a9ded7598af4ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 015/182] fix: bitset clear_bit and clear_range overflowed the
 addressable words of SSO dense data

---
 blend2d/core/bitset.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index cdbac86..404234a 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -3167,9 +3167,12 @@ BL_API_IMPL BLResult bl_bit_set_clear_bit(BLBitSetCore* self, uint32_t bit_index
       uint32_t first_word = word_index_of(rSSO.start);
       uint32_t last_word = word_index_of(rSSO.end - 1u);
 
+      // We don't want the SSO data to overflow the addressable words.
+      first_word = bl_min<uint32_t>(first_word, kSSOLastWord);
+
       if (last_word - first_word < kSSOWordCount) {
         init_sso_dense(self, first_word);
-        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start % bl::BitSetOps::kNumBits, rSSO.size());
+        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start - bit_index_of(first_word), rSSO.size());
         bl::BitSetOps::bit_array_clear_bit(self->_d.u32_data, bit_index - bit_index_of(first_word));
         return BL_SUCCESS;
       }
@@ -3326,9 +3329,12 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
       uint32_t dense_first_word = word_index_of(rSSO.start);
       uint32_t dense_last_word = word_index_of(rSSO.end - 1u);
 
-      if (dense_first_word - dense_last_word < kSSOWordCount) {
+      // We don't want the SSO data to overflow the addressable words.
+      dense_first_word = bl_min<uint32_t>(dense_first_word, kSSOLastWord);
+
+      if (dense_last_word - dense_first_word < kSSOWordCount) {
         init_sso_dense(self, dense_first_word);
-        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start % bl::BitSetOps::kNumBits, rSSO.size());
+        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start - bit_index_of(dense_first_word), rSSO.size());
         bl::BitSetOps::bit_array_clear(self->_d.u32_data, intersection.start - bit_index_of(dense_first_word), intersection.size());
         return BL_SUCCESS;
       }
-- 
2.43.0


From 305ecf78681293ad9d80840cc733196c59dc867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 016/182] fix: bitset clear_range duplicated segments and
 cleared past them when splitting a range segment

---
 blend2d/core/bitset.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 404234a..a47c9b6 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -3408,11 +3408,12 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
     if (range_start_word < segment_start_word) {
       range_start_word = segment_start_word;
       range_start_bit = bit_index_of(range_start_word);
-
-      if (range_start_word > range_last_word)
-        break;
     }
 
+    // Nothing else to do if the whole range has been processed.
+    if (range_start_word > range_last_word)
+      break;
+
     // If the range to clear completely overlaps this segment, remove it.
     if (range_last_word >= segment_end_word && range_start_bit == segment.start_bit())
       continue;
@@ -3466,6 +3467,7 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
         bl::BitSetOps::bit_array_clear(inserter.current().data(), dense_range_index, dense_range_count);
         inserter.advance();
 
+        segment_start_word += kSegmentWordCount;
         range_start_word = segment_start_word;
         range_start_bit = bit_index_of(range_start_word);
 
@@ -3475,7 +3477,7 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
       }
 
       // Handle the intersection with the end of the range to clear (if any), if it's not at the segment boundary.
-      segment_start_word = word_index_of(align_bit_down_to_segment(range_end_bit));
+      segment_start_word = bl_max(segment_start_word, word_index_of(align_bit_down_to_segment(range_end_bit)));
       if (segment_start_word >= segment_end_word)
         continue;
 
-- 
2.43.0


From c2d9d8b6c4cd93b148275cdf5c7fc2ce450c2ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 017/182] fix: bit array modification of shared data dropped
 the existing bits

---
 blend2d/core/bitarray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index c6da037..fcc0fd2 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -96,12 +96,15 @@ static BL_NOINLINE BLResult make_mutable_for_modify_op(BLBitArrayCore* self, siz
     BLBitArrayCore newO;
     if (size <= kSSOBitCapacity) {
       init_sso(&newO, size);
+      MemOps::copy_forward_inline_t(newO._d.u32_data, self_impl->data(), word_count_from_bit_count(size));
 
       *out = BitData{self->_d.u32_data, size};
       return replace_instance(self, &newO);
     }
 
     BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count_from_bit_count(size)), size));
+    MemOps::copy_forward_inline_t(get_impl(&newO)->data(), self_impl->data(), word_count_from_bit_count(size));
+
     *out = BitData{get_impl(&newO)->data(), size};
     return replace_instance(self, &newO);
   }
-- 
2.43.0


From e4261fcd75a3faf7b88ca4d0e5c1ef39a100a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 018/182] fix: bit array word operations read past word_data
 and ignored bits crossing a word boundary

---
 blend2d/core/bitarray.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index fcc0fd2..4321851 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -179,6 +179,9 @@ static BL_NOINLINE BLResult make_mutable_for_append_op(BLBitArrayCore* self, siz
 
 template<typename BitOp>
 static BL_INLINE BLResult combine_word_data(BitData d, size_t bit_index, const uint32_t* word_data, size_t word_count) noexcept {
+  if (word_count == 0)
+    return BL_SUCCESS;
+
   size_t bit_end = bit_index + bl_min(bit_index_of(word_count), d.size - bit_index);
   size_t bit_count = bit_end - bit_index;
 
@@ -231,7 +234,7 @@ static BL_INLINE BLResult combine_word_data(BitData d, size_t bit_index, const u
     return BL_SUCCESS;
 
   uint32_t last_word_bits = BitArrayOps::shift_to_start(w, bit_shift_inv);
-  if (bit_shift_inv < bit_count)
+  if (bit_shift < bit_count)
     last_word_bits |= BitArrayOps::shift_to_end(word_data[i], bit_shift);
 
   dst[i] = BitOp::op_masked(dst[i], last_word_bits, BitArrayOps::non_zero_start_mask(bit_count));
-- 
2.43.0


From f77740d63b04dd0ead79611ad29825fcef7b3ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 019/182] fix: bit array assign_words overflowed inline storage
 and lost the size

---
 blend2d/core/bitarray.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 4321851..de4b3d0 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -332,7 +332,13 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
     size_t capacity_in_words = word_count_from_bit_count(self_impl->capacity);
     size_t immutable_msk = bl::IntOps::bool_as_mask<size_t>(!is_impl_mutable(self_impl));
 
-    if ((word_count | immutable_msk) > capacity_in_words) {
+    if ((word_count | immutable_msk) <= capacity_in_words) {
+      self_impl->size = uint32_t(bit_index_of(word_count));
+      bl::MemOps::copy_forward_inline_t(self_impl->data(), word_data, word_count);
+      return BL_SUCCESS;
+    }
+
+    if (word_count <= kSSOWordCapacity) {
       BLBitArrayCore newO;
       init_sso(&newO, size_t(word_count) * bl::BitArrayOps::kNumBits);
       bl::MemOps::copy_forward_inline_t(newO._d.u32_data, word_data, word_count);
@@ -342,7 +348,7 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
   }
 
   BLBitArrayCore newO;
-  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count)));
+  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count), bit_index_of(word_count)));
 
   BLBitArrayImpl* new_impl = get_impl(&newO);
   bl::MemOps::copy_forward_inline_t(new_impl->data(), word_data, word_count);
-- 
2.43.0


From eec320c866d42519c42cfcda7b20ab2b89e30dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 020/182] fix: bit array range queries used an unmasked bit
 index and read past the data

---
 blend2d/core/bitarray.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index de4b3d0..2f3b3aa 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -425,7 +425,7 @@ BL_API_IMPL uint32_t bl_bit_array_get_cardinality_in_range(const BLBitArrayCore*
 
   if (start_word == last_word) {
     // Special case - the range is within a single BitWord.
-    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start_bit);
+    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start & bl::BitArrayOps::kBitMask);
     counter.add_item(d.data[start_word] & mask);
   }
   else {
@@ -463,11 +463,11 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
     return false;
 
   size_t start_word = word_index_of(start);
-  size_t end_word = word_index_of(end);
+  size_t last_word = word_index_of(end - 1u);
 
-  if (start_word == end_word) {
+  if (start_word == last_word) {
     // Special case - the range is within a single BitWord.
-    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start);
+    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start & bl::BitArrayOps::kBitMask);
     return (d.data[start_word] & mask) != 0u;
   }
 
@@ -475,12 +475,12 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
   if (d.data[start_word] & start_mask)
     return true;
 
-  for (size_t i = start_word + 1; i < end_word; i++)
+  for (size_t i = start_word + 1; i < last_word; i++)
     if (d.data[i])
       return true;
 
-  uint32_t end_mask = bl::BitArrayOps::non_zero_start_mask(end & bl::BitArrayOps::kBitMask);
-  return (d.data[end_word] & end_mask) != 0u;
+  uint32_t end_mask = bl::BitArrayOps::non_zero_start_mask((uint32_t(end - 1u) & bl::BitArrayOps::kBitMask) + 1u);
+  return (d.data[last_word] & end_mask) != 0u;
 }
 
 // bl::BitArray - API - Testing
-- 
2.43.0


From 51cafa914f1e2df8347a784aadb3cc09b3c14bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 021/182] fix: bit array resize left new words uninitialized
 when reallocating

---
 blend2d/core/bitarray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 2f3b3aa..d272169 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -691,6 +691,7 @@ BL_API_IMPL BLResult bl_bit_array_resize(BLBitArrayCore* self, uint32_t n_bits)
   if (last_word_bit_count)
     dst[word_count - 1] &= bl::BitArrayOps::non_zero_start_mask(last_word_bit_count);
 
+  bl::MemOps::fill_inline_t(dst + word_count, uint32_t(0), word_count_from_bit_count(n_bits) - word_count);
   return replace_instance(self, &newO);
 }
 
-- 
2.43.0


From e9cc27430e1c18ccd8860abc3e794d8f0e6a976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 022/182] fix: bit array reserve truncated shared data and
 changed the size

---
 blend2d/core/bitarray.cpp | 2 +-
 blend2d/core/bitarray.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index d272169..dd0e971 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -719,7 +719,7 @@ BL_API_IMPL BLResult bl_bit_array_reserve(BLBitArrayCore* self, uint32_t n_bits)
     d = BitData{self_impl->data(), self_impl->size};
   }
 
-  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(n_bits));
+  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(bl_max<size_t>(n_bits, d.size)));
   BLBitArrayCore newO;
   BL_PROPAGATE(init_dynamic(&newO, impl_size, d.size));
 
diff --git a/blend2d/core/bitarray.h b/blend2d/core/bitarray.h
index 5fa6406..e705716 100644
--- a/blend2d/core/bitarray.h
+++ b/blend2d/core/bitarray.h
@@ -265,7 +265,7 @@ public:
   BL_INLINE_NODEBUG BLResult resize(uint32_t n_bits) noexcept { return bl_bit_array_resize(this, n_bits); }
 
   //! Reserves `n_bits` in the BitArray (capacity would match `n_bits`) without changing its size.
-  BL_INLINE_NODEBUG BLResult reserve(uint32_t n_bits) noexcept { return bl_bit_array_resize(this, n_bits); }
+  BL_INLINE_NODEBUG BLResult reserve(uint32_t n_bits) noexcept { return bl_bit_array_reserve(this, n_bits); }
 
   //! Shrinks the capacity of the BitArray to match the actual content with the intention to save memory.
   BL_INLINE_NODEBUG BLResult shrink() noexcept { return bl_bit_array_shrink(this); }
-- 
2.43.0


From 97a845c8a116e77ee32db079eb3fe7bf24427b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 023/182] fix: transformations of a path keep the weights of
 its conics

---
 blend2d/core/path.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index b7af701..90fb32c 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -57,6 +57,25 @@ static BL_INLINE void copy_content(uint8_t* cmd_dst, BLPoint* vtx_dst, const uin
 // bl::Path - Internals
 // ====================
 
+// Maps vertices described by `cmd`, conic weights are copied as they are not points.
+static BLResult map_vertices(const BLMatrix2D* transform, uint32_t transform_type, const uint8_t* cmd, BLPoint* vtx_dst, const BLPoint* vtx_src, size_t n) noexcept {
+  BLMapPointDArrayFunc map_func = TransformInternal::map_pointd_array_funcs[transform_type];
+
+  size_t i = 0;
+  while (i < n) {
+    const uint8_t* weight = static_cast<const uint8_t*>(memchr(cmd + i, BL_PATH_CMD_WEIGHT, n - i));
+    size_t end = weight ? size_t(weight - cmd) : n;
+
+    BL_PROPAGATE(map_func(transform, vtx_dst + i, vtx_src + i, end - i));
+    if (end < n)
+      vtx_dst[end] = vtx_src[end];
+
+    i = end + 1;
+  }
+
+  return BL_SUCCESS;
+}
+
 static BL_INLINE BLObjectImplSize expand_impl_size(BLObjectImplSize impl_size) noexcept {
   constexpr size_t kMinimumImplSize = 1024;
   constexpr size_t kMinimumImplMask = kMinimumImplSize - 16;
@@ -878,7 +897,7 @@ static BLResult append_transformed_path_with_type(BLPathCore* self, const BLPath
   other_impl = get_impl(other);
 
   memcpy(cmd_data, other_impl->command_data + start, n);
-  return TransformInternal::map_pointd_array_funcs[transform_type](transform, vtx_data, other_impl->vertex_data + start, n);
+  return map_vertices(transform, transform_type, cmd_data, vtx_data, other_impl->vertex_data + start, n);
 }
 
 } // {PathInternal}
@@ -1783,7 +1802,7 @@ AddBoxD:
 
   BLPathPrivateImpl* self_impl = get_impl(self);
   BLPoint* vtx_data = self_impl->vertex_data + initial_size;
-  return bl_matrix2d_map_pointd_array(m, vtx_data, vtx_data, self_impl->size - initial_size);
+  return map_vertices(m, m->type(), self_impl->command_data + initial_size, vtx_data, vtx_data, self_impl->size - initial_size);
 }
 
 BL_API_IMPL BLResult bl_path_add_path(BLPathCore* self, const BLPathCore* other, const BLRange* range) noexcept {
@@ -1842,7 +1861,7 @@ BL_API_IMPL BLResult bl_path_add_transformed_path(BLPathCore* self, const BLPath
   BLTransformType transform_type = (n >= BL_MATRIX_TYPE_MINIMUM_SIZE) ? transform->type() : BL_TRANSFORM_TYPE_AFFINE;
 
   memcpy(cmd_data, other_impl->command_data + start, n);
-  return bl::TransformInternal::map_pointd_array_funcs[transform_type](transform, vtx_data, other_impl->vertex_data + start, n);
+  return map_vertices(transform, transform_type, cmd_data, vtx_data, other_impl->vertex_data + start, n);
 }
 
 BL_API_IMPL BLResult bl_path_add_reversed_path(BLPathCore* self, const BLPathCore* other, const BLRange* range, BLPathReverseMode reverse_mode) noexcept {
@@ -2105,7 +2124,7 @@ static BLResult transform_with_type(BLPathCore* self, const BLRange* range, cons
   self_impl = get_impl(self);
 
   BLPoint* vtx_data = self_impl->vertex_data + start;
-  return bl::TransformInternal::map_pointd_array_funcs[transform_type](transform, vtx_data, vtx_data, n);
+  return map_vertices(transform, transform_type, self_impl->command_data + start, vtx_data, vtx_data, n);
 }
 
 } // {PathInternal}
@@ -2136,7 +2155,7 @@ BL_API_IMPL BLResult bl_path_transform(BLPathCore* self, const BLRange* range, c
   BLTransformType transform_type = (n >= BL_MATRIX_TYPE_MINIMUM_SIZE) ? m->type() : BL_TRANSFORM_TYPE_AFFINE;
 
   BLPoint* vtx_data = self_impl->vertex_data + start;
-  return bl::TransformInternal::map_pointd_array_funcs[transform_type](m, vtx_data, vtx_data, n);
+  return map_vertices(m, transform_type, self_impl->command_data + start, vtx_data, vtx_data, n);
 }
 
 BL_API_IMPL BLResult bl_path_fit_to(BLPathCore* self, const BLRange* range, const BLRect* rect, uint32_t fit_flags) noexcept {
-- 
2.43.0


From a690e187c20f234e2a0dab8c250e66832888f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 024/182] fix: path.clear() drops cached bounding and control
 box

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 90fb32c..908a7df 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -371,7 +371,7 @@ BL_API_IMPL BLResult bl_path_clear(BLPathCore* self) noexcept {
     return replace_instance(self, static_cast<BLPathCore*>(&bl_object_defaults[BL_OBJECT_TYPE_PATH]));
 
   self_impl->size = 0;
-  self_impl->flags = 0;
+  self_impl->flags = BL_PATH_FLAG_DIRTY;
   return BL_SUCCESS;
 }
 
-- 
2.43.0


From de1b3f770c4cfa655c500d5095eb9ff6af24234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 025/182] fix: control box of a path contains the control
 points of its conics

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 908a7df..2f002b7 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -673,7 +673,7 @@ public:
             Geometry::get_conic_extrema_points(vtx_data - 4, extrema);
             Geometry::bound(bounding_box, extrema[0]);
             Geometry::bound(bounding_box, extrema[1]);
-            Geometry::bound(control_box, vtx_data[-2]);
+            Geometry::bound(control_box, vtx_data[-3]);
           }
           break;
         }
-- 
2.43.0


From 262bf489fbc7a995379835006af473b981f00258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 026/182] fix: reversing a closed figure that is a single
 vertex keeps MOVE before CLOSE

---
 blend2d/core/path.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 2f002b7..92f645d 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -841,6 +841,14 @@ static BLResult copy_content_reversed(PathAppender& dst, PathIterator src, BLPat
         if (!has_close)
           return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
 
+        // A closed figure that consists of a single MOVE.
+        if (!src.at_end() && src.cmd[0] == BL_PATH_CMD_MOVE) {
+          dst.move_to(src.vtx[0]);
+          dst.close();
+          src--;
+          continue;
+        }
+
         // Make sure the next command is ON, continue otherwise.
         if (src.at_end() || src.cmd[0] != BL_PATH_CMD_ON) {
           dst.add_vertex(BL_PATH_CMD_CLOSE, src.vtx[1]);
-- 
2.43.0


From 442ad5aa23823ad4ff7fd4dce8a4a52d83ac327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 027/182] fix: reversing a path keeps conic weights after the
 control point

---
 blend2d/core/path.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 92f645d..3e8eed4 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -872,6 +872,20 @@ static BLResult copy_content_reversed(PathAppender& dst, PathIterator src, BLPat
         if (cmd == BL_PATH_CMD_CLOSE)
           break;
 
+        // Conic weight always follows the control point, also in a reversed path.
+        if (cmd == BL_PATH_CMD_WEIGHT) {
+          BLPoint weight = src.vtx[0];
+          src--;
+
+          if (src.at_end() || src.cmd[0] != BL_PATH_CMD_CONIC)
+            return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
+
+          dst.add_vertex(BL_PATH_CMD_CONIC, src.vtx[0]);
+          dst.add_vertex(BL_PATH_CMD_WEIGHT, weight);
+          src--;
+          continue;
+        }
+
         dst.add_vertex(src.cmd[0], src.vtx[0]);
         src--;
       }
-- 
2.43.0


From 15fb22f23cdc5d697b69a3a453a7b21d7e806828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 028/182] fix: counter-clockwise polygons do not read past the
 end of the points

---
 blend2d/core/path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 3e8eed4..972d81d 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1662,7 +1662,7 @@ AddBoxD:
           appender.line_to(*src++);
       }
       else {
-        src += n - 1;
+        src += n - 2;
         for (size_t i = n - 1; i; i--)
           appender.line_to(*src--);
       }
@@ -1681,7 +1681,7 @@ AddBoxD:
           appender.line_to(*src++);
       }
       else {
-        src += n - 1;
+        src += n - 2;
         for (size_t i = n - 1; i; i--)
           appender.line_to(*src--);
       }
-- 
2.43.0


From 75588c1d6d3ea3fed10cfb97e1fad65162180c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 029/182] fix: counter-clockwise box and rect arrays do not
 read past the end of the array

---
 blend2d/core/path.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 972d81d..2575dba 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1703,7 +1703,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += array->size - 1;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1725,7 +1725,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += array->size - 1;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1752,7 +1752,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += array->size - 1;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1784,7 +1784,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += array->size - 1;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
-- 
2.43.0


From f451c5ad50d64bbeacaa93bb028c88d8ec517c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 030/182] fix: appending a path reversed to itself uses only
 its original content

---
 blend2d/core/path.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 2575dba..8099182 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1804,7 +1804,10 @@ AddBoxD:
       BL_ASSERT(dir != BL_GEOMETRY_DIRECTION_CW);
 
       const BLPathPrivateImpl* other_impl = get_impl(static_cast<const BLPath*>(geometry_data));
-      BLResult result = copy_content_reversed(appender, bl::PathIterator(other_impl->view), BL_PATH_REVERSE_MODE_COMPLETE);
+
+      // NOTE: `n` is the size of the other path before appending, which matters if `self` and `other` were the same.
+      bl::PathIterator src(other_impl->command_data, other_impl->vertex_data, n);
+      BLResult result = copy_content_reversed(appender, src, BL_PATH_REVERSE_MODE_COMPLETE);
 
       if (result != BL_SUCCESS) {
         set_size(self, initial_size);
-- 
2.43.0


From e1f4401c676025bb5ca85b018fb8002b196a4b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 031/182] fix: path.fit_to() does not read before the first
 vertex

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 8099182..2f17c46 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2197,7 +2197,7 @@ BL_API_IMPL BLResult bl_path_fit_to(BLPathCore* self, const BLRange* range, cons
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   PathInfoUpdater updater;
-  BL_PROPAGATE(updater.update(BLPathView { self_impl->command_data + start, self_impl->vertex_data + start, n }, true));
+  BL_PROPAGATE(updater.update(BLPathView { self_impl->command_data + start, self_impl->vertex_data + start, n }, start != 0));
 
   // TODO: Honor `fit_flags`.
   bl_unused(fit_flags);
-- 
2.43.0


From 95e1702205e24147511aaf250df2328011228065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 032/182] fix: figure range of a path ends at the CLOSE command
 given as index

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 2f17c46..9fa0160 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2347,7 +2347,7 @@ BL_API_IMPL BLResult bl_path_get_figure_range(const BLPathCore* self, size_t ind
 
   // Find end of the sub-path.
   size_t end = index + 1;
-  while (end < size) {
+  while (end < size && cmd_data[end - 1] != BL_PATH_CMD_CLOSE) {
     uint32_t cmd = cmd_data[end];
     if (cmd == BL_PATH_CMD_MOVE)
       break;
-- 
2.43.0


From 5faf2a2bd633fa622375423b4bd35d53eab07878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 033/182] fix: closest vertex uses the control box only if it
 is valid

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 9fa0160..6508894 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2443,7 +2443,7 @@ BL_API_IMPL BLResult bl_path_get_closest_vertex(const BLPathCore* self, const BL
     // This code-path can be used to skip the whole path if the given point is
     // too far. We need 'max_distance' to be specified and also bounding-box to
     // be available.
-    if (ensure_info(self_impl) != BL_SUCCESS) {
+    if (ensure_info(self_impl) == BL_SUCCESS) {
       // If the given point is outside of the path bounding-box extended by
       // `max_distance` then there is no matching vertex to possibly return.
       const BLBox& b_box = self_impl->control_box;
-- 
2.43.0


From 5d43e4782727e17ba96d43bbeccbc06b7264b4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 034/182] fix: removing an inlined font feature keeps the
 values of the others

---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index 7ccd6f2..c639ee7 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -114,7 +114,7 @@ static BL_INLINE void remove_sso_fat_tag(BLFontFeatureSettingsCore* self, uint32
   uint32_t vals_lsb_mask = ((1u << val_offset) - 1u);
 
   tags = (tags & tags_lsb_mask) | ((tags >> kSSOFatFeatureTagBitCount) & ~tags_lsb_mask) | (kSSOInvalidFatFeatureId << ((kSSOFatFeatureCount - 1) * kSSOFatFeatureTagBitCount));
-  vals = (vals & vals_lsb_mask) | ((vals >> kSSOFatFeatureValueBitCount) & ~tags_lsb_mask);
+  vals = (vals & vals_lsb_mask) | ((vals >> kSSOFatFeatureValueBitCount) & ~vals_lsb_mask);
 
   self->_d.u32_data[2] = tags;
   self->_d.info.bits = ((self->_d.info.bits & ~kValueDataMask) - (1u << BL_OBJECT_INFO_A_SHIFT)) | (vals & kValueDataMask);
-- 
2.43.0


From 1ec6db4fcb309de0b8e5fafae20436bb8de3ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 035/182] fix: has_value() finds inlined font features that are
 not boolean

---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index c639ee7..1e5d297 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -467,7 +467,7 @@ BL_API_IMPL bool bl_font_feature_settings_has_value(const BLFontFeatureSettingsC
     }
     else {
       uint32_t dummy_index;
-      return find_sso_fat_tag(self, feature_info.bit_id, &dummy_index);
+      return find_sso_fat_tag(self, id, &dummy_index);
     }
   }
 
-- 
2.43.0


From af581496b16997a1fdd9a16c8c466ca87049b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 036/182] fix: font feature values above 15 are not stored
 inline

---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index 1e5d297..b89c946 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -525,7 +525,7 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
           return BL_SUCCESS;
         }
       }
-      else if (value <= kSSOFatFeatureTagBitMask) {
+      else if (value <= kSSOFatFeatureValueBitMask) {
         uint32_t index;
         if (find_sso_fat_tag(self, feature_id, &index)) {
           update_sso_fat_value(self, index, value);
-- 
2.43.0


From 5f7fceac56494658cdcd71f9bb5d8f9ca8a5db5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 037/182] fix: boolean font features reject other values also
 in dynamic settings

---
 blend2d/core/fontfeaturesettings.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index b89c946..d8e783e 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -557,6 +557,9 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
     if (BL_UNLIKELY(!bl::FontTagData::is_valid_tag(feature_tag)))
       return bl_make_error(BL_ERROR_INVALID_VALUE);
 
+    if (feature_id != bl::FontTagData::kInvalidId && bl::FontTagData::feature_info_table[feature_id].has_bit_id() && value > 1u)
+      return bl_make_error(BL_ERROR_INVALID_VALUE);
+
     can_modify = is_impl_mutable(get_impl(self));
   }
 
-- 
2.43.0


From c39553322d880a3b5836f1712af2a0dfa7850b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 038/182] fix: assigning unsorted gradient stops drops the last
 stop

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index ba5fd61..4154d2e 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -156,7 +156,7 @@ static BL_NOINLINE size_t copy_unsafe_stops(BLGradientStop* dst, const BLGradien
   double prev1 = -1.0; // Dummy, cannot be within [0..1] range.
   double prev2 = -1.0;
 
-  for (size_t i = 0; i < n - 1u; i++) {
+  for (size_t i = 0; i < n; i++) {
     double offset = stops[i].offset;
     BLRgba64 rgba = src[size_t(stops[i].index)].rgba;
 
-- 
2.43.0


From ad263d0902d7d88793d0c53fcecb60e22e1ae94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 039/182] fix: gradient deep copy drops values not used by the
 current type

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 4154d2e..523507c 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -368,7 +368,7 @@ static BL_NOINLINE BLResult deep_copy(BLGradientCore* self, const BLGradientCore
   const BLGradientPrivateImpl* other_impl = get_impl(other);
 
   BLGradientCore newO;
-  BL_PROPAGATE(alloc_impl(&newO, impl_size_from_capacity(other_impl->capacity), other_impl->values, value_count_table[get_gradient_type(other)], &other_impl->transform));
+  BL_PROPAGATE(alloc_impl(&newO, impl_size_from_capacity(other_impl->capacity), other_impl->values, BL_GRADIENT_VALUE_MAX_VALUE + 1u, &other_impl->transform));
 
   newO._d.info.set_fields(fields);
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
-- 
2.43.0


From 25520d5fb8c5261f6d11e8d1add8bff9d5970bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 040/182] fix: removing stops from a shared gradient drops all
 stops

---
 blend2d/core/gradient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 523507c..12b9716 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -874,6 +874,8 @@ BL_API_IMPL BLResult bl_gradient_remove_stops_by_index(BLGradientCore* self, siz
     BLGradientStop* new_stops = new_impl->stops;
     copy_stops(new_stops, stops, index);
     copy_stops(new_stops + index, stops + end, shifted_count);
+
+    new_impl->size = after_count;
     return replace_instance(self, &newO);
   }
   else {
-- 
2.43.0


From d1f9bb96d535a98ef84c944df129fe7d9b99353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 041/182] fix: gradient replace_stop with an invalid offset
 removes the stop

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 12b9716..7be6ad8 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -921,7 +921,7 @@ BL_API_IMPL BLResult bl_gradient_replace_stop_rgba64(BLGradientCore* self, size_
   using namespace bl::GradientInternal;
   BL_ASSERT(self->_d.is_gradient());
 
-  if (BL_UNLIKELY(index >= get_size(self)))
+  if (BL_UNLIKELY(index >= get_size(self) || !(offset >= 0.0 && offset <= 1.0)))
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   BL_PROPAGATE(make_mutable(self, false));
-- 
2.43.0


From 9bc9000ba3b43bd16344a0c7b301ff3ae1586e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 042/182] fix: default gradient never equals a created gradient
 of the same content

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 7be6ad8..db93bcd 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -1009,7 +1009,7 @@ BL_API_IMPL bool bl_gradient_equals(const BLGradientCore* a, const BLGradientCor
   const BLGradientPrivateImpl* a_impl = get_impl(a);
   const BLGradientPrivateImpl* b_impl = get_impl(b);
 
-  if (a->_d.info != b->_d.info)
+  if (a->_d.fields() != b->_d.fields())
     return false;
 
   if (a_impl == b_impl)
-- 
2.43.0


From 586987bb70234dd2fea85c76f7596c9c589c90de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 043/182] fix: gradient equality ignores gradient values

---
 blend2d/core/gradient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index db93bcd..24f6144 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -1015,6 +1015,10 @@ BL_API_IMPL bool bl_gradient_equals(const BLGradientCore* a, const BLGradientCor
   if (a_impl == b_impl)
     return true;
 
+  for (size_t i = 0; i <= BL_GRADIENT_VALUE_MAX_VALUE; i++)
+    if (a_impl->values[i] != b_impl->values[i])
+      return false;
+
   size_t size = a_impl->size;
   unsigned eq = unsigned(a_impl->transform == b_impl->transform) & unsigned(size == b_impl->size);
   return eq && memcmp(a_impl->stops, b_impl->stops, size * sizeof(BLGradientStop)) == 0;
-- 
2.43.0


From 0413bea11a5e5160cacab8ffecd2d485321bb0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 044/182] fix: pattern assign_deep ignores extend mode and
 transform type of the source

---
 blend2d/core/pattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pattern.cpp b/blend2d/core/pattern.cpp
index 71289b2..090863f 100644
--- a/blend2d/core/pattern.cpp
+++ b/blend2d/core/pattern.cpp
@@ -45,7 +45,7 @@ static BL_NOINLINE BLResult make_mutable_copy_of(BLPatternCore* self, const BLPa
   BLPatternPrivateImpl* other_impl = get_impl(other);
 
   BLPatternCore newO;
-  BL_PROPAGATE(alloc_impl(&newO, &other_impl->image, other_impl->area, get_extend_mode(self), &other_impl->transform, get_transform_type(self)));
+  BL_PROPAGATE(alloc_impl(&newO, &other_impl->image, other_impl->area, get_extend_mode(other), &other_impl->transform, get_transform_type(other)));
 
   return replace_instance(self, &newO);
 }
-- 
2.43.0


From 4aed819b019513830d56e1d1c28bbcc0ca6c4f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 045/182] fix: moved-from or default-initialized variants of
 primitive types become RGBA

---
 blend2d/core/object.cpp  | 16 ++++++++++++++++
 blend2d/core/runtime.cpp |  1 +
 blend2d/core/runtime_p.h |  1 +
 3 files changed, 18 insertions(+)

diff --git a/blend2d/core/object.cpp b/blend2d/core/object.cpp
index a03ad0b..90f149b 100644
--- a/blend2d/core/object.cpp
+++ b/blend2d/core/object.cpp
@@ -353,3 +353,19 @@ BLResult bl_object_impl_set_property(BLObjectImpl* impl, const char* name, size_
   bl_unused(impl, name, name_size, value);
   return bl_make_error(BL_ERROR_INVALID_KEY);
 }
+
+// bl::Object - Runtime Registration
+// =================================
+
+void bl_object_rt_init(BLRuntimeContext* rt) noexcept {
+  bl_unused(rt);
+
+  // Types that have no object representation - everything else registers its own default object.
+  bl_object_defaults[BL_OBJECT_TYPE_RGBA32]._d.init_rgba32(0);
+  bl_object_defaults[BL_OBJECT_TYPE_RGBA64]._d.init_rgba64(0);
+  bl_object_defaults[BL_OBJECT_TYPE_NULL]._d.init_null();
+  bl_object_defaults[BL_OBJECT_TYPE_BOOL]._d.init_bool(false);
+  bl_object_defaults[BL_OBJECT_TYPE_INT64]._d.init_int64(0);
+  bl_object_defaults[BL_OBJECT_TYPE_UINT64]._d.init_uint64(0);
+  bl_object_defaults[BL_OBJECT_TYPE_DOUBLE]._d.init_double(0.0);
+}
diff --git a/blend2d/core/runtime.cpp b/blend2d/core/runtime.cpp
index 5cc4e77..15b3de6 100644
--- a/blend2d/core/runtime.cpp
+++ b/blend2d/core/runtime.cpp
@@ -277,6 +277,7 @@ BL_API_IMPL BLResult bl_runtime_init() noexcept {
   bl_zero_allocator_rt_init(rt);
 
   bl_compression_rt_init(rt);
+  bl_object_rt_init(rt);
   bl_pixel_ops_rt_init(rt);
   bl_bit_array_rt_init(rt);
   bl_bit_set_rt_init(rt);
diff --git a/blend2d/core/runtime_p.h b/blend2d/core/runtime_p.h
index e77468f..f4925b1 100644
--- a/blend2d/core/runtime_p.h
+++ b/blend2d/core/runtime_p.h
@@ -204,6 +204,7 @@ BL_HIDDEN void bl_thread_pool_rt_init(BLRuntimeContext* rt) noexcept;
 BL_HIDDEN void bl_zero_allocator_rt_init(BLRuntimeContext* rt) noexcept;
 
 BL_HIDDEN void bl_compression_rt_init(BLRuntimeContext* rt) noexcept;
+BL_HIDDEN void bl_object_rt_init(BLRuntimeContext* rt) noexcept;
 BL_HIDDEN void bl_pixel_ops_rt_init(BLRuntimeContext* rt) noexcept;
 BL_HIDDEN void bl_bit_array_rt_init(BLRuntimeContext* rt) noexcept;
 BL_HIDDEN void bl_bit_set_rt_init(BLRuntimeContext* rt) noexcept;
-- 
2.43.0


From f3ee3eaba0270569de4d0c73b07cabf25483bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 046/182] fix: variant type predicates accept types whose bits
 are a superset

---
 blend2d/core/object.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/object.h b/blend2d/core/object.h
index e5e0be5..cc1bd78 100644
--- a/blend2d/core/object.h
+++ b/blend2d/core/object.h
@@ -504,7 +504,7 @@ struct BLObjectInfo {
 
   //! Tests whether BLObjectInfo describes a valid BLObject of the given `type`.
   BL_INLINE_CONSTEXPR bool check_object_signature_and_raw_type(BLObjectType type) const noexcept {
-    return has_object_signature_and_flags(uint32_t(type) << BL_OBJECT_INFO_TYPE_SHIFT);
+    return has_object_signature_and_flags(BL_OBJECT_INFO_TYPE_MASK, uint32_t(type) << BL_OBJECT_INFO_TYPE_SHIFT);
   }
 
   //! \}
-- 
2.43.0


From aed38ed96c0cba84b2a89966495d13bfd3ec27da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 047/182] fix: converting a string variant to bool returns the
 value as the error

---
 blend2d/core/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index 8dda62c..c21d5f1 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -217,7 +217,8 @@ BL_API_IMPL BLResult bl_var_to_bool(const BLUnknown* self, bool* out) noexcept {
     }
 
     case BL_OBJECT_TYPE_STRING: {
-      return !static_cast<const BLString*>(static_cast<const BLObjectCore*>(self))->is_empty();
+      *out = !static_cast<const BLString*>(static_cast<const BLObjectCore*>(self))->is_empty();
+      return BL_SUCCESS;
     }
 
     default: {
-- 
2.43.0


From ecbbc46443c23c172e28d8368e6da8ec32a0ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 048/182] fix: variant to int64 conversion of 2^63 is not
 clamped

---
 blend2d/core/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index c21d5f1..19da5b3 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -341,7 +341,7 @@ BL_API_IMPL BLResult bl_var_to_int64(const BLUnknown* self, int64_t* out) noexce
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
 
-      if (f > double(INT64_MAX)) {
+      if (f >= double(INT64_MAX)) {
         *out = INT64_MAX;
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
-- 
2.43.0


From 46726e4420341faabdcc56e398467a3326ee92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 049/182] fix: variant to uint64 conversion of 2^64 is not
 clamped

---
 blend2d/core/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index 19da5b3..cbaf163 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -479,7 +479,7 @@ BL_API_IMPL BLResult bl_var_to_uint64(const BLUnknown* self, uint64_t* out) noex
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
 
-      if (f > double(UINT64_MAX)) {
+      if (f >= double(UINT64_MAX)) {
         *out = UINT64_MAX;
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
-- 
2.43.0


From ed9513f76333e7dc1eeb8dde910e8b09582b3955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 050/182] fix: all variants holding doubles compare equal

---
 blend2d/core/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index cbaf163..f0fc851 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -680,7 +680,7 @@ BL_API_IMPL bool bl_var_equals(const BLUnknown* a, const BLUnknown* b) noexcept
       return false;
 
     case BL_OBJECT_TYPE_DOUBLE:
-      return a_d.f64_data[0] == a_d.f64_data[0];
+      return bl_var_equals_double(a, b_d.f64_data[0]);
 
     case BL_OBJECT_TYPE_STRING:
       return bl_string_equals(static_cast<const BLStringCore*>(a), static_cast<const BLStringCore*>(b));
-- 
2.43.0


From 3986aa295b5835fd38306a2ad84252e2748c56be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 051/182] fix: variant holding a color with negative alpha is
 treated as an object

---
 blend2d/core/var.h   | 2 +-
 blend2d/core/var_p.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/var.h b/blend2d/core/var.h
index 83b88e4..34e9765 100644
--- a/blend2d/core/var.h
+++ b/blend2d/core/var.h
@@ -175,7 +175,7 @@ struct VarOps<BLRgba, kTypeCategoryStruct> {
     uint32_t r = bl_bit_cast<uint32_t>(value.r);
     uint32_t g = bl_bit_cast<uint32_t>(value.g);
     uint32_t b = bl_bit_cast<uint32_t>(value.b);
-    uint32_t a = bl_max<uint32_t>(bl_bit_cast<uint32_t>(value.a), 0);
+    uint32_t a = uint32_t(bl_max<int32_t>(bl_bit_cast<int32_t>(value.a), 0));
     self->_d.init_u32x4(r, g, b, a);
   }
 
diff --git a/blend2d/core/var_p.h b/blend2d/core/var_p.h
index 84f17ab..b3664ed 100644
--- a/blend2d/core/var_p.h
+++ b/blend2d/core/var_p.h
@@ -28,7 +28,7 @@ static BL_INLINE BLResult init_rgba(BLObjectCore* self, const BLRgba* rgba) noex
   uint32_t r = bl_bit_cast<uint32_t>(rgba->r);
   uint32_t g = bl_bit_cast<uint32_t>(rgba->g);
   uint32_t b = bl_bit_cast<uint32_t>(rgba->b);
-  uint32_t a = bl_max<uint32_t>(bl_bit_cast<uint32_t>(rgba->a), 0);
+  uint32_t a = uint32_t(bl_max<int32_t>(bl_bit_cast<int32_t>(rgba->a), 0));
 
   self->_d.init_u32x4(r, g, b, a);
   return BL_SUCCESS;
-- 
2.43.0


From f248fb5268cc7189cc16ede115c9c10505f80c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 052/182] fix: glyph buffer never reports invalid text

---
 blend2d/core/glyphbuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index d528e41..fa6add6 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -125,6 +125,8 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
   uint32_t* text_data = d->content;
   BLGlyphInfo* info_data = d->info_data;
 
+  d->flags = 0;
+
   while (reader.has_next()) {
     uint32_t uc;
     uint32_t cluster = uint32_t(reader.native_index(src));
@@ -142,7 +144,6 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
   }
 
   d->size = (size_t)(text_data - d->content);
-  d->flags = 0;
 
   if (d->size)
     d->flags |= BL_GLYPH_RUN_FLAG_UCS4_CONTENT;
-- 
2.43.0


From c6353dd3203294f968e8dda9ac62ca2e010ddda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 053/182] fix: setting glyphs of a glyph buffer reads 32-bit
 glyphs two bytes apart

---
 blend2d/core/glyphbuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index fa6add6..47359ed 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -283,7 +283,7 @@ BL_API_IMPL BLResult bl_glyph_buffer_set_glyphs(BLGlyphBufferCore* self, const u
   BL_PROPAGATE(bl_glyph_buffer_ensure_data(self, &d));
   BL_PROPAGATE(d->ensure_buffer(0, 0, size));
 
-  return bl_internal_glyph_buffer_data_set_glyph_ids(d, glyph_data, size, intptr_t(sizeof(uint16_t)));
+  return bl_internal_glyph_buffer_data_set_glyph_ids(d, glyph_data, size, intptr_t(sizeof(uint32_t)));
 }
 
 BL_API_IMPL BLResult bl_glyph_buffer_set_glyphs_from_struct(BLGlyphBufferCore* self, const void* glyph_data, size_t size, size_t glyph_id_size, intptr_t glyph_id_advance) noexcept {
-- 
2.43.0


From a67bfad3bf6ebc6cca5e95735335a4e6680b56fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 054/182] fix: conversion ignores incomplete code unit at the
 end of UTF-16 and UTF-32 text

---
 blend2d/unicode/unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/unicode/unicode.cpp b/blend2d/unicode/unicode.cpp
index 508a688..1adfa43 100644
--- a/blend2d/unicode/unicode.cpp
+++ b/blend2d/unicode/unicode.cpp
@@ -141,7 +141,7 @@ static BL_INLINE BLResult convert_unicode_impl(void* dst, size_t dst_size_in_byt
   state.dst_index = offset_of_ptr(dst, writer._ptr);
   state.src_index = offset_of_ptr(src, iter._ptr);
 
-  if (Iterator::kCharSize > 1 && result == BL_SUCCESS && !IntOps::is_aligned(state.src_index, Iterator::kCharSize))
+  if (Iterator::kCharSize > 1 && result == BL_SUCCESS && !IntOps::is_aligned(src_size_in_bytes, Iterator::kCharSize))
     return bl_make_error(BL_ERROR_DATA_TRUNCATED);
   else
     return result;
-- 
2.43.0


From cd54730078a36f1bbec81c4a69b5683a86666d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 055/182] fix: conversion from Latin-1 to UTF-8 does not report
 sizes when the worst case does not fit

---
 blend2d/unicode/unicode.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/blend2d/unicode/unicode.cpp b/blend2d/unicode/unicode.cpp
index 1adfa43..b159eda 100644
--- a/blend2d/unicode/unicode.cpp
+++ b/blend2d/unicode/unicode.cpp
@@ -195,19 +195,20 @@ BLResult convert_unicode(
         state.dst_index = writer.index(static_cast<char*>(dst));
       }
       else {
-        for (size_t i = 0; i < src_size_in_bytes; i++) {
+        size_t i;
+        for (i = 0; i < src_size_in_bytes; i++) {
           uint32_t uc = src8[i];
           if (uc <= 0x7F)
             result = writer.write_byte(uc);
           else
             result = writer.write2_bytes(uc);
 
-          if (BL_UNLIKELY(result != BL_SUCCESS)) {
-            state.dst_index = writer.index(static_cast<char*>(dst));
-            state.src_index = i;
+          if (BL_UNLIKELY(result != BL_SUCCESS))
             break;
-          }
         }
+
+        state.src_index = i;
+        state.dst_index = writer.index(static_cast<char*>(dst));
       }
 
       break;
-- 
2.43.0


From 2c5e21dc4e8ca59f516890da08d44ac71b1f4e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 056/182] fix: copying truncated UTF-16 text reports not enough
 space

---
 blend2d/unicode/unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/unicode/unicode.cpp b/blend2d/unicode/unicode.cpp
index b159eda..7c27758 100644
--- a/blend2d/unicode/unicode.cpp
+++ b/blend2d/unicode/unicode.cpp
@@ -304,7 +304,7 @@ BLResult convert_unicode(
       memmove(dst, src, validated_size);
 
       // Prevent `BL_ERROR_DATA_TRUNCATED` in case there is not enough space in destination.
-      if (copy_size < src_size_in_bytes && (result == BL_SUCCESS || result == BL_ERROR_DATA_TRUNCATED))
+      if (copy_size < IntOps::align_down(src_size_in_bytes, 2) && (result == BL_SUCCESS || result == BL_ERROR_DATA_TRUNCATED))
         result = bl_make_error(BL_ERROR_NO_SPACE_LEFT);
 
       // Report `BL_ERROR_DATA_TRUNCATED` is everything went right, but the
-- 
2.43.0


From 92b4eb57af94032a56a377a0c43328126df4b3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 057/182] fix: UTF-8 validation accepts encoded surrogates

---
 blend2d/unicode/unicode_p.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blend2d/unicode/unicode_p.h b/blend2d/unicode/unicode_p.h
index 437ad1e..e5ead30 100644
--- a/blend2d/unicode/unicode_p.h
+++ b/blend2d/unicode/unicode_p.h
@@ -290,6 +290,12 @@ public:
         if (BL_UNLIKELY((b1 | b2) > 0x3Fu || uc < 0x800u))
           goto InvalidString;
 
+        // 3. Refuse surrogates, which are not valid code-points.
+        if (bl_test_flag(kFlags, IOFlags::kStrict)) {
+          if (BL_UNLIKELY(is_surrogate(uc)))
+            goto InvalidString;
+        }
+
         // 3-Byte UTF-8 maps to one UTF-16 or UTF-32 code-point, so subtract 2.
         if (bl_test_flag(kFlags, IOFlags::kCalcIndex))
           _utf32_index_subtract += 2;
-- 
2.43.0


From d5b4a15fc0e3c68579de2a5c03551ce6b0b27aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 058/182] fix: DEFLATE decoder called again after the end of
 the stream grows its output without bound

---
 blend2d/compression/deflatedecoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/compression/deflatedecoder.cpp b/blend2d/compression/deflatedecoder.cpp
index 26407a7..dfc30f2 100644
--- a/blend2d/compression/deflatedecoder.cpp
+++ b/blend2d/compression/deflatedecoder.cpp
@@ -616,8 +616,8 @@ BLResult Decoder::decode(BLArray<uint8_t>& dst, BLDataView input) noexcept {
 
     switch (state) {
       case DecoderState::kDone: {
-        // TODO:
-        break;
+        // Nothing to decode, any remaining input is ignored.
+        return BL_SUCCESS;
       }
 
       // Zlib Header
-- 
2.43.0


From b578a77642c0ffd8a9e9473542baf2effafb3e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 059/182] fix: reject zlib streams that declare a window larger
 than 32 KiB

---
 blend2d/compression/deflatedecoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/compression/deflatedecoder.cpp b/blend2d/compression/deflatedecoder.cpp
index dfc30f2..2cee0f1 100644
--- a/blend2d/compression/deflatedecoder.cpp
+++ b/blend2d/compression/deflatedecoder.cpp
@@ -640,6 +640,10 @@ BLResult Decoder::decode(BLArray<uint8_t>& dst, BLDataView input) noexcept {
         if (BL_UNLIKELY((cmf & 0xFu) != 8u))
           goto ErrorInvalidData;
 
+        // The window size (base-2 logarithm minus 8) cannot exceed 32KiB.
+        if (BL_UNLIKELY((cmf >> 4) > 7u))
+          goto ErrorInvalidData;
+
         // Preset dictionary is not supported.
         if (BL_UNLIKELY(fdict))
           goto ErrorInvalidData;
-- 
2.43.0


From d5896479f3308dddab20caac876c1569447ae67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 060/182] fix: stored DEFLATE block following a fast-decoded
 block corrupts the bit buffer

---
 blend2d/compression/deflatedecoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/compression/deflatedecoder.cpp b/blend2d/compression/deflatedecoder.cpp
index 2cee0f1..0af0aed 100644
--- a/blend2d/compression/deflatedecoder.cpp
+++ b/blend2d/compression/deflatedecoder.cpp
@@ -1474,6 +1474,10 @@ CopyBytesState: {
           }
         }
 
+        // All buffered bits have been consumed, however, `bit_word` could still hold bits past `bit_length` (the refill in
+        // a fast loop loads more bits than it accounts for), which would corrupt the next refill after the raw copy.
+        bits.reset();
+
         size_t n = bl_min<size_t>(_copy_remaining, src_remaining);
         if (n == 0) {
           goto NotEnoughInputBytes;
-- 
2.43.0


From 41026ea116dec7610054241b64bd2af4ec4f9640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 061/182] fix: DEFLATE fast decoding loop reads outside of the
 offset table on invalid offset symbols

---
 blend2d/compression/deflatedecoderfastimpl_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/compression/deflatedecoderfastimpl_p.h b/blend2d/compression/deflatedecoderfastimpl_p.h
index 25e8e0b..66c1145 100644
--- a/blend2d/compression/deflatedecoderfastimpl_p.h
+++ b/blend2d/compression/deflatedecoderfastimpl_p.h
@@ -142,7 +142,7 @@ DecoderFastResult decode_impl(
       uint32_t offset = DecoderUtils::raw_payload(entry) + DecoderUtils::extract_extra(bits.bit_word, entry);
 
       if (BL_UNLIKELY(!DecoderUtils::is_off_or_len(entry))) {
-        entry = tables.offset_decode_table[offset];
+        entry = tables.offset_decode_table[offset & 0x7FFFu];
         offset = DecoderUtils::raw_payload(entry) + DecoderUtils::extract_extra(bits.bit_word, entry);
 
         if (BL_UNLIKELY(DecoderUtils::is_end_of_block(entry))) {
-- 
2.43.0


From f5f1442d7182d71c8b3c60017c76719b38954d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 062/182] fix: appending DEFLATE compression truncates the
 existing content

---
 blend2d/compression/deflateencoder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/compression/deflateencoder.cpp b/blend2d/compression/deflateencoder.cpp
index 8ff5d32..2661eef 100644
--- a/blend2d/compression/deflateencoder.cpp
+++ b/blend2d/compression/deflateencoder.cpp
@@ -2182,8 +2182,10 @@ BLResult Encoder::compress(BLArray<uint8_t>& dst, BLModifyOp modify_op, BLDataVi
 
   BL_PROPAGATE(dst.modify_op(modify_op, min_output_size, &output_buffer));
 
+  // Appending operations keep the existing content, which precedes the output.
+  size_t output_index = PtrOps::byte_offset(dst.data(), output_buffer);
   size_t output_size = compress_to(output_buffer, min_output_size, input.data, input.size);
-  return dst.truncate(output_size);
+  return dst.truncate(output_index + output_size);
 }
 
 } // {bl::Compression::Deflate}
-- 
2.43.0


From 7d75596c93f9e38f0d7b15dec20207b6d6883f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 063/182] fix: lock the thread pool when reading its pooled
 thread count

---
 blend2d/threading/threadpool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/threading/threadpool.cpp b/blend2d/threading/threadpool.cpp
index 71edf27..130bb57 100644
--- a/blend2d/threading/threadpool.cpp
+++ b/blend2d/threading/threadpool.cpp
@@ -143,7 +143,8 @@ static uint32_t BL_CDECL bl_thread_pool_max_thread_count(const BLThreadPool* sel
 }
 
 static uint32_t BL_CDECL bl_thread_pool_pooled_thread_count(const BLThreadPool* self_) noexcept {
-  const BLInternalThreadPool* self = static_cast<const BLInternalThreadPool*>(self_);
+  BLInternalThreadPool* self = const_cast<BLInternalThreadPool*>(static_cast<const BLInternalThreadPool*>(self_));
+  BLLockGuard<BLMutex> guard(self->mutex);
   return self->pooled_thread_count;
 }
 
-- 
2.43.0


From 81aec308dcf68106f7b7fa9743eae17937c249ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 064/182] fix: do not put a garbage thread to the pool when
 releasing zero threads

---
 blend2d/threading/threadpool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/threading/threadpool.cpp b/blend2d/threading/threadpool.cpp
index 130bb57..be8ab84 100644
--- a/blend2d/threading/threadpool.cpp
+++ b/blend2d/threading/threadpool.cpp
@@ -219,6 +219,11 @@ static uint32_t BL_CDECL bl_thread_pool_cleanup(BLThreadPool* self_, uint32_t th
 // ==============================
 
 static void bl_thread_pool_release_threads_internal(BLInternalThreadPool* self, BLThread** threads, uint32_t n) noexcept {
+  // Nothing to release - for example when the creation of the first thread failed.
+  if (n == 0u) {
+    return;
+  }
+
   uint32_t i = 0;
   uint32_t bw_index = 0;
 
-- 
2.43.0


From db72afb9f60afd66733a6eb7587d105308e6654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 065/182] fix: update flags of portable worker threads
 atomically, status() reads them without a lock

---
 blend2d/threading/thread.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/threading/thread.cpp b/blend2d/threading/thread.cpp
index 5997f54..42bb688 100644
--- a/blend2d/threading/thread.cpp
+++ b/blend2d/threading/thread.cpp
@@ -151,7 +151,7 @@ static BLResult BL_CDECL bl_portable_worker_thread_run(BLThread* self, BLThreadF
 
   thread->_work_item.func = func;
   thread->_work_item.data = data;
-  thread->_status_data.flags = flags | BL_WORKER_THREAD_FLAG_ENQUEUED_WORK;
+  bl_atomic_store_relaxed(&thread->_status_data.flags, flags | BL_WORKER_THREAD_FLAG_ENQUEUED_WORK);
 
   if (flags & BL_WORKER_THREAD_FLAG_SLEEPING) {
     thread->_condition.signal();
@@ -173,7 +173,7 @@ static BLResult BL_CDECL bl_portable_worker_thread_quit(BLThread* self, uint32_t
   BLLockGuard<BLMutex> guard(thread->_mutex);
   uint32_t flags = thread->_status_data.flags;
 
-  thread->_status_data.flags = flags | BL_WORKER_THREAD_FLAG_QUITTING;
+  bl_atomic_store_relaxed(&thread->_status_data.flags, flags | BL_WORKER_THREAD_FLAG_QUITTING);
 
   if (flags & BL_WORKER_THREAD_FLAG_SLEEPING) {
     thread->_condition.signal();
@@ -202,7 +202,7 @@ static void BL_CDECL bl_portable_worker_thread_entry_point(BLThread* self) noexc
       if (flags & kHasWorkOrQuittingFlags)
         break;
 
-      thread->_status_data.flags = flags | BL_WORKER_THREAD_FLAG_SLEEPING;
+      bl_atomic_store_relaxed(&thread->_status_data.flags, flags | BL_WORKER_THREAD_FLAG_SLEEPING);
       thread->_condition.wait(thread->_mutex);
 
       flags = thread->_status_data.flags & ~BL_WORKER_THREAD_FLAG_SLEEPING;
@@ -213,7 +213,7 @@ static void BL_CDECL bl_portable_worker_thread_entry_point(BLThread* self) noexc
 
     // Update flags now, before we release the mutex.
     flags &= ~BL_WORKER_THREAD_FLAG_ENQUEUED_WORK;
-    thread->_status_data.flags = flags;
+    bl_atomic_store_relaxed(&thread->_status_data.flags, flags);
 
     // Doesn't matter if we are quitting or not, we have to execute the enqueued work.
     if (has_enqueued_work) {
-- 
2.43.0


From d27a01d5b6a5ecde84fea751f253ca00612de709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 066/182] fix: do not lose work enqueued to a futex worker
 thread while it is asked to quit

---
 blend2d/threading/thread.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blend2d/threading/thread.cpp b/blend2d/threading/thread.cpp
index 42bb688..ed3fc51 100644
--- a/blend2d/threading/thread.cpp
+++ b/blend2d/threading/thread.cpp
@@ -271,6 +271,10 @@ static BLResult BL_CDECL bl_futex_worker_thread_run(BLThread* self, BLThreadFunc
   uint32_t kBusyFlags = BL_WORKER_THREAD_FLAG_ENQUEUING_WORK | BL_WORKER_THREAD_FLAG_ENQUEUED_WORK | BL_WORKER_THREAD_FLAG_QUITTING;
 
   if (prev_flags & kBusyFlags) {
+    // A quitting thread doesn't terminate while work is being enqueued - let it know that nothing will be enqueued.
+    if ((prev_flags & kBusyFlags) == BL_WORKER_THREAD_FLAG_QUITTING) {
+      bl_atomic_fetch_and_seq_cst(&thread->_status_data.flags, uint32_t(~BL_WORKER_THREAD_FLAG_ENQUEUING_WORK));
+    }
     return BL_ERROR_BUSY;
   }
 
@@ -337,7 +341,8 @@ static void BL_CDECL bl_futex_worker_thread_entry_point(BLThread* self) noexcept
       continue;
     }
 
-    if (flags & BL_WORKER_THREAD_FLAG_QUITTING) {
+    // Don't quit if another thread is enqueuing work at the moment as that work has already been accepted.
+    if ((flags & BL_WORKER_THREAD_FLAG_QUITTING) && !(flags & BL_WORKER_THREAD_FLAG_ENQUEUING_WORK)) {
       break;
     }
 
-- 
2.43.0


From d954d48c2bd1593bf6eb80a806c2e4b23304ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 067/182] fix: read reference counts atomically when testing
 whether an object is mutable

---
 blend2d/core/object_p.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/blend2d/core/object_p.h b/blend2d/core/object_p.h
index 59191c8..6dc004d 100644
--- a/blend2d/core/object_p.h
+++ b/blend2d/core/object_p.h
@@ -91,7 +91,7 @@ struct BLObjectImplHeader {
   BL_INLINE_NODEBUG size_t alignment_offset() const noexcept { return flags & kAlignmentOffsetMask; }
 
   //! Tests whether this object impl is reference counted.
-  BL_INLINE_NODEBUG bool is_ref_counted() const noexcept { return ref_count != 0u; }
+  BL_INLINE_NODEBUG bool is_ref_counted() const noexcept { return bl_atomic_fetch_relaxed(&ref_count) != 0u; }
   //! Tests whether this object impl is immutable.
   BL_INLINE_NODEBUG bool is_immutable() const noexcept { return (flags & kRefCountedAndImmutableFlags) != kRefCountedFlag; }
   //! Tests whether this object impl holds external data.
@@ -306,7 +306,7 @@ static BL_INLINE void call_external_destroy_func(BLObjectImpl* impl, void* exter
 //! Tests whether the `impl` is mutable.
 static BL_INLINE bool is_impl_mutable(const BLObjectImpl* impl) noexcept {
   const BLObjectImplHeader* header = get_impl_header(impl);
-  return header->ref_count == 1;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1u;
 }
 
 //! Tests whether the `impl` is reference counted.
@@ -320,7 +320,7 @@ static BL_INLINE bool is_impl_ref_counted(const BLObjectImpl* impl) noexcept {
 //! This check essentially checks whether these is only a single remaining reference to the `impl`.
 static BL_INLINE bool is_impl_ref_count_equal_to_base(const BLObjectImpl* impl) noexcept {
   const BLObjectImplHeader* header = get_impl_header(impl);
-  return header->ref_count == header->base_ref_count_value();
+  return bl_atomic_fetch_strong(&header->ref_count) == header->base_ref_count_value();
 }
 
 //! Initializes the reference count of `impl` to its base value, considering the passed `immediate` flag.
@@ -335,7 +335,7 @@ static BL_INLINE void init_ref_count_to_base(BLObjectImpl* impl, bool immutable)
 
 //! Returns a reference count of `impl`.
 static BL_INLINE size_t get_impl_ref_count(const BLObjectImpl* impl) noexcept {
-  return get_impl_header(impl)->ref_count;
+  return bl_atomic_fetch_relaxed(&get_impl_header(impl)->ref_count);
 }
 
 template<RCMode kRCMode>
@@ -371,13 +371,13 @@ static BL_INLINE BLResult release_virtual_impl(BLObjectImpl* impl) noexcept {
 //! whether the object is dynamic and that dynamic object has a mutable impl, use `is_instance_impl_mutable()` instead.
 static BL_INLINE bool is_instance_mutable(const BLObjectCore* self) noexcept {
   const BLObjectImplHeader* header = self->_d.sso() ? &bl_object_header_with_ref_count_eq_1 : get_impl_header(self->_d.impl);
-  return header->ref_count == 1u;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1u;
 }
 
 //! Tests whether an untyped object is dynamic and has a mutable Impl.
 static BL_INLINE bool is_instance_dynamic_and_mutable(const BLObjectCore* self) noexcept {
   const BLObjectImplHeader* header = self->_d.sso() ? &bl_object_header_with_ref_count_eq_0 : get_impl_header(self->_d.impl);
-  return header->ref_count == 1u;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1u;
 }
 
 //! Tests whether an object that always has a dynamic Impl is mutable.
@@ -385,7 +385,7 @@ static BL_INLINE bool is_dynamic_instance_mutable(const BLObjectCore* self) noex
   BL_ASSERT(self->_d.is_dynamic_object());
 
   const BLObjectImplHeader* header = get_impl_header(self->_d.impl);
-  return header->ref_count == 1u;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1u;
 }
 
 template<typename T>
-- 
2.43.0


From 52e4a2539decb2aaff921c33423922d815b01c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 068/182] fix: publish atomically moved object content only
 after it has been stored

---
 blend2d/core/object_p.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/object_p.h b/blend2d/core/object_p.h
index 6dc004d..673d1a5 100644
--- a/blend2d/core/object_p.h
+++ b/blend2d/core/object_p.h
@@ -544,9 +544,11 @@ static BL_NOINLINE bool bl_object_atomic_content_move(BLObjectCore* self, BLObje
   uint32_t self_info = 0;
 
   if (bl_atomic_compare_exchange(&self->_d.info.bits, &self_info, 1u)) {
-    // We have successfully acquired the info so we can perform the move.
-    self->_d = other_d;
-    bl_atomic_thread_fence();
+    // We have successfully acquired the info so we can perform the move. The info must be stored last, because it's
+    // what tells other threads that the content is valid.
+    self->_d.u64_data[0] = other_d.u64_data[0];
+    self->_d.u32_data[2] = other_d.u32_data[2];
+    bl_atomic_store_strong(&self->_d.info.bits, other_d.info.bits);
 
     other->_d = bl_object_defaults[other_d.raw_type()]._d;
     return true;
-- 
2.43.0


From f282f55844800264ee2b5222b6298eecb80c290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 069/182] fix: access cached path information shared between
 threads atomically

---
 blend2d/core/path.cpp | 57 +++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 6508894..9c0f0a7 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2250,10 +2250,43 @@ BL_API_IMPL bool bl_path_equals(const BLPathCore* a, const BLPathCore* b) noexce
 namespace bl {
 namespace PathInternal {
 
+// The information is cached in an impl that can be shared by multiple threads. All threads that calculate it arrive at
+// the same values, but stores and loads must be atomic - boxes are stored first and flags are what publishes them.
+static BL_INLINE uint32_t load_info_flags(const BLPathPrivateImpl* self_impl) noexcept {
+  return bl_atomic_fetch_strong(&self_impl->flags);
+}
+
+static BL_INLINE void store_info_box(BLBox* dst, const BLBox& src) noexcept {
+  uint64_t words[4];
+  memcpy(words, &src, sizeof(BLBox));
+
+  uint64_t* p = reinterpret_cast<uint64_t*>(dst);
+  for (size_t i = 0; i < 4; i++)
+    bl_atomic_store_relaxed(p + i, words[i]);
+}
+
+static BL_INLINE BLBox load_info_box(const BLBox* src) noexcept {
+  const uint64_t* p = reinterpret_cast<const uint64_t*>(src);
+
+  uint64_t words[4];
+  for (size_t i = 0; i < 4; i++)
+    words[i] = bl_atomic_fetch_relaxed(p + i);
+
+  BLBox box;
+  memcpy(&box, words, sizeof(BLBox));
+  return box;
+}
+
+static BL_INLINE void store_info(BLPathPrivateImpl* self_impl, uint32_t flags, const BLBox& control_box, const BLBox& bounding_box) noexcept {
+  store_info_box(&self_impl->control_box, control_box);
+  store_info_box(&self_impl->bounding_box, bounding_box);
+  bl_atomic_store_strong(&self_impl->flags, flags);
+}
+
 static BL_NOINLINE BLResult update_info(BLPathPrivateImpl* self_impl) noexcept {
   // Special-case. The path info is valid, but the path is invalid. We handle it here to simplify `ensure_info()`
   // and to make it a bit shorter.
-  if (self_impl->flags & BL_PATH_FLAG_INVALID)
+  if (load_info_flags(self_impl) & BL_PATH_FLAG_INVALID)
     return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
 
   PathInfoUpdater updater;
@@ -2261,30 +2294,24 @@ static BL_NOINLINE BLResult update_info(BLPathPrivateImpl* self_impl) noexcept {
 
   // Path is invalid.
   if (result != BL_SUCCESS) {
-    self_impl->flags = updater.flags | BL_PATH_FLAG_INVALID;
-    self_impl->control_box.reset();
-    self_impl->bounding_box.reset();
+    store_info(self_impl, updater.flags | BL_PATH_FLAG_INVALID, BLBox(), BLBox());
     return result;
   }
 
   // Path is empty.
   if (!(updater.bounding_box.x0 <= updater.bounding_box.x1 &&
         updater.bounding_box.y0 <= updater.bounding_box.y1)) {
-    self_impl->flags = updater.flags | BL_PATH_FLAG_EMPTY;
-    self_impl->control_box.reset();
-    self_impl->bounding_box.reset();
+    store_info(self_impl, updater.flags | BL_PATH_FLAG_EMPTY, BLBox(), BLBox());
     return BL_SUCCESS;
   }
 
   // Path is valid.
-  self_impl->flags = updater.flags;
-  self_impl->control_box = updater.control_box;
-  self_impl->bounding_box = updater.bounding_box;
+  store_info(self_impl, updater.flags, updater.control_box, updater.bounding_box);
   return BL_SUCCESS;
 }
 
 static BL_INLINE BLResult ensure_info(BLPathPrivateImpl* self_impl) noexcept {
-  if (self_impl->flags & (BL_PATH_FLAG_INVALID | BL_PATH_FLAG_DIRTY))
+  if (load_info_flags(self_impl) & (BL_PATH_FLAG_INVALID | BL_PATH_FLAG_DIRTY))
     return update_info(self_impl);
 
   return BL_SUCCESS;
@@ -2300,7 +2327,7 @@ BL_API_IMPL BLResult bl_path_get_info_flags(const BLPathCore* self, uint32_t* fl
   BLPathPrivateImpl* self_impl = get_impl(self);
   BLResult result = ensure_info(self_impl);
 
-  *flags_out = self_impl->flags;
+  *flags_out = load_info_flags(self_impl);
   return result;
 }
 
@@ -2314,7 +2341,7 @@ BL_API_IMPL BLResult bl_path_get_control_box(const BLPathCore* self, BLBox* box_
   BLPathPrivateImpl* self_impl = get_impl(self);
   BLResult result = ensure_info(self_impl);
 
-  *box_out = self_impl->control_box;
+  *box_out = load_info_box(&self_impl->control_box);
   return result;
 }
 
@@ -2325,7 +2352,7 @@ BL_API_IMPL BLResult bl_path_get_bounding_box(const BLPathCore* self, BLBox* box
   BLPathPrivateImpl* self_impl = get_impl(self);
   BLResult result = ensure_info(self_impl);
 
-  *box_out = self_impl->bounding_box;
+  *box_out = load_info_box(&self_impl->bounding_box);
   return result;
 }
 
@@ -2446,7 +2473,7 @@ BL_API_IMPL BLResult bl_path_get_closest_vertex(const BLPathCore* self, const BL
     if (ensure_info(self_impl) == BL_SUCCESS) {
       // If the given point is outside of the path bounding-box extended by
       // `max_distance` then there is no matching vertex to possibly return.
-      const BLBox& b_box = self_impl->control_box;
+      const BLBox b_box = load_info_box(&self_impl->control_box);
       if (!(pt.x >= b_box.x0 - best_distance && pt.y >= b_box.y0 - best_distance &&
             pt.x <= b_box.x1 + best_distance && pt.y <= b_box.y1 + best_distance))
         return bl_make_error(BL_ERROR_NO_MATCHING_VERTEX);
-- 
2.43.0


From 94eeff255a8027d2324cbf27fd29ad691ec8fad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 070/182] fix: access cached gradient information and tables
 shared between threads atomically

---
 blend2d/core/gradient.cpp        | 24 ++++++++++++------------
 blend2d/raster/rastercontext.cpp |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 24f6144..f7227a2 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -202,7 +202,7 @@ static BL_INLINE BLResult invalidate_lut_cache(BLGradientPrivateImpl* impl) noex
 BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
   BLGradientInfo info;
 
-  info.packed = impl->info32.packed;
+  info.packed = bl_atomic_fetch_relaxed(&impl->info32.packed);
 
   constexpr uint32_t FLAG_ALPHA_NOT_ONE  = 0x1; // Has alpha that is not 1.0.
   constexpr uint32_t FLAG_ALPHA_NOT_ZERO = 0x2; // Has alpha that is not 0.0.
@@ -278,8 +278,8 @@ BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
       info.format = uint8_t(flags & FLAG_ALPHA_NOT_ONE ? FormatExt::kPRGB32 : FormatExt::kFRGB32);
       info._lut_size = uint16_t(lut_size);
 
-      // Update the info. It doesn't have to be atomic.
-      impl->info32.packed = info.packed;
+      // Update the info. Other threads sharing the impl would calculate the same value, so no ordering is required.
+      bl_atomic_store_relaxed(&impl->info32.packed, info.packed);
     }
   }
 
@@ -287,7 +287,7 @@ BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
 }
 
 BLGradientLUT* ensure_lut32(BLGradientPrivateImpl* impl, uint32_t lut_size) noexcept {
-  BLGradientLUT* lut = impl->lut32;
+  BLGradientLUT* lut = bl_atomic_fetch_strong(&impl->lut32);
   if (lut) {
     BL_ASSERT(lut->size == lut_size);
     return lut;
@@ -312,7 +312,7 @@ BLGradientLUT* ensure_lut32(BLGradientPrivateImpl* impl, uint32_t lut_size) noex
 }
 
 BLGradientLUT* ensure_lut64(BLGradientPrivateImpl* impl, uint32_t lut_size) noexcept {
-  BLGradientLUT* lut = impl->lut64;
+  BLGradientLUT* lut = bl_atomic_fetch_strong(&impl->lut64);
   if (lut) {
     BL_ASSERT(lut->size == lut_size);
     return lut;
@@ -375,9 +375,9 @@ static BL_NOINLINE BLResult deep_copy(BLGradientCore* self, const BLGradientCore
   new_impl->size = copy_stops(new_impl->stops, other_impl->stops, other_impl->size);
 
   if (copy_cache) {
-    new_impl->lut32 = copyMaybeNullLUT(other_impl->lut32);
-    new_impl->lut64 = copyMaybeNullLUT(other_impl->lut64);
-    new_impl->info32.packed = other_impl->info32.packed;
+    new_impl->lut32 = copyMaybeNullLUT(bl_atomic_fetch_strong(&other_impl->lut32));
+    new_impl->lut64 = copyMaybeNullLUT(bl_atomic_fetch_strong(&other_impl->lut64));
+    new_impl->info32.packed = bl_atomic_fetch_relaxed(&other_impl->info32.packed);
   }
 
   return replace_instance(self, &newO);
@@ -547,8 +547,8 @@ BL_API_IMPL BLResult bl_gradient_shrink(BLGradientCore* self) noexcept {
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
   newO._d.info.set_fields(self->_d.fields());
   new_impl->size = copy_stops(new_impl->stops, self_impl->stops, self_impl->size);
-  new_impl->lut32 = copyMaybeNullLUT(self_impl->lut32);
-  new_impl->lut64 = copyMaybeNullLUT(self_impl->lut64);
+  new_impl->lut32 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut32));
+  new_impl->lut64 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut64));
 
   return replace_instance(self, &newO);
 }
@@ -571,8 +571,8 @@ BL_API_IMPL BLResult bl_gradient_reserve(BLGradientCore* self, size_t n) noexcep
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
   newO._d.info.set_fields(self->_d.fields());
   new_impl->size = copy_stops(new_impl->stops, self_impl->stops, self_impl->size);
-  new_impl->lut32 = copyMaybeNullLUT(self_impl->lut32);
-  new_impl->lut64 = copyMaybeNullLUT(self_impl->lut64);
+  new_impl->lut32 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut32));
+  new_impl->lut64 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut64));
 
   return replace_instance(self, &newO);
 }
diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 342c53a..772200b 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -463,7 +463,7 @@ static BL_INLINE bool init_non_solid_fetch_data(
         const void* lut_data = nullptr;
         uint32_t lut_size = gradient_info.lut_size(quality >= BL_GRADIENT_QUALITY_DITHER);
 
-        BLGradientLUT* lut = gradient_impl->lut[size_t(quality >= BL_GRADIENT_QUALITY_DITHER)];
+        BLGradientLUT* lut = bl_atomic_fetch_strong(&gradient_impl->lut[size_t(quality >= BL_GRADIENT_QUALITY_DITHER)]);
         if (lut)
           lut_data = lut->data();
 
-- 
2.43.0


From 8c1e821333860a51ea2bb831125cd1e74175c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 071/182] fix: initialize the second stage of a multi-step
 pixel converter

---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 3335efa..b59e3a1 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -2204,7 +2204,7 @@ static BLResult bl_pixel_converter_init_multi_step_internal(BLPixelConverterCore
 
   memset(ctx, 0, sizeof(*ctx));
   if ((result = bl_pixel_converter_init_internal(&ctx->first, intermediate, si, custom_flags)) != BL_SUCCESS ||
-      (result = bl_pixel_converter_init_internal(&ctx->first, di, intermediate, custom_flags)) != BL_SUCCESS) {
+      (result = bl_pixel_converter_init_internal(&ctx->second, di, intermediate, custom_flags)) != BL_SUCCESS) {
     bl_pixel_converter_reset(&ctx->first);
     bl_pixel_converter_reset(&ctx->second);
     free(ctx);
-- 
2.43.0


From 57c203f4712c7f2b3a3205e74289c74178994bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 072/182] fix: release dash arrays of stroke states shared by
 the jobs of a batch

---
 blend2d/raster/rastercontext.cpp | 10 ++++++++++
 blend2d/raster/statedata_p.h     |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 772200b..bd1cd49 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1018,6 +1018,14 @@ static BL_INLINE void release_batch_fetch_data(BLRasterContextImpl* ctx_impl, Re
   }
 }
 
+static BL_INLINE void release_batch_stroke_states(SharedBaseStrokeState* state) noexcept {
+  while (state) {
+    SharedBaseStrokeState* prev = state->prev;
+    bl_call_dtor(*state);
+    state = prev;
+  }
+}
+
 static BL_NOINLINE BLResult flush_render_batch(BLRasterContextImpl* ctx_impl) noexcept {
   WorkerManager& mgr = ctx_impl->worker_mgr();
   if (mgr.has_pending_commands()) {
@@ -1058,6 +1066,7 @@ static BL_NOINLINE BLResult flush_render_batch(BLRasterContextImpl* ctx_impl) no
     }
 
     release_batch_fetch_data(ctx_impl, batch->_command_list.first());
+    release_batch_stroke_states(ctx_impl->shared_stroke_state);
 
     mgr._allocator.clear();
     mgr.init_first_batch();
@@ -2374,6 +2383,7 @@ static BL_INLINE SharedBaseStrokeState* get_shared_stroke_state(BLRasterContextI
       static_cast<SharedExtendedStrokeState*>(shared_stroke_state)->meta_transform_fixed = Matrix2x2{mt.m00, mt.m01, mt.m10, mt.m11};
     }
 
+    shared_stroke_state->prev = ctx_impl->shared_stroke_state;
     ctx_impl->shared_stroke_state = shared_stroke_state;
     ctx_impl->context_flags |= shared_flags;
     mark_queue_full_or_exhausted(ctx_impl, ctx_impl->worker_mgr().is_shared_data_pool_exhausted());
diff --git a/blend2d/raster/statedata_p.h b/blend2d/raster/statedata_p.h
index deb8b40..97c91da 100644
--- a/blend2d/raster/statedata_p.h
+++ b/blend2d/raster/statedata_p.h
@@ -150,6 +150,9 @@ struct SharedFillState {
 
 //! A shared stroke state is used by asynchronous rendering context and can be shared between multiple rendering jobs.
 struct SharedBaseStrokeState {
+  //! Previous stroke state allocated within the same batch (stroke options have to be destroyed with the batch).
+  SharedBaseStrokeState* prev {};
+
   BLStrokeOptions stroke_options;
   BLApproximationOptions approximation_options;
 
-- 
2.43.0


From 02f03a78a42dd5be7b0752f21ad059e78af73795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 073/182] fix: refresh the stroke state shared with render jobs
 when approximation options change

---
 blend2d/raster/rastercontext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index bd1cd49..150eecd 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1698,7 +1698,7 @@ static BLResult BL_CDECL restore_impl(BLContextImpl* base_impl, const BLContextC
       on_after_flatten_tolerance_changed(ctx_impl);
       on_after_offset_parameter_changed(ctx_impl);
 
-      context_flags_to_keep &= ~ContextFlags::kSharedStateFill;
+      context_flags_to_keep &= ~(ContextFlags::kSharedStateFill | ContextFlags::kSharedStateStrokeBase);
     }
 
     if (!bl_test_flag(current_flags, ContextFlags::kWeakStateClip)) {
@@ -1869,7 +1869,7 @@ static BLResult BL_CDECL set_flatten_mode_impl(BLContextImpl* base_impl, BLFlatt
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_config_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kWeakStateConfig;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.approximation_options.flatten_mode = uint8_t(mode);
   return BL_SUCCESS;
@@ -1882,7 +1882,7 @@ static BLResult BL_CDECL set_flatten_tolerance_impl(BLContextImpl* base_impl, do
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_config_change(ctx_impl);
-  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill);
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill | ContextFlags::kSharedStateStrokeBase);
 
   tolerance = bl_clamp(tolerance, ContextInternal::kMinimumTolerance, ContextInternal::kMaximumTolerance);
   BL_ASSERT(Math::is_finite(tolerance));
@@ -1909,7 +1909,7 @@ static BLResult BL_CDECL set_approximation_options_impl(BLContextImpl* base_impl
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_config_change(ctx_impl);
-  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill);
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill | ContextFlags::kSharedStateStrokeBase);
 
   BLApproximationOptions& dst = ctx_impl->internal_state.approximation_options;
   dst.flatten_mode = uint8_t(flatten_mode);
-- 
2.43.0


From edf3542d0ba0801a7dcc66970765d2c5e4896605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 074/182] fix: release the mask image of clipped asynchronous
 mask fills

---
 blend2d/raster/rastercontext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 150eecd..b84ac35 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -3180,6 +3180,8 @@ BL_NOINLINE BLResult fill_clipped_box_masked_a<kAsync>(
 
   return enqueue_command(ctx_impl, command, qy0, ds.fetch_data, [&](RenderCommand* command) noexcept {
     ObjectInternal::retain_impl<RCMode::kMaybe>(command->_payload.box_mask_a.mask_image_i.ptr);
+    command->add_flags(RenderCommandFlags::kRetainsMaskImageData);
+    ctx_impl->worker_mgr->_command_appender.mark_fetch_data();
   });
 }
 
-- 
2.43.0


From e979ab0df303420842408a6b292424db98e4ed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 075/182] fix: release the dash array of the stroke options
 when a context ends

---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index b84ac35..9528cda 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -4466,7 +4466,7 @@ static BLResult detach(BLRasterContextImpl* ctx_impl) noexcept {
   // Important as the user doesn't have to restore all states, in that case we basically need to iterate
   // over all of them and release resources they hold.
   discard_states(ctx_impl, nullptr);
-  bl_call_dtor(ctx_impl->internal_state.stroke_options);
+  bl_call_dtor(ctx_impl->internal_state.stroke_options.dcast());
 
   ContextFlags context_flags = ctx_impl->context_flags;
   if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
-- 
2.43.0


From b1029b4b3a2e6f195d7e8cb9b8842bee713308d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 076/182] fix: apply the global alpha in synchronous mask fills

---
 blend2d/raster/rendercommandprocsync_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rendercommandprocsync_p.h b/blend2d/raster/rendercommandprocsync_p.h
index 56ab2cf..ed4a151 100644
--- a/blend2d/raster/rendercommandprocsync_p.h
+++ b/blend2d/raster/rendercommandprocsync_p.h
@@ -70,7 +70,7 @@ static BL_INLINE BLResult fill_box_masked_a(WorkData& work_data, const Pipeline:
   const BLBoxI& box_i = payload.box_i;
 
   Pipeline::MaskCommand mask_commands[2];
-  Pipeline::MaskCommandType vMaskCmd = alpha >= 255 ? Pipeline::MaskCommandType::kVMaskA8WithGA : Pipeline::MaskCommandType::kVMaskA8WithoutGA;
+  Pipeline::MaskCommandType vMaskCmd = alpha >= 255 ? Pipeline::MaskCommandType::kVMaskA8WithoutGA : Pipeline::MaskCommandType::kVMaskA8WithGA;
 
   mask_commands[0].init_vmask(vMaskCmd, uint32_t(box_i.x0), uint32_t(box_i.x1), mask_data, mask_impl->stride);
   mask_commands[1].init_repeat();
-- 
2.43.0


From 857ac5d9fd7ee5bee99580d2c09ac346344d8650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 077/182] fix: signal completion of the last worker with the
 mutex held in portable mode

---
 blend2d/raster/workersynchronization.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blend2d/raster/workersynchronization.cpp b/blend2d/raster/workersynchronization.cpp
index 7a551ce..7b3aca4 100644
--- a/blend2d/raster/workersynchronization.cpp
+++ b/blend2d/raster/workersynchronization.cpp
@@ -53,18 +53,18 @@ void WorkerSynchronization::wait_for_jobs_to_finish() noexcept {
 }
 
 void WorkerSynchronization::thread_done() noexcept {
-  uint32_t remaining_plus_one = bl_atomic_fetch_sub_strong(&_status.threads_running_count);
-
-  if (remaining_plus_one != 1)
-    return;
-
   if (use_futex()) {
+    if (bl_atomic_fetch_sub_strong(&_status.threads_running_count) != 1)
+      return;
+
     bl_atomic_fetch_add_strong(&_status.futex_bands_finished);
     Futex::wake_one(&_status.futex_bands_finished);
   }
   else {
+    // The count must be decremented with the lock held as the synchronization data can be destroyed once it's zero.
     BLLockGuard<BLMutex> guard(_portable_data.mutex);
-    if (_status.waiting_for_completion) {
+
+    if (bl_atomic_fetch_sub_strong(&_status.threads_running_count) == 1 && _status.waiting_for_completion) {
       _portable_data.done_condition.signal();
     }
   }
-- 
2.43.0


From effa01ba023f596b66e731d3db9ec7e9ac76c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 078/182] fix: keep the position of sub-byte components within
 their byte when a byte-swapped format is sanitized

---
 blend2d/core/format.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/format.cpp b/blend2d/core/format.cpp
index 21d4957..e4260e0 100644
--- a/blend2d/core/format.cpp
+++ b/blend2d/core/format.cpp
@@ -196,7 +196,9 @@ BL_API_IMPL BLResult bl_format_info_sanitize(BLFormatInfo* self) noexcept {
         uint32_t size = f.sizes[i];
         if (!size)
           continue;
-        f.shifts[i] = uint8_t(f.depth - f.shifts[i] - size);
+
+        // Reverse the byte the component is stored in and keep its position within that byte.
+        f.shifts[i] = uint8_t((f.depth - 8u - (f.shifts[i] & ~0x7u)) + (f.shifts[i] & 0x7u));
       }
 
       flags &= ~FormatFlagsExt::kByteSwap;
-- 
2.43.0


From 3ab8139aea36fb0be7ceed82f78663bdebc86090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 079/182] fix: detect all-ones palette entries by bits instead
 of bytes in 1-bit indexed conversion

---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index b59e3a1..930bc40 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -633,7 +633,7 @@ static BLResult BL_CDECL bl_convert_any_from_indexed1(
   uint32_t c0 = PixelAccess::fetchA(d.embedded.table8 + 0 * kPixelSize);
   uint32_t cm = PixelAccess::fetchA(d.embedded.table8 + 1 * kPixelSize) ^ c0; // XOR mask.
 
-  if (c0 == 0 && cm == (0xFFFFFFFFu >> (32 - kPixelSize))) {
+  if (c0 == 0 && cm == (0xFFFFFFFFu >> (32 - kPixelSize * 8u))) {
     // Special case for zeros and all ones.
     for (uint32_t y = h; y != 0; y--) {
       const uint8_t* src_data = src_line;
-- 
2.43.0


From bb2a20c1f2cfacedd2199b09399676eb56f05275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 080/182] fix: do not read alpha of a palette without alpha
 when converting to A8

---
 blend2d/core/pixelconverter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 930bc40..6960f96 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1510,7 +1510,8 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
 
   // Special case - avoid making the copy of the palette for known conversions.
   if (di.depth == 8 && si.depth == 8 && dont_copy_palette) {
-    if ((di.flags & (BL_FORMAT_FLAG_RGBA | BL_FORMAT_FLAG_BYTE_ALIGNED)) == (BL_FORMAT_FLAG_ALPHA | BL_FORMAT_FLAG_BYTE_ALIGNED)) {
+    if ((di.flags & (BL_FORMAT_FLAG_RGBA | BL_FORMAT_FLAG_BYTE_ALIGNED)) == (BL_FORMAT_FLAG_ALPHA | BL_FORMAT_FLAG_BYTE_ALIGNED) &&
+        (si.flags & BL_FORMAT_FLAG_ALPHA) != 0) {
       d.convert_func = bl_convert_a8_from_indexed8_pal32;
       d.internal_flags = BL_PIXEL_CONVERTER_INTERNAL_FLAG_INITIALIZED;
       d.dynamic.table = si.palette;
-- 
2.43.0


From e77b12b0573c77ebf709d474bb9e9c7bb411c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 081/182] fix: zero initialize the temporary palette converter

---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 6960f96..f4ecf05 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1522,7 +1522,7 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
   // We need a temporary pixel converter to convert the palette to the destination pixel format. This operation should
   // not allocate any memory as the converter will convert native pixel format (BLRgba32) into a possibly non-native
   // one although a native pixel format is used most of the time.
-  BLPixelConverterCore pal_cvt;
+  BLPixelConverterCore pal_cvt {};
   BL_PROPAGATE(bl_pixel_converter_init_internal(&pal_cvt, di, palette_format_info, BL_PIXEL_CONVERTER_CREATE_NO_FLAGS));
 
   // If the source depth is 8 bits it means that we either use the source format's palette or make a copy of it
-- 
2.43.0


From 3f649529b6abca0bfa69f737a039188b66309d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 082/182] fix: do not treat copying with a fill mask as raw
 copy of a palette

---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index f4ecf05..0f1bd55 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1618,7 +1618,7 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
 static BLResult bl_pixel_converter_init_copy_8888_with_fill_mask(BLPixelConverterCore* self, const BLFormatInfo& di, const BLFormatInfo& si) noexcept {
   BLPixelConverterData::MemCopyData& d = bl_pixel_converter_get_data(self)->mem_copy_data;
 
-  d.internal_flags = BL_PIXEL_CONVERTER_INTERNAL_FLAG_INITIALIZED | BL_PIXEL_CONVERTER_INTERNAL_FLAG_RAW_COPY ;
+  d.internal_flags = BL_PIXEL_CONVERTER_INTERNAL_FLAG_INITIALIZED;
   d.bytes_per_pixel = uint8_t(di.depth / 8u);
 
   // Required to handle Copy32, XRGB32<-PRGB32, and PRGB32<-XRGB32 conversions.
-- 
2.43.0


From 0b1d196ef6cdd85d76b90cfe1572fd482bed27ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 083/182] fix: byte-swap the fill mask of byte-swapped formats

---
 blend2d/core/pixelconverter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 0f1bd55..923f62e 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1628,6 +1628,9 @@ static BLResult bl_pixel_converter_init_copy_8888_with_fill_mask(BLPixelConverte
       d.fill_mask = 0xFFu << di.shifts[3];
     else
       d.fill_mask = bl_pixel_converter_calc_fill_mask32(di);
+
+    if (di.flags & BL_FORMAT_FLAG_BYTE_SWAP)
+      d.fill_mask = bl::IntOps::byteSwap32(d.fill_mask);
   }
 
 #ifdef BL_BUILD_OPT_AVX2
-- 
2.43.0


From 8b61359ae263e3426e6609a9cac63fbcb424f676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 084/182] fix: honour premultiplied and missing alpha when
 converting foreign pixel formats to native ones

---
 blend2d/core/pixelconverter.cpp | 48 ++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 923f62e..79a4ac5 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -988,6 +988,8 @@ static BLResult BL_CDECL bl_convert_prgb32_from_argb_any(
   uint32_t b_scale = d.scale[2];
   uint32_t a_scale = d.scale[3];
 
+  uint32_t fill_mask = d.fill_mask;
+
   for (uint32_t y = h; y != 0; y--) {
     if (!AlwaysUnaligned && bl::IntOps::is_aligned(dst_data, 4) && bl::IntOps::is_aligned(src_data, PixelAccess::kSize)) {
       for (uint32_t i = w; i != 0; i--) {
@@ -1008,7 +1010,7 @@ static BLResult BL_CDECL bl_convert_prgb32_from_argb_any(
         ag = (ag + ((ag >> 8) & 0x00FF00FFu)) & 0xFF00FF00u;
 
         rb >>= 8;
-        bl::MemOps::writeU32a(dst_data, ag + rb);
+        bl::MemOps::writeU32a(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1033,7 +1035,7 @@ static BLResult BL_CDECL bl_convert_prgb32_from_argb_any(
         ag = (ag + ((ag >> 8) & 0x00FF00FFu)) & 0xFF00FF00u;
 
         rb >>= 8;
-        bl::MemOps::writeU32u(dst_data, ag | rb);
+        bl::MemOps::writeU32u(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1077,6 +1079,8 @@ static BLResult BL_CDECL bl_convert_prgb32_from_prgb_any(
   uint32_t b_scale = d.scale[2];
   uint32_t a_scale = d.scale[3];
 
+  uint32_t fill_mask = d.fill_mask;
+
   for (uint32_t y = h; y != 0; y--) {
     if (!AlwaysUnaligned && bl::IntOps::is_aligned(dst_data, 4) && bl::IntOps::is_aligned(src_data, PixelAccess::kSize)) {
       for (uint32_t i = w; i != 0; i--) {
@@ -1089,7 +1093,7 @@ static BLResult BL_CDECL bl_convert_prgb32_from_prgb_any(
         uint32_t ag = (a + (g     )) & 0xFF00FF00u;
         uint32_t rb = (r + (b >> 8)) & 0x00FF00FFu;
 
-        bl::MemOps::writeU32a(dst_data, ag | rb);
+        bl::MemOps::writeU32a(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1106,7 +1110,7 @@ static BLResult BL_CDECL bl_convert_prgb32_from_prgb_any(
         uint32_t ag = (a + (g     )) & 0xFF00FF00u;
         uint32_t rb = (r + (b >> 8)) & 0x00FF00FFu;
 
-        bl::MemOps::writeU32u(dst_data, ag | rb);
+        bl::MemOps::writeU32u(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1935,18 +1939,33 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
   if (di.r_shift != 16 || di.g_shift != 8 || di.b_shift != 0)
     return BL_RESULT_NOTHING;
 
+  // Alpha must be the most significant byte of the native format.
+  if ((di.flags & BL_FORMAT_FLAG_ALPHA) && di.a_shift != 24)
+    return BL_RESULT_NOTHING;
+
   BLPixelConverterData::NativeFromForeign& d = bl_pixel_converter_get_data(self)->native_from_foreign;
 
   bool isSrcRGBA           = (si.flags & BL_FORMAT_FLAG_ALPHA) != 0;
   bool is_src_premultiplied  = (si.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
+  bool is_dst_straight       = (di.flags & (BL_FORMAT_FLAG_ALPHA | BL_FORMAT_FLAG_PREMULTIPLIED)) == BL_FORMAT_FLAG_ALPHA;
   bool hasSrcHostBO        = (si.flags & BL_FORMAT_FLAG_BYTE_SWAP) == 0;
 
-  if (!isSrcRGBA)
+  if (!isSrcRGBA || !(di.flags & BL_FORMAT_FLAG_ALPHA))
     d.fill_mask = 0xFF000000u;
 
+  // RGB components of a source that only provides alpha are either opaque white or alpha (when premultiplied).
+  bool is_src_alpha_only = (si.flags & (BL_FORMAT_FLAG_RGB | BL_FORMAT_FLAG_LUM)) == 0;
+  if (is_src_alpha_only) {
+    if (is_dst_straight)
+      d.fill_mask = 0x00FFFFFFu;
+    else
+      is_src_premultiplied = true;
+  }
+
   for (uint32_t i = 0; i < 4; i++) {
-    uint32_t size = si.sizes[i];
-    uint32_t shift = si.shifts[i];
+    uint32_t component = is_src_alpha_only && !is_dst_straight ? 3u : i;
+    uint32_t size = si.sizes[component];
+    uint32_t shift = si.shifts[component];
 
     d.masks[i] = 0;
     d.shifts[i] = uint8_t(shift);
@@ -1990,7 +2009,10 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
   switch (si.depth) {
     case 16:
       // TODO:
-      if (is_src_premultiplied)
+      if (is_src_premultiplied && is_dst_straight)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem16>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
+      else if (is_src_premultiplied || (isSrcRGBA && is_dst_straight))
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem16>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
       else if (isSrcRGBA)
@@ -2002,7 +2024,10 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
       break;
 
     case 24:
-      if (is_src_premultiplied)
+      if (is_src_premultiplied && is_dst_straight)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_NATIVE >, true>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
+      else if (is_src_premultiplied || (isSrcRGBA && is_dst_straight))
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_NATIVE >, true>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
       else if (isSrcRGBA)
@@ -2014,7 +2039,10 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
       break;
 
     case 32:
-      if (is_src_premultiplied)
+      if (is_src_premultiplied && is_dst_straight)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem32>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
+      else if (is_src_premultiplied || (isSrcRGBA && is_dst_straight))
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem32>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
       else if (isSrcRGBA)
-- 
2.43.0


From c862ead743202498148b48eb7638598218c4e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 085/182] fix: honour straight and missing alpha when
 converting native pixel formats to foreign ones

---
 blend2d/core/pixelconverter.cpp | 34 ++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 79a4ac5..63ad880 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -2064,7 +2064,7 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
 // =============================================
 
 static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore* self, const BLFormatInfo& di, const BLFormatInfo& si, BLPixelConverterCreateFlags create_flags) noexcept {
-  bl_unused(si, create_flags);
+  bl_unused(create_flags);
 
   BL_ASSERT(si.depth == 32);
   BL_ASSERT(si.flags & BL_FORMAT_FLAG_BYTE_ALIGNED);
@@ -2072,6 +2072,16 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
   if (si.r_shift != 16 || si.g_shift != 8 || si.b_shift != 0)
     return BL_RESULT_NOTHING;
 
+  // Alpha must be the most significant byte of the native format.
+  if ((si.flags & BL_FORMAT_FLAG_ALPHA) && si.a_shift != 24)
+    return BL_RESULT_NOTHING;
+
+  // There is no direct conversion that premultiplies - a multi-step conversion would be used instead.
+  bool is_src_straight = (si.flags & (BL_FORMAT_FLAG_ALPHA | BL_FORMAT_FLAG_PREMULTIPLIED)) == BL_FORMAT_FLAG_ALPHA;
+  bool is_dst_straight = (di.flags & (BL_FORMAT_FLAG_ALPHA | BL_FORMAT_FLAG_PREMULTIPLIED)) == BL_FORMAT_FLAG_ALPHA;
+  if (is_src_straight && !is_dst_straight)
+    return BL_RESULT_NOTHING;
+
   if (di.flags & BL_FORMAT_FLAG_INDEXED) {
     // TODO:
     return bl_make_error(BL_ERROR_NOT_IMPLEMENTED);
@@ -2079,8 +2089,11 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
   else {
     BLPixelConverterData::ForeignFromNative& d = bl_pixel_converter_get_data(self)->foreign_from_native;
 
-    bool isDstRGBA          = (di.flags & BL_FORMAT_FLAG_ALPHA) != 0;
-    bool is_dst_premultiplied = (di.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
+    // The alpha channel is opaque if the source doesn't have it, and components are just copied if none or both formats
+    // are premultiplied.
+    bool is_src_rgba        = (si.flags & BL_FORMAT_FLAG_ALPHA) != 0;
+    bool is_copy            = is_src_rgba && ((di.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0 || is_src_straight);
+    bool is_unpremultiply   = is_src_rgba && is_dst_straight;
     bool hasDstHostBO       = (di.flags & BL_FORMAT_FLAG_BYTE_SWAP) == 0;
 
     for (uint32_t i = 0; i < 4; i++) {
@@ -2097,13 +2110,16 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
       d.shifts[i] = uint8_t(shift);
     }
 
+    if (!is_src_rgba)
+      d.fill_mask = d.masks[3];
+
     BLPixelConverterFunc func = nullptr;
     switch (di.depth) {
       case 16:
-        if (is_dst_premultiplied)
+        if (is_copy)
           func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem16>
                               : bl_convert_prgb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
-        else if (isDstRGBA)
+        else if (is_unpremultiply)
           func = hasDstHostBO ? bl_convert_argb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem16>
                               : bl_convert_argb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
         else
@@ -2112,10 +2128,10 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
         break;
 
       case 24:
-        if (is_dst_premultiplied)
+        if (is_copy)
           func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_NATIVE>, true>
                               : bl_convert_prgb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
-        else if (isDstRGBA)
+        else if (is_unpremultiply)
           func = hasDstHostBO ? bl_convert_argb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_NATIVE>, true>
                               : bl_convert_argb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
         else
@@ -2124,10 +2140,10 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
         break;
 
       case 32:
-        if (is_dst_premultiplied)
+        if (is_copy)
           func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem32>
                               : bl_convert_prgb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
-        else if (isDstRGBA)
+        else if (is_unpremultiply)
           func = hasDstHostBO ? bl_convert_argb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem32>
                               : bl_convert_argb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
         else
-- 
2.43.0


From ca802a9f419c14d4c50683627bd477296cc2bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 086/182] fix: a recycled external image kept the reference
 count of its previous access mode

---
 blend2d/core/object_p.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/object_p.h b/blend2d/core/object_p.h
index 673d1a5..3aa905f 100644
--- a/blend2d/core/object_p.h
+++ b/blend2d/core/object_p.h
@@ -331,6 +331,7 @@ static BL_INLINE void init_ref_count_to_base(BLObjectImpl* impl, bool immutable)
 
   BLObjectImplHeader* header = get_impl_header(impl);
   header->flags = (header->flags & ~BLObjectImplHeader::kImmutableFlag) | ri_flags;
+  header->ref_count = header->base_ref_count_value();
 }
 
 //! Returns a reference count of `impl`.
-- 
2.43.0


From ca2b557b845b9d333e86e9b070b2bd4ac46392cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 087/182] fix: BLImage::convert read the format table out of
 bounds for an invalid format

---
 blend2d/core/image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/image.cpp b/blend2d/core/image.cpp
index 484c3bb..89edca7 100644
--- a/blend2d/core/image.cpp
+++ b/blend2d/core/image.cpp
@@ -433,6 +433,9 @@ BL_API_IMPL BLResult bl_image_convert(BLImageCore* self, BLFormat format) noexce
   if (dst_format == src_format)
     return BL_SUCCESS;
 
+  if (BL_UNLIKELY(uint32_t(format) > BL_FORMAT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   if (dst_format == bl::FormatExt::kXRGB32)
     dst_format = bl::FormatExt::kFRGB32;
 
-- 
2.43.0


From 30b5a9e2153de422d5c93bc350790bf588e3e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 088/182] fix: restore_clipping() without a saved state left
 the clip mode unaligned

---
 blend2d/raster/rastercontext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 9528cda..2dbd6d7 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -826,6 +826,7 @@ static BL_INLINE void reset_clipping_to_meta_clip_box(BLRasterContextImpl* ctx_i
   ctx_impl->internal_state.final_clip_box_i.reset(meta.x0, meta.y0, meta.x1, meta.y1);
   ctx_impl->internal_state.final_clip_box_d.reset(meta.x0, meta.y0, meta.x1, meta.y1);
   ctx_impl->set_final_clip_box_fixed_d(ctx_impl->final_clip_box_d() * ctx_impl->render_target_info.fp_scale_d);
+  ctx_impl->sync_work_data.clip_mode = BL_CLIP_MODE_ALIGNED_RECT;
 }
 
 static BL_INLINE void restore_clipping_from_state(BLRasterContextImpl* ctx_impl, SavedState* saved_state) noexcept {
-- 
2.43.0


From 91cc89257c0be44c3289c05571c1779d2f993a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 089/182] fix: set_approximation_options() ignored
 simplify_tolerance

---
 blend2d/raster/rastercontext.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 2dbd6d7..ea217d7 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1901,11 +1901,13 @@ static BLResult BL_CDECL set_approximation_options_impl(BLContextImpl* base_impl
   uint32_t offset_mode = options->offset_mode;
 
   double flatten_tolerance = options->flatten_tolerance;
+  double simplify_tolerance = options->simplify_tolerance;
   double offset_parameter = options->offset_parameter;
 
   if (BL_UNLIKELY(flatten_mode > BL_FLATTEN_MODE_MAX_VALUE ||
                   offset_mode > BL_OFFSET_MODE_MAX_VALUE ||
                   Math::is_nan(flatten_tolerance) ||
+                  Math::is_nan(simplify_tolerance) ||
                   Math::is_nan(offset_parameter)))
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
@@ -1916,6 +1918,7 @@ static BLResult BL_CDECL set_approximation_options_impl(BLContextImpl* base_impl
   dst.flatten_mode = uint8_t(flatten_mode);
   dst.offset_mode = uint8_t(offset_mode);
   dst.flatten_tolerance = bl_clamp(flatten_tolerance, ContextInternal::kMinimumTolerance, ContextInternal::kMaximumTolerance);
+  dst.simplify_tolerance = simplify_tolerance;
   dst.offset_parameter = offset_parameter;
 
   on_after_flatten_tolerance_changed(ctx_impl);
-- 
2.43.0


From 47360f7e70020411b05bfe978d0df239c1b8e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 090/182] fix: swap_styles() saved the stroke style only when
 the fill style was dirty

---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index ea217d7..bdc8b65 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1978,7 +1978,7 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
 
     if (bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeStyle)) {
       ctx_impl->saved_state->style[kStrokeSlot].copy_from(state.style[kStrokeSlot]);
-      if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
+      if (bl_test_flag(context_flags, ContextFlags::kFetchDataStroke))
         state.style[kStrokeSlot].get_render_fetch_data()->ref_count++;
     }
 
-- 
2.43.0


From e4533fd9814f761f63ac15c58da69962eb706336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 091/182] fix: swap_styles() moved state flags of neighbouring
 style bits

---
 blend2d/raster/rastercontext.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index bdc8b65..2f127e4 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1990,8 +1990,9 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
     state.style[kFillSlot].swap(state.style[kStrokeSlot]);
     BLInternal::swap(state.style_type[kFillSlot], state.style_type[kStrokeSlot]);
 
-    constexpr ContextFlags kSwapFlags = ContextFlags::kNoFillAndStrokeStyle | ContextFlags::kFetchDataFillAndStroke;
-    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kSwapFlags) | ((context_flags << 1) & kSwapFlags);
+    constexpr ContextFlags kFillFlags = ContextFlags::kNoFillStyle | ContextFlags::kFetchDataFill;
+    constexpr ContextFlags kStrokeFlags = ContextFlags::kNoStrokeStyle | ContextFlags::kFetchDataStroke;
+    context_flags = (context_flags & ~(kFillFlags | kStrokeFlags)) | ((context_flags & kStrokeFlags) >> 1) | ((context_flags & kFillFlags) << 1);
   }
 
   // Swap fill and stroke alphas.
@@ -1999,8 +2000,9 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
     BLInternal::swap(state.style_alpha[kFillSlot], state.style_alpha[kStrokeSlot]);
     BLInternal::swap(state.styleAlphaI[kFillSlot], state.styleAlphaI[kStrokeSlot]);
 
-    constexpr ContextFlags kSwapFlags = ContextFlags::kNoFillAndStrokeAlpha;
-    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kSwapFlags) | ((context_flags << 1) & kSwapFlags);
+    constexpr ContextFlags kFillFlags = ContextFlags::kNoFillAlpha;
+    constexpr ContextFlags kStrokeFlags = ContextFlags::kNoStrokeAlpha;
+    context_flags = (context_flags & ~(kFillFlags | kStrokeFlags)) | ((context_flags & kStrokeFlags) >> 1) | ((context_flags & kFillFlags) << 1);
   }
 
   ctx_impl->context_flags = context_flags;
-- 
2.43.0


From 15ca0527411c50174bba1b2681bae082f039c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 092/182] fix: changing stroke caps or join was not undone by
 restore() and leaked the dash array

---
 blend2d/raster/rastercontext.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 2f127e4..6eba8b7 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2097,7 +2097,7 @@ static BLResult BL_CDECL set_stroke_cap_impl(BLContextImpl* base_impl, BLStrokeC
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.stroke_options.caps[position] = uint8_t(stroke_cap);
   return BL_SUCCESS;
@@ -2110,7 +2110,7 @@ static BLResult BL_CDECL set_stroke_caps_impl(BLContextImpl* base_impl, BLStroke
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   for (uint32_t i = 0; i <= BL_STROKE_CAP_POSITION_MAX_VALUE; i++)
     ctx_impl->internal_state.stroke_options.caps[i] = uint8_t(stroke_cap);
@@ -2124,7 +2124,7 @@ static BLResult BL_CDECL set_stroke_join_impl(BLContextImpl* base_impl, BLStroke
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.stroke_options.join = uint8_t(stroke_join);
   return BL_SUCCESS;
-- 
2.43.0


From d0965f0cccc74bb3f1483ea1c285dceed657c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 093/182] fix: a failed drawing call corrupted earlier commands
 of a multi-threaded rendering context

---
 blend2d/support/arenaallocator_p.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/blend2d/support/arenaallocator_p.h b/blend2d/support/arenaallocator_p.h
index f6628b7..d4bd0db 100644
--- a/blend2d/support/arenaallocator_p.h
+++ b/blend2d/support/arenaallocator_p.h
@@ -50,7 +50,11 @@ public:
     }
   };
 
-  typedef uint8_t* StatePtr;
+  //! State of the allocator - memory can be consumed from both sides of the current block, see `set_ptr()` and `set_end()`.
+  struct StatePtr {
+    uint8_t* ptr;
+    uint8_t* end;
+  };
 
   static inline constexpr size_t kMinBlockSize = 1024; // Safe bet - it must be greater than `kMaxAlignment`.
   static inline constexpr size_t kMaxBlockSize = size_t(1) << (sizeof(size_t) * 8 - 1);
@@ -369,28 +373,30 @@ public:
   //! Stores the current state to `state`.
   [[nodiscard]]
   BL_INLINE StatePtr save_state() noexcept {
-    return _ptr;
+    return StatePtr{_ptr, _end};
   }
 
   //! Restores the state of `ArenaAllocator` from the previously saved `state`.
-  BL_INLINE void restore_state(StatePtr p) noexcept {
+  BL_INLINE void restore_state(StatePtr state) noexcept {
     Block* block = _block;
     size_t alignment = block_alignment();
 
-    while (p < block->data() || p >= block->end()) {
+    // NOTE: The pointer is equal to `block->end()` if the block was full when `save_state()` was called.
+    while (state.ptr < block->data() || state.ptr > block->end()) {
       if (!block->prev) {
         // Special case - can happen in case that the allocator didn't have allocated any block when `save_state()`
         // was called. In that case we won't restore to the shared null block, instead we restore to the first block
         // the allocator has.
-        p = IntOps::align_up(block->data(), alignment);
+        state.ptr = bl_min(IntOps::align_up(block->data(), alignment), block->end());
+        state.end = block->end();
         break;
       }
       block = block->prev;
     }
 
     _block = block;
-    _ptr = p;
-    _end = block->end();
+    _ptr = state.ptr;
+    _end = state.end;
   }
 
   //! \}
-- 
2.43.0


From ceea1e11ae62338ecdc6fe54b84254f3a846bf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 094/182] fix: a read or write answered partially by the system
 overwrote the bytes already transferred

---
 blend2d/core/filesystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/filesystem.cpp b/blend2d/core/filesystem.cpp
index 13d3f15..c946bd6 100644
--- a/blend2d/core/filesystem.cpp
+++ b/blend2d/core/filesystem.cpp
@@ -743,7 +743,7 @@ BL_API_IMPL BLResult bl_file_read(BLFileCore* self, void* buffer, size_t n, size
   size_t bytes_read = 0;
 
   for (;;) {
-    SignedSizeT result = read(fd, buffer, n - bytes_read);
+    SignedSizeT result = read(fd, bl::PtrOps::offset(buffer, bytes_read), n - bytes_read);
     if (result < 0) {
       int e = errno;
       *bytes_read_out = bytes_read;
@@ -779,7 +779,7 @@ BL_API_IMPL BLResult bl_file_write(BLFileCore* self, const void* buffer, size_t
   size_t bytes_written = 0;
 
   for (;;) {
-    SignedSizeT result = write(fd, buffer, n - bytes_written);
+    SignedSizeT result = write(fd, bl::PtrOps::offset(buffer, bytes_written), n - bytes_written);
     if (result < 0) {
       int e = errno;
       *bytes_written_out = bytes_written;
-- 
2.43.0


From 8814d4eed44d95b7204d7d3e61868e7039ba5ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 095/182] fix: file modification time dropped the unit of its
 seconds

---
 blend2d/core/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/filesystem.cpp b/blend2d/core/filesystem.cpp
index c946bd6..7484634 100644
--- a/blend2d/core/filesystem.cpp
+++ b/blend2d/core/filesystem.cpp
@@ -579,7 +579,7 @@ static BL_INLINE int64_t unix_micro_from_file_time(const T& t) noexcept {
 #if defined(BL_FS_STAT_MTIMESPEC)
 template<typename T>
 static BL_INLINE int64_t unix_micro_from_time_spec(const T& ts) noexcept {
-  return int64_t(uint64_t(ts.tv_sec) + (uint32_t(ts.tv_nsec) / 1000u));
+  return int64_t(ts.tv_sec) * 1000000 + int64_t(uint32_t(ts.tv_nsec) / 1000u);
 }
 #endif
 
-- 
2.43.0


From 8d3fc313851c4a898d15078560f4d424de6a8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 096/182] fix: write_file ignored an error reported when the
 file is closed

---
 blend2d/core/filesystem.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/filesystem.cpp b/blend2d/core/filesystem.cpp
index 7484634..589ff86 100644
--- a/blend2d/core/filesystem.cpp
+++ b/blend2d/core/filesystem.cpp
@@ -1130,5 +1130,10 @@ BL_API_IMPL BLResult bl_file_system_write_file(const char* file_name, const void
 
   BLFile file;
   BL_PROPAGATE(file.open(file_name, BLFileOpenFlags(BL_FILE_OPEN_WRITE | BL_FILE_OPEN_CREATE | BL_FILE_OPEN_TRUNCATE)));
-  return size ? file.write(data, size , bytes_written_out) : BL_SUCCESS;
+  if (size) {
+    BL_PROPAGATE(file.write(data, size, bytes_written_out));
+  }
+
+  // Closing the file can report an error of a write that was deferred by the operating system.
+  return file.close();
 }
-- 
2.43.0


From d3ec9b2063c63b4ffcbeb35753d8e1131b082e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 097/182] fix: assign_words wrote outside of a segment when all
 words fit inside its middle

---
 blend2d/core/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index a47c9b6..ba1aa06 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -1442,7 +1442,7 @@ BL_API_IMPL BLResult bl_bit_set_assign_words(BLBitSetCore* self, uint32_t start_
     }
 
     // Trailing segment requires special handling, if it doesn't end on a segment boundary.
-    if (word_index != word_index_end) {
+    if (word_index < word_index_end) {
       init_dense_segment(*dst_segment, word_index);
       bl::MemOps::copy_forward_inline_t(dst_segment->data(), word_data, (size_t)(word_index_end - word_index));
 
-- 
2.43.0


From 496d47d372ec34dfa89c3c78723e88e4865f0f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 098/182] fix: vertical scaling of narrow images wrote before
 and after their rows

---
 blend2d/core/imagescale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/imagescale.cpp b/blend2d/core/imagescale.cpp
index 6429df3..f70bd7e 100644
--- a/blend2d/core/imagescale.cpp
+++ b/blend2d/core/imagescale.cpp
@@ -640,7 +640,7 @@ static void BL_CDECL bl_image_scale_vert_bytes(const ImageScaleContext::Data* d,
 
       if (((intptr_t)dp & 0x7) == 0)
         goto BoundLarge;
-      i = 8u - uint32_t((uintptr_t)dp & 0x7u);
+      i = bl_min(x, 8u - uint32_t((uintptr_t)dp & 0x7u));
 
 BoundSmall:
       x -= i;
@@ -718,7 +718,7 @@ BoundLarge:
 
       if (((size_t)dp & 0x3) == 0)
         goto UnboundLarge;
-      i = 4u - uint32_t((uintptr_t)dp & 0x3u);
+      i = bl_min(x, 4u - uint32_t((uintptr_t)dp & 0x3u));
 
 UnboundSmall:
       x -= i;
-- 
2.43.0


From f2d73541a6c4bc47811df92bffd4e0deceb7c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 099/182] fix: image scaling continued with no weights when
 memory ran out

---
 blend2d/core/imagescale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/imagescale.cpp b/blend2d/core/imagescale.cpp
index f70bd7e..b27f03a 100644
--- a/blend2d/core/imagescale.cpp
+++ b/blend2d/core/imagescale.cpp
@@ -891,8 +891,8 @@ BLResult ImageScaleContext::create(const BLSizeI& to, const BLSizeI& from, uint3
 
   // Built-in filters will probably never fail, however, custom filters can and
   // it wouldn't be safe to just continue.
-  image_scale_ops.weights(d, kDirHorz, filter_func);
-  image_scale_ops.weights(d, kDirVert, filter_func);
+  BL_PROPAGATE(image_scale_ops.weights(d, kDirHorz, filter_func));
+  BL_PROPAGATE(image_scale_ops.weights(d, kDirVert, filter_func));
 
   return BL_SUCCESS;
 }
-- 
2.43.0


From 2dcb392fbd86ad6d028a1466dc084e910150b561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 100/182] fix: get_glyph_run_outlines and add_stroked_path kept
 partial output on failure

---
 blend2d/core/font.cpp | 18 ++++++++++++++++--
 blend2d/core/path.cpp | 15 +++++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/font.cpp b/blend2d/core/font.cpp
index 89a4002..2215f18 100644
--- a/blend2d/core/font.cpp
+++ b/blend2d/core/font.cpp
@@ -646,9 +646,8 @@ BL_API_IMPL BLResult bl_font_get_glyph_outlines(const BLFontCore* self, BLGlyphI
   return sink(out, &sink_info, user_data);
 }
 
-BL_API_IMPL BLResult bl_font_get_glyph_run_outlines(const BLFontCore* self, const BLGlyphRun* glyph_run, const BLMatrix2D* user_transform, BLPathCore* out, BLPathSinkFunc sink, void* user_data) noexcept {
+static BLResult bl_font_append_glyph_run_outlines(const BLFontCore* self, const BLGlyphRun* glyph_run, const BLMatrix2D* user_transform, BLPathCore* out, BLPathSinkFunc sink, void* user_data) noexcept {
   using namespace bl::FontInternal;
-  BL_ASSERT(self->_d.is_font());
 
   BLFontPrivateImpl* self_impl = get_impl(self);
   BLFontFacePrivateImpl* face_impl = bl::FontFaceInternal::get_impl(&self_impl->face);
@@ -747,6 +746,21 @@ BL_API_IMPL BLResult bl_font_get_glyph_run_outlines(const BLFontCore* self, cons
   return BL_SUCCESS;
 }
 
+BL_API_IMPL BLResult bl_font_get_glyph_run_outlines(const BLFontCore* self, const BLGlyphRun* glyph_run, const BLMatrix2D* user_transform, BLPathCore* out, BLPathSinkFunc sink, void* user_data) noexcept {
+  BL_ASSERT(self->_d.is_font());
+
+  size_t initial_size = bl_path_get_size(out);
+  BLResult result = bl_font_append_glyph_run_outlines(self, glyph_run, user_transform, out, sink, user_data);
+
+  // Don't keep outlines that were added before the failure unless the output is managed by the sink.
+  if (BL_UNLIKELY(result != BL_SUCCESS) && !sink && bl_path_get_size(out) > initial_size) {
+    BLRange added{initial_size, SIZE_MAX};
+    bl_path_remove_range(out, &added);
+  }
+
+  return result;
+}
+
 // bl::Font - Runtime Registration
 // ===============================
 
diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 9c0f0a7..e81b17e 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2042,16 +2042,27 @@ BL_API_IMPL BLResult bl_path_add_stroked_path(BLPathCore* self, const BLPathCore
   BLPath b_path;
   BLPath c_path;
 
+  size_t initial_size = bl_path_get_size(self);
+  BLResult result;
+
   if (self == other) {
     // Border case, we don't want anything to happen to the `other` path during
     // processing. And since stroking may need to reallocate the output path it
     // would be unsafe.
     BLPath tmp(other->dcast());
-    return stroke_path(input, options->dcast(), *approx, self->dcast(), b_path, c_path, append_stroked_path_sink, nullptr);
+    result = stroke_path(input, options->dcast(), *approx, self->dcast(), b_path, c_path, append_stroked_path_sink, nullptr);
   }
   else {
-    return stroke_path(input, options->dcast(), *approx, self->dcast(), b_path, c_path, append_stroked_path_sink, nullptr);
+    result = stroke_path(input, options->dcast(), *approx, self->dcast(), b_path, c_path, append_stroked_path_sink, nullptr);
+  }
+
+  // Don't keep figures that were added before the failure.
+  if (BL_UNLIKELY(result != BL_SUCCESS) && bl_path_get_size(self) > initial_size) {
+    BLRange added{initial_size, SIZE_MAX};
+    bl_path_remove_range(self, &added);
   }
+
+  return result;
 }
 
 BL_API_IMPL BLResult BL_CDECL bl_path_stroke_to_sink(
-- 
2.43.0


From 3e328fa2af58971bae20400f66eb97cbe8816abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 101/182] fix: formatting a string destroyed its content when
 memory ran out

---
 blend2d/core/string.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 446d229..2c3a895 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -642,7 +642,8 @@ BL_API_IMPL BLResult bl_string_apply_op_format_v(BLStringCore* self, BLModifyOp
   va_list ap_copy;
   va_copy(ap_copy, ap);
 
-  if ((remaining & mutable_msk) >= 64) {
+  // Only append can format into the string directly as the content of the string must stay if this function fails.
+  if (bl_modify_op_is_append(op) && (remaining & mutable_msk) >= 64) {
     // vsnprintf() expects null terminator to be included in the size of the buffer.
     char* dst = u.data;
     fmt_result = vsnprintf(dst + index, remaining + 1, fmt, ap);
@@ -658,6 +659,8 @@ BL_API_IMPL BLResult bl_string_apply_op_format_v(BLStringCore* self, BLModifyOp
       set_size(self, index + output_size);
       return BL_SUCCESS;
     }
+
+    dst[index] = '\0';
   }
   else {
     fmt_result = vsnprintf(buf, BL_ARRAY_SIZE(buf), fmt, ap);
-- 
2.43.0


From 48ea6cc21b12a79364f1c61a5835d40d97bab576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 102/182] fix: errors of text processing were lost in
 multi-threaded rendering

---
 blend2d/raster/renderjobproc_p.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/renderjobproc_p.h b/blend2d/raster/renderjobproc_p.h
index 3f48d91..3720708 100644
--- a/blend2d/raster/renderjobproc_p.h
+++ b/blend2d/raster/renderjobproc_p.h
@@ -158,13 +158,20 @@ static void process_fill_text_job(WorkData* work_data, RenderJob_TextOp* job) no
 
     if (data_type != RenderJob::kTextDataGlyphBuffer) {
       glyph_buffer = &work_data->glyph_buffer;
-      glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
+      result = glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
     }
     else {
       glyph_buffer = &job->_glyph_buffer.dcast();
     }
 
-    result = font.shape(*glyph_buffer);
+    if (result == BL_SUCCESS) {
+      result = font.shape(*glyph_buffer);
+    }
+
+    if (result != BL_SUCCESS) {
+      work_data->accumulate_error(result);
+    }
+
     glyph_run = &glyph_buffer->glyph_run();
   }
   else {
@@ -218,13 +225,20 @@ static void process_stroke_text_job(WorkData* work_data, RenderJob_TextOp* job)
 
     if (data_type != RenderJob::kTextDataGlyphBuffer) {
       glyph_buffer = &work_data->glyph_buffer;
-      glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
+      result = glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
     }
     else {
       glyph_buffer = &job->_glyph_buffer.dcast();
     }
 
-    result = font.shape(*glyph_buffer);
+    if (result == BL_SUCCESS) {
+      result = font.shape(*glyph_buffer);
+    }
+
+    if (result != BL_SUCCESS) {
+      work_data->accumulate_error(result);
+    }
+
     glyph_run = &glyph_buffer->glyph_run();
   }
   else {
-- 
2.43.0


From 5113b00a34f3710745d5e581758d81709537702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 103/182] fix: a worker that ran out of memory kept its zone
 memory

---
 blend2d/raster/workerproc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/raster/workerproc.cpp b/blend2d/raster/workerproc.cpp
index c24fdd6..41d8963 100644
--- a/blend2d/raster/workerproc.cpp
+++ b/blend2d/raster/workerproc.cpp
@@ -264,6 +264,7 @@ static void process_commands(WorkData* work_data, RenderBatch* batch) noexcept {
   BLResult result = proc_data.init_proc_data();
   if (result != BL_SUCCESS) {
     work_data->accumulate_error(result);
+    work_data->work_zone.restore_state(zone_state);
     return;
   }
 
-- 
2.43.0


From e43864a8a89882624ab3b82c3c3d99a77dc75ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:04 +0000
Subject: [PATCH 104/182] fix: styles set after the last save leaked when the
 context ended

---
 blend2d/raster/rastercontext.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 6eba8b7..bb9ea9c 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1598,20 +1598,22 @@ static void discard_states(BLRasterContextImpl* ctx_impl, SavedState* top_state)
   // NOTE: No need to handle parts of states that don't use dynamically allocated memory.
   ContextFlags context_flags = ctx_impl->context_flags;
   do {
-    if ((context_flags & (ContextFlags::kFetchDataFill | ContextFlags::kWeakStateFillStyle)) == ContextFlags::kFetchDataFill) {
-      constexpr uint32_t kSlot = BL_CONTEXT_STYLE_SLOT_FILL;
-      if (saved_state->style[kSlot].has_fetch_data()) {
-        RenderFetchData* fetch_data = saved_state->style[kSlot].get_render_fetch_data();
-        fetch_data->release(ctx_impl);
+    // A style that is not weak was assigned after the state was saved, so it's owned by the state being discarded
+    // and the saved style takes its place.
+    if (!bl_test_flag(context_flags, ContextFlags::kWeakStateFillStyle)) {
+      StyleData& style = ctx_impl->internal_state.style[BL_CONTEXT_STYLE_SLOT_FILL];
+      if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill)) {
+        destroy_valid_style(ctx_impl, &style);
       }
+      style.copy_from(saved_state->style[BL_CONTEXT_STYLE_SLOT_FILL]);
     }
 
-    if ((context_flags & (ContextFlags::kFetchDataStroke | ContextFlags::kWeakStateStrokeStyle)) == ContextFlags::kFetchDataStroke) {
-      constexpr uint32_t kSlot = BL_CONTEXT_STYLE_SLOT_STROKE;
-      if (saved_state->style[kSlot].has_fetch_data()) {
-        RenderFetchData* fetch_data = saved_state->style[kSlot].get_render_fetch_data();
-        fetch_data->release(ctx_impl);
+    if (!bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeStyle)) {
+      StyleData& style = ctx_impl->internal_state.style[BL_CONTEXT_STYLE_SLOT_STROKE];
+      if (bl_test_flag(context_flags, ContextFlags::kFetchDataStroke)) {
+        destroy_valid_style(ctx_impl, &style);
       }
+      style.copy_from(saved_state->style[BL_CONTEXT_STYLE_SLOT_STROKE]);
     }
 
     if (!bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeOptions)) {
-- 
2.43.0


From 57c989ab5cad1c69cadcb781b236b4ffc69ab87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 105/182] fix: image scaling allocated its context before
 rejecting too large sizes

---
 blend2d/core/image.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/core/image.cpp b/blend2d/core/image.cpp
index 89edca7..65a4615 100644
--- a/blend2d/core/image.cpp
+++ b/blend2d/core/image.cpp
@@ -534,6 +534,10 @@ BL_API_IMPL BLResult bl_image_scale(BLImageCore* dst, const BLImageCore* src, co
   if (src_impl->format == BL_FORMAT_NONE)
     return bl_image_reset(dst);
 
+  // Must be checked first as the size of the scaling context depends on the requested size.
+  if (BL_UNLIKELY(size->w > int(BL_RUNTIME_MAX_IMAGE_SIZE) || size->h > int(BL_RUNTIME_MAX_IMAGE_SIZE)))
+    return bl_make_error(BL_ERROR_IMAGE_TOO_LARGE);
+
   bl::ImageScaleContext scale_ctx;
   BL_PROPAGATE(scale_ctx.create(*size, src_impl->size, filter));
 
-- 
2.43.0


From 9b19bf45d1110a4b3507d57c14a1eb8344bfc1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 106/182] fix: reductions of images by a large factor lost the
 weights of the filter

---
 blend2d/core/imagescale.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/imagescale.cpp b/blend2d/core/imagescale.cpp
index b27f03a..af3d626 100644
--- a/blend2d/core/imagescale.cpp
+++ b/blend2d/core/imagescale.cpp
@@ -144,9 +144,14 @@ static BLResult BL_CDECL image_scale_weights(ImageScaleContext::Data* d, uint32_
       int32_t iSum = 0;
       int32_t iMax = 0;
 
-      double wScale = 65535 / wSum;
+      // Weights are rounded so that their running sum stays as close as possible to the exact one - rounding each
+      // weight separately would lose most of them when the filter covers many pixels.
+      double wScale = double(0x100) / wSum;
+      double wAccum = 0.0;
+
       for (j = wIndex; j < wCount; j++) {
-        int32_t w = int32_t(wData[j] * wScale) >> 8;
+        wAccum += wData[j] * wScale;
+        int32_t w = Math::round_to_int(wAccum) - iSum;
 
         // Remove zero weight from the beginning of the list.
         if (w == 0 && wIndex == j) {
-- 
2.43.0


From 9dedfef62f930ead71213ad41296d495ade65a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 107/182] fix: do not write past the image when a BMP RLE move
 goes below the last line

---
 blend2d/codec/bmpcodec.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index 9a638a7..e82496d 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -217,13 +217,13 @@ static BLResult decodeRLE4(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         dst_data = dst_line;
       }
 
-      for (; x < to_x; x++, dst_data += 4) {
-        MemOps::writeU32a(dst_data, kRleBackground);
-      }
-
       if (b1 == kRleStop || y == h) {
         return BL_SUCCESS;
       }
+
+      for (; x < to_x; x++, dst_data += 4) {
+        MemOps::writeU32a(dst_data, kRleBackground);
+      }
     }
   }
 }
@@ -314,13 +314,13 @@ static BLResult decodeRLE8(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         dst_data = dst_line;
       }
 
-      for (; x < to_x; x++, dst_data += 4) {
-        MemOps::writeU32a(dst_data, kRleBackground);
-      }
-
       if (b1 == kRleStop || y == h) {
         return BL_SUCCESS;
       }
+
+      for (; x < to_x; x++, dst_data += 4) {
+        MemOps::writeU32a(dst_data, kRleBackground);
+      }
     }
   }
 }
-- 
2.43.0


From 70d03448be2ab920049070a5660f2b20e573b64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 108/182] fix: accept RGB compressed BMPs with V2+ headers that
 have no masks

---
 blend2d/codec/bmpcodec.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index e82496d..0f7cc95 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -495,6 +495,13 @@ static BLResult decoder_read_info_internal(BLBmpDecoderImpl* decoder_impl, const
   }
 
   bool has_bit_fields = depth > 8 && header_size >= kHeaderSizeWIN_V2;
+
+  // Masks are not required when the compression is RGB, which implies a default layout.
+  if (has_bit_fields && compression == kCompressionRGB) {
+    const uint32_t* masks = decoder_impl->info.win.masks;
+    has_bit_fields = (masks[0] | masks[1] | masks[2]) != 0;
+  }
+
   if (header_size == kHeaderSizeWIN_V1) {
     // Use BITFIELDS if specified.
     if (compression == kCompressionBitFields || compression == kCompressionAlphaBitFields) {
-- 
2.43.0


From c776b24c28990597d89675e925223f0a294f6f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 109/182] fix: recognize BMP V5 headers (wrong header size
 constant)

---
 blend2d/codec/bmpcodec_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/bmpcodec_p.h b/blend2d/codec/bmpcodec_p.h
index 78fd5f5..4b37ae2 100644
--- a/blend2d/codec/bmpcodec_p.h
+++ b/blend2d/codec/bmpcodec_p.h
@@ -26,7 +26,7 @@ static constexpr uint32_t kHeaderSizeWIN_V1 = 40;
 static constexpr uint32_t kHeaderSizeWIN_V2 = 52;
 static constexpr uint32_t kHeaderSizeWIN_V3 = 56;
 static constexpr uint32_t kHeaderSizeWIN_V4 = 108;
-static constexpr uint32_t kHeaderSizeWIN_V5 = 12;
+static constexpr uint32_t kHeaderSizeWIN_V5 = 124;
 
 static constexpr uint32_t kCompressionRGB = 0;
 static constexpr uint32_t kCompressionRLE8 = 1;
-- 
2.43.0


From 4d86def03db817b2a35f75d4d6c89ba8ee467b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 110/182] fix: deinterlace the tails of 2-bit and 4-bit
 interlaced PNGs correctly

---
 blend2d/codec/pngcodec.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 66cfb7f..b37fb30 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -460,7 +460,7 @@ static void deinterlace_bits(
           a = uint32_t(*d2++);
           b = 0;
 
-          if (x >=  3) a  = (uint32_t(*d3++) << 8);
+          if (x >=  3) a += (uint32_t(*d3++) << 8);
           if (x >=  2) b  = (uint32_t(*d5++)     );
           if (x >= 10) b += (uint32_t(*d5++) << 8);
 
@@ -506,10 +506,10 @@ static void deinterlace_bits(
           if (x >= 2)
             b = uint32_t(*d5++);
 
-          tmp_data[0] = combineByte2bpp(a     , b >> 10, b >> 4, b >> 12);
+          tmp_data[0] = combineByte2bpp(a     , b >> 2, a >> 2, b >> 4);
           if (x <=  4) break;
 
-          tmp_data[1] = combineByte2bpp(a >> 8, b >>  6, b >> 2, b >>  8);
+          tmp_data[1] = combineByte2bpp(a << 4, b << 2, a << 2, b     );
           break;
         }
       }
@@ -616,7 +616,7 @@ static void deinterlace_bits(
           tmp_data[1] = combineByte4bpp(a >> 8, b);
           if (x <= 4) break;
 
-          b = uint32_t(*d5++);
+          b = (x >= 6) ? uint32_t(*d5++) : uint32_t(0);
           tmp_data[2] = combineByte4bpp(a << 4, b >> 4);
           if (x <= 6) break;
 
-- 
2.43.0


From 0e94ab0dfc54dcaaef321dffa667fcc13fcc9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 111/182] fix: do not restore a missing previous frame when the
 first APNG frame asks for it

---
 blend2d/codec/pngcodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index b37fb30..8039bc4 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -901,6 +901,11 @@ static BLResult decoderReadFCTL(BLPngDecoderImpl* decoder_impl, size_t chunk_off
     decoder_impl->first_fctl_offset = chunk_offset;
   }
 
+  // There is nothing to restore after the first frame - APNG specifies that it's disposed to background in such case.
+  if (decoder_impl->frame_index == 0u && dispose_op == kAPNGDisposeOpPrevious) {
+    dispose_op = kAPNGDisposeOpBackground;
+  }
+
   decoder_impl->prev_ctrl = decoder_impl->frame_ctrl;
   decoder_impl->frame_ctrl.sequence_number = n;
   decoder_impl->frame_ctrl.w = w;
-- 
2.43.0


From 082b9bbd0495637f5a5b761a493854d49ff351c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 112/182] fix: apply the transparent color of RGB PNGs

---
 blend2d/codec/pngcodec.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 8039bc4..a3a8a7a 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1167,6 +1167,7 @@ static BLResult decoder_read_important_chunks(BLPngDecoderImpl* decoder_impl, co
 
         decoder_impl->color_key.reset(r, g, b, 0u);
         decoder_impl->add_flag(DecoderStatusFlags::kHasColorKey);
+        decoder_impl->output_format = uint8_t(BL_FORMAT_PRGB32);
 
         chunk_reader.advance(kPngChunkBaseSize + 6u);
       }
@@ -1301,6 +1302,26 @@ static void zero_pixels(uint8_t* dst_data, intptr_t dst_stride, size_t w, uint32
   }
 }
 
+// Makes all pixels that match the given color transparent, used by RGB images that specify a transparent color.
+static void apply_color_key(uint8_t* dst_data, intptr_t dst_stride, uint32_t w, uint32_t h, const BLRgba64& color_key) noexcept {
+  // No pixel can match a key that is out of range.
+  if (bl_max(color_key.r(), color_key.g(), color_key.b()) > 0xFFu) {
+    return;
+  }
+
+  uint32_t key = RgbaInternal::packRgba32(color_key.r(), color_key.g(), color_key.b(), 0xFFu);
+
+  for (uint32_t y = 0; y < h; y++) {
+    uint32_t* pixels = reinterpret_cast<uint32_t*>(dst_data);
+    for (uint32_t x = 0; x < w; x++) {
+      if (pixels[x] == key) {
+        pixels[x] = 0u;
+      }
+    }
+    dst_data += dst_stride;
+  }
+}
+
 static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage* image_out, const uint8_t* input, size_t size) noexcept {
   // Number of bytes to overallocate so the DEFLATE decoder doesn't have to run the slow loop at the end.
   constexpr uint32_t kOutputSizeScratch = 1024u;
@@ -1606,6 +1627,10 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
     decoder_impl->pixel_converter.convert_rect(dst_pixels, dst_stride, png_pixel_ptr + 1, intptr_t(steps[0].bpl), w, h);
   }
 
+  if (decoder_impl->color_type == kColorType2_RGB && decoder_impl->has_color_key()) {
+    apply_color_key(dst_pixels, dst_stride, w, h, decoder_impl->color_key);
+  }
+
   decoder_impl->frame_index++;
   if (decoder_impl->isAPNG() && decoder_impl->frame_index >= decoder_impl->image_info.frame_count) {
     // Restart the animation to create a loop.
-- 
2.43.0


From ba5041954ac9f221826c547daf5df12efad9143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 113/182] fix: skip unread fdAT chunks of an APNG frame before
 reading the next one

---
 blend2d/codec/pngcodec.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index a3a8a7a..5aa8d5f 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1476,6 +1476,15 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
     }
   }
 
+  // Skip all remaining chunks of this frame (these can only contain data that follows the compressed stream).
+  while (chunk_reader.has_chunk() && chunk_reader.read_chunk_tag() == frame_tag) {
+    uint32_t chunk_size = chunk_reader.read_chunk_size();
+    if (!chunk_reader.has_chunk_with_size(chunk_size)) {
+      break;
+    }
+    chunk_reader.advance(size_t(kPngChunkBaseSize) + chunk_size);
+  }
+
   decoder_impl->clear_flag(DecoderStatusFlags::kRead_fcTL);
   decoder_impl->buffer_index = PtrOps::byte_offset(input, chunk_reader.ptr);
 
-- 
2.43.0


From 2ff942007ca07bad44e9506408f50b9ade66cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 114/182] fix: release the previous-frame buffer of the PNG
 decoder

---
 blend2d/codec/pngcodec_p.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/codec/pngcodec_p.h b/blend2d/codec/pngcodec_p.h
index b702121..6af7fe2 100644
--- a/blend2d/codec/pngcodec_p.h
+++ b/blend2d/codec/pngcodec_p.h
@@ -139,10 +139,12 @@ struct BLPngDecoderImpl : public BLImageDecoderImpl {
     BLImageDecoderImpl::ctor(virt_, codec_);
     bl_call_ctor(png_pixel_data);
     bl_call_ctor(pixel_converter);
+    bl_call_ctor(previous_pixel_buffer);
   }
 
   //! Explicit destructor that destructs this Impl.
   BL_INLINE void dtor() noexcept {
+    bl_call_dtor(previous_pixel_buffer);
     bl_call_dtor(pixel_converter);
     bl_call_dtor(png_pixel_data);
     BLImageDecoderImpl::dtor();
-- 
2.43.0


From c51efbc6243ba5ba591b36314e065e540b03dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 115/182] fix: decode non-interleaved scans of subsampled JPEG
 components

---
 blend2d/codec/jpegcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 9ae5c20..10180cd 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -1052,7 +1052,7 @@ static BLResult decoder_process_stream(BLJpegDecoderImpl* decoder_impl, const ui
       run->count = count;
       run->stride = stride;
       run->advance[0] = sf_w * unit_size * kDctSize;
-      run->advance[1] = run->advance[0] + (sf_h * kDctSize - 1) * stride;
+      run->advance[1] = sf_h * kDctSize * stride - (mcu_w - 1) * run->advance[0];
     }
     else {
       uint32_t block_size = unit_size * kDctSize2;
-- 
2.43.0


From 83a97d319e28bab412fb434d91595333116dd35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 116/182] fix: accept JPEG JFXX thumbnails (wrong extension
 codes)

---
 blend2d/codec/jpegcodec_p.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/codec/jpegcodec_p.h b/blend2d/codec/jpegcodec_p.h
index 1708a2e..56cfcff 100644
--- a/blend2d/codec/jpegcodec_p.h
+++ b/blend2d/codec/jpegcodec_p.h
@@ -101,9 +101,9 @@ static constexpr uint32_t kDensityPixelsPerCM = 2;
 static constexpr uint32_t kDensityCount       = 3;
 
 // JPEG's thumbnail format specified by APP0-JFXX marker:
-static constexpr uint32_t kThumbnailJPEG      = 0;
-static constexpr uint32_t kThumbnailPAL8      = 1;
-static constexpr uint32_t kThumbnailRGB24     = 2;
+static constexpr uint32_t kThumbnailJPEG      = 0x10;
+static constexpr uint32_t kThumbnailPAL8      = 0x11;
+static constexpr uint32_t kThumbnailRGB24     = 0x13;
 static constexpr uint32_t kThumbnailCount     = 3;
 
 // JPEG's sampling point as specified by JFIF-APP0 marker:
-- 
2.43.0


From e9c57f5257d8b501be69ebf38af91a5bdc468050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 117/182] fix: weight the last two samples correctly when
 upsampling JPEG chroma by 2x1

---
 blend2d/codec/jpegops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegops.cpp b/blend2d/codec/jpegops.cpp
index 02b907d..31deb51 100644
--- a/blend2d/codec/jpegops.cpp
+++ b/blend2d/codec/jpegops.cpp
@@ -188,7 +188,7 @@ uint8_t* BL_CDECL upsample_2x1(uint8_t* dst, uint8_t* src0, uint8_t* src1, uint3
     dst[i * 2 + 1] = uint8_t((n + src0[i + 1]) >> 2);
   }
 
-  dst[i * 2 + 0] = uint8_t((src0[w - 2] * 3 + src0[w-1] + 2) >> 2);
+  dst[i * 2 + 0] = uint8_t((src0[w - 1] * 3 + src0[w - 2] + 2) >> 2);
   dst[i * 2 + 1] = src0[w - 1];
 
   return dst;
-- 
2.43.0


From a70471ccfde500b0c4dd42c98eb56679f49d5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 118/182] fix: reject JPEGs with fractional subsampling ratios
 (read past the planes)

---
 blend2d/codec/jpegcodec.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 10180cd..91a2146 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -201,6 +201,13 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
       mcu_sf_h = bl_max(mcu_sf_h, sf_h);
     }
 
+    // Only integral subsampling ratios are supported by the upsampler.
+    for (i = 0; i < component_count; i++) {
+      if ((mcu_sf_w % decoder_impl->comp[i].sf_w) != 0 || (mcu_sf_h % decoder_impl->comp[i].sf_h) != 0) {
+        return bl_make_error(BL_ERROR_JPEG_UNSUPPORTED_FEATURE);
+      }
+    }
+
     // Compute interleaved MCU info.
     uint32_t mcu_px_w = mcu_sf_w * kDctSize;
     uint32_t mcu_px_h = mcu_sf_h * kDctSize;
-- 
2.43.0


From efc7c4ebf2c53c39bc1e4dd0c28687d9ba34a354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 119/182] fix: compute the size of JPEG planes without overflow
 and initialize them

---
 blend2d/codec/jpegcodec.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 91a2146..cd69830 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -230,14 +230,18 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
       comp->os_w = comp->bl_w * kDctSize;
       comp->os_h = comp->bl_h * kDctSize;
 
-      comp->data = static_cast<uint8_t*>(decoder_impl->allocator.alloc(comp->os_w * comp->os_h));
+      size_t data_size = size_t(comp->os_w) * size_t(comp->os_h);
+      comp->data = static_cast<uint8_t*>(decoder_impl->allocator.alloc(data_size));
       if (comp->data == nullptr) {
         return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
       }
 
+      // Components not provided by any scan are the same as components having all coefficients zero.
+      memset(comp->data, 128, data_size);
+
       if (!is_baseline) {
         uint32_t kBlock8x8UInt16 = kDctSize2 * uint32_t(sizeof(int16_t));
-        size_t coeff_size = comp->bl_w * comp->bl_h * kBlock8x8UInt16;
+        size_t coeff_size = size_t(comp->bl_w) * size_t(comp->bl_h) * kBlock8x8UInt16;
         int16_t* coeff_data = static_cast<int16_t*>(decoder_impl->allocator.alloc(coeff_size, 16));
 
         if (coeff_data == nullptr) {
-- 
2.43.0


From f1a5b0c9ef019721bd78ba141ac7d7e152dfbb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 120/182] fix: require the Huffman and quantization tables a
 JPEG scan uses

---
 blend2d/codec/jpegcodec.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index cd69830..11cafee 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -488,12 +488,17 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
         return bl_make_error(BL_ERROR_INVALID_DATA);
       }
 
-      if (dc_id > 3 || (!IntOps::bit_test(decoder_impl->dc_table_mask, dc_id) && ss_end == 0)) {
+      if (dc_id > 3 || (!IntOps::bit_test(decoder_impl->dc_table_mask, dc_id) && ss_start == 0)) {
         return bl_make_error(BL_ERROR_INVALID_DATA);
       }
 
       // Link the current component to the `index` and update AC & DC selectors.
       DecoderComponent* comp = &decoder_impl->comp[index];
+
+      if (!IntOps::bit_test(decoder_impl->q_table_mask, comp->quant_id)) {
+        return bl_make_error(BL_ERROR_INVALID_DATA);
+      }
+
       comp->dc_id = uint8_t(dc_id);
       comp->ac_id = uint8_t(ac_id);
       sos.sc_comp[i] = comp;
-- 
2.43.0


From 6f8f309571a5b75fe2722aad19ea920a5926b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 121/182] fix: do not read past a short JFXX segment of a JPEG

---
 blend2d/codec/jpegcodec.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 11cafee..f9d3a18 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -600,12 +600,18 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
           break;
 
         case kThumbnailPAL8:
+          if (remain < 8) {
+            return bl_make_error(BL_ERROR_INVALID_DATA);
+          }
           thumb_w = p[6];
           thumb_h = p[7];
           thumb_size = 768 + thumb_w * thumb_h;
           break;
 
         case kThumbnailRGB24:
+          if (remain < 8) {
+            return bl_make_error(BL_ERROR_INVALID_DATA);
+          }
           thumb_w = p[6];
           thumb_h = p[7];
           thumb_size = thumb_w * thumb_h * 3;
@@ -615,7 +621,7 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
           return bl_make_error(BL_ERROR_INVALID_DATA);
       }
 
-      if (thumb_size + 6 > remain)
+      if (thumb_size + (format == kThumbnailJPEG ? 6u : 8u) > remain)
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
       decoder_impl->thumb.format = uint8_t(format);
-- 
2.43.0


From a2f3bba606f619596ca0510c9baef2aab11fad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 122/182] fix: do not read past the end of a JPEG after a
 restart marker

---
 blend2d/codec/jpegcodec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index f9d3a18..43e4516 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -734,6 +734,7 @@ static BLResult decoder_handle_restart(BLJpegDecoderImpl* decoder_impl, DecoderB
   // Skip the marker and flush entropy bits.
   reader.flush();
   reader.advance(2);
+  reader.end = pEnd;
   reader.done(stream);
 
   stream.eob_run = 0;
-- 
2.43.0


From 19ca7c81cca235a3ea4f3350318e4b01d7ebc402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 123/182] fix: fail to decode JPEGs that have no scan

---
 blend2d/codec/jpegcodec.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 43e4516..e2cac23 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -1444,6 +1444,10 @@ static BLResult decoder_read_frame_impl_internal(BLJpegDecoderImpl* decoder_impl
     }
   }
 
+  if (!bl_test_flag(decoder_impl->status_flags, DecoderStatusFlags::kDoneSOS)) {
+    return bl_make_error(BL_ERROR_INVALID_DATA);
+  }
+
   // Process MCUs.
   BL_PROPAGATE(decoder_process_mcus(decoder_impl));
 
-- 
2.43.0


From c67a142c84172317debe0d88a2a52647b9d1feef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 124/182] fix: check the PNG pixel data size for overflows

---
 blend2d/codec/pngcodec.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 5aa8d5f..873623a 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -155,11 +155,14 @@ static uint32_t calculate_interlace_steps(
     // five rows, some passes will be empty, decoders must handle this case.
     uint32_t used = sw != 0 && sh != 0;
 
-    // NOTE: No need to check for overflow at this point as we have already
-    // calculated the total BPL of the whole image, and since interlacing is
-    // splitting it into multiple images, it can't overflow the base size.
-    uint32_t bpl = ((sw * sample_depth + 7) / 8) * sample_count + 1;
-    uint32_t size = used ? bpl * sh : uint32_t(0);
+    // NOTE: The size of the image comes from the file, so it must be checked here.
+    bl::OverflowFlag of{};
+
+    uint32_t bpl = IntOps::mul_overflow(sw, sample_depth, &of);
+    bpl = IntOps::add_overflow(bpl, 7u, &of) / 8u;
+    bpl = IntOps::mul_overflow(bpl, sample_count, &of);
+    bpl = IntOps::add_overflow(bpl, 1u, &of);
+    uint32_t size = used ? IntOps::mul_overflow(bpl, sh, &of) : uint32_t(0);
 
     dst->used = used;
     dst->width = sw;
@@ -169,8 +172,6 @@ static uint32_t calculate_interlace_steps(
     dst->offset = offset;
     dst->size = size;
 
-    // Here we should be safe...
-    bl::OverflowFlag of{};
     offset = IntOps::add_overflow(offset, size, &of);
 
     if (BL_UNLIKELY(of)) {
-- 
2.43.0


From 5ba838871788bf76d8cca7fc5fb78dedeace34d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 125/182] fix: do not read beyond the end of PNG data when
 looking for chunks

---
 blend2d/codec/pngcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 873623a..4b8a1cc 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -935,7 +935,7 @@ static BLResult decoder_read_info_internal(BLPngDecoderImpl* decoder_impl, const
     return bl_make_error(BL_ERROR_INVALID_SIGNATURE);
   }
 
-  ChunkReader chunk_reader(p + kPngSignatureSize, p + size - kPngSignatureSize);
+  ChunkReader chunk_reader(p + kPngSignatureSize, p + size);
 
   // Already verified by `kMinSize_PNG` check - so it must be true.
   BL_ASSERT(chunk_reader.has_chunk());
-- 
2.43.0


From b6067c14fea25459c010a21836d7e3c806acc3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 126/182] fix: do not decode indexed PNG images without a
 palette

---
 blend2d/codec/pngcodec.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 4b8a1cc..0bc78d2 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1197,8 +1197,7 @@ static BLResult decoder_read_important_chunks(BLPngDecoderImpl* decoder_impl, co
     }
     else if (chunk_tag == BL_MAKE_TAG('I', 'H', 'D', 'R') ||
              chunk_tag == BL_MAKE_TAG('I', 'D', 'A', 'T') ||
-             chunk_tag == BL_MAKE_TAG('I', 'E', 'N', 'D') ||
-             chunk_tag == BL_MAKE_TAG('f', 'c', 'T', 'L')) {
+             chunk_tag == BL_MAKE_TAG('I', 'E', 'N', 'D')) {
       // Stop - these will be read by a different function.
       break;
     }
@@ -1220,6 +1219,11 @@ static BLResult decoder_read_important_chunks(BLPngDecoderImpl* decoder_impl, co
     }
   }
 
+  // Indexed images cannot be decoded without a palette.
+  if (decoder_impl->color_type == kColorType3_PAL && !decoder_impl->has_flag(DecoderStatusFlags::kRead_PLTE)) {
+    return bl_make_error(BL_ERROR_PNG_INVALID_PLTE);
+  }
+
   // Create a pixel converter capable of converting PNG pixel data to BLImage pixel data.
   BLFormatInfo png_fmt {};
   png_fmt.depth = decoder_impl->sample_depth;
-- 
2.43.0


From 6ff64b2afaa6382567c1cd5a67520747f75571e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 127/182] fix: do not overflow when skipping large PNG chunks

---
 blend2d/codec/pngcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 0bc78d2..1021fb5 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1215,7 +1215,7 @@ static BLResult decoder_read_important_chunks(BLPngDecoderImpl* decoder_impl, co
       }
 
       // Skip unknown or known, but unsupported chunks.
-      chunk_reader.advance(kPngChunkBaseSize + chunk_size);
+      chunk_reader.advance(size_t(kPngChunkBaseSize) + size_t(chunk_size));
     }
   }
 
-- 
2.43.0


From 621423aab6a6d1f2febfa84a15a7961dfb20732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 128/182] fix: keep the destination image unchanged when
 reading an image fails

---
 blend2d/core/image.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/image.cpp b/blend2d/core/image.cpp
index 65a4615..7646e15 100644
--- a/blend2d/core/image.cpp
+++ b/blend2d/core/image.cpp
@@ -601,7 +601,10 @@ BL_API_IMPL BLResult bl_image_read_from_file(BLImageCore* self, const char* file
 
   BLImageDecoder decoder;
   BL_PROPAGATE(codec.create_decoder(&decoder));
-  return decoder.read_frame(*self, buffer);
+  // Decode into a temporary image so `self` is left unchanged when the decoding fails.
+  BLImage tmp;
+  BL_PROPAGATE(decoder.read_frame(tmp, buffer));
+  return bl_image_assign_move(self, &tmp);
 }
 
 // bl::Image - API - Read Data
@@ -620,7 +623,10 @@ BL_API_IMPL BLResult bl_image_read_from_data(BLImageCore* self, const void* data
 
   BLImageDecoder decoder;
   BL_PROPAGATE(codec.create_decoder(&decoder));
-  return decoder.read_frame(*self, data, size);
+  // Decode into a temporary image so `self` is left unchanged when the decoding fails.
+  BLImage tmp;
+  BL_PROPAGATE(decoder.read_frame(tmp, data, size));
+  return bl_image_assign_move(self, &tmp);
 }
 
 // bl::Image - API - Write File
-- 
2.43.0


From be0c0989a2fae48b46284af5696b9072d41b6a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:29 +0000
Subject: [PATCH 129/182] fix: let the PNG encoder replace the content of the
 destination like the other encoders

---
 blend2d/codec/pngcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 1021fb5..5a2e132 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1979,7 +1979,7 @@ static BLResult BL_CDECL encoder_write_frame_impl(BLImageEncoderImpl* impl, BLAr
 
   size_t reserve_bytes = kPngSignatureSize + ihdr_size + idat_size + iend_size;
   uint8_t* output_data;
-  BL_PROPAGATE(buf.modify_op(BL_MODIFY_OP_APPEND_FIT, reserve_bytes, &output_data));
+  BL_PROPAGATE(buf.modify_op(BL_MODIFY_OP_ASSIGN_FIT, reserve_bytes, &output_data));
 
   // Prepare output buffer and chunk writer.
   OutputBuffer output(output_data, reserve_bytes);
-- 
2.43.0


From cd38e575885b7506ab3075c4d8fc63df472b7b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:26 +0000
Subject: [PATCH 130/182] fix: integer rectangles and blits covered the pixels
 cut by a fractional clip fully

---
 blend2d/raster/rastercontext.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index bb9ea9c..4604b40 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2918,7 +2918,7 @@ static BL_INLINE BLResult fillUnclippedRectI(BLRasterContextImpl* ctx_impl, Disp
   int rw = rect_i.w;
   int rh = rect_i.h;
 
-  if (!bl_test_flag(ctx_impl->context_flags, ContextFlags::kInfoIntegralTranslation)) {
+  if (!bl_test_flag(ctx_impl->context_flags, ContextFlags::kInfoIntegralTranslation) || ctx_impl->clip_mode() != BL_CLIP_MODE_ALIGNED_RECT) {
     // Clipped out.
     if ((rw <= 0) | (rh <= 0))
       return BL_SUCCESS;
@@ -4057,7 +4057,7 @@ static BLResult BL_CDECL blit_image_i_impl(BLContextImpl* base_impl, const BLPoi
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
   BLImageImpl* image_impl = ImageInternal::get_impl(img);
 
-  if (!bl_test_flag(ctx_impl->context_flags, ContextFlags::kInfoIntegralTranslation)) {
+  if (!bl_test_flag(ctx_impl->context_flags, ContextFlags::kInfoIntegralTranslation) || ctx_impl->clip_mode() != BL_CLIP_MODE_ALIGNED_RECT) {
     BLPoint origin_d(*origin);
     return blit_image_d_impl<kRM>(ctx_impl, &origin_d, img, img_area);
   }
-- 
2.43.0


From f466fe0dff51bae321ae051f5ca71c2a0d8a8766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 131/182] fix: drawing with an explicit color ignored operators
 that are simplified to a constant source (CLEAR drew the color)

---
 blend2d/raster/rastercontext.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 4604b40..daf159a 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1427,7 +1427,10 @@ static BL_INLINE void prepare_non_solid_fetch(BLRasterContextImpl* ctx_impl, Dis
                                                                                  \
   DispatchInfo di;                                                               \
   di.init(resolved.signature, ctx_impl->internal_state.styleAlphaI[Slot]);            \
-  DispatchStyle ds{&solid}
+  DispatchStyle ds{&solid};                                                      \
+                                                                                 \
+  if (resolved.flags != ContextFlags::kNoFlagsSet)                               \
+    ds.fetch_data = ctx_impl->solid_fetch_data_override_table[size_t(resolved.flags)]
 
 // Resolves an operation that uses explicit style (fill or stroke).
 #define BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(NopFlags, Slot, Style, Bail)        \
-- 
2.43.0


From 56f1ca09b5fa287f9c46e88b4e664bf5434d7fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 132/182] fix: fill_mask ignored the global and style alpha

---
 blend2d/raster/rendercommandprocasync_p.h | 2 +-
 blend2d/raster/rendercommandprocsync_p.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/rendercommandprocasync_p.h b/blend2d/raster/rendercommandprocasync_p.h
index fbf204c..9eba535 100644
--- a/blend2d/raster/rendercommandprocasync_p.h
+++ b/blend2d/raster/rendercommandprocasync_p.h
@@ -213,7 +213,7 @@ static CommandStatus fillBoxMaskA(ProcData& proc_data, const RenderCommand& comm
     const uint8_t* mask_data = (static_cast<const uint8_t*>(mask_impl->pixel_data) + intptr_t(maskY) * mask_impl->stride) + maskX * (mask_impl->depth / 8u);
 
     Pipeline::MaskCommand mask_commands[2];
-    Pipeline::MaskCommandType vMaskCmd = command.alpha() >= 255 ? Pipeline::MaskCommandType::kVMaskA8WithoutGA : Pipeline::MaskCommandType::kVMaskA8WithGA;
+    Pipeline::MaskCommandType vMaskCmd = command.alpha() >= 255 ? Pipeline::MaskCommandType::kVMaskA8WithGA : Pipeline::MaskCommandType::kVMaskA8WithoutGA;
 
     mask_commands[0].init_vmask(vMaskCmd, uint32_t(box_i.x0), uint32_t(box_i.x1), mask_data, mask_impl->stride);
     mask_commands[1].init_repeat();
diff --git a/blend2d/raster/rendercommandprocsync_p.h b/blend2d/raster/rendercommandprocsync_p.h
index ed4a151..56ab2cf 100644
--- a/blend2d/raster/rendercommandprocsync_p.h
+++ b/blend2d/raster/rendercommandprocsync_p.h
@@ -70,7 +70,7 @@ static BL_INLINE BLResult fill_box_masked_a(WorkData& work_data, const Pipeline:
   const BLBoxI& box_i = payload.box_i;
 
   Pipeline::MaskCommand mask_commands[2];
-  Pipeline::MaskCommandType vMaskCmd = alpha >= 255 ? Pipeline::MaskCommandType::kVMaskA8WithoutGA : Pipeline::MaskCommandType::kVMaskA8WithGA;
+  Pipeline::MaskCommandType vMaskCmd = alpha >= 255 ? Pipeline::MaskCommandType::kVMaskA8WithGA : Pipeline::MaskCommandType::kVMaskA8WithoutGA;
 
   mask_commands[0].init_vmask(vMaskCmd, uint32_t(box_i.x0), uint32_t(box_i.x1), mask_data, mask_impl->stride);
   mask_commands[1].init_repeat();
-- 
2.43.0


From d8e1cce1a2000f7bd8f7c91b39c9b592695b0c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:10 +0000
Subject: [PATCH 133/182] fix: radial gradients were offset when transformed by
 rotation or shear

---
 blend2d/pipeline/pipedefs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/pipeline/pipedefs.cpp b/blend2d/pipeline/pipedefs.cpp
index 3d4b1b8..89e3927 100644
--- a/blend2d/pipeline/pipedefs.cpp
+++ b/blend2d/pipeline/pipedefs.cpp
@@ -529,7 +529,7 @@ static BL_INLINE Signature init_radial_gradient(FetchData::Gradient& fetch_data,
   double xy = inv.m01;
   double yx = inv.m10;
   double yy = inv.m11;
-  BLPoint tp = BLPoint(inv.m20 + (xx + xy) * 0.5, inv.m21 + (yx + yy) * 0.5) - fp;
+  BLPoint tp = BLPoint(inv.m20 + (xx + yx) * 0.5, inv.m21 + (xy + yy) * 0.5) - fp;
 
   fetch_data.radial.tx = tp.x;
   fetch_data.radial.ty = tp.y;
-- 
2.43.0


From 34f284fcbb139303e93a6469620d7730464c274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:10 +0000
Subject: [PATCH 134/182] fix: conic gradients had wrong angles under shear and
 non-uniform scaling

---
 blend2d/pipeline/pipedefs.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/blend2d/pipeline/pipedefs.cpp b/blend2d/pipeline/pipedefs.cpp
index 89e3927..f80cf7d 100644
--- a/blend2d/pipeline/pipedefs.cpp
+++ b/blend2d/pipeline/pipedefs.cpp
@@ -623,22 +623,20 @@ static BL_INLINE Signature init_conic_gradient(FetchData::Gradient& fetch_data,
   // Invert the origin and move it to the center of the pixel.
   c = BLPoint(0.5, 0.5) - transform.map_point(c);
 
-  BLPoint v = transform.map_vector(BLPoint(1.0, 0.0));
-  double matrix_angle = atan2(v.y, v.x);
+  BLMatrix2D inv;
+  if (BLMatrix2D::invert(inv, transform) != BL_SUCCESS)
+    return Signature::from_pending_flag(1);
 
-  BLMatrix2D updated_transform(transform);
-  updated_transform.rotate(-matrix_angle, c);
+  // Rotate the inverted matrix so moving to the next pixel only changes `x` (the fetcher doesn't advance `y` horizontally).
+  double matrix_angle = atan2(inv.m01, inv.m00);
+  inv.post_rotate(-matrix_angle);
 
-  angle += matrix_angle;
+  angle -= matrix_angle;
   double off = Math::frac(angle / -Math::kPI_MUL_2);
 
   if (off != 0.0)
     off = -1.0 + off;
 
-  BLMatrix2D inv;
-  if (BLMatrix2D::invert(inv, updated_transform) != BL_SUCCESS)
-    return Signature::from_pending_flag(1);
-
   fetch_data.conic.tx = c.x * inv.m00 + c.y * inv.m10;
   fetch_data.conic.ty = c.x * inv.m01 + c.y * inv.m11;
   fetch_data.conic.yx = inv.m10;
-- 
2.43.0


From 5237f9b7efd2c54029eb044f9c18989e9183fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 135/182] fix: hit testing quadratic curves took the wrong end
 point at the height of an end or extremum

---
 blend2d/core/path.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index e81b17e..28641c3 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2652,11 +2652,11 @@ OnLine:
               if (bl::Math::quad_roots(ti, qc.a.y, qc.b.y, qc.c.y - pt.y, bl::Math::kAfter0, bl::Math::kBefore1) >= 1) {
                 ix = (qc.a.x * ti[0] + qc.b.x) * ti[0] + qc.c.x;
               }
-              else if (pt.y - min_y < max_y - pt.y) {
-                ix = p[0].x;
+              else if (bl_abs(pt.y - spline_ptr[0].y) < bl_abs(pt.y - spline_ptr[2].y)) {
+                ix = spline_ptr[0].x;
               }
               else {
-                ix = p[2].x;
+                ix = spline_ptr[2].x;
               }
 
               if (pt.x >= ix)
-- 
2.43.0


From e4d60e6a055dadd0ad0d23b3d766740ea998febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 136/182] fix: hit testing cubic curves with nearly zero
 leading coefficients gave wrong results

---
 blend2d/core/path.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 28641c3..2123935 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2711,23 +2711,25 @@ OnLine:
               else if (spline_ptr[0].y > spline_ptr[3].y)
                 dir = -1;
 
-              // It should be only possible to have zero or one solution.
-              double ti[3];
-              double ix;
-
+              // The piece is monotonic in Y so there is exactly one solution - bisection is used as solving the polynomial
+              // would be inaccurate if the leading coefficients are close to zero.
               bl::Geometry::CubicCoefficients cc = bl::Geometry::coefficients_of(bl::Geometry::cubic_ref(spline_ptr));
+              double t0 = 0.0;
+              double t1 = 1.0;
 
-              // { At^3 + Bt^2 + Ct + D } -> { ((At + B)t + C)t + D }
-              if (bl::Math::cubic_roots(ti, cc.a.y, cc.b.y, cc.c.y, cc.d.y - pt.y, bl::Math::kAfter0, bl::Math::kBefore1) >= 1) {
-                ix = ((cc.a.x * ti[0] + cc.b.x) * ti[0] + cc.c.x) * ti[0] + cc.d.x;
-              }
-              else if (pt.y - min_y < max_y - pt.y) {
-                ix = spline_ptr[0].x;
-              }
-              else {
-                ix = spline_ptr[3].x;
+              for (uint32_t n = 0; n < 53; n++) {
+                double t = (t0 + t1) * 0.5;
+                double y = ((cc.a.y * t + cc.b.y) * t + cc.c.y) * t + cc.d.y;
+
+                if ((y <= pt.y) == (dir > 0))
+                  t0 = t;
+                else
+                  t1 = t;
               }
 
+              double t = (t0 + t1) * 0.5;
+              double ix = ((cc.a.x * t + cc.b.x) * t + cc.c.x) * t + cc.d.x;
+
               if (pt.x >= ix) {
                 winding_number += dir;
               }
-- 
2.43.0


From fe7c8acebc1c321f420e85bc4dea086ce72c2327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:31 +0000
Subject: [PATCH 137/182] fix: keep the area of segments shorter than the
 stroke at inner joins

---
 blend2d/core/pathstroke.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index 6bb5bf0..bde2833 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -100,8 +100,11 @@ static BL_INLINE bool test_inner_join_intersecion(const BLPoint& a0, const BLPoi
   BLPoint min = bl_max(bl_min(a0, a1), bl_min(b0, b1));
   BLPoint max = bl_min(bl_max(a0, a1), bl_max(b0, b1));
 
+  // The lines must overlap each other as well, otherwise the area of one that is not covered by the other would be lost.
   return (join.x >= min.x) & (join.y >= min.y) &
-         (join.x <= max.x) & (join.y <= max.y) ;
+         (join.x <= max.x) & (join.y <= max.y) &
+         (Geometry::dot(b0 - a0, a1 - a0) >= 0.0) &
+         (Geometry::dot(a1 - b1, b0 - b1) >= 0.0) ;
 }
 
 static BL_INLINE void dull_angle_arc_to(PathAppender& appender, const BLPoint& p0, const BLPoint& pa, const BLPoint& pb, const BLPoint& intersection) noexcept {
-- 
2.43.0


From 8efb16cdbf0d4315230686ac84fb417abf363819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:31 +0000
Subject: [PATCH 138/182] fix: stroke flat cubic curves that are quadratic
 curves with a cusp

---
 blend2d/core/pathstroke.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index bde2833..d43d80b 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -392,13 +392,17 @@ SmoothPolyTo:
               double r2 = Geometry::dot(p[2] - p[0], r);
               double r3 = Geometry::dot(p[3] - p[0], r);
 
-              double a = 1.0 / (3.0 * r1 - 3.0 * r2 + r3);
+              double a = 3.0 * r1 - 3.0 * r2 + r3;
               double b = 2.0 * r1 - r2;
               double s = Math::sqrt(r2 * (r2 - r1) - r1 * (r3 - r1));
+              double q = b + Math::copy_sign(s, b);
 
-              // Parameters of the cusps.
-              double t1 = a * (b - s);
-              double t2 = a * (b + s);
+              // Parameters of the cusps (the first is infinite if the cubic is a quadratic curve).
+              double t1 = q / a;
+              double t2 = r1 / q;
+
+              if (t1 > t2)
+                BLInternal::swap(t1, t2);
 
               // Offset the first and second cusps (if they exist).
               poly_size = 0;
-- 
2.43.0


From 8a2bc2ae823e1cbbd8cedd5e236559702f998341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:31 +0000
Subject: [PATCH 139/182] fix: clip miter joins of almost opposite normals at
 the miter limit

---
 blend2d/core/pathstroke.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index d43d80b..6d6a917 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -784,13 +784,9 @@ SmoothPolyTo:
     }
 
     if (_join_type == BL_STROKE_JOIN_MITER_CLIP) {
-      double b2 = bl_abs(Geometry::cross(k, _n0));
-
-      // Avoid degenerate cases and NaN.
-      if (b2 > 0)
-        b2 = b2 * _miter_limit / Geometry::magnitude(k);
-      else
-        b2 = _miter_limit;
+      // Sine of the half of the angle between the normals - calculated this way as `k` has no meaningful direction
+      // when the normals are [almost] opposite.
+      double b2 = Math::sqrt(bl_max(0.5 - 0.5 * Geometry::dot(_n0, n1), 0.0)) * _miter_limit;
 
       appender.back(appender.cmd[-2].value <= BL_PATH_CMD_ON);
       appender.line_to(_p0 + d * _n0 - b2 * Geometry::normal(_n0));
-- 
2.43.0


From 20ad62fc1d5135ac170e0eb69a78f9741174d2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:31 +0000
Subject: [PATCH 140/182] fix: avoid non-finite round joins when the stroke
 width vanishes

---
 blend2d/core/pathstroke.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index 6d6a917..b9f08c5 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -818,7 +818,14 @@ SmoothPolyTo:
         BLPoint pm = Math::lerp(pa, pb);
         BLPoint pi = _p0 + k;
 
-        double w = Math::sqrt(Geometry::length(_p0, pm) / Geometry::length(_p0, pi));
+        // The distance is not positive if the width is zero or too small compared to coordinates.
+        double pi_distance = Geometry::length(_p0, pi);
+        if (!(pi_distance > 0.0)) {
+          appender.line_to(pb);
+          return BL_SUCCESS;
+        }
+
+        double w = Math::sqrt(Geometry::length(_p0, pm) / pi_distance);
         double a = 4.0 * w / (3.0 * (1.0 + w));
 
         BLPoint c0 = pa + a * (pi - pa);
-- 
2.43.0


From 376bbf8ae38a1ae36a72254396a7a0c5ccb464df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:31 +0000
Subject: [PATCH 141/182] fix: avoid non-finite offsets of curve parts whose
 length underflows

---
 blend2d/core/pathstroke.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index b9f08c5..e4ac7c5 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -898,8 +898,15 @@ SmoothPolyTo:
     BLPoint v0 = p1 - p0;
     BLPoint v1 = p2 - p1;
 
-    BLPoint m0 = Geometry::normal(Geometry::unit_vector(p0 != p1 ? v0 : v1));
-    BLPoint m2 = Geometry::normal(Geometry::unit_vector(p1 != p2 ? v1 : v0));
+    // The length of a vector can underflow even when its points are not equal.
+    bool v0_valid = Geometry::magnitude_squared(v0) > 0.0;
+    bool v1_valid = Geometry::magnitude_squared(v1) > 0.0;
+
+    if (!v0_valid && !v1_valid)
+      return;
+
+    BLPoint m0 = Geometry::normal(Geometry::unit_vector(v0_valid ? v0 : v1));
+    BLPoint m2 = Geometry::normal(Geometry::unit_vector(v1_valid ? v1 : v0));
 
     _p0 = p2;
     _n0 = m2;
-- 
2.43.0


From 343b5e2583cda80ab5519db4985e5e642405d945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:31 +0000
Subject: [PATCH 142/182] fix: split offset quadratic curves whose coefficients
 are perpendicular

---
 blend2d/geometry/bezier_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/geometry/bezier_p.h b/blend2d/geometry/bezier_p.h
index 03711bc..31b0508 100644
--- a/blend2d/geometry/bezier_p.h
+++ b/blend2d/geometry/bezier_p.h
@@ -240,7 +240,7 @@ static BL_INLINE double quad_parameter_at_angle(QuadRef curve, double m) noexcep
   double aob = dot(dc.a, dc.b);
   double axb = cross(dc.a, dc.b);
 
-  if (aob == 0.0) {
+  if (axb == 0.0) {
     return 1.0;
   }
 
-- 
2.43.0


From 38d540095ae3a3e682c69d23ec5ccb490bc5b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 143/182] fix: do not add the delta to a missing glyph read
 from the glyph array of a format 4 character map

---
 blend2d/opentype/otcmap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index b757479..a1816ad 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -133,6 +133,10 @@ NewMatch:
             goto UndefinedGlyph;
 
           uc = PtrOps::offset(match, raw_offset)->value();
+
+          // Zero read from the array is a missing glyph, in that case the delta must not be applied.
+          if (uc == 0)
+            goto UndefinedGlyph;
         }
 
         uc += PtrOps::offset(match, id_delta_array_offset)->value();
-- 
2.43.0


From 6c74c2b87fd2d7e3294fa3d0516b7e52229b129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 144/182] fix: accept format 6 character maps of less than ten
 bytes of padding and those ending at U+FFFF

---
 blend2d/opentype/otcmap.cpp | 4 ++--
 blend2d/opentype/otcmap_p.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index a1816ad..906a2c0 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -447,10 +447,10 @@ BLResult validate_sub_table(RawTable cmap_table, uint32_t sub_table_offset, uint
       uint32_t first = sub_table->first();
       uint32_t count = sub_table->count();
 
-      if (!count || first + count > 0xFFFFu)
+      if (!count || first + count > 0x10000u)
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
-      if (length < sizeof(CMapTable::Format10) + count * 2u)
+      if (length < CMapTable::Format6::kBaseSize + count * 2u)
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
       format_out = format;
diff --git a/blend2d/opentype/otcmap_p.h b/blend2d/opentype/otcmap_p.h
index df95594..9c6c745 100644
--- a/blend2d/opentype/otcmap_p.h
+++ b/blend2d/opentype/otcmap_p.h
@@ -102,7 +102,7 @@ struct CMapTable {
   };
 
   struct Format6 {
-    enum : uint32_t { kBaseSize = 12 };
+    enum : uint32_t { kBaseSize = 10 };
 
     UInt16 format;
     UInt16 length;
-- 
2.43.0


From d6babf82115cd6dbdb5ee7a0e838580191bc1196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 145/182] fix: accept format 10 character maps that end at
 U+10FFFF

---
 blend2d/opentype/otcmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index 906a2c0..4382e14 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -481,7 +481,7 @@ BLResult validate_sub_table(RawTable cmap_table, uint32_t sub_table_offset, uint
       uint32_t first = sub_table->first();
       uint32_t count = sub_table->glyph_ids.count();
 
-      if (first >= Unicode::kCharMax || !count || count > Unicode::kCharMax || first + count > Unicode::kCharMax)
+      if (first > Unicode::kCharMax || !count || count > Unicode::kCharMax + 1u - first)
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
       if (length < sizeof(CMapTable::Format10) + count * 2u)
-- 
2.43.0


From f96ca3575a5cf98e5b1e77af0b4f9a7859e1ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 146/182] fix: do not read the first group of a format 12 or 13
 character map without groups

---
 blend2d/opentype/otcmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index 4382e14..f6dfec2 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -507,7 +507,7 @@ BLResult validate_sub_table(RawTable cmap_table, uint32_t sub_table_offset, uint
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
       uint32_t count = sub_table->groups.count();
-      if (count > Unicode::kCharMax || length < sizeof(CMapTable::Format12_13) + count * sizeof(CMapTable::Group))
+      if (!count || count > Unicode::kCharMax || length < sizeof(CMapTable::Format12_13) + count * sizeof(CMapTable::Group))
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
       const CMapTable::Group* group_array = sub_table->groups.array();
-- 
2.43.0


From 47e1f6a3c17274e4d5ceb440c11df59e5412392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 147/182] fix: exclude characters mapped to a missing glyph
 from character coverage

---
 blend2d/opentype/otcmap.cpp | 86 ++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index f6dfec2..ba4523b 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -596,31 +596,47 @@ BLResult populate_character_coverage(const OTFaceImpl* ot_face_impl, BLBitSet* o
       const UInt16* last_char_array = sub_table->last_char_array();
       const UInt16* first_char_array = sub_table->first_char_array(num_seg);
 
-      uint32_t range_start = 0;
-      uint32_t range_end = 0;
+      const UInt16* id_delta_array = sub_table->id_delta_array(num_seg);
+      const UInt16* id_offset_array = sub_table->id_offset_array(num_seg);
+      const uint8_t* data_end = ot_face_impl->cmap.cmap_table.data + ot_face_impl->cmap.cmap_table.size;
 
-      uint32_t i = 0;
-      while (i < entry_count) {
+      for (uint32_t i = 0; i < entry_count; i++) {
         uint32_t segment_start = uint32_t(first_char_array[i].value());
         uint32_t segment_end = uint32_t(last_char_array[i].value()) + 1;
 
-        i++;
+        uint32_t id_delta = id_delta_array[i].value();
+        uint32_t id_offset = id_offset_array[i].value();
 
-        if (segment_start == range_end) {
-          range_end = segment_end;
-          continue;
+        if (id_offset == 0) {
+          // There is at most one character in the segment that the delta maps to a missing glyph (zero).
+          uint32_t missing = (0x10000u - id_delta) & 0xFFFFu;
+
+          if (missing < segment_start || missing >= segment_end) {
+            BL_PROPAGATE(set.add_range(segment_start, segment_end));
+            continue;
+          }
+
+          if (segment_start < missing)
+            BL_PROPAGATE(set.add_range(segment_start, missing));
+
+          if (missing + 1u < segment_end)
+            BL_PROPAGATE(set.add_range(missing + 1u, segment_end));
         }
+        else {
+          const uint8_t* id_data = reinterpret_cast<const uint8_t*>(id_offset_array + i);
 
-        if (range_start < range_end)
-          BL_PROPAGATE(set.add_range(range_start, range_end));
+          for (uint32_t uc = segment_start; uc < segment_end; uc++) {
+            size_t raw_offset = size_t(id_offset) + (uc - segment_start) * 2u;
+            if (raw_offset + 2u > size_t(data_end - id_data))
+              break;
 
-        range_start = segment_start;
-        range_end = segment_end;
+            uint32_t glyph_id = MemOps::readU16uBE(id_data + raw_offset);
+            if (glyph_id != 0 && ((glyph_id + id_delta) & 0xFFFFu) != 0)
+              BL_PROPAGATE(set.add_bit(uc));
+          }
+        }
       }
 
-      if (range_start < range_end)
-        BL_PROPAGATE(set.add_range(range_start, range_end));
-
       return set.commit();
     }
 
@@ -674,33 +690,33 @@ BLResult populate_character_coverage(const OTFaceImpl* ot_face_impl, BLBitSet* o
       if (!entry_count)
         return BL_SUCCESS;
 
-      uint32_t range_start = 0;
-      uint32_t range_end = 0;
-
-      uint32_t i = 0;
-      while (i < entry_count) {
+      for (uint32_t i = 0; i < entry_count; i++) {
         uint32_t segment_start = group_array[i].first();
-        uint32_t segment_end = group_array[i].last();
-
-        i++;
+        uint32_t segment_end = group_array[i].last() + 1u;
+        uint32_t glyph_id = group_array[i].glyph_id();
 
-        if (segment_end != 0xFFFFFFFFu)
-          segment_end++;
-
-        if (segment_start == range_end) {
-          range_end = segment_end;
+        if (ot_face_impl->cmap_format == 13) {
+          if ((glyph_id & 0xFFFFu) != 0)
+            BL_PROPAGATE(set.add_range(segment_start, segment_end));
           continue;
         }
 
-        if (range_start < range_end)
-          BL_PROPAGATE(set.add_range(range_start, range_end));
+        // Exclude characters that are mapped to a missing glyph (zero).
+        while (segment_start < segment_end) {
+          uint32_t mapped_count = bl_min((0x10000u - glyph_id) & 0xFFFFu, segment_end - segment_start);
 
-        range_start = segment_start;
-        range_end = segment_end;
-      }
+          // If the first character is mapped to a missing glyph, the following 65535 characters are not.
+          if (mapped_count == 0) {
+            segment_start++;
+            glyph_id++;
+            continue;
+          }
 
-      if (range_start < range_end)
-        BL_PROPAGATE(set.add_range(range_start, range_end));
+          BL_PROPAGATE(set.add_range(segment_start, segment_start + mapped_count));
+          segment_start += mapped_count;
+          glyph_id += mapped_count;
+        }
+      }
 
       return set.commit();
     }
-- 
2.43.0


From 80d6a54dc31ffa9781d64eb054bb5aeb5e5e7830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 148/182] fix: compute sizes of glyph coordinate arrays larger
 than 65535 bytes

---
 blend2d/opentype/otglyf.cpp         | 18 +++++++-----------
 blend2d/opentype/otglyfsimdimpl_p.h |  4 ++--
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/blend2d/opentype/otglyf.cpp b/blend2d/opentype/otglyf.cpp
index 7a29096..3010376 100644
--- a/blend2d/opentype/otglyf.cpp
+++ b/blend2d/opentype/otglyf.cpp
@@ -294,12 +294,9 @@ static BLResult BL_CDECL get_glyph_outlines(
           constexpr uint32_t kOffCurveSplineMask = Simple::kOnCurvePoint | (Simple::kOnCurvePoint << 7);
 
           {
-            // Number of bytes required by both X and Y coordinates as a packed `(Y << 16) | X` value.
-            //
-            // NOTE: We know that the maximum number of contours of a single glyph is 32767, thus we can store both the
-            // number of X and Y vertices in a single unsigned 32-bit integer, as each vertex has 2 bytes maximum, which
-            // would be 65534.
-            size_t xy_coordinates_size = 0;
+            // Number of bytes required by X and Y coordinates - each flag is converted to a packed `(Y << 16) | X` value.
+            xCoordinatesSize = 0;
+            yCoordinatesSize = 0;
 
             // We parse flags one-by-one and calculate the size required by vertices by using our FLAG tables so we don't
             // have to do bounds checking during vertex decoding.
@@ -316,7 +313,8 @@ static BLResult BL_CDECL get_glyph_outlines(
               f = ((f << 7) | tt_flag) & 0xFFu;
               fDataPtr[i++] = uint8_t(f);
 
-              xy_coordinates_size += vertex_size;
+              xCoordinatesSize += vertex_size & 0xFFFFu;
+              yCoordinatesSize += vertex_size >> 16;
               off_curve_spline_count += uint32_t((f & kOffCurveSplineMask) == 0);
 
               // Most of flags are not repeated. Some contours have no repeated flags at all, so make this likely.
@@ -334,15 +332,13 @@ static BLResult BL_CDECL get_glyph_outlines(
 
               f = ((f << 7) | tt_flag) & 0xFFu;
 
-              xy_coordinates_size += uint32_t(n) * vertex_size;
+              xCoordinatesSize += n * size_t(vertex_size & 0xFFFFu);
+              yCoordinatesSize += n * size_t(vertex_size >> 16);
               off_curve_spline_count += n * size_t((f & Simple::kOnCurvePoint) == 0);
 
               MemOps::fill_small(fDataPtr + i, uint8_t(f), n);
               i += n;
             } while (i < tt_vertex_count);
-
-            xCoordinatesSize = xy_coordinates_size & 0xFFFFu;
-            yCoordinatesSize = xy_coordinates_size >> 16;
           }
 
           remaining_size = PtrOps::bytes_until(gPtr, gEnd);
diff --git a/blend2d/opentype/otglyfsimdimpl_p.h b/blend2d/opentype/otglyfsimdimpl_p.h
index ac77c05..5a87248 100644
--- a/blend2d/opentype/otglyfsimdimpl_p.h
+++ b/blend2d/opentype/otglyfsimdimpl_p.h
@@ -472,8 +472,8 @@ SlowFlagsDecode:
 
             // Finally, calculate the size of x_coordinates[] and y_coordinates[] arrays.
             vSumXY += srli_u64<32>(vSumXY);
-            xCoordinatesSize = extract_u16<0>(vSumXY);
-            yCoordinatesSize = extract_u16<4>(vSumXY);
+            xCoordinatesSize = extract_u32<0>(vSumXY);
+            yCoordinatesSize = extract_u32<2>(vSumXY);
           }
 
           off_curve_spline_count = off_curve_spline_acc.get();
-- 
2.43.0


From 64bc627742acefeeede2938843e05cf7f903bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 149/182] fix: end glyph contours that start and end with an
 off-curve point at their first vertex

---
 blend2d/opentype/otglyf.cpp         | 1 -
 blend2d/opentype/otglyfsimdimpl_p.h | 1 -
 2 files changed, 2 deletions(-)

diff --git a/blend2d/opentype/otglyf.cpp b/blend2d/opentype/otglyf.cpp
index 3010376..93dbc13 100644
--- a/blend2d/opentype/otglyf.cpp
+++ b/blend2d/opentype/otglyf.cpp
@@ -433,7 +433,6 @@ static BLResult BL_CDECL get_glyph_outlines(
               if (!(f & Simple::kOnCurvePoint)) {
                 BLPoint on_pt = (current_pt + initial_pt) * 0.5;
                 appender.add_vertex(BL_PATH_CMD_ON, on_pt);
-                final_pt = (initial_pt + final_pt) * 0.5;
               }
 
               appender.add_vertex(BL_PATH_CMD_QUAD, initial_pt);
diff --git a/blend2d/opentype/otglyfsimdimpl_p.h b/blend2d/opentype/otglyfsimdimpl_p.h
index 5a87248..89e7412 100644
--- a/blend2d/opentype/otglyfsimdimpl_p.h
+++ b/blend2d/opentype/otglyfsimdimpl_p.h
@@ -941,7 +941,6 @@ EmitSpline3Continue:
               if (f & kVecFlagOffCurve) {
                 Vec2xF64 on_pt = (current_pt + initial_pt) * half;
                 append_vertex(appender, BL_PATH_CMD_ON, on_pt);
-                final_pt = (initial_pt + final_pt) * half;
               }
 
               appendVertex2x(appender, BL_PATH_CMD_QUAD, initial_pt, BL_PATH_CMD_ON, final_pt);
-- 
2.43.0


From 7ccc910a6bf15490d2c38af8b713a2e59aba8dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:46 +0000
Subject: [PATCH 150/182] fix: keep the format of kerning groups that refer to
 the font data

---
 blend2d/opentype/otkern_p.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otkern_p.h b/blend2d/opentype/otkern_p.h
index caf73c8..16fbc01 100644
--- a/blend2d/opentype/otkern_p.h
+++ b/blend2d/opentype/otkern_p.h
@@ -173,11 +173,11 @@ struct KernGroup {
   }
 
   static BL_INLINE KernGroup make_referenced(uint32_t format, uint32_t flags, uintptr_t data_offset, uint32_t data_size) noexcept {
-    return KernGroup { flags | (format << 2) | (data_size << 6), { data_offset } };
+    return KernGroup { flags | (format << 4) | (data_size << 6), { data_offset } };
   }
 
   static BL_INLINE KernGroup make_synthesized(uint32_t format, uint32_t flags, void* data_ptr, uint32_t data_size) noexcept {
-    return KernGroup { flags | (format << 2) | (data_size << 6) | kFlagSynthesized, { (uintptr_t)data_ptr } };
+    return KernGroup { flags | (format << 4) | (data_size << 6) | kFlagSynthesized, { (uintptr_t)data_ptr } };
   }
 };
 
-- 
2.43.0


From aab56a2059032b0b36592825117b73e00779c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:46 +0000
Subject: [PATCH 151/182] fix: recognise class 0 offsets of kerning subtables
 that use two class tables

---
 blend2d/opentype/otkern.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/opentype/otkern.cpp b/blend2d/opentype/otkern.cpp
index fa1a0b7..81fe688 100644
--- a/blend2d/opentype/otkern.cpp
+++ b/blend2d/opentype/otkern.cpp
@@ -234,6 +234,7 @@ static BL_INLINE int32_t apply_kern_format2(const OTFaceImpl* ot_face_impl, cons
   const Format2* sub_table = PtrOps::offset<const Format2>(data_ptr, ot_face_impl->kern.header_size);
   uint32_t left_class_table_offset = sub_table->left_class_table();
   uint32_t right_class_table_offset = sub_table->right_class_table();
+  uint32_t kerning_array_offset = sub_table->kerning_array();
 
   if (BL_UNLIKELY(bl_max(left_class_table_offset, right_class_table_offset) > data_size - sizeof(ClassTable)))
     return 0;
@@ -271,7 +272,7 @@ static BL_INLINE int32_t apply_kern_format2(const OTFaceImpl* ot_face_impl, cons
 
     // Cannot overflow as both components are unsigned 16-bit integers.
     uint32_t value_offset = left_class + right_class;
-    if (left_class * right_class == 0 || value_offset > data_size - 2u)
+    if (value_offset < kerning_array_offset || value_offset > data_size - 2u)
       continue;
 
     int32_t value = PtrOps::offset<const FWord>(data_ptr, value_offset)->value();
-- 
2.43.0


From f90422e6a580baef4acee91ae3b1aa9095675fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:46 +0000
Subject: [PATCH 152/182] fix: check the size of kerning subtables of format 3
 when they are applied

---
 blend2d/opentype/otkern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otkern.cpp b/blend2d/opentype/otkern.cpp
index 81fe688..d120730 100644
--- a/blend2d/opentype/otkern.cpp
+++ b/blend2d/opentype/otkern.cpp
@@ -296,7 +296,7 @@ static BL_INLINE int32_t apply_kern_format3(const OTFaceImpl* ot_face_impl, cons
   uint32_t right_class_count = sub_table->right_class_count();
 
   uint32_t required_size = ot_face_impl->kern.header_size + uint32_t(sizeof(Format3)) + kern_value_count * 2u + glyph_count * 2u + left_class_count * right_class_count;
-  if (BL_UNLIKELY(required_size < data_size))
+  if (BL_UNLIKELY(required_size > data_size))
     return 0;
 
   const FWord* value_table = PtrOps::offset<const FWord>(sub_table, sizeof(Format3));
-- 
2.43.0


From 3d2d67f40d984e24829f0c3c7f469135f9c09d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:46 +0000
Subject: [PATCH 153/182] fix: skip cross-stream kerning subtables

---
 blend2d/opentype/otkern.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blend2d/opentype/otkern.cpp b/blend2d/opentype/otkern.cpp
index d120730..54ff7c5 100644
--- a/blend2d/opentype/otkern.cpp
+++ b/blend2d/opentype/otkern.cpp
@@ -557,7 +557,11 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables) noexcept {
     trace.info("Coverage: %u\n", coverage);
     trace.info("Orientation: %s\n", orientation == BL_ORIENTATION_HORIZONTAL ? "Horizontal" : "Vertical");
 
-    if (format < BL_ARRAY_SIZE(min_kern_sub_table_size) && length >= min_kern_sub_table_size[format]) {
+    if (group_flags & KernGroup::kFlagCrossStream) {
+      // Cross-stream kerning adjusts glyphs in the direction perpendicular to the text, which is not supported.
+      trace.warn("Skipping cross-stream subtable\n");
+    }
+    else if (format < BL_ARRAY_SIZE(min_kern_sub_table_size) && length >= min_kern_sub_table_size[format]) {
       KernCollection& collection = ot_face_impl->kern.collection[orientation];
       switch (format) {
         // Kern SubTable Format 0 - Ordered list of kerning pairs.
-- 
2.43.0


From 475d11def6e62b39a5ebad31aac0bc40ae5e9a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:46 +0000
Subject: [PATCH 154/182] fix: resolve extension lookups to the type of their
 subtables

---
 blend2d/opentype/otlayout.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index b476c5a..77f4af5 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3295,24 +3295,25 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
     Table<GSubGPosTable::LookupHeader> sub_table(lookup_table.sub_table(sub_table_offset));
     uint32_t lookup_format = sub_table->format();
 
-    uint32_t lookup_type_and_format = lookup_info.type_info[lookup_type].type_and_format + lookup_format - 1u;
+    uint32_t sub_table_type = lookup_type;
+    uint32_t lookup_type_and_format = lookup_info.type_info[sub_table_type].type_and_format + lookup_format - 1u;
     if (lookup_type == lookup_info.extension_type) {
       Table<GSubGPosTable::ExtensionLookup> ext_sub_table(sub_table);
 
-      lookup_type = ext_sub_table->lookup_type();
+      sub_table_type = ext_sub_table->lookup_type();
       uint32_t ext_lookup_format = ext_sub_table->format();
       uint32_t ext_sub_table_offset = ext_sub_table->offset();
 
-      if (!ext_previous_lookup_type && lookup_type != ext_previous_lookup_type)
+      if (ext_previous_lookup_type && sub_table_type != ext_previous_lookup_type)
         return validator.fail("%s[%u].sub_table[%u] has a different type (%u) than a previous extension (%u)",
-          table_name, lookup_index, sub_table_index, lookup_type, ext_previous_lookup_type);
+          table_name, lookup_index, sub_table_index, sub_table_type, ext_previous_lookup_type);
 
-      ext_previous_lookup_type = lookup_type;
-      bool valid_type = lookup_type != lookup_info.extension_type && lookup_type - 1u < uint32_t(lookup_info.lookup_max_value);
+      ext_previous_lookup_type = sub_table_type;
+      bool valid_type = sub_table_type != lookup_info.extension_type && sub_table_type - 1u < uint32_t(lookup_info.lookup_max_value);
 
       if (!valid_type || ext_lookup_format != 1)
         return validator.fail("%s[%u].sub_table[%u] has invalid extension type (%u) & format (%u) combination",
-          table_name, lookup_index, sub_table_index, lookup_type, ext_lookup_format);
+          table_name, lookup_index, sub_table_index, sub_table_type, ext_lookup_format);
 
       sub_table = ext_sub_table.sub_table(ext_sub_table_offset);
       if (!sub_table.fits())
@@ -3320,12 +3321,12 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
           table_name, lookup_index, sub_table_index);
 
       lookup_format = sub_table->format();
-      lookup_type_and_format = lookup_info.type_info[lookup_type].type_and_format + lookup_format - 1u;
+      lookup_type_and_format = lookup_info.type_info[sub_table_type].type_and_format + lookup_format - 1u;
     }
 
-    if (lookup_format - 1u >= lookup_info.type_info[lookup_type].format_count)
+    if (lookup_format - 1u >= lookup_info.type_info[sub_table_type].format_count)
       return validator.fail("%s[%u].sub_table[%u] has invalid type (%u) & format (%u) combination",
-        table_name, lookup_index, sub_table_index, lookup_type, lookup_format);
+        table_name, lookup_index, sub_table_index, sub_table_type, lookup_format);
 
     bool valid = isGSub ? validateGSubLookup(validator, sub_table, GSubLookupAndFormat(lookup_type_and_format))
                         : validateGPosLookup(validator, sub_table, GPosLookupAndFormat(lookup_type_and_format));
-- 
2.43.0


From c026b703fdd8442d265bf70d8fbeafc527ab6fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:17 +0000
Subject: [PATCH 155/182] fix: make glyph buffers refer to their new content
 after a substitution reallocates it

---
 blend2d/core/glyphbuffer_p.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/core/glyphbuffer_p.h b/blend2d/core/glyphbuffer_p.h
index 7dbebfc..b741d89 100644
--- a/blend2d/core/glyphbuffer_p.h
+++ b/blend2d/core/glyphbuffer_p.h
@@ -101,6 +101,11 @@ struct BLGlyphBufferPrivateImpl : public BLGlyphBufferImpl {
   BL_INLINE void flip() noexcept {
     BLInternal::swap(buffer[0], buffer[1]);
     BLInternal::swap(capacity[0], capacity[1]);
+
+    // The second buffer stores placements, which have just become glyphs.
+    placement_data = nullptr;
+    glyph_run.placement_type = BL_GLYPH_PLACEMENT_TYPE_NONE;
+    get_glyph_data_ptrs(0, &content, &info_data);
   }
 
   BL_INLINE void get_glyph_data_ptrs(size_t buffer_id, uint32_t** glyph_data_out, BLGlyphInfo** info_data_out) noexcept {
-- 
2.43.0


From 2b8837366ff65f21d919d9381f36042f52ce2c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:17 +0000
Subject: [PATCH 156/182] fix: replace glyphs by sequences without overrunning
 or overwriting the glyph buffer

---
 blend2d/opentype/otlayout.cpp | 108 ++++++++++++++++++++++------------
 1 file changed, 69 insertions(+), 39 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 77f4af5..afe7a9b 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -1546,54 +1546,82 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type2_format1(Validation
 // bl::OpenType::LayoutImpl - GSUB - Lookup Type #2 - Multiple Substitution Lookup
 // ===============================================================================
 
-// TODO: [OpenType] [SECURITY] What if the glyph contains kSeqMask???
 template<uint32_t kCovFmt, typename ApplyScope>
 static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type2_format1(GSubContext& ctx, Table<GSubTable::MultipleSubst1> table, ApplyScope scope, LookupFlags flags, const CoverageTableIterator& cov_it) noexcept {
   BL_ASSERT(scope.end() <= ctx.size());
   BL_ASSERT_VALIDATED(table.fits());
 
-  constexpr BLGlyphId kSequenceMarker = 0x80000000u;
-
-  BLGlyphId* glyph_in_ptr = ctx.glyph_data() + scope.index();
-  BLGlyphId* glyph_in_end = ctx.glyph_data() + scope.end();
+  size_t scope_index = scope.index();
+  size_t scope_end = scope.is_range() ? size_t(scope.end()) : scope_index + 1u;
 
   // Cannot apply a lookup if there is no data to be processed.
-  BL_ASSERT(glyph_in_ptr != glyph_in_end);
+  BL_ASSERT(scope_index != scope_end);
 
   uint32_t sequence_set_count = table->sequence_offsets.count();
   BL_ASSERT_VALIDATED(table.fits(GSubTable::MultipleSubst1::kBaseSize + sequence_set_count * 2u));
 
-  size_t replaced_glyph_count = 0;
-  size_t replaced_sequence_size = 0;
   GlyphRange glyph_range = cov_it.glyph_range<kCovFmt>();
 
-  do {
-    BLGlyphId glyph_id = glyph_in_ptr[0];
-    if (glyph_range.contains(glyph_id)) {
-      uint32_t coverage_index;
-      if (cov_it.find<kCovFmt>(glyph_id, coverage_index) && coverage_index < sequence_set_count) {
-        uint32_t sequence_offset = table->sequence_offsets.array()[coverage_index].value();
-        BL_ASSERT_VALIDATED(sequence_offset <= table.size - 2u);
+  // Returns an offset of a sequence that replaces the given glyph or zero if the glyph is not covered.
+  auto find_sequence = [&](BLGlyphId glyph_id, size_t& sequence_length) noexcept -> size_t {
+    uint32_t coverage_index;
+    if (!glyph_range.contains(glyph_id) || !cov_it.find<kCovFmt>(glyph_id, coverage_index) || coverage_index >= sequence_set_count)
+      return 0u;
+
+    size_t sequence_offset = table->sequence_offsets.array()[coverage_index].value();
+    BL_ASSERT_VALIDATED(sequence_offset <= table.size - 2u);
+
+    sequence_length = MemOps::readU16uBE(table.data + sequence_offset);
+    BL_ASSERT_VALIDATED(sequence_offset + sequence_length * 2u <= table.size - 2u);
+
+    return sequence_offset;
+  };
+
+  // First loop counts the glyphs and removes those that are replaced by an empty sequence. Since nothing remains of
+  // these glyphs the second loop can then replace the rest in place.
+  size_t sequence_length;
+  size_t removed_glyph_count = 0;
+  size_t replaced_glyph_count = 0;
+  size_t replaced_sequence_size = 0;
 
-        uint32_t sequence_length = MemOps::readU16uBE(table.data + sequence_offset);
-        BL_ASSERT_VALIDATED(sequence_offset + sequence_length * 2u <= table.size - 2u);
+  {
+    BLGlyphId* glyph_data = ctx.glyph_data();
+    BLGlyphInfo* info_data = ctx.info_data();
+
+    for (size_t i = scope_index; i < scope_end; i++) {
+      BLGlyphId glyph_id = glyph_data[i];
+      if (find_sequence(glyph_id, sequence_length)) {
+        if (sequence_length == 0u) {
+          removed_glyph_count++;
+          continue;
+        }
 
-        glyph_in_ptr[0] = sequence_offset | kSequenceMarker;
         replaced_glyph_count++;
         replaced_sequence_size += sequence_length;
       }
+
+      glyph_data[i - removed_glyph_count] = glyph_id;
+      info_data[i - removed_glyph_count] = info_data[i];
+    }
+
+    if (removed_glyph_count) {
+      for (size_t i = scope_end; i < ctx.size(); i++) {
+        glyph_data[i - removed_glyph_count] = glyph_data[i];
+        info_data[i - removed_glyph_count] = info_data[i];
+      }
+
+      scope_end -= removed_glyph_count;
+      ctx.truncate(ctx.size() - removed_glyph_count);
     }
-  } while (scope.is_range() && ++glyph_in_ptr != glyph_in_end);
+  }
 
   // Not a single match if zero.
   if (!replaced_glyph_count)
     return BL_SUCCESS;
 
-  // We could be only processing a range withing the work buffer, thus it's not safe to reuse `glyph_in_ptr`.
-  glyph_in_ptr = ctx.glyph_data() + ctx.size();
-
-  BLGlyphId* glyph_in_start = ctx.glyph_data();
-  BLGlyphInfo* info_in_ptr = ctx.info_data() + ctx.size();
+  size_t in_index = ctx.size();
+  const BLGlyphId* glyph_in_data = ctx.glyph_data();
+  const BLGlyphInfo* info_in_data = ctx.info_data();
 
   size_t size_after = ctx.size() - replaced_glyph_count + replaced_sequence_size;
   BL_PROPAGATE(ctx.ensure_work_buffer(size_after));
@@ -1601,27 +1629,29 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type2_format1(GSubConte
   BLGlyphId* glyph_out_ptr = ctx.glyph_data() + size_after;
   BLGlyphInfo* info_out_ptr = ctx.info_data() + size_after;
 
-  // Second loop applies all matches that were found and marked.
-  do {
-    BLGlyphId glyph_id = *--glyph_in_ptr;
-    *--glyph_out_ptr = glyph_id;
-    *--info_out_ptr = *--info_in_ptr;
+  // Second loop applies all matches, from the end, as the output can only be longer than the input.
+  while (in_index) {
+    in_index--;
 
-    if (glyph_id & kSequenceMarker) {
-      size_t sequence_offset = glyph_id & ~kSequenceMarker;
-      size_t sequence_length = MemOps::readU16uBE(table.data + sequence_offset);
-      const UInt16* sequence_data = table.data_as<UInt16>(sequence_offset + 2u);
+    BLGlyphId glyph_id = glyph_in_data[in_index];
+    BLGlyphInfo glyph_info = info_in_data[in_index];
 
-      glyph_out_ptr -= sequence_length;
-      info_out_ptr -= sequence_length;
+    size_t sequence_offset = 0;
+    if (in_index >= scope_index && in_index < scope_end)
+      sequence_offset = find_sequence(glyph_id, sequence_length);
 
+    if (sequence_offset) {
+      const UInt16* sequence_data = table.data_as<UInt16>(sequence_offset + 2u);
       while (sequence_length) {
-        sequence_length--;
-        glyph_out_ptr[sequence_length] = sequence_data[sequence_length].value();
-        info_out_ptr[sequence_length] = *info_in_ptr;
+        *--glyph_out_ptr = sequence_data[--sequence_length].value();
+        *--info_out_ptr = glyph_info;
       }
     }
-  } while (glyph_in_ptr != glyph_in_start);
+    else {
+      *--glyph_out_ptr = glyph_id;
+      *--info_out_ptr = glyph_info;
+    }
+  }
 
   BL_ASSERT(glyph_out_ptr == ctx.glyph_data());
   return BL_SUCCESS;
-- 
2.43.0


From c0ceba58f06e90b1be15619ab6172ece7f826224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:17 +0000
Subject: [PATCH 157/182] fix: accept valid multiple substitution lookups and
 refuse truncated ones

---
 blend2d/opentype/otlayout.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index afe7a9b..0ab5726 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -1522,7 +1522,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type2_format1(Validation
 
   // Offsets to glyph sequences.
   const Offset16* offset_array = table->sequence_offsets.array();
-  OffsetRange offset_range{header_size, table.size - 4u};
+  OffsetRange offset_range{header_size, table.size - 1u};
 
   for (uint32_t i = 0; i < sequence_set_count; i++) {
     uint32_t sequence_offset = offset_array[i].value();
@@ -1536,7 +1536,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type2_format1(Validation
     uint32_t sequence_length = sequence->count();
     uint32_t sequence_table_size = 2u + sequence_length * 2u;
 
-    if (sequence.fits(sequence_table_size))
+    if (!sequence.fits(sequence_table_size))
       return validator.fail("%s.sequence[%u] is truncated (size=%u, required=%u)", table_name, i, sequence.size, sequence_table_size);
   }
 
-- 
2.43.0


From e5adab4a0a851753b1f18b89e96d2cf7d752e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:17 +0000
Subject: [PATCH 158/182] fix: accept an alternate set of one glyph at the end
 of its table

---
 blend2d/opentype/otlayout.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 0ab5726..e2c4955 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -1676,7 +1676,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type3_format1(Validation
 
   // Offsets to AlternateSet tables.
   const Offset16* offset_array = lookup->alternate_set_offsets.array();
-  OffsetRange offset_range{header_size, table.size - 4u};
+  OffsetRange offset_range{header_size, table.size - 3u};
 
   if (alternate_set_count < coverage_count)
     validator.warn("%s has less AlternateSet records (%u) than coverage entries (%u)", table_name, alternate_set_count, coverage_count);
-- 
2.43.0


From e5ed9514b578acfe00aa6d5bb2c1899f227b0637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:17 +0000
Subject: [PATCH 159/182] fix: check bounds of the ligatures at the end of a
 ligature set, and match ligatures of one component

---
 blend2d/opentype/otlayout.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index e2c4955..7f48f96 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -1765,7 +1765,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type4_format1(Validation
 
   // Offsets to LigatureSet tables.
   const Offset16* ligature_set_offset_array = lookup->ligature_set_offsets.array();
-  OffsetRange ligature_set_offset_range{header_size, table.size-4u};
+  OffsetRange ligature_set_offset_range{header_size, table.size - 3u};
 
   for (uint32_t i = 0; i < ligature_set_count; i++) {
     uint32_t ligature_set_offset = ligature_set_offset_array[i].value();
@@ -1779,11 +1779,11 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type4_format1(Validation
       return validator.fail("%s.ligature_set[%u] cannot be empty", table_name, i);
 
     uint32_t ligature_set_header_size = 2u + ligature_count * 2u;
-    if (!ligature_set.fits(ligature_set_header_size))
+    if (!ligature_set.fits(ligature_set_header_size + 4u))
       return validator.fail("%s.ligature_set[%u] overflows the table size by [%u] bytes", table_name, i, ligature_set_header_size - ligature_set.size);
 
     const Offset16* ligature_offset_array = ligature_set->array();
-    OffsetRange ligature_offset_range{ligature_set_header_size, ligature_set.size - 6u};
+    OffsetRange ligature_offset_range{ligature_set_header_size, ligature_set.size - 3u};
 
     for (uint32_t ligature_index = 0; ligature_index < ligature_count; ligature_index++) {
       uint32_t ligature_offset = ligature_offset_array[ligature_index].value();
@@ -1792,8 +1792,8 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type4_format1(Validation
 
       Table<GSubTable::Ligature> ligature = ligature_set.sub_table(ligature_offset);
       uint32_t component_count = ligature->glyphs.count();
-      if (component_count < 2u)
-        return validator.fail("%s.ligature_set[%u].ligature[%u] must have at least 2 glyphs, not %u", table_name, i, ligature_index, component_count);
+      if (component_count < 1u)
+        return validator.fail("%s.ligature_set[%u].ligature[%u] must have at least 1 glyph, not %u", table_name, i, ligature_index, component_count);
 
       uint32_t ligature_table_size = 2u + component_count * 2u;
       if (!ligature.fits(ligature_table_size))
@@ -1830,16 +1830,10 @@ static BL_INLINE bool match_ligature(
     BL_ASSERT_VALIDATED(ligature_offset + ligature_glyph_count * 2u <= ligature_offsets.size - 4u);
 
     uint32_t glyph_index = 1;
-    for (;;) {
-      BLGlyphId glyphA = ligature->glyphs.array()[glyph_index-1].value();
-      BLGlyphId glyphB = in_glyph_data[glyph_index];
-
-      if (glyphA != glyphB)
-        break;
-
-      if (++glyph_index < ligature_glyph_count)
-        continue;
+    while (glyph_index < ligature_glyph_count && ligature->glyphs.array()[glyph_index - 1].value() == in_glyph_data[glyph_index])
+      glyph_index++;
 
+    if (glyph_index == ligature_glyph_count) {
       ligature_glyph_id_out = ligature->ligature_glyph_id();
       return true;
     }
-- 
2.43.0


From 96be177bb6292f0b39ca74e566c455fed38b23e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:17 +0000
Subject: [PATCH 160/182] fix: skip the second glyph of a pair that was
 positioned as well

---
 blend2d/opentype/otlayout.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 7f48f96..5e2d52d 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2726,7 +2726,13 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type2_format1(GPosConte
         if (p) {
           p++;
           if (value_format1) p = apply_gposValue(p, value_format1, &placement_data[i + 0]);
-          if (value_format2) p = apply_gposValue(p, value_format2, &placement_data[i + 1]);
+          if (value_format2) {
+            p = apply_gposValue(p, value_format2, &placement_data[i + 1]);
+
+            // The second glyph must not be the first one of the next pair if it was also positioned.
+            if (scope.is_range() && ++i < end)
+              right_glyph_id = glyph_data[i + 1];
+          }
         }
       }
     }
@@ -2785,7 +2791,13 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type2_format2(GPosConte
         if (c_index < value_record_count) {
           const Int16* p = PtrOps::offset<const Int16>(value_base_ptr, c_index * value_record_size);
           if (value1_format) p = apply_gposValue(p, value1_format, &placement_data[i + 0]);
-          if (value2_format) p = apply_gposValue(p, value2_format, &placement_data[i + 1]);
+          if (value2_format) {
+            p = apply_gposValue(p, value2_format, &placement_data[i + 1]);
+
+            // The second glyph must not be the first one of the next pair if it was also positioned.
+            if (scope.is_range() && ++i < end)
+              right_glyph_id = glyph_data[i + 1];
+          }
         }
       }
     }
-- 
2.43.0


From ea2be71ba0b8f5506aaa512907210e98f897bb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 161/182] fix: end CFF flex1 and hflex1 curves at the
 coordinate they started at

---
 blend2d/opentype/otcff.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 40096f6..fe75064 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -1537,15 +1537,16 @@ OnReturn:
               x5 = x4 + m.x_by_a(v_buf[8], v_buf[9]);
               y5 = y4 + m.y_by_a(v_buf[8], v_buf[9]);
 
-              double dx = bl_abs(v_buf[0] + v_buf[2] + v_buf[4] + v_buf[6] + v_buf[8]);
-              double dy = bl_abs(v_buf[1] + v_buf[3] + v_buf[5] + v_buf[7] + v_buf[9]);
-              if (dx > dy) {
-                px = x5 + m.x_by_x(v_buf[10]);
-                py = y5 + m.y_by_x(v_buf[10]);
+              // The other coordinate of the last point is the same as of the first one.
+              double dx = v_buf[0] + v_buf[2] + v_buf[4] + v_buf[6] + v_buf[8];
+              double dy = v_buf[1] + v_buf[3] + v_buf[5] + v_buf[7] + v_buf[9];
+              if (bl_abs(dx) > bl_abs(dy)) {
+                px = x5 + m.x_by_a(v_buf[10], -dy);
+                py = y5 + m.y_by_a(v_buf[10], -dy);
               }
               else {
-                px = x5 + m.x_by_y(v_buf[10]);
-                py = y5 + m.y_by_y(v_buf[10]);
+                px = x5 + m.x_by_a(-dx, v_buf[10]);
+                py = y5 + m.y_by_a(-dx, v_buf[10]);
               }
               consumer.cubic_to(x4, y4, x5, y5, px, py);
 
@@ -1595,8 +1596,11 @@ OnReturn:
               y4 = y3 + m.y_by_x(v_buf[5]);
               x5 = x4 + m.x_by_a(v_buf[6], v_buf[7]);
               y5 = y4 + m.y_by_a(v_buf[6], v_buf[7]);
-              px = x5 + m.x_by_x(v_buf[8]);
-              py = y5 + m.y_by_x(v_buf[8]);
+
+              // The last point has the same Y coordinate as the first one.
+              double dy6 = -(v_buf[1] + v_buf[3] + v_buf[7]);
+              px = x5 + m.x_by_a(v_buf[8], dy6);
+              py = y5 + m.y_by_a(v_buf[8], dy6);
               consumer.cubic_to(x4, y4, x5, y5, px, py);
 
               v_idx = 0;
-- 
2.43.0


From f01e5f72bddebb1aa7f28ee8c3d4da4b71d3823c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 162/182] fix: select the first value of the CFF ifelse
 operator when its condition holds

---
 blend2d/opentype/otcff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index fe75064..1b2ac87 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -1634,7 +1634,7 @@ OnReturn:
             // s1 s2 v1 v2 ifelse (12 22) out {v1 <= v2 ? s1 : s2}
             case kCSOpIfElse & 0xFFu: {
               BL_ASSERT(v_min_operands >= 4);
-              v_buf[v_idx - 4] = v_buf[v_idx - 4 + size_t(v_buf[v_idx - 2] <= v_buf[v_idx - 1])];
+              v_buf[v_idx - 4] = v_buf[v_idx - 4 + size_t(v_buf[v_idx - 2] > v_buf[v_idx - 1])];
               v_idx -= 3;
               continue;
             }
-- 
2.43.0


From d0c4340507e41b278143941f5ea3169c1ce8858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 163/182] fix: index CFF operands from the topmost one

---
 blend2d/opentype/otcff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 1b2ac87..4f4e048 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -1752,7 +1752,7 @@ OnReturn:
                 // It will overflow if idx_value is greater than `v_idx - 1`, thus,
                 // `index_to_read` would become a very large number that would not
                 // pass the condition afterwards.
-                size_t index_to_read = v_idx - 1 - size_t(unsigned(idx_value));
+                size_t index_to_read = v_idx - 2 - size_t(unsigned(idx_value));
                 if (index_to_read < v_idx - 1) {
                   val_to_push = v_buf[index_to_read];
                 }
-- 
2.43.0


From 1cb5ddaa9786a48da56122afb9769d4a42e1dfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 164/182] fix: rotate only the topmost operands of the CFF roll
 operator

---
 blend2d/opentype/otcff.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 4f4e048..495ab16 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -1784,13 +1784,16 @@ OnReturn:
               if (shift == 0)
                 continue;
 
+              // Only the topmost `count` values are rotated.
+              double* values = v_buf + (v_idx - count);
+
               double last = 0;
               uint32_t cur_idx = IntOps::negate(uint32_t(1));
               uint32_t base_idx = cur_idx;
 
               for (uint32_t i = 0; i < count; i++) {
                 if (cur_idx == base_idx) {
-                  last = v_buf[++cur_idx];
+                  last = values[++cur_idx];
                   base_idx = cur_idx;
                 }
 
@@ -1799,7 +1802,7 @@ OnReturn:
                   cur_idx -= count;
                 }
 
-                BLInternal::swap(v_buf[cur_idx], last);
+                BLInternal::swap(values[cur_idx], last);
               }
 
               continue;
-- 
2.43.0


From 1568eadd389dd14225cb3373f8ae7f4449b2ee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 165/182] fix: report fonts without usable metrics when
 positioning glyphs

---
 blend2d/core/font.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/font.cpp b/blend2d/core/font.cpp
index 2215f18..7eb5304 100644
--- a/blend2d/core/font.cpp
+++ b/blend2d/core/font.cpp
@@ -469,7 +469,12 @@ BL_API_IMPL BLResult bl_font_position_glyphs(const BLFontCore* self, BLGlyphBuff
 
   if (!(gb_impl->flags & BL_GLYPH_BUFFER_GLYPH_ADVANCES)) {
     BL_PROPAGATE(gb_impl->ensure_placement());
-    face_impl->funcs.get_glyph_advances(face_impl, gb_impl->content, sizeof(uint32_t), gb_impl->placement_data, gb_impl->size);
+    BLResult result = face_impl->funcs.get_glyph_advances(face_impl, gb_impl->content, sizeof(uint32_t), gb_impl->placement_data, gb_impl->size);
+    if (BL_UNLIKELY(result != BL_SUCCESS)) {
+      // Placements were not initialized.
+      gb_impl->placement_data = nullptr;
+      return result;
+    }
     gb_impl->glyph_run.placement_type = uint8_t(BL_GLYPH_PLACEMENT_TYPE_ADVANCE_OFFSET);
     gb_impl->flags |= BL_GLYPH_BUFFER_GLYPH_ADVANCES;
   }
-- 
2.43.0


From 28b210799da18e55497f39c73b83728cc84fa54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 166/182] fix: don't keep a part of a glyph outline when
 decoding it fails

---
 blend2d/core/font.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/font.cpp b/blend2d/core/font.cpp
index 7eb5304..2f3d798 100644
--- a/blend2d/core/font.cpp
+++ b/blend2d/core/font.cpp
@@ -642,7 +642,18 @@ BL_API_IMPL BLResult bl_font_get_glyph_outlines(const BLFontCore* self, BLGlyphI
 
   bl::ScopedBufferTmp<BL_FONT_GET_GLYPH_OUTLINE_BUFFER_SIZE> tmp_buffer;
   BLGlyphOutlineSinkInfo sink_info;
-  BL_PROPAGATE(face_impl->funcs.get_glyph_outlines(face_impl, glyph_id, &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
+
+  size_t initial_size = bl_path_get_size(out);
+  BLResult result = face_impl->funcs.get_glyph_outlines(face_impl, glyph_id, &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer);
+
+  if (BL_UNLIKELY(result != BL_SUCCESS)) {
+    // Don't keep a part of the outline that was decoded before the failure.
+    if (bl_path_get_size(out) > initial_size) {
+      BLRange added{initial_size, SIZE_MAX};
+      bl_path_remove_range(out, &added);
+    }
+    return result;
+  }
 
   if (!sink)
     return BL_SUCCESS;
-- 
2.43.0


From a5fb2a7014fe936b86c9035e4d738805c406605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 167/182] fix: forget placements when the content of a glyph
 buffer changes

---
 blend2d/core/glyphbuffer.cpp         | 3 +++
 blend2d/core/glyphbuffer_p.h         | 7 +++++++
 blend2d/opentype/otlayoutcontext_p.h | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index 47359ed..9117466 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -96,6 +96,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_glyph_ids(BLGlyphBuf
   }
 
   d->size = size;
+  d->invalidate_placement();
   d->flags = 0;
   return BL_SUCCESS;
 }
@@ -110,6 +111,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_latin1_text(BLGlyphB
   }
 
   d->size = size;
+  d->invalidate_placement();
   d->flags = 0;
 
   if (d->size)
@@ -125,6 +127,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
   uint32_t* text_data = d->content;
   BLGlyphInfo* info_data = d->info_data;
 
+  d->invalidate_placement();
   d->flags = 0;
 
   while (reader.has_next()) {
diff --git a/blend2d/core/glyphbuffer_p.h b/blend2d/core/glyphbuffer_p.h
index b741d89..c7d8bd9 100644
--- a/blend2d/core/glyphbuffer_p.h
+++ b/blend2d/core/glyphbuffer_p.h
@@ -98,6 +98,13 @@ struct BLGlyphBufferPrivateImpl : public BLGlyphBufferImpl {
     return BL_SUCCESS;
   }
 
+  //! Forgets placements, which don't describe the current content anymore.
+  BL_INLINE void invalidate_placement() noexcept {
+    placement_data = nullptr;
+    glyph_run.placement_type = BL_GLYPH_PLACEMENT_TYPE_NONE;
+    flags &= ~uint32_t(BL_GLYPH_BUFFER_GLYPH_ADVANCES);
+  }
+
   BL_INLINE void flip() noexcept {
     BLInternal::swap(buffer[0], buffer[1]);
     BLInternal::swap(capacity[0], capacity[1]);
diff --git a/blend2d/opentype/otlayoutcontext_p.h b/blend2d/opentype/otlayoutcontext_p.h
index a04a0c6..bdfbde4 100644
--- a/blend2d/opentype/otlayoutcontext_p.h
+++ b/blend2d/opentype/otlayoutcontext_p.h
@@ -190,6 +190,8 @@ struct GSubContextPrimary : public GSubContext {
   }
 
   BL_INLINE void done() noexcept {
+    if (_gbd->size != _work_buffer.size || !_gbd->placement_data)
+      _gbd->invalidate_placement();
     _gbd->size = _work_buffer.size;
   }
 
-- 
2.43.0


From c37318cdaf96c1a7968726142778bf63f43de4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 168/182] fix: reject CFF2 indexes with more offsets than the
 data contains

---
 blend2d/opentype/otcff.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 495ab16..99c79db 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -250,12 +250,14 @@ static BLResult read_index(const void* data, size_t data_size, uint32_t cff_vers
     return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
 
   uint32_t offset_size = MemOps::readU8(PtrOps::offset<const uint8_t>(data, header_size - 1));
-  uint32_t offset_array_size = (count + 1) * offset_size;
-  uint32_t index_size_including_offsets = header_size + offset_array_size;
+  uint64_t required_size = uint64_t(header_size) + (uint64_t(count) + 1u) * offset_size;
 
-  if (BL_UNLIKELY(offset_size < 1 || offset_size > 4 || index_size_including_offsets > data_size))
+  if (BL_UNLIKELY(offset_size < 1 || offset_size > 4 || required_size > data_size || required_size > Traits::max_value<uint32_t>()))
     return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
 
+  uint32_t index_size_including_offsets = uint32_t(required_size);
+  uint32_t offset_array_size = index_size_including_offsets - header_size;
+
   const uint8_t* offset_array = PtrOps::offset<const uint8_t>(data, header_size);
   uint32_t offset = read_offset(offset_array, offset_size);
 
-- 
2.43.0


From 421d3d21d51473c8286028f0d5229913ac9e8b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 169/182] fix: check the size of the CFF2 header and the
 presence of the top dictionary

---
 blend2d/opentype/otcff.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 99c79db..bc508ee 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -2139,7 +2139,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
     }
   }
   else {
-    if (BL_UNLIKELY(header_size < 5 || header_size > cff.size - 5)) {
+    if (BL_UNLIKELY(cff.size < 5 || header_size < 5 || header_size > cff.size - 5)) {
       return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
     }
 
@@ -2186,6 +2186,11 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
       return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
     }
   }
+  else {
+    if (BL_UNLIKELY(top_dict_index.count == 0)) {
+      return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
+    }
+  }
 
   {
     uint32_t offsets[2] = { top_dict_index.offset_at(0), top_dict_index.offset_at(1) };
-- 
2.43.0


From 6d722c7ec685e0da6d03defccd3d60dfa3a1d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 170/182] fix: only use a CFF FDSelect table that was validated

---
 blend2d/opentype/otcff.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index bc508ee..0a9b13f 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -2336,7 +2336,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
 
       // The index contains offsets to the additional TopDicts. To speed up glyph processing we read
       // these TopDicts and build our own array that will be used during glyph metrics/outline decoding.
-      Index fd_array_index;
+      Index fd_array_index {};
       BL_PROPAGATE(read_index(cff.data + fd_array_offset, cff.size - fd_array_offset, cff_version, &fd_array_index));
       BL_PROPAGATE(fd_subr_indexes.reserve(fd_array_index.count));
 
@@ -2446,7 +2446,10 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
     char_string_index.count,
     0);
 
-  ot_face_impl->cff.fd_select_offset = cid.fd_select_offset;
+  // FDSelect can only be used if it was validated, which requires both FDArray and FDSelect.
+  bool has_fd_select = (cid.flags & CIDInfo::kFlagsAll) == CIDInfo::kFlagsAll && cid.fd_array_offset != 0;
+
+  ot_face_impl->cff.fd_select_offset = has_fd_select ? cid.fd_select_offset : uint32_t(0);
   ot_face_impl->cff.fd_select_format = cid.fd_select_format;
   ot_face_impl->cff_fd_subr_indexes.swap(fd_subr_indexes);
 
-- 
2.43.0


From de1b87562c10fade930db3f87d653b95df0f4222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 171/182] fix: count the left side bearings that follow the
 long metrics

---
 blend2d/opentype/otmetrics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otmetrics.cpp b/blend2d/opentype/otmetrics.cpp
index f71ca6b..8dc16a5 100644
--- a/blend2d/opentype/otmetrics.cpp
+++ b/blend2d/opentype/otmetrics.cpp
@@ -97,7 +97,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables) noexcept {
       if (!hmtx.fits(long_metric_data_size))
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
-      size_t lsb_count = bl_min<size_t>((hmtx.size - long_metric_data_size) / 2u, long_metric_count - ot_face_impl->face_info.glyph_count);
+      size_t lsb_count = bl_min<size_t>((hmtx.size - long_metric_data_size) / 2u, ot_face_impl->face_info.glyph_count - long_metric_count);
       ot_face_impl->metrics.xmtx_table[BL_ORIENTATION_HORIZONTAL] = hmtx;
       ot_face_impl->metrics.long_metric_count[BL_ORIENTATION_HORIZONTAL] = uint16_t(long_metric_count);
       ot_face_impl->metrics.lsb_array_size[BL_ORIENTATION_HORIZONTAL] = uint16_t(lsb_count);
@@ -123,7 +123,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables) noexcept {
       if (!vmtx.fits(long_metric_data_size))
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
-      size_t lsb_count = bl_min<size_t>((vmtx.size - long_metric_data_size) / 2u, long_metric_count - ot_face_impl->face_info.glyph_count);
+      size_t lsb_count = bl_min<size_t>((vmtx.size - long_metric_data_size) / 2u, ot_face_impl->face_info.glyph_count - long_metric_count);
       ot_face_impl->metrics.xmtx_table[BL_ORIENTATION_VERTICAL] = vmtx;
       ot_face_impl->metrics.long_metric_count[BL_ORIENTATION_VERTICAL] = uint16_t(long_metric_count);
       ot_face_impl->metrics.lsb_array_size[BL_ORIENTATION_VERTICAL] = uint16_t(lsb_count);
-- 
2.43.0


From 16caa0c9bea56f140e2508f2fdbd49d19606b6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 172/182] fix: check the bounds of script, language, and
 feature lists in GSUB and GPOS tables

---
 blend2d/opentype/otlayout.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 5e2d52d..183310c 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3632,7 +3632,7 @@ static BLResult initGSubGPos(OTFaceImpl* ot_face_impl, Table<GSubGPosTable> tabl
     Table<Array16<TagRef16>> feature_list_offsets(table.sub_table_unchecked(feature_list_offset));
     uint32_t count = feature_list_offsets->count();
 
-    if (count) {
+    if (count && feature_list_offsets.size >= 2u + count * uint32_t(sizeof(TagRef16))) {
       const TagRef16* array = feature_list_offsets->array();
       for (uint32_t i = 0; i < count; i++) {
         BLTag feature_tag = array[i].tag();
@@ -3649,7 +3649,7 @@ static BLResult initGSubGPos(OTFaceImpl* ot_face_impl, Table<GSubGPosTable> tabl
     Table<Array16<TagRef16>> script_list_offsets(table.sub_table_unchecked(script_list_offset));
     uint32_t count = script_list_offsets->count();
 
-    if (count) {
+    if (count && script_list_offsets.size >= 2u + count * uint32_t(sizeof(TagRef16))) {
       const TagRef16* array = script_list_offsets->array();
       for (uint32_t i = 0; i < count; i++) {
         BLTag script_tag = array[i].tag();
@@ -3685,7 +3685,7 @@ static Table<GSubGPosTable::ScriptTable> find_script_in_script_list(Table<Array1
     for (uint32_t i = 0; i < script_count; i++) {
       BLTag record_tag = script_list_array[i].tag();
       if (record_tag == script_tag || record_tag == default_script_tag) {
-        table_out = script_list_offsets.sub_table_unchecked(script_list_array[i].offset());
+        table_out = script_list_offsets.sub_table(script_list_array[i].offset());
         if (record_tag == script_tag) {
           break;
         }
@@ -3718,7 +3718,7 @@ static BL_INLINE void populate_gsub_gpoos_lookup_bits(
       BLTag feature_tag = feature_list_offsets->array()[feature_index].tag();
       if (FontFeatureSettingsInternal::is_feature_enabled_for_plan<kSSO>(&settings, feature_tag)) {
         uint32_t feature_offset = feature_list_offsets->array()[feature_index].offset();
-        Table<GSubGPosTable::FeatureTable> feature_table(feature_list_offsets.sub_table_unchecked(feature_offset));
+        Table<GSubGPosTable::FeatureTable> feature_table(feature_list_offsets.sub_table(feature_offset));
 
         // Don't use a feature if its offset is out of bounds.
         if (BL_LIKELY(blFontTableFitsT<GSubGPosTable::FeatureTable>(feature_table))) {
@@ -3785,7 +3785,7 @@ static BLResult calculateGSubGPosPlan(const OTFaceImpl* ot_face_impl, const BLFo
     return BL_SUCCESS;
   }
 
-  Table<GSubGPosTable::LangSysTable> lang_sys_table(script_table.sub_table_unchecked(lang_sys_offset));
+  Table<GSubGPosTable::LangSysTable> lang_sys_table(script_table.sub_table(lang_sys_offset));
   if (BL_UNLIKELY(!blFontTableFitsT<GSubGPosTable::LangSysTable>(lang_sys_table))) {
     return BL_SUCCESS;
   }
@@ -3798,7 +3798,7 @@ static BLResult calculateGSubGPosPlan(const OTFaceImpl* ot_face_impl, const BLFo
   }
 
   uint32_t feature_count = feature_list_offsets->count();
-  if (feature_list_offsets.size < 2u + feature_count * 2u) {
+  if (feature_list_offsets.size < 2u + feature_count * uint32_t(sizeof(TagRef16))) {
     return BL_SUCCESS;
   }
 
-- 
2.43.0


From 38468a7024e617d977d3a4512251c7f2bc2a512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 173/182] fix: check the size and type of GSUB and GPOS lookups

---
 blend2d/opentype/otlayout.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 183310c..176f51f 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3296,6 +3296,9 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
   if (!lookup_list.fits(lookup_list_size))
     return validator.invalid_table_size(table_name, lookup_list.size, lookup_list_size);
 
+  if (lookup_list.size < GSubGPosTable::LookupTable::kBaseSize)
+    return validator.invalid_table_size(table_name, lookup_list.size, GSubGPosTable::LookupTable::kBaseSize);
+
   uint32_t lookup_offset = lookup_list->array()[lookup_index].value();
   OffsetRange lookup_offset_range{lookup_list_size, lookup_list.size - GSubGPosTable::LookupTable::kBaseSize};
 
@@ -3307,7 +3310,7 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
   uint32_t lookup_type = lookup_table->lookup_type();
 
   // Reject unknown lookup Type+Format combinations (lookup_type 0 and values above lookup_max_value are invalid).
-  if (lookup_type - 1u > uint32_t(lookup_info.lookup_max_value))
+  if (lookup_type - 1u >= uint32_t(lookup_info.lookup_max_value))
     return validator.fail("%s[%u] invalid lookup type (%u)", table_name, lookup_index, lookup_type);
 
   uint32_t sub_table_count = lookup_table->sub_table_offsets.count();
@@ -3318,6 +3321,9 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
     return validator.fail("%s[%u] truncated (size=%u, required=%u)", table_name, lookup_index, lookup_table.size, lookup_table_size);
 
   uint32_t sub_table_min_size = lookup_type == lookup_info.extension_type ? 8u : 6u;
+  if (lookup_table.size < sub_table_min_size)
+    return validator.fail("%s[%u] truncated (size=%u, required=%u)", table_name, lookup_index, lookup_table.size, sub_table_min_size);
+
   OffsetRange sub_table_offset_range{lookup_table_size, lookup_table.size - sub_table_min_size};
 
   uint32_t ext_previous_lookup_type = 0u;
@@ -3354,7 +3360,7 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
       sub_table = ext_sub_table.sub_table(ext_sub_table_offset);
       if (!sub_table.fits())
         return validator.fail("%s[%u].sub_table[%u] of extension type points to a truncated table (size=%u required=%u)",
-          table_name, lookup_index, sub_table_index);
+          table_name, lookup_index, sub_table_index, sub_table.size, GSubGPosTable::LookupHeader::kBaseSize);
 
       lookup_format = sub_table->format();
       lookup_type_and_format = lookup_info.type_info[sub_table_type].type_and_format + lookup_format - 1u;
-- 
2.43.0


From 80704325b2de5fada101e23ad6543ada1dc77d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 174/182] fix: check the size of a sequence rule with its
 lookup records

---
 blend2d/opentype/otlayout.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 176f51f..cd33318 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -694,14 +694,13 @@ static BL_NOINLINE bool validate_context_format1_2(ValidationContext& validator,
       Table<SequenceRule> rule = rule_set.sub_table(rule_offset);
       uint32_t glyph_count = rule->glyph_count();
       uint32_t lookup_record_count = rule->lookup_record_count();
-      uint32_t rule_table_size = 4u + (lookup_record_count + glyph_count - 1) * 2u;
+      if (glyph_count < 2)
+        return validator.fail("%s.rule_set[%u].rule[%u] has invalid glyph_count (%u)", table_name, i, rule_index, glyph_count);
 
+      uint32_t rule_table_size = 4u + (glyph_count - 1u) * 2u + lookup_record_count * GSubGPosTable::SequenceLookupRecord::kBaseSize;
       if (!rule.fits(rule_table_size))
         return validator.fail("%s.rule_set[%u].rule[%u] is truncated (size=%u, required=%u)", table_name, i, rule_index, rule.size, rule_table_size);
 
-      if (glyph_count < 2)
-        return validator.fail("%s.rule_set[%u].rule[%u] has invalid glyph_count (%u)", table_name, i, rule_index, glyph_count);
-
       if (!lookup_record_count)
         return validator.fail("%s.rule_set[%u].rule[%u] has invalid lookup_record_count (%u)", table_name, i, rule_index, lookup_record_count);
 
-- 
2.43.0


From db433ca671daf238e559014c2c43cb03be11f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 175/182] fix: check the size of a chained sequence rule with
 its lookup records

---
 blend2d/opentype/otlayout.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index cd33318..617819b 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -987,6 +987,9 @@ static BL_NOINLINE bool validate_chained_context_format1_2(ValidationContext& va
     if (!rule_set.fits(rule_set_header_size))
       return validator.fail("%s.rule_set[%u] is truncated (size=%u, required=%u)", table_name, i, rule_set.size, rule_set_header_size);
 
+    if (rule_set.size < ChainedSequenceRule::kBaseSize)
+      return validator.fail("%s.rule_set[%u] is truncated (size=%u, required=%u)", table_name, i, rule_set.size, ChainedSequenceRule::kBaseSize);
+
     const Offset16* rule_offset_array = rule_set->array();
     OffsetRange rule_offset_range{rule_set_header_size, rule_set.size - ChainedSequenceRule::kBaseSize};
 
@@ -1014,7 +1017,7 @@ static BL_NOINLINE bool validate_chained_context_format1_2(ValidationContext& va
 
       // Verify there is a room for `lookahead_sequence + lookup_record_count`.
       uint32_t lookahead_glyph_count = rule.readU16(lookahead_offset);
-      uint32_t lookup_record_offset = lookahead_offset + lookahead_glyph_count * 2u;
+      uint32_t lookup_record_offset = lookahead_offset + 2u + lookahead_glyph_count * 2u;
       if (!rule.fits(lookup_record_offset + 2u))
         return validator.fail("%s.rule_set[%u].rule[%u] is truncated (size=%u, required=%u)", table_name, i, rule_index, rule.size, lookup_record_offset + 2u);
 
@@ -1022,6 +1025,10 @@ static BL_NOINLINE bool validate_chained_context_format1_2(ValidationContext& va
       if (!lookup_record_count)
         return validator.fail("%s.rule_set[%u].rule[%u] has invalid lookup_record_count (%u)", table_name, i, rule_index, lookup_record_count);
 
+      uint32_t rule_table_size = lookup_record_offset + 2u + lookup_record_count * GSubGPosTable::SequenceLookupRecord::kBaseSize;
+      if (!rule.fits(rule_table_size))
+        return validator.fail("%s.rule_set[%u].rule[%u] is truncated (size=%u, required=%u)", table_name, i, rule_index, rule.size, rule_table_size);
+
       const GSubGPosTable::SequenceLookupRecord* lookup_record_array = PtrOps::offset<const GSubGPosTable::SequenceLookupRecord>(rule.data, lookup_record_offset + 2u);
       if (!validate_sequence_lookup_record_array(validator, lookup_record_array, lookup_record_count))
         return false;
@@ -1264,7 +1271,7 @@ static BL_INLINE bool match_chained_sequence_rule_format1(
     if (!match_ahead_glyphs_format1(mCtx.ahead_glyph_ptr + input_glyph_count - 1u, rule.data_as<UInt16>(lookahead_offset + 2u), lookahead_glyph_count))
       continue;
 
-    uint32_t lookup_record_offset = lookahead_offset + lookahead_glyph_count * 2u;
+    uint32_t lookup_record_offset = lookahead_offset + 2u + lookahead_glyph_count * 2u;
     BL_ASSERT_VALIDATED(rule.fits(lookup_record_offset + 2u));
 
     uint32_t lookup_record_count = rule.readU16(lookup_record_offset);
@@ -1316,7 +1323,7 @@ static BL_INLINE bool match_chained_sequence_rule_format2(
     if (!match_ahead_glyphs_format2<kCD3Fmt>(mCtx.ahead_glyph_ptr + input_glyph_count - 1u, rule.data_as<UInt16>(lookahead_offset + 2u), lookahead_glyph_count, cd3_it))
       continue;
 
-    uint32_t lookup_record_offset = lookahead_offset + lookahead_glyph_count * 2u;
+    uint32_t lookup_record_offset = lookahead_offset + 2u + lookahead_glyph_count * 2u;
     BL_ASSERT_VALIDATED(rule.fits(lookup_record_offset + 2u));
 
     uint32_t lookup_record_count = rule.readU16(lookup_record_offset);
-- 
2.43.0


From 8dce03457541d047909a3c60a1f8b2c04c768002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 176/182] fix: reject contextual lookups with no input glyphs
 or null coverages

---
 blend2d/opentype/otlayout.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 617819b..88e0b3c 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -599,9 +599,6 @@ static BL_NOINLINE bool validate_coverage_tables(
 
   for (uint32_t i = 0; i < count; i++) {
     uint32_t offset = offsets[i].value();
-    if (!offset)
-      continue;
-
     if (!offset_range.contains(offset))
       return validator.fail("%s.%s[%u] offset (%u) is out of range [%u:%u]", table_name, coverage_name, i, offset, offset_range.start, offset_range.end);
 
@@ -1103,6 +1100,9 @@ static BL_NOINLINE bool validate_chained_context_format3(ValidationContext& vali
   uint32_t lookup_record_count = table.readU16(lookup_record_count_offset);
   uint32_t header_size = lookup_record_count_offset + 2u + lookup_record_count * GSubGPosTable::SequenceLookupRecord::kBaseSize;
 
+  if (!input_glyph_count)
+    return validator.fail("%s has no input glyphs", table_name);
+
   if (!lookup_record_count)
     return validator.fail("%s has no lookup records", table_name);
 
-- 
2.43.0


From 863dcbc58f59bcd9c5b098e4ac678480937f5126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 177/182] fix: skip null rule sets in contextual lookups

---
 blend2d/opentype/otlayout.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 88e0b3c..49c9af8 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -869,6 +869,9 @@ static BL_INLINE bool match_sequence_format1(Table<GSubGPosTable::SequenceContex
     return false;
 
   uint32_t rule_set_offset = table->rule_set_offsets.array()[coverage_index].value();
+  if (!rule_set_offset)
+    return false;
+
   BL_ASSERT_VALIDATED(rule_set_offset <= table.size - 2u);
 
   Table<Array16<Offset16>> rule_offsets(table.sub_table_unchecked(rule_set_offset));
@@ -902,6 +905,9 @@ static BL_INLINE bool match_sequence_format2(
     return false;
 
   uint32_t rule_set_offset = table->rule_set_offsets.array()[class_index].value();
+  if (!rule_set_offset)
+    return false;
+
   BL_ASSERT_VALIDATED(rule_set_offset <= table.size - 2u);
 
   Table<Array16<Offset16>> rule_offsets(table.sub_table_unchecked(rule_set_offset));
@@ -1352,6 +1358,9 @@ static BL_INLINE bool match_chained_sequence_format1(
     return false;
 
   uint32_t rule_set_offset = rule_set_offsets[coverage_index].value();
+  if (!rule_set_offset)
+    return false;
+
   BL_ASSERT_VALIDATED(rule_set_offset <= mCtx.table.size - 2u);
 
   Table<Array16<Offset16>> rule_offsets(mCtx.table.sub_table_unchecked(rule_set_offset));
@@ -1377,6 +1386,9 @@ static BL_INLINE bool match_chained_sequence_format2(
     return false;
 
   uint32_t rule_set_offset = rule_set_offsets[coverage_index].value();
+  if (!rule_set_offset)
+    return false;
+
   BL_ASSERT_VALIDATED(rule_set_offset <= mCtx.table.size - 2u);
 
   Table<Array16<Offset16>> rule_offsets(mCtx.table.sub_table_unchecked(rule_set_offset));
-- 
2.43.0


From 9da23a1aa9127b84c14839f0445755af7b709247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 178/182] fix: advance the glyph pointer when matching
 contextual lookups

---
 blend2d/opentype/otlayout.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 49c9af8..5f9f14e 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2027,7 +2027,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type5_format2(GSubConte
       // TODO: [OpenType] Context MATCH
     }
 
-    glyph_in_end++;
+    glyph_in_ptr++;
   }
 
   return BL_SUCCESS;
@@ -2899,12 +2899,12 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type7_format1(GPosConte
   size_t end = scope.end();
   BL_ASSERT(index < end);
 
-  const BLGlyphId* glyph_ptr = ctx.glyph_data();
+  const BLGlyphId* glyph_data = ctx.glyph_data();
   GlyphRange glyph_range = cov_it.glyph_range<kCovFmt>();
 
   do {
     SequenceMatch match;
-    if (match_sequence_format1<kCovFmt>(table, rule_set_count, glyph_range, cov_it, glyph_ptr, end - index, &match)) {
+    if (match_sequence_format1<kCovFmt>(table, rule_set_count, glyph_range, cov_it, glyph_data + index, end - index, &match)) {
       BL_PROPAGATE(apply_gpos_nested_lookups(ctx, index, match));
     }
   } while (++index != end);
@@ -2924,12 +2924,12 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type7_format2(GPosConte
   size_t end = scope.end();
   BL_ASSERT(index < end);
 
-  const BLGlyphId* glyph_ptr = ctx.glyph_data() + scope.index();
+  const BLGlyphId* glyph_data = ctx.glyph_data();
   GlyphRange glyph_range = cov_it.glyph_range<kCovFmt>();
 
   do {
     SequenceMatch match;
-    if (match_sequence_format2<kCovFmt, kCDFmt>(table, rule_set_count, glyph_range, cov_it, cd_it, glyph_ptr, end - index, &match)) {
+    if (match_sequence_format2<kCovFmt, kCDFmt>(table, rule_set_count, glyph_range, cov_it, cd_it, glyph_data + index, end - index, &match)) {
       BL_PROPAGATE(apply_gpos_nested_lookups(ctx, index, match));
     }
   } while (++index != end);
@@ -2961,7 +2961,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type7_format3(GPosConte
   size_t end = scope.end();
   BL_ASSERT(index < end);
 
-  const BLGlyphId* glyph_ptr = ctx.glyph_data() + scope.index();
+  const BLGlyphId* glyph_data = ctx.glyph_data();
   GlyphRange glyph_range = cov0_it.glyph_range_with_format(cov0_fmt);
   SequenceMatch match{glyph_count, lookup_record_count, lookup_record_array};
 
-- 
2.43.0


From 4fc6831060d4c3907c06987ef38c615fd1c0fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 179/182] fix: match format 3 contextual lookups only within
 the glyph run

---
 blend2d/opentype/otlayout.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 5f9f14e..aab32bb 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2038,7 +2038,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type5_format3(GSubConte
   BL_ASSERT_VALIDATED(table.fits());
 
   uint32_t glyph_count = table->glyph_count();
-  if (glyph_count < scope.size())
+  if (scope.size() < glyph_count)
     return BL_SUCCESS;
 
   uint32_t lookup_record_count = table->lookup_record_count();
@@ -2063,7 +2063,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type5_format3(GSubConte
       bl_unused(lookup_record_array, lookup_record_count);
     }
     glyph_in_ptr++;
-  } while (glyph_in_ptr != glyphInEndMinusN);
+  } while (glyph_in_ptr <= glyphInEndMinusN);
 
   return BL_SUCCESS;
 }
@@ -2967,10 +2967,10 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type7_format3(GPosConte
 
   size_t end_minus_glyph_count = end - glyph_count;
   do {
-    if (match_sequence_format3(table, coverage_offset_array, glyph_range, cov0_it, cov0_fmt, glyph_ptr, glyph_count)) {
+    if (match_sequence_format3(table, coverage_offset_array, glyph_range, cov0_it, cov0_fmt, glyph_data + index, glyph_count)) {
       BL_PROPAGATE(apply_gpos_nested_lookups(ctx, index, match));
     }
-  } while (++index != end_minus_glyph_count);
+  } while (++index <= end_minus_glyph_count);
 
   return BL_SUCCESS;
 }
-- 
2.43.0


From 4285378ed3073889a966d71c45a7b8155cba5397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 180/182] fix: clamp the scope of a reverse chained
 substitution to its context

---
 blend2d/opentype/otlayout.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index aab32bb..080c97a 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2280,10 +2280,10 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type8_format1(GSubConte
   BL_ASSERT_VALIDATED(table.fits(subst_offset + 2u));
 
   // Restrict scope in a way so we would never underflow/overflow glyph buffer when matching backtrack/lookahead glyphs.
-  scope.intersect(backtrack_glyph_count, ctx.size() - lookahead_glyph_count - 1u);
+  scope.intersect(backtrack_glyph_count, ctx.size() - bl_min<size_t>(ctx.size(), lookahead_glyph_count));
 
   // Bail if the buffer or the scope is too small for this chained context substitution.
-  if (ctx.size() < lookahead_glyph_count || scope.index() >= scope.end())
+  if (scope.index() >= scope.end())
     return BL_SUCCESS;
 
   uint32_t subst_glyph_count = table.readU16(subst_offset);
-- 
2.43.0


From 6bf83c68cac048aacc1e6e9505c4e928e0f995c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 181/182] fix: check the bounds of pair sets and class records
 in GPOS pair adjustment

---
 blend2d/opentype/otlayout.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 080c97a..91010e1 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2655,7 +2655,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gpos_lookup_type2_format1(Validation
     Table<GPosTable::PairSet> pair_set(table.sub_table(pair_set_offset));
 
     uint32_t pair_value_count = pair_set->pair_value_count();
-    uint32_t pair_set_size = pair_value_count * value_record_size;
+    uint32_t pair_set_size = 2u + pair_value_count * value_record_size;
 
     if (!pair_set.fits(pair_set_size))
       return validator.invalid_table_size("PairSet", pair_set.size, pair_set_size);
@@ -2806,7 +2806,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type2_format2(GPosConte
         uint32_t c2 = cd2_it.class_of_glyph<kCD2Fmt>(right_glyph_id);
         uint32_t c_index = c1 * class2_count + c2;
 
-        if (c_index < value_record_count) {
+        if (c1 < class1_count && c2 < class2_count) {
           const Int16* p = PtrOps::offset<const Int16>(value_base_ptr, c_index * value_record_size);
           if (value1_format) p = apply_gposValue(p, value1_format, &placement_data[i + 0]);
           if (value2_format) {
-- 
2.43.0


From cb1cc292380c77b0d44fd10a6d45089cf1398b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:38 +0000
Subject: [PATCH 182/182] fix: assigning words to a BLBitSet checks all of them
 before it takes them for a range

---
 blend2d/core/bitset.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index ba1aa06..c1c5ca7 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -1101,17 +1101,11 @@ static bool get_range_from_analyzed_word_data(uint32_t start_word, const uint32_
     return false;
   }
 
-  // Now verify that all other words that form first, middle, and last segment are all ones.
+  // Now verify that all other words are all ones.
   //
-  // NOTE: This function is only called after `analyze_word_data_for_assignment()`, which means that we know that there
-  // are no zero segments and we know that the maximum number of segments all words form are 3. This means that we
-  // don't have to process all words, only those that describe the first two segments and the last one (because there
-  // are no other segments). If the range is really large, we can skip a lot of words.
-  uint32_t first_words_to_check = bl_min<uint32_t>(word_count - 2, kSegmentWordCount * 2 - 1);
-  uint32_t last_words_to_check = bl_min<uint32_t>(word_count - 2, kSegmentWordCount - 1);
-
-  return MemOps::test_small_t(word_data + 1, first_words_to_check, BitSetOps::ones()) &&
-         MemOps::test_small_t(word_data + word_count - 1 - last_words_to_check, last_words_to_check, BitSetOps::ones());
+  // NOTE: All of them have to be verified, because any of the segments can represent more words than a single dense
+  // segment does - for example the first and the last segment can be ranges having a dense segment between them.
+  return MemOps::test_small_t(word_data + 1, word_count - 2u, BitSetOps::ones());
 }
 
 // bl::BitSet - Dynamic - Splice Operation
-- 
2.43.0

