From eaa8c81b684ca9ac3e314805d0cb8ca74213da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 01/37] fix: assigning to a shared string used an uninitialized
 object

When the destination wasn't mutable and the new content fits SSO storage,
modify_and_copy() initialized and wrote to 'self' (leaking its Impl) instead
of the temporary, which was then used uninitialized.
---
 blend2d/core/string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 92beef7..446d229 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -119,8 +119,8 @@ static BLResult modify_and_copy(BLStringCore* self, BLModifyOp op, const char* s
     char* dst = nullptr;
 
     if (size_after <= BLString::kSSOCapacity && !bl_modify_op_does_grow(op)) {
-      init_sso(self, size_after);
-      dst = self->_d.char_data;
+      init_sso(&newO, size_after);
+      dst = newO._d.char_data;
     }
     else {
       BLObjectImplSize impl_size = expand_impl_size_with_modify_op(impl_size_from_capacity(size_after), op);
-- 
2.43.0


From 1784033befa0a864100db10e4fe55d55438d25df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 02/37] fix: BLArray::assign_data() and replace_data() wrote
 past the array capacity

assign_data() allocated a new Impl by using the old size, and it didn't
initialize new items when an array of objects grew in place. replace_data()
ignored the capacity and didn't move the tail when sizes differ.
---
 blend2d/core/array.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 5ecfb55..391e771 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -883,7 +883,7 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
     if (BL_UNLIKELY(n > maximum_capacity_table[array_type]))
       return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
 
-    BLObjectImplSize impl_size = impl_size_from_capacity(u.size, item_size);
+    BLObjectImplSize impl_size = impl_size_from_capacity(n, item_size);
     BLArrayCore newO;
     BL_PROPAGATE(init_dynamic(&newO, array_type, n, impl_size));
 
@@ -902,6 +902,7 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
     const uint8_t* src = static_cast<const uint8_t*>(items);
 
     assign_content_objects(u.data, src, replace_size * item_size);
+    init_content_objects(u.data + replace_size * item_size, src + replace_size * item_size, (n - replace_size) * item_size);
     release_content_objects(u.data + replace_size * item_size, (u.size - replace_size) * item_size);
 
     return BL_SUCCESS;
@@ -1187,7 +1188,7 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
   size_t tail_size = u.size - end;
   size_t size_after = u.size - range_size + n;
 
-  if (is_instance_mutable(self)) {
+  if (is_instance_mutable(self) && size_after <= u.capacity) {
     // 0           |<-Start   End->|          | <- Size
     // ^***********^***************^**********^
     // | Unchanged |  Replacement  | TailSize |
@@ -1198,14 +1199,14 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
     const uint8_t* items_ptr = static_cast<const uint8_t*>(items);
     const uint8_t* items_end = items_ptr + item_size * n;
 
-    if (BL_LIKELY(items_ptr >= u.data + u.size * n || items_end <= u.data)) {
+    if (BL_LIKELY(items_ptr >= u.data + u.size * item_size || items_end <= u.data)) {
       // Non-overlaping case (the expected one).
       if (range_size == n) {
         assign_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
       }
       else {
         release_content_by_type(u.data + index * item_size, range_size * item_size, array_type);
-        memmove(u.data + (index + range_size) * item_size, u.data + end * item_size, tail_size * item_size);
+        memmove(u.data + (index + n) * item_size, u.data + end * item_size, tail_size * item_size);
         init_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
         set_size(self, size_after);
       }
-- 
2.43.0


From 7209609989b681330d397b15c81be11fc4b42c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 03/37] fix: BLArray holding objects never released its items

Array of objects leaked all items when its Impl was destroyed and
truncation by resize() released the items that were kept instead of
the ones that were removed.
---
 blend2d/core/array.cpp  |  6 ++++--
 blend2d/core/array_p.h  | 10 +++++-----
 blend2d/core/object.cpp |  2 +-
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 391e771..785b43e 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -302,9 +302,11 @@ static BL_NOINLINE BLResult realloc_to_dynamic(BLArrayCore* self, BLObjectType a
   return replace_instance(self, &newO);
 }
 
-BLResult free_impl(BLArrayImpl* impl) noexcept {
+BLResult free_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept {
   if (ObjectInternal::is_impl_external(impl))
     ObjectInternal::call_external_destroy_func(impl, impl->data);
+  else
+    release_content_by_type(impl->data, impl->size * item_size_from_array_type(array_type), array_type);
   return ObjectInternal::free_impl(impl);
 }
 
@@ -577,7 +579,7 @@ BL_API_IMPL BLResult bl_array_resize(BLArrayCore* self, size_t n, const void* fi
     }
     else {
       set_size(self, n);
-      release_content_by_type(u.data, (u.size - n) * item_size, array_type);
+      release_content_by_type(u.data + n * item_size, (u.size - n) * item_size, array_type);
       return BL_SUCCESS;
     }
   }
diff --git a/blend2d/core/array_p.h b/blend2d/core/array_p.h
index 410c40a..adea4df 100644
--- a/blend2d/core/array_p.h
+++ b/blend2d/core/array_p.h
@@ -23,11 +23,11 @@ static BL_INLINE bool is_impl_mutable(const BLArrayImpl* impl) noexcept {
   return ObjectInternal::is_impl_mutable(impl);
 }
 
-BL_HIDDEN BLResult free_impl(BLArrayImpl* impl) noexcept;
+BL_HIDDEN BLResult free_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept;
 
 template<RCMode kRCMode>
-static BL_INLINE BLResult release_impl(BLArrayImpl* impl) noexcept {
-  return ObjectInternal::deref_impl_and_test<kRCMode>(impl) ? free_impl(impl) : BLResult(BL_SUCCESS);
+static BL_INLINE BLResult release_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept {
+  return ObjectInternal::deref_impl_and_test<kRCMode>(impl) ? free_impl(impl, array_type) : BLResult(BL_SUCCESS);
 }
 
 //! \}
@@ -56,7 +56,7 @@ static BL_INLINE BLResult retain_instance(const BLArrayCore* self, size_t n = 1)
 }
 
 static BL_INLINE BLResult release_instance(BLArrayCore* self) noexcept {
-  return self->_d.is_ref_counted_object() ? release_impl<RCMode::kForce>(get_impl(self)) : BLResult(BL_SUCCESS);
+  return self->_d.is_ref_counted_object() ? release_impl<RCMode::kForce>(get_impl(self), self->_d.raw_type()) : BLResult(BL_SUCCESS);
 }
 
 static BL_INLINE BLResult replace_instance(BLArrayCore* self, const BLArrayCore* other) noexcept {
@@ -65,7 +65,7 @@ static BL_INLINE BLResult replace_instance(BLArrayCore* self, const BLArrayCore*
   BLObjectInfo info = self->_d.info;
 
   self->_d = other->_d;
-  return info.is_ref_counted_object() ? release_impl<RCMode::kForce>(static_cast<BLArrayImpl*>(impl)) : BLResult(BL_SUCCESS);
+  return info.is_ref_counted_object() ? release_impl<RCMode::kForce>(static_cast<BLArrayImpl*>(impl), info.raw_type()) : BLResult(BL_SUCCESS);
 }
 
 //! \}
diff --git a/blend2d/core/object.cpp b/blend2d/core/object.cpp
index aca6a10..e1a5c62 100644
--- a/blend2d/core/object.cpp
+++ b/blend2d/core/object.cpp
@@ -148,7 +148,7 @@ BLResult bl_object_destroy_unknown_impl(BLObjectImpl* impl, BLObjectInfo info) n
     case BL_OBJECT_TYPE_ARRAY_STRUCT_20:
     case BL_OBJECT_TYPE_ARRAY_STRUCT_24:
     case BL_OBJECT_TYPE_ARRAY_STRUCT_32:
-      return bl::ArrayInternal::free_impl(static_cast<BLArrayImpl*>(impl));
+      return bl::ArrayInternal::free_impl(static_cast<BLArrayImpl*>(impl), type);
 
     case BL_OBJECT_TYPE_BIT_SET:
       // NOTE: It's guaranteed that this BitSet is dynamic, so we don't have to correct the type.
-- 
2.43.0


From d47809c0780e63f9c02f43e6b3866a1b314573ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 04/37] fix: bit set add_words() and chop() of a small dense
 set corrupted its content

add_words() to an SSO dense set with words preceding the stored ones combined the wrong words
(and could write past the object), chop() with no intersection read an uninitialized buffer.
---
 blend2d/core/bitset.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index d7fc868..2e85b12 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2325,6 +2325,10 @@ BL_API_IMPL BLResult bl_bit_set_chop(BLBitSetCore* self, uint32_t start_bit, uin
       uint32_t tmp[kSSOWordCount + 2];
       SSODenseInfo info = chop_sso_dense_data(self, tmp, start_bit, end_bit);
 
+      // No intersection - `tmp` has not been initialized in this case.
+      if (!info.word_count())
+        return init_sso_empty(self);
+
       uint32_t i = 0;
       BL_NOUNROLL
       while (tmp[i] == 0)
@@ -2865,12 +2869,12 @@ BL_API_IMPL BLResult bl_bit_set_add_words(BLBitSetCore* self, uint32_t start_wor
 
       if (start_word < sso_word_index) {
         uint32_t distance = sso_word_index - start_word;
-        if (distance + sso_word_count <= kSSOWordCount) {
+        if (bl_max(distance + sso_word_count, word_count) <= kSSOWordCount) {
           BLBitSetCore tmp;
           init_sso_dense(&tmp, start_word);
 
           bl::MemOps::copy_forward_inline_t(tmp._d.u32_data, word_data, word_count);
-          bl::MemOps::combine_small<bl::BitOperator::Or>(tmp._d.u32_data, self->_d.u32_data + distance, sso_word_count);
+          bl::MemOps::combine_small<bl::BitOperator::Or>(tmp._d.u32_data + distance, self->_d.u32_data, sso_word_count);
 
           self->_d = tmp._d;
           return BL_SUCCESS;
-- 
2.43.0


From 2a203f977733103cdf80383642caf3add025e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 05/37] fix: several bit set operations lost or corrupted
 content

- assign_words() into a mutable dynamic bit set copied a negative number of words when the leading
  segment already covered all words
- get_range() reported success for an empty set
- add_range() of a small dense set wrote past the object when the range preceded the stored words
- conversion of small dense data to segments wrote both segments to the same slot
- chop() of a shared dynamic bit set produced an empty set
- shrink() tested only the first segment when looking for a range
---
 blend2d/core/bitset.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 2e85b12..e670810 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -905,6 +905,8 @@ static BL_NOINLINE uint32_t init_segments_from_dense_data(BLBitSetSegment* dst,
     do {
       dst->_data[i] = *words++;
     } while(++i != n);
+
+    dst++;
   }
 
   return last_segment_id - first_segment_id + 1u;
@@ -1440,7 +1442,7 @@ BL_API_IMPL BLResult bl_bit_set_assign_words(BLBitSetCore* self, uint32_t start_
     }
 
     // Trailing segment requires special handling, if it doesn't end on a segment boundary.
-    if (word_index != word_index_end) {
+    if (word_index < word_index_end) {
       init_dense_segment(*dst_segment, word_index);
       bl::MemOps::copy_forward_inline_t(dst_segment->data(), word_data, (size_t)(word_index_end - word_index));
 
@@ -1798,7 +1800,7 @@ BL_API_IMPL bool bl_bit_set_get_range(const BLBitSetCore* self, uint32_t* start_
       Range range = get_sso_range(self);
       *start_out = range.start;
       *end_out = range.end;
-      return true;
+      return !range.is_empty();
     }
     else {
       SSODenseInfo info = get_sso_dense_info(self);
@@ -2154,7 +2156,7 @@ static BLBitSetSegment* copy_optimized_segments(BLBitSetSegment* dst, const BLBi
 static bool test_segments_for_range(const BLBitSetSegment* segment_data, uint32_t segment_count, Range* out) noexcept {
   Range range{};
 
-  for (uint32_t i = 0; i < segment_count; i++) {
+  for (uint32_t i = 0; i < segment_count; i++, segment_data++) {
     uint32_t start_word = segment_data->start_word();
     uint32_t end_word = segment_data->end_word();
 
@@ -2377,6 +2379,14 @@ BL_API_IMPL BLResult bl_bit_set_chop(BLBitSetCore* self, uint32_t start_bit, uin
     BLBitSetCore tmp;
     BL_PROPAGATE(init_dynamic(&tmp, impl_size_from_capacity(final_count)));
 
+    BLBitSetImpl* tmp_impl = get_impl(&tmp);
+    BLBitSetSegment* tmp_data = tmp_impl->segment_data();
+
+    bl::MemOps::copy_forward_inline_t(tmp_data, chopped.leading_data(), chopped.leading_count());
+    bl::MemOps::copy_forward_inline_t(tmp_data + chopped.leading_count(), segment_data + chopped.middle_index(), chopped.middle_count());
+    bl::MemOps::copy_forward_inline_t(tmp_data + chopped.leading_count() + chopped.middle_count(), chopped.trailing_data(), chopped.trailing_count());
+
+    tmp_impl->segment_count = final_count;
     return replace_instance(self, &tmp);
   }
 }
@@ -2634,7 +2644,7 @@ BL_API_IMPL BLResult bl_bit_set_add_range(BLBitSetCore* self, uint32_t range_sta
         // necessary.
         uint32_t n = get_sso_word_count_from_data(self->_d.u32_data, info.word_count());
 
-        if ((range_last_word - range_start_word) < kSSOWordCount && range_last_word < iStartWord + n) {
+        if (bl_max(iStartWord + n, range_last_word + 1u) - range_start_word <= kSSOWordCount) {
           uint32_t tmp[kSSOWordCount];
           bl::MemOps::copy_forward_inline_t(tmp, self->_d.u32_data, kSSOWordCount);
 
-- 
2.43.0


From 73b48562ae44707d029299da254b4c345c381215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 06/37] fix: bit set clear_range() within a single segment of a
 range duplicated the segment

The leading segment was written twice, which made cardinality wrong, and a range to clear that ended before
an adjacent segment was applied to that segment with a negative length.
---
 blend2d/core/bitset.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index e670810..a26ffe0 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -3402,11 +3402,12 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
     if (range_start_word < segment_start_word) {
       range_start_word = segment_start_word;
       range_start_bit = bit_index_of(range_start_word);
-
-      if (range_start_word > range_last_word)
-        break;
     }
 
+    // Terminate if the remaining range to clear ends before this segment.
+    if (range_start_word > range_last_word)
+      break;
+
     // If the range to clear completely overlaps this segment, remove it.
     if (range_last_word >= segment_end_word && range_start_bit == segment.start_bit())
       continue;
@@ -3460,6 +3461,7 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
         bl::BitSetOps::bit_array_clear(inserter.current().data(), dense_range_index, dense_range_count);
         inserter.advance();
 
+        segment_start_word += kSegmentWordCount;
         range_start_word = segment_start_word;
         range_start_bit = bit_index_of(range_start_word);
 
@@ -3469,7 +3471,7 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
       }
 
       // Handle the intersection with the end of the range to clear (if any), if it's not at the segment boundary.
-      segment_start_word = word_index_of(align_bit_down_to_segment(range_end_bit));
+      segment_start_word = bl_max(segment_start_word, word_index_of(align_bit_down_to_segment(range_end_bit)));
       if (segment_start_word >= segment_end_word)
         continue;
 
-- 
2.43.0


From 45030c9fee0ee872b755387154dcd3e28fb8f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 07/37] fix: bit array operations lost or corrupted content

- assign_words() overflowed the object when the array was dynamic, and produced an empty array otherwise
- modifying a shared array lost its content
- resize() with reallocation did not zero the new bits
- has_bits_in_range() and cardinality_in_range() used wrong masks and read past the data
- words combined at an unaligned index were read past their end
- BLBitArray::reserve() resized the array, reserve() of a shared array wrote past the new allocation
---
 blend2d/core/bitarray.cpp | 68 ++++++++++++++++++++-------------------
 blend2d/core/bitarray.h   |  2 +-
 2 files changed, 36 insertions(+), 34 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index c6da037..7f3f7f0 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -96,12 +96,16 @@ static BL_NOINLINE BLResult make_mutable_for_modify_op(BLBitArrayCore* self, siz
     BLBitArrayCore newO;
     if (size <= kSSOBitCapacity) {
       init_sso(&newO, size);
+      MemOps::copy_forward_inline_t(newO._d.u32_data, self_impl->data(), word_count_from_bit_count(size));
 
+      BL_PROPAGATE(replace_instance(self, &newO));
       *out = BitData{self->_d.u32_data, size};
-      return replace_instance(self, &newO);
+      return BL_SUCCESS;
     }
 
     BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count_from_bit_count(size)), size));
+    MemOps::copy_forward_inline_t(get_impl(&newO)->data(), self_impl->data(), word_count_from_bit_count(size));
+
     *out = BitData{get_impl(&newO)->data(), size};
     return replace_instance(self, &newO);
   }
@@ -179,6 +183,9 @@ static BL_INLINE BLResult combine_word_data(BitData d, size_t bit_index, const u
   size_t bit_end = bit_index + bl_min(bit_index_of(word_count), d.size - bit_index);
   size_t bit_count = bit_end - bit_index;
 
+  if (bit_count == 0u)
+    return BL_SUCCESS;
+
   size_t word_index = word_index_of(bit_index);
   uint32_t* dst = d.data + word_index;
   uint32_t bit_shift = uint32_t(bit_index & BitArrayOps::kBitMask);
@@ -228,7 +235,7 @@ static BL_INLINE BLResult combine_word_data(BitData d, size_t bit_index, const u
     return BL_SUCCESS;
 
   uint32_t last_word_bits = BitArrayOps::shift_to_start(w, bit_shift_inv);
-  if (bit_shift_inv < bit_count)
+  if (bit_shift < bit_count)
     last_word_bits |= BitArrayOps::shift_to_end(word_data[i], bit_shift);
 
   dst[i] = BitOp::op_masked(dst[i], last_word_bits, BitArrayOps::non_zero_start_mask(bit_count));
@@ -312,34 +319,28 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
   using namespace bl::BitArrayInternal;
   BL_ASSERT(self->_d.is_bit_array());
 
-  if (self->_d.sso()) {
-    if (word_count <= kSSOWordCapacity) {
-      set_sso_size(self, word_count * bl::BitArrayOps::kNumBits);
-      bl::MemOps::copy_forward_inline_t(self->_d.u32_data, word_data, word_count);
-      bl::MemOps::fill_inline_t(self->_d.u32_data + word_count, uint32_t(0), kSSOWordCapacity - word_count);
-      return BL_SUCCESS;
-    }
-  }
-  else {
-    BLBitArrayImpl* self_impl = get_impl(self);
-
-    size_t capacity_in_words = word_count_from_bit_count(self_impl->capacity);
-    size_t immutable_msk = bl::IntOps::bool_as_mask<size_t>(!is_impl_mutable(self_impl));
-
-    if ((word_count | immutable_msk) > capacity_in_words) {
-      BLBitArrayCore newO;
-      init_sso(&newO, size_t(word_count) * bl::BitArrayOps::kNumBits);
-      bl::MemOps::copy_forward_inline_t(newO._d.u32_data, word_data, word_count);
+  uint64_t bit_count = uint64_t(word_count) * bl::BitArrayOps::kNumBits;
+  if (BL_UNLIKELY(bit_count > UINT32_MAX))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
 
-      return replace_instance(self, &newO);
+  if (!self->_d.sso()) {
+    BLBitArrayImpl* self_impl = get_impl(self);
+    if (is_impl_mutable(self_impl) && bit_count <= self_impl->capacity) {
+      bl::MemOps::copy_forward_inline_t(self_impl->data(), word_data, word_count);
+      self_impl->size = uint32_t(bit_count);
+      return BL_SUCCESS;
     }
   }
 
   BLBitArrayCore newO;
-  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count)));
-
-  BLBitArrayImpl* new_impl = get_impl(&newO);
-  bl::MemOps::copy_forward_inline_t(new_impl->data(), word_data, word_count);
+  if (word_count <= kSSOWordCapacity) {
+    init_sso(&newO, size_t(bit_count));
+    bl::MemOps::copy_forward_inline_t(newO._d.u32_data, word_data, word_count);
+  }
+  else {
+    BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count), size_t(bit_count)));
+    bl::MemOps::copy_forward_inline_t(get_impl(&newO)->data(), word_data, word_count);
+  }
 
   return replace_instance(self, &newO);
 }
@@ -413,7 +414,7 @@ BL_API_IMPL uint32_t bl_bit_array_get_cardinality_in_range(const BLBitArrayCore*
 
   if (start_word == last_word) {
     // Special case - the range is within a single BitWord.
-    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start_bit);
+    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start & bl::BitArrayOps::kBitMask);
     counter.add_item(d.data[start_word] & mask);
   }
   else {
@@ -451,11 +452,11 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
     return false;
 
   size_t start_word = word_index_of(start);
-  size_t end_word = word_index_of(end);
+  size_t last_word = word_index_of(end - 1u);
 
-  if (start_word == end_word) {
+  if (start_word == last_word) {
     // Special case - the range is within a single BitWord.
-    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start);
+    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start & bl::BitArrayOps::kBitMask);
     return (d.data[start_word] & mask) != 0u;
   }
 
@@ -463,12 +464,12 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
   if (d.data[start_word] & start_mask)
     return true;
 
-  for (size_t i = start_word + 1; i < end_word; i++)
+  for (size_t i = start_word + 1; i < last_word; i++)
     if (d.data[i])
       return true;
 
-  uint32_t end_mask = bl::BitArrayOps::non_zero_start_mask(end & bl::BitArrayOps::kBitMask);
-  return (d.data[end_word] & end_mask) != 0u;
+  uint32_t end_mask = bl::BitArrayOps::non_zero_start_mask((uint32_t(end - 1u) & bl::BitArrayOps::kBitMask) + 1u);
+  return (d.data[last_word] & end_mask) != 0u;
 }
 
 // bl::BitArray - API - Testing
@@ -679,6 +680,7 @@ BL_API_IMPL BLResult bl_bit_array_resize(BLBitArrayCore* self, uint32_t n_bits)
   if (last_word_bit_count)
     dst[word_count - 1] &= bl::BitArrayOps::non_zero_start_mask(last_word_bit_count);
 
+  bl::MemOps::fill_inline_t(dst + word_count, uint32_t(0), word_count_from_bit_count(n_bits) - word_count);
   return replace_instance(self, &newO);
 }
 
@@ -706,7 +708,7 @@ BL_API_IMPL BLResult bl_bit_array_reserve(BLBitArrayCore* self, uint32_t n_bits)
     d = BitData{self_impl->data(), self_impl->size};
   }
 
-  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(n_bits));
+  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(bl_max<size_t>(n_bits, d.size)));
   BLBitArrayCore newO;
   BL_PROPAGATE(init_dynamic(&newO, impl_size, d.size));
 
diff --git a/blend2d/core/bitarray.h b/blend2d/core/bitarray.h
index 5fa6406..e705716 100644
--- a/blend2d/core/bitarray.h
+++ b/blend2d/core/bitarray.h
@@ -265,7 +265,7 @@ public:
   BL_INLINE_NODEBUG BLResult resize(uint32_t n_bits) noexcept { return bl_bit_array_resize(this, n_bits); }
 
   //! Reserves `n_bits` in the BitArray (capacity would match `n_bits`) without changing its size.
-  BL_INLINE_NODEBUG BLResult reserve(uint32_t n_bits) noexcept { return bl_bit_array_resize(this, n_bits); }
+  BL_INLINE_NODEBUG BLResult reserve(uint32_t n_bits) noexcept { return bl_bit_array_reserve(this, n_bits); }
 
   //! Shrinks the capacity of the BitArray to match the actual content with the intention to save memory.
   BL_INLINE_NODEBUG BLResult shrink() noexcept { return bl_bit_array_shrink(this); }
-- 
2.43.0


From c8e5558491bd3b72454225045bc6303d78e8c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 08/37] fix: fills with an explicit color ignored composition
 operators that override the source

---
 blend2d/raster/rastercontext.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 342c53a..c0a6ec2 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1417,7 +1417,9 @@ static BL_INLINE void prepare_non_solid_fetch(BLRasterContextImpl* ctx_impl, Dis
                                                                                  \
   DispatchInfo di;                                                               \
   di.init(resolved.signature, ctx_impl->internal_state.styleAlphaI[Slot]);            \
-  DispatchStyle ds{&solid}
+  DispatchStyle ds{&solid};                                                      \
+  if (resolved.flags != ContextFlags::kNoFlagsSet)                               \
+    ds.fetch_data = ctx_impl->solid_fetch_data_override_table[size_t(resolved.flags)]
 
 // Resolves an operation that uses explicit style (fill or stroke).
 #define BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(NopFlags, Slot, Style, Bail)        \
-- 
2.43.0


From 41c07e032e26b125d78c0dcffe145f814d236641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 09/37] fix: DST_IN with a transparent source left XRGB32
 pixels unchanged

---
 blend2d/core/compopsimplifyimpl_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/compopsimplifyimpl_p.h b/blend2d/core/compopsimplifyimpl_p.h
index 9563f52..4e7e751 100644
--- a/blend2d/core/compopsimplifyimpl_p.h
+++ b/blend2d/core/compopsimplifyimpl_p.h
@@ -239,7 +239,7 @@ struct CompOpSimplifyInfoImpl {
            d == Fmt::kPRGB32 && s == Fmt::kFRGB32 ? dst_copy(d, s) :
 
            d == Fmt::kXRGB32 && s == Fmt::kPRGB32 ? dst_in(Fmt::kPRGB32, Fmt::kPRGB32) :
-           d == Fmt::kXRGB32 && s == Fmt::kZERO32 ? dst_in(Fmt::kPRGB32, Fmt::kFRGB32) :
+           d == Fmt::kXRGB32 && s == Fmt::kZERO32 ? clear(d, s) :
            d == Fmt::kXRGB32 && s == Fmt::kXRGB32 ? dst_copy(d, s) :
            d == Fmt::kXRGB32 && s == Fmt::kFRGB32 ? dst_copy(d, s) :
 
-- 
2.43.0


From a513377afd676d0f3eece357aed0aeb793399a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 10/37] fix: Unicode conversion accepted UTF-8 encoded
 surrogates and misreported truncated or short input

---
 blend2d/unicode/unicode.cpp | 7 ++++++-
 blend2d/unicode/unicode_p.h | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/blend2d/unicode/unicode.cpp b/blend2d/unicode/unicode.cpp
index 508a688..ce5e13e 100644
--- a/blend2d/unicode/unicode.cpp
+++ b/blend2d/unicode/unicode.cpp
@@ -141,7 +141,7 @@ static BL_INLINE BLResult convert_unicode_impl(void* dst, size_t dst_size_in_byt
   state.dst_index = offset_of_ptr(dst, writer._ptr);
   state.src_index = offset_of_ptr(src, iter._ptr);
 
-  if (Iterator::kCharSize > 1 && result == BL_SUCCESS && !IntOps::is_aligned(state.src_index, Iterator::kCharSize))
+  if (Iterator::kCharSize > 1 && result == BL_SUCCESS && !IntOps::is_aligned(src_size_in_bytes, Iterator::kCharSize))
     return bl_make_error(BL_ERROR_DATA_TRUNCATED);
   else
     return result;
@@ -208,6 +208,11 @@ BLResult convert_unicode(
             break;
           }
         }
+
+        if (result == BL_SUCCESS) {
+          state.dst_index = writer.index(static_cast<char*>(dst));
+          state.src_index = src_size_in_bytes;
+        }
       }
 
       break;
diff --git a/blend2d/unicode/unicode_p.h b/blend2d/unicode/unicode_p.h
index 437ad1e..29be402 100644
--- a/blend2d/unicode/unicode_p.h
+++ b/blend2d/unicode/unicode_p.h
@@ -290,6 +290,12 @@ public:
         if (BL_UNLIKELY((b1 | b2) > 0x3Fu || uc < 0x800u))
           goto InvalidString;
 
+        // 3. Refuse surrogates, which are not characters.
+        if (bl_test_flag(kFlags, IOFlags::kStrict)) {
+          if (BL_UNLIKELY(is_surrogate(uc)))
+            goto InvalidString;
+        }
+
         // 3-Byte UTF-8 maps to one UTF-16 or UTF-32 code-point, so subtract 2.
         if (bl_test_flag(kFlags, IOFlags::kCalcIndex))
           _utf32_index_subtract += 2;
-- 
2.43.0


From 1c2546412b87c3cca92a2c3cf5f68f5486d00e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 11/37] fix: glyph buffer lost the invalid-text flag and read
 32-bit glyph ids with a 16-bit stride

---
 blend2d/core/glyphbuffer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index d528e41..47359ed 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -125,6 +125,8 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
   uint32_t* text_data = d->content;
   BLGlyphInfo* info_data = d->info_data;
 
+  d->flags = 0;
+
   while (reader.has_next()) {
     uint32_t uc;
     uint32_t cluster = uint32_t(reader.native_index(src));
@@ -142,7 +144,6 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
   }
 
   d->size = (size_t)(text_data - d->content);
-  d->flags = 0;
 
   if (d->size)
     d->flags |= BL_GLYPH_RUN_FLAG_UCS4_CONTENT;
@@ -282,7 +283,7 @@ BL_API_IMPL BLResult bl_glyph_buffer_set_glyphs(BLGlyphBufferCore* self, const u
   BL_PROPAGATE(bl_glyph_buffer_ensure_data(self, &d));
   BL_PROPAGATE(d->ensure_buffer(0, 0, size));
 
-  return bl_internal_glyph_buffer_data_set_glyph_ids(d, glyph_data, size, intptr_t(sizeof(uint16_t)));
+  return bl_internal_glyph_buffer_data_set_glyph_ids(d, glyph_data, size, intptr_t(sizeof(uint32_t)));
 }
 
 BL_API_IMPL BLResult bl_glyph_buffer_set_glyphs_from_struct(BLGlyphBufferCore* self, const void* glyph_data, size_t size, size_t glyph_id_size, intptr_t glyph_id_advance) noexcept {
-- 
2.43.0


From b1a6776389aa481e66093365a59bff4f38d68208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 12/37] fix: bit set add_range() inserted a duplicate segment
 when the range ended in a range segment

---
 blend2d/core/bitset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index a26ffe0..ab561b4 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2804,8 +2804,8 @@ InitRange:
   if (segment_index < segment_count) {
     BLBitSetSegment& next = segment_data[segment_index];
     if (next.all_ones() && next.start_word() <= inserter.prev().start_word()) {
-      init_range_segment(inserter.current(), inserter.prev().start_word(), next.end_word());
-      inserter.advance();
+      // The last Dense segment inserted is a part of the next Range segment, replace it.
+      init_range_segment(inserter.prev(), inserter.prev().start_word(), next.end_word());
       segment_index++;
     }
   }
-- 
2.43.0


From e6c5a8c45fe9f38233f7f6069cfef8ece7c92130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 13/37] fix: format sanitization misplaced components smaller
 than a byte when removing the byte swap

---
 blend2d/core/format.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/format.cpp b/blend2d/core/format.cpp
index 21d4957..216d127 100644
--- a/blend2d/core/format.cpp
+++ b/blend2d/core/format.cpp
@@ -193,10 +193,12 @@ BL_API_IMPL BLResult bl_format_info_sanitize(BLFormatInfo* self) noexcept {
     else if (!crosses_byte_boundary) {
       // Switch to native byte-order if no mask crosses byte boundaries.
       for (uint32_t i = 0; i < 4; i++) {
-        uint32_t size = f.sizes[i];
-        if (!size)
+        if (!f.sizes[i])
           continue;
-        f.shifts[i] = uint8_t(f.depth - f.shifts[i] - size);
+
+        // Swaps bytes, but keeps the position of the component within its byte.
+        uint32_t shift = f.shifts[i];
+        f.shifts[i] = uint8_t((f.depth - 8u - (shift & ~0x7u)) + (shift & 0x7u));
       }
 
       flags &= ~FormatFlagsExt::kByteSwap;
-- 
2.43.0


From 355885b0599802fc7bce49709f7605225ed1b02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 14/37] fix: multi-step pixel converter never initialized its
 second step

---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 3335efa..b59e3a1 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -2204,7 +2204,7 @@ static BLResult bl_pixel_converter_init_multi_step_internal(BLPixelConverterCore
 
   memset(ctx, 0, sizeof(*ctx));
   if ((result = bl_pixel_converter_init_internal(&ctx->first, intermediate, si, custom_flags)) != BL_SUCCESS ||
-      (result = bl_pixel_converter_init_internal(&ctx->first, di, intermediate, custom_flags)) != BL_SUCCESS) {
+      (result = bl_pixel_converter_init_internal(&ctx->second, di, intermediate, custom_flags)) != BL_SUCCESS) {
     bl_pixel_converter_reset(&ctx->first);
     bl_pixel_converter_reset(&ctx->second);
     free(ctx);
-- 
2.43.0


From 79e31f791a2aa290f4fc8d72924b7c9693c1fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 15/37] fix: indexed pixel converters used an uninitialized
 palette converter and a wrong all-ones test

---
 blend2d/core/pixelconverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index b59e3a1..d783471 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -633,7 +633,7 @@ static BLResult BL_CDECL bl_convert_any_from_indexed1(
   uint32_t c0 = PixelAccess::fetchA(d.embedded.table8 + 0 * kPixelSize);
   uint32_t cm = PixelAccess::fetchA(d.embedded.table8 + 1 * kPixelSize) ^ c0; // XOR mask.
 
-  if (c0 == 0 && cm == (0xFFFFFFFFu >> (32 - kPixelSize))) {
+  if (c0 == 0 && cm == (0xFFFFFFFFu >> (32 - kPixelSize * 8u))) {
     // Special case for zeros and all ones.
     for (uint32_t y = h; y != 0; y--) {
       const uint8_t* src_data = src_line;
@@ -1521,7 +1521,7 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
   // We need a temporary pixel converter to convert the palette to the destination pixel format. This operation should
   // not allocate any memory as the converter will convert native pixel format (BLRgba32) into a possibly non-native
   // one although a native pixel format is used most of the time.
-  BLPixelConverterCore pal_cvt;
+  BLPixelConverterCore pal_cvt {};
   BL_PROPAGATE(bl_pixel_converter_init_internal(&pal_cvt, di, palette_format_info, BL_PIXEL_CONVERTER_CREATE_NO_FLAGS));
 
   // If the source depth is 8 bits it means that we either use the source format's palette or make a copy of it
-- 
2.43.0


From f9d3d34082967507702fafdd62ce5351de29c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 16/37] fix: foreign to native pixel conversion ignored the
 alpha type of the destination format

---
 blend2d/core/pixelconverter.cpp | 36 +++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index d783471..242ef1d 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -988,6 +988,8 @@ static BLResult BL_CDECL bl_convert_prgb32_from_argb_any(
   uint32_t b_scale = d.scale[2];
   uint32_t a_scale = d.scale[3];
 
+  uint32_t fill_mask = d.fill_mask;
+
   for (uint32_t y = h; y != 0; y--) {
     if (!AlwaysUnaligned && bl::IntOps::is_aligned(dst_data, 4) && bl::IntOps::is_aligned(src_data, PixelAccess::kSize)) {
       for (uint32_t i = w; i != 0; i--) {
@@ -1008,7 +1010,7 @@ static BLResult BL_CDECL bl_convert_prgb32_from_argb_any(
         ag = (ag + ((ag >> 8) & 0x00FF00FFu)) & 0xFF00FF00u;
 
         rb >>= 8;
-        bl::MemOps::writeU32a(dst_data, ag + rb);
+        bl::MemOps::writeU32a(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1033,7 +1035,7 @@ static BLResult BL_CDECL bl_convert_prgb32_from_argb_any(
         ag = (ag + ((ag >> 8) & 0x00FF00FFu)) & 0xFF00FF00u;
 
         rb >>= 8;
-        bl::MemOps::writeU32u(dst_data, ag | rb);
+        bl::MemOps::writeU32u(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1077,6 +1079,8 @@ static BLResult BL_CDECL bl_convert_prgb32_from_prgb_any(
   uint32_t b_scale = d.scale[2];
   uint32_t a_scale = d.scale[3];
 
+  uint32_t fill_mask = d.fill_mask;
+
   for (uint32_t y = h; y != 0; y--) {
     if (!AlwaysUnaligned && bl::IntOps::is_aligned(dst_data, 4) && bl::IntOps::is_aligned(src_data, PixelAccess::kSize)) {
       for (uint32_t i = w; i != 0; i--) {
@@ -1089,7 +1093,7 @@ static BLResult BL_CDECL bl_convert_prgb32_from_prgb_any(
         uint32_t ag = (a + (g     )) & 0xFF00FF00u;
         uint32_t rb = (r + (b >> 8)) & 0x00FF00FFu;
 
-        bl::MemOps::writeU32a(dst_data, ag | rb);
+        bl::MemOps::writeU32a(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1106,7 +1110,7 @@ static BLResult BL_CDECL bl_convert_prgb32_from_prgb_any(
         uint32_t ag = (a + (g     )) & 0xFF00FF00u;
         uint32_t rb = (r + (b >> 8)) & 0x00FF00FFu;
 
-        bl::MemOps::writeU32u(dst_data, ag | rb);
+        bl::MemOps::writeU32u(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1934,10 +1938,17 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
   BLPixelConverterData::NativeFromForeign& d = bl_pixel_converter_get_data(self)->native_from_foreign;
 
   bool isSrcRGBA           = (si.flags & BL_FORMAT_FLAG_ALPHA) != 0;
+  bool isDstRGBA           = (di.flags & BL_FORMAT_FLAG_ALPHA) != 0;
   bool is_src_premultiplied  = (si.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
+  bool is_dst_premultiplied  = (di.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
   bool hasSrcHostBO        = (si.flags & BL_FORMAT_FLAG_BYTE_SWAP) == 0;
 
-  if (!isSrcRGBA)
+  // Non-premultiplied destination - premultiplied source has to be unpremultiplied and non-premultiplied source copied.
+  bool is_dst_straight = isDstRGBA && !is_dst_premultiplied;
+  bool unpremultiply = is_src_premultiplied && is_dst_straight;
+  bool premultiply = isSrcRGBA && !is_src_premultiplied && !is_dst_straight;
+
+  if (!isSrcRGBA || !isDstRGBA)
     d.fill_mask = 0xFF000000u;
 
   for (uint32_t i = 0; i < 4; i++) {
@@ -1986,7 +1997,10 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
   switch (si.depth) {
     case 16:
       // TODO:
-      if (is_src_premultiplied)
+      if (unpremultiply)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem16>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
+      else if (isSrcRGBA && !premultiply)
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem16>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
       else if (isSrcRGBA)
@@ -1998,7 +2012,10 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
       break;
 
     case 24:
-      if (is_src_premultiplied)
+      if (unpremultiply)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_NATIVE >, true>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
+      else if (isSrcRGBA && !premultiply)
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_NATIVE >, true>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
       else if (isSrcRGBA)
@@ -2010,7 +2027,10 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
       break;
 
     case 32:
-      if (is_src_premultiplied)
+      if (unpremultiply)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem32>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
+      else if (isSrcRGBA && !premultiply)
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem32>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
       else if (isSrcRGBA)
-- 
2.43.0


From 0f7fcf0ae0cae7fb02ac424719aea10bd5ba3b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 17/37] fix: native to foreign pixel conversion ignored the
 alpha type of the source format

---
 blend2d/core/pixelconverter.cpp | 114 ++++++++++++++++++++++++++++----
 1 file changed, 101 insertions(+), 13 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 242ef1d..49184db 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1405,6 +1405,74 @@ static BLResult BL_CDECL bl_convert_prgb_any_from_prgb32(
   return BL_SUCCESS;
 }
 
+template<typename PixelAccess, bool AlwaysUnaligned>
+static BLResult BL_CDECL bl_convert_prgb_any_from_argb32(
+  const BLPixelConverterCore* self,
+  uint8_t* dst_data, intptr_t dst_stride,
+  const uint8_t* src_data, intptr_t src_stride, uint32_t w, uint32_t h, const BLPixelConverterOptions* options) noexcept {
+
+  if (!options)
+    options = &bl_pixel_converter_default_options;
+
+  const size_t gap = options->gap;
+  dst_stride -= uintptr_t(w) * PixelAccess::kSize + gap;
+  src_stride -= uintptr_t(w) * 4;
+
+  const BLPixelConverterData::ForeignFromNative& d = bl_pixel_converter_get_data(self)->foreign_from_native;
+  uint32_t r_mask = d.masks[0];
+  uint32_t g_mask = d.masks[1];
+  uint32_t b_mask = d.masks[2];
+  uint32_t a_mask = d.masks[3];
+
+  uint32_t r_shift = d.shifts[0];
+  uint32_t g_shift = d.shifts[1];
+  uint32_t b_shift = d.shifts[2];
+  uint32_t a_shift = d.shifts[3];
+
+  for (uint32_t y = h; y != 0; y--) {
+    if (!AlwaysUnaligned && bl::IntOps::is_aligned(dst_data, PixelAccess::kSize) && bl::IntOps::is_aligned(src_data, 4)) {
+      for (uint32_t i = w; i != 0; i--) {
+        uint32_t pix = bl::PixelOps::Scalar::cvt_prgb32_8888_from_argb32_8888(bl::MemOps::readU32a(src_data));
+
+        uint32_t r = ((pix >> 16) & 0xFFu) * 0x01010101u;
+        uint32_t g = ((pix >>  8) & 0xFFu) * 0x01010101u;
+        uint32_t b = ((pix      ) & 0xFFu) * 0x01010101u;
+        uint32_t a = ((pix >> 24)        ) * 0x01010101u;
+
+        PixelAccess::storeA(dst_data, ((r >> r_shift) & r_mask) |
+                                     ((g >> g_shift) & g_mask) |
+                                     ((b >> b_shift) & b_mask) |
+                                     ((a >> a_shift) & a_mask));
+        dst_data += PixelAccess::kSize;
+        src_data += 4;
+      }
+    }
+    else {
+      for (uint32_t i = w; i != 0; i--) {
+        uint32_t pix = bl::PixelOps::Scalar::cvt_prgb32_8888_from_argb32_8888(bl::MemOps::readU32u(src_data));
+
+        uint32_t r = ((pix >> 16) & 0xFFu) * 0x01010101u;
+        uint32_t g = ((pix >>  8) & 0xFFu) * 0x01010101u;
+        uint32_t b = ((pix      ) & 0xFFu) * 0x01010101u;
+        uint32_t a = ((pix >> 24)        ) * 0x01010101u;
+
+        PixelAccess::storeU(dst_data, ((r >> r_shift) & r_mask) |
+                                     ((g >> g_shift) & g_mask) |
+                                     ((b >> b_shift) & b_mask) |
+                                     ((a >> a_shift) & a_mask));
+        dst_data += PixelAccess::kSize;
+        src_data += 4;
+      }
+    }
+
+    dst_data = bl_pixel_converter_fill_gap(dst_data, gap);
+    dst_data += dst_stride;
+    src_data += src_stride;
+  }
+
+  return BL_SUCCESS;
+}
+
 // bl::PixelConverter - Init - Utilities
 // =====================================
 
@@ -2052,7 +2120,7 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
 // =============================================
 
 static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore* self, const BLFormatInfo& di, const BLFormatInfo& si, BLPixelConverterCreateFlags create_flags) noexcept {
-  bl_unused(si, create_flags);
+  bl_unused(create_flags);
 
   BL_ASSERT(si.depth == 32);
   BL_ASSERT(si.flags & BL_FORMAT_FLAG_BYTE_ALIGNED);
@@ -2068,9 +2136,16 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
     BLPixelConverterData::ForeignFromNative& d = bl_pixel_converter_get_data(self)->foreign_from_native;
 
     bool isDstRGBA          = (di.flags & BL_FORMAT_FLAG_ALPHA) != 0;
+    bool isSrcRGBA          = (si.flags & BL_FORMAT_FLAG_ALPHA) != 0;
     bool is_dst_premultiplied = (di.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
+    bool is_src_premultiplied = (si.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
     bool hasDstHostBO       = (di.flags & BL_FORMAT_FLAG_BYTE_SWAP) == 0;
 
+    // Non-premultiplied destination - premultiplied source has to be unpremultiplied and non-premultiplied source copied.
+    bool is_dst_straight = isDstRGBA && !is_dst_premultiplied;
+    bool unpremultiply = is_src_premultiplied && is_dst_straight;
+    bool premultiply = isSrcRGBA && !is_src_premultiplied && !is_dst_straight;
+
     for (uint32_t i = 0; i < 4; i++) {
       uint32_t mask = 0;
       uint32_t size = di.sizes[i];
@@ -2085,39 +2160,52 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
       d.shifts[i] = uint8_t(shift);
     }
 
+    // Source pixels without alpha are opaque.
+    if (!isSrcRGBA)
+      d.fill_mask = d.masks[3];
+
     BLPixelConverterFunc func = nullptr;
     switch (di.depth) {
       case 16:
-        if (is_dst_premultiplied)
-          func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem16>
-                              : bl_convert_prgb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
-        else if (isDstRGBA)
+        if (unpremultiply)
           func = hasDstHostBO ? bl_convert_argb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem16>
                               : bl_convert_argb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
+        else if (premultiply)
+          func = hasDstHostBO ? bl_convert_prgb_any_from_argb32<BLPixelAccess16<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem16>
+                              : bl_convert_prgb_any_from_argb32<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
+        else if (isSrcRGBA && isDstRGBA)
+          func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem16>
+                              : bl_convert_prgb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
         else
           func = hasDstHostBO ? bl_convert_xrgb_any_from_xrgb32<BLPixelAccess16<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem16>
                               : bl_convert_xrgb_any_from_xrgb32<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
         break;
 
       case 24:
-        if (is_dst_premultiplied)
-          func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_NATIVE>, true>
-                              : bl_convert_prgb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
-        else if (isDstRGBA)
+        if (unpremultiply)
           func = hasDstHostBO ? bl_convert_argb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_NATIVE>, true>
                               : bl_convert_argb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
+        else if (premultiply)
+          func = hasDstHostBO ? bl_convert_prgb_any_from_argb32<BLPixelAccess24<BL_BYTE_ORDER_NATIVE>, true>
+                              : bl_convert_prgb_any_from_argb32<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
+        else if (isSrcRGBA && isDstRGBA)
+          func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_NATIVE>, true>
+                              : bl_convert_prgb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
         else
           func = hasDstHostBO ? bl_convert_xrgb_any_from_xrgb32<BLPixelAccess24<BL_BYTE_ORDER_NATIVE>, true>
                               : bl_convert_xrgb_any_from_xrgb32<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
         break;
 
       case 32:
-        if (is_dst_premultiplied)
-          func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem32>
-                              : bl_convert_prgb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
-        else if (isDstRGBA)
+        if (unpremultiply)
           func = hasDstHostBO ? bl_convert_argb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem32>
                               : bl_convert_argb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
+        else if (premultiply)
+          func = hasDstHostBO ? bl_convert_prgb_any_from_argb32<BLPixelAccess32<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem32>
+                              : bl_convert_prgb_any_from_argb32<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
+        else if (isSrcRGBA && isDstRGBA)
+          func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem32>
+                              : bl_convert_prgb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
         else
           func = hasDstHostBO ? bl_convert_xrgb_any_from_xrgb32<BLPixelAccess32<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem32>
                               : bl_convert_xrgb_any_from_xrgb32<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
-- 
2.43.0


From a8bf03b0835af3025e0e3d97ffa5b86dc0626e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:39 +0000
Subject: [PATCH 18/37] fix: pixel converter altered a palette that it was only
 allowed to reference

---
 blend2d/core/pixelconverter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 49184db..7565acb 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1689,7 +1689,8 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
 static BLResult bl_pixel_converter_init_copy_8888_with_fill_mask(BLPixelConverterCore* self, const BLFormatInfo& di, const BLFormatInfo& si) noexcept {
   BLPixelConverterData::MemCopyData& d = bl_pixel_converter_get_data(self)->mem_copy_data;
 
-  d.internal_flags = BL_PIXEL_CONVERTER_INTERNAL_FLAG_INITIALIZED | BL_PIXEL_CONVERTER_INTERNAL_FLAG_RAW_COPY ;
+  // NOTE: Not a raw copy as it alters undefined bits or alpha.
+  d.internal_flags = BL_PIXEL_CONVERTER_INTERNAL_FLAG_INITIALIZED;
   d.bytes_per_pixel = uint8_t(di.depth / 8u);
 
   // Required to handle Copy32, XRGB32<-PRGB32, and PRGB32<-XRGB32 conversions.
-- 
2.43.0


From 0a62b68f0e392249c80ab974225588e35a8dcb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:54 +0000
Subject: [PATCH 19/37] fix: look up inline font features by their feature id
 in has_value()

---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index 7ccd6f2..982411d 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -467,7 +467,7 @@ BL_API_IMPL bool bl_font_feature_settings_has_value(const BLFontFeatureSettingsC
     }
     else {
       uint32_t dummy_index;
-      return find_sso_fat_tag(self, feature_info.bit_id, &dummy_index);
+      return find_sso_fat_tag(self, id, &dummy_index);
     }
   }
 
-- 
2.43.0


From 2681b91fed536c1afb2860040967ef70d2f87685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:54 +0000
Subject: [PATCH 20/37] fix: don't store font feature values that don't fit the
 inline storage

---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index 982411d..ae5a2cc 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -525,7 +525,7 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
           return BL_SUCCESS;
         }
       }
-      else if (value <= kSSOFatFeatureTagBitMask) {
+      else if (value <= kSSOFatFeatureValueBitMask) {
         uint32_t index;
         if (find_sso_fat_tag(self, feature_id, &index)) {
           update_sso_fat_value(self, index, value);
-- 
2.43.0


From 07b9906eea766c75bc0c48e5200875fd6a6472b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:54 +0000
Subject: [PATCH 21/37] fix: keep the values of remaining inline font features
 when removing one

---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index ae5a2cc..b89c946 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -114,7 +114,7 @@ static BL_INLINE void remove_sso_fat_tag(BLFontFeatureSettingsCore* self, uint32
   uint32_t vals_lsb_mask = ((1u << val_offset) - 1u);
 
   tags = (tags & tags_lsb_mask) | ((tags >> kSSOFatFeatureTagBitCount) & ~tags_lsb_mask) | (kSSOInvalidFatFeatureId << ((kSSOFatFeatureCount - 1) * kSSOFatFeatureTagBitCount));
-  vals = (vals & vals_lsb_mask) | ((vals >> kSSOFatFeatureValueBitCount) & ~tags_lsb_mask);
+  vals = (vals & vals_lsb_mask) | ((vals >> kSSOFatFeatureValueBitCount) & ~vals_lsb_mask);
 
   self->_d.u32_data[2] = tags;
   self->_d.info.bits = ((self->_d.info.bits & ~kValueDataMask) - (1u << BL_OBJECT_INFO_A_SHIFT)) | (vals & kValueDataMask);
-- 
2.43.0


From 1a2afafa3fb1f8cee7c36f80bfe8bd420102652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:54 +0000
Subject: [PATCH 22/37] fix: refuse out of range values of boolean font
 features in dynamic containers too

---
 blend2d/core/fontfeaturesettings.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index b89c946..d880b21 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -503,6 +503,9 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
   uint32_t feature_id = bl::FontTagData::feature_tag_to_id(feature_tag);
   bool can_modify = true;
 
+  if (BL_UNLIKELY(value > 1u && feature_id != bl::FontTagData::kInvalidId && bl::FontTagData::feature_info_table[feature_id].has_bit_id()))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   // SSO Mode
   // --------
 
-- 
2.43.0


From 2ab2bd452ad16117bc961e86392b0c5ab4b34fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:52 +0000
Subject: [PATCH 23/37] fix: don't return memory past the end of an arena block
 from an aligned allocation

---
 blend2d/support/arenaallocator_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/support/arenaallocator_p.h b/blend2d/support/arenaallocator_p.h
index f6628b7..8854d1e 100644
--- a/blend2d/support/arenaallocator_p.h
+++ b/blend2d/support/arenaallocator_p.h
@@ -268,7 +268,7 @@ public:
     BL_ASSERT(IntOps::is_power_of_2(alignment));
     uint8_t* ptr = IntOps::align_up(_ptr, alignment);
 
-    if (size > (size_t)(_end - ptr))
+    if (ptr > _end || size > (size_t)(_end - ptr))
       return _alloc(size, alignment);
 
     _ptr = ptr + size;
-- 
2.43.0


From a96e8370ba001faef00b73ebca955516647dbdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:52 +0000
Subject: [PATCH 24/37] fix: restore an arena state saved when its block was
 full

---
 blend2d/support/arenaallocator_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/support/arenaallocator_p.h b/blend2d/support/arenaallocator_p.h
index 8854d1e..3a1562d 100644
--- a/blend2d/support/arenaallocator_p.h
+++ b/blend2d/support/arenaallocator_p.h
@@ -377,7 +377,7 @@ public:
     Block* block = _block;
     size_t alignment = block_alignment();
 
-    while (p < block->data() || p >= block->end()) {
+    while (p < block->data() || p > block->end()) {
       if (!block->prev) {
         // Special case - can happen in case that the allocator didn't have allocated any block when `save_state()`
         // was called. In that case we won't restore to the shared null block, instead we restore to the first block
-- 
2.43.0


From 6283577607f5713270db1de03fc4403af0c62ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 25/37] fix: BLVar::to_bool() of a string stores the result
 instead of returning it as an error code

---
 blend2d/core/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index 8dda62c..c21d5f1 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -217,7 +217,8 @@ BL_API_IMPL BLResult bl_var_to_bool(const BLUnknown* self, bool* out) noexcept {
     }
 
     case BL_OBJECT_TYPE_STRING: {
-      return !static_cast<const BLString*>(static_cast<const BLObjectCore*>(self))->is_empty();
+      *out = !static_cast<const BLString*>(static_cast<const BLObjectCore*>(self))->is_empty();
+      return BL_SUCCESS;
     }
 
     default: {
-- 
2.43.0


From e061bc6505947acff7d9baa106184a81ba608c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:37 +0000
Subject: [PATCH 26/37] fix: bl_var_equals() of two doubles compares both
 values

---
 blend2d/core/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index c21d5f1..fc87765 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -680,7 +680,7 @@ BL_API_IMPL bool bl_var_equals(const BLUnknown* a, const BLUnknown* b) noexcept
       return false;
 
     case BL_OBJECT_TYPE_DOUBLE:
-      return a_d.f64_data[0] == a_d.f64_data[0];
+      return a_d.f64_data[0] == b_d.f64_data[0] || (bl::Math::is_nan(a_d.f64_data[0]) && bl::Math::is_nan(b_d.f64_data[0]));
 
     case BL_OBJECT_TYPE_STRING:
       return bl_string_equals(static_cast<const BLStringCore*>(a), static_cast<const BLStringCore*>(b));
-- 
2.43.0


From 3d109e2392649e4460aeae5cd09fe6a410fc4245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:37 +0000
Subject: [PATCH 27/37] fix: BLVar holding BLRgba with a negative alpha is not
 mistaken for an object

---
 blend2d/core/var.h   | 2 +-
 blend2d/core/var_p.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/var.h b/blend2d/core/var.h
index 83b88e4..34e9765 100644
--- a/blend2d/core/var.h
+++ b/blend2d/core/var.h
@@ -175,7 +175,7 @@ struct VarOps<BLRgba, kTypeCategoryStruct> {
     uint32_t r = bl_bit_cast<uint32_t>(value.r);
     uint32_t g = bl_bit_cast<uint32_t>(value.g);
     uint32_t b = bl_bit_cast<uint32_t>(value.b);
-    uint32_t a = bl_max<uint32_t>(bl_bit_cast<uint32_t>(value.a), 0);
+    uint32_t a = uint32_t(bl_max<int32_t>(bl_bit_cast<int32_t>(value.a), 0));
     self->_d.init_u32x4(r, g, b, a);
   }
 
diff --git a/blend2d/core/var_p.h b/blend2d/core/var_p.h
index 84f17ab..b3664ed 100644
--- a/blend2d/core/var_p.h
+++ b/blend2d/core/var_p.h
@@ -28,7 +28,7 @@ static BL_INLINE BLResult init_rgba(BLObjectCore* self, const BLRgba* rgba) noex
   uint32_t r = bl_bit_cast<uint32_t>(rgba->r);
   uint32_t g = bl_bit_cast<uint32_t>(rgba->g);
   uint32_t b = bl_bit_cast<uint32_t>(rgba->b);
-  uint32_t a = bl_max<uint32_t>(bl_bit_cast<uint32_t>(rgba->a), 0);
+  uint32_t a = uint32_t(bl_max<int32_t>(bl_bit_cast<int32_t>(rgba->a), 0));
 
   self->_d.init_u32x4(r, g, b, a);
   return BL_SUCCESS;
-- 
2.43.0


From 7e22b085021b7bd20d078636e4ca6bbce0d647c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:37 +0000
Subject: [PATCH 28/37] fix: BLVar conversion of 2^63 and 2^64 to an integer
 saturates

---
 blend2d/core/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index fc87765..199335e 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -341,7 +341,7 @@ BL_API_IMPL BLResult bl_var_to_int64(const BLUnknown* self, int64_t* out) noexce
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
 
-      if (f > double(INT64_MAX)) {
+      if (f >= 9223372036854775808.0) {
         *out = INT64_MAX;
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
@@ -479,7 +479,7 @@ BL_API_IMPL BLResult bl_var_to_uint64(const BLUnknown* self, uint64_t* out) noex
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
 
-      if (f > double(UINT64_MAX)) {
+      if (f >= 18446744073709551616.0) {
         *out = UINT64_MAX;
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
-- 
2.43.0


From 0805fa87a860369c11129351eda7884a8ad795b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:34 +0000
Subject: [PATCH 29/37] fix: BLGlyphBuffer drops glyph placement of the
 previous content when text or glyphs are set

---
 blend2d/core/glyphbuffer.cpp | 3 +++
 blend2d/core/glyphbuffer_p.h | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index 47359ed..7aaf687 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -97,6 +97,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_glyph_ids(BLGlyphBuf
 
   d->size = size;
   d->flags = 0;
+  d->reset_placement();
   return BL_SUCCESS;
 }
 
@@ -111,6 +112,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_latin1_text(BLGlyphB
 
   d->size = size;
   d->flags = 0;
+  d->reset_placement();
 
   if (d->size)
     d->flags |= BL_GLYPH_RUN_FLAG_UCS4_CONTENT;
@@ -144,6 +146,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
   }
 
   d->size = (size_t)(text_data - d->content);
+  d->reset_placement();
 
   if (d->size)
     d->flags |= BL_GLYPH_RUN_FLAG_UCS4_CONTENT;
diff --git a/blend2d/core/glyphbuffer_p.h b/blend2d/core/glyphbuffer_p.h
index 7dbebfc..dea4bb6 100644
--- a/blend2d/core/glyphbuffer_p.h
+++ b/blend2d/core/glyphbuffer_p.h
@@ -92,6 +92,12 @@ struct BLGlyphBufferPrivateImpl : public BLGlyphBufferImpl {
 
   BL_HIDDEN BLResult ensure_buffer(size_t buffer_id, size_t copy_size, size_t min_capacity) noexcept;
 
+  //! Drops placement that describes a previous content.
+  BL_INLINE void reset_placement() noexcept {
+    glyph_run.placement_type = BL_GLYPH_PLACEMENT_TYPE_NONE;
+    placement_data = nullptr;
+  }
+
   BL_INLINE BLResult ensure_placement() noexcept {
     BL_PROPAGATE(ensure_buffer(1, 0, size));
     placement_data = reinterpret_cast<BLGlyphPlacement*>(buffer[1]);
-- 
2.43.0


From e385edac02ac2339394f89806a01bbee1db79e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:57 +0000
Subject: [PATCH 30/37] fix: PNG deinterlacing of 2-bit and 4-bit images with
 an incomplete last group of pixels

---
 blend2d/codec/pngcodec.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 66cfb7f..9030cff 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -460,7 +460,7 @@ static void deinterlace_bits(
           a = uint32_t(*d2++);
           b = 0;
 
-          if (x >=  3) a  = (uint32_t(*d3++) << 8);
+          if (x >=  3) a += (uint32_t(*d3++) << 8);
           if (x >=  2) b  = (uint32_t(*d5++)     );
           if (x >= 10) b += (uint32_t(*d5++) << 8);
 
@@ -506,10 +506,10 @@ static void deinterlace_bits(
           if (x >= 2)
             b = uint32_t(*d5++);
 
-          tmp_data[0] = combineByte2bpp(a     , b >> 10, b >> 4, b >> 12);
+          tmp_data[0] = combineByte2bpp(a     , b >> 2, a >> 2, b >> 4);
           if (x <=  4) break;
 
-          tmp_data[1] = combineByte2bpp(a >> 8, b >>  6, b >> 2, b >>  8);
+          tmp_data[1] = combineByte2bpp(a << 4, b << 2, a << 2, b     );
           break;
         }
       }
@@ -616,7 +616,7 @@ static void deinterlace_bits(
           tmp_data[1] = combineByte4bpp(a >> 8, b);
           if (x <= 4) break;
 
-          b = uint32_t(*d5++);
+          if (x >= 6) b = uint32_t(*d5++);
           tmp_data[2] = combineByte4bpp(a << 4, b >> 4);
           if (x <= 6) break;
 
-- 
2.43.0


From 33c9e75f3e95fe93e8c2e53beddd0dbd90107501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 31/37] fix: PNG decoder reads chunks up to the end of the
 data, not 8 bytes before it

---
 blend2d/codec/pngcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 9030cff..84819bc 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -929,7 +929,7 @@ static BLResult decoder_read_info_internal(BLPngDecoderImpl* decoder_impl, const
     return bl_make_error(BL_ERROR_INVALID_SIGNATURE);
   }
 
-  ChunkReader chunk_reader(p + kPngSignatureSize, p + size - kPngSignatureSize);
+  ChunkReader chunk_reader(p + kPngSignatureSize, p + size);
 
   // Already verified by `kMinSize_PNG` check - so it must be true.
   BL_ASSERT(chunk_reader.has_chunk());
-- 
2.43.0


From 7976750fccd3b3a34d281b0c876520dc58059dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 32/37] fix: PNG decoder refuses images that are too large
 before their size overflows

---
 blend2d/codec/pngcodec.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 84819bc..7d2c298 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -155,11 +155,10 @@ static uint32_t calculate_interlace_steps(
     // five rows, some passes will be empty, decoders must handle this case.
     uint32_t used = sw != 0 && sh != 0;
 
-    // NOTE: No need to check for overflow at this point as we have already
-    // calculated the total BPL of the whole image, and since interlacing is
-    // splitting it into multiple images, it can't overflow the base size.
+    // NOTE: BPL cannot overflow as the size of the image was already checked, however, the size of all rows can.
+    bl::OverflowFlag of{};
     uint32_t bpl = ((sw * sample_depth + 7) / 8) * sample_count + 1;
-    uint32_t size = used ? bpl * sh : uint32_t(0);
+    uint32_t size = used ? IntOps::mul_overflow(bpl, sh, &of) : uint32_t(0);
 
     dst->used = used;
     dst->width = sw;
@@ -169,8 +168,6 @@ static uint32_t calculate_interlace_steps(
     dst->offset = offset;
     dst->size = size;
 
-    // Here we should be safe...
-    bl::OverflowFlag of{};
     offset = IntOps::add_overflow(offset, size, &of);
 
     if (BL_UNLIKELY(of)) {
@@ -984,7 +981,7 @@ static BLResult decoder_read_info_internal(BLPngDecoderImpl* decoder_impl, const
     return bl_make_error(BL_ERROR_INVALID_DATA);
   }
 
-  if (BL_UNLIKELY(w >= 0x80000000u || h >= 0x80000000u)) {
+  if (BL_UNLIKELY(w > BL_RUNTIME_MAX_IMAGE_SIZE || h > BL_RUNTIME_MAX_IMAGE_SIZE)) {
     return bl_make_error(BL_ERROR_IMAGE_TOO_LARGE);
   }
 
-- 
2.43.0


From c9947b180ca050af38e30b6de980c2722f6acdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 33/37] fix: PNG decoder refuses an indexed image without a
 palette

---
 blend2d/codec/pngcodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 7d2c298..57c76cc 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1231,6 +1231,11 @@ static BLResult decoder_read_important_chunks(BLPngDecoderImpl* decoder_impl, co
     png_fmt.palette = decoder_impl->palette_data;
   }
   else if (decoder_impl->color_type == kColorType3_PAL) {
+    // Indexed images require a palette.
+    if (!decoder_impl->has_flag(DecoderStatusFlags::kRead_PLTE)) {
+      return bl_make_error(BL_ERROR_PNG_INVALID_PLTE);
+    }
+
     png_fmt.add_flags(BLFormatFlags(BL_FORMAT_FLAG_RGBA | BL_FORMAT_FLAG_INDEXED));
     png_fmt.palette = decoder_impl->palette_data;
   }
-- 
2.43.0


From efb8e2177cd64a4ea9a7617f93af49dc5e478e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:45 +0000
Subject: [PATCH 34/37] fix: BMP decoder accepts the V5 header (124 bytes)

---
 blend2d/codec/bmpcodec_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/bmpcodec_p.h b/blend2d/codec/bmpcodec_p.h
index 78fd5f5..4b37ae2 100644
--- a/blend2d/codec/bmpcodec_p.h
+++ b/blend2d/codec/bmpcodec_p.h
@@ -26,7 +26,7 @@ static constexpr uint32_t kHeaderSizeWIN_V1 = 40;
 static constexpr uint32_t kHeaderSizeWIN_V2 = 52;
 static constexpr uint32_t kHeaderSizeWIN_V3 = 56;
 static constexpr uint32_t kHeaderSizeWIN_V4 = 108;
-static constexpr uint32_t kHeaderSizeWIN_V5 = 12;
+static constexpr uint32_t kHeaderSizeWIN_V5 = 124;
 
 static constexpr uint32_t kCompressionRGB = 0;
 static constexpr uint32_t kCompressionRLE8 = 1;
-- 
2.43.0


From 66cef38d250c110af0b7255b40488bbc7fb590f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:52 +0000
Subject: [PATCH 35/37] fix: BMP RLE decoder doesn't write past the last row
 when moved there

---
 blend2d/codec/bmpcodec.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index 9a638a7..e82496d 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -217,13 +217,13 @@ static BLResult decodeRLE4(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         dst_data = dst_line;
       }
 
-      for (; x < to_x; x++, dst_data += 4) {
-        MemOps::writeU32a(dst_data, kRleBackground);
-      }
-
       if (b1 == kRleStop || y == h) {
         return BL_SUCCESS;
       }
+
+      for (; x < to_x; x++, dst_data += 4) {
+        MemOps::writeU32a(dst_data, kRleBackground);
+      }
     }
   }
 }
@@ -314,13 +314,13 @@ static BLResult decodeRLE8(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         dst_data = dst_line;
       }
 
-      for (; x < to_x; x++, dst_data += 4) {
-        MemOps::writeU32a(dst_data, kRleBackground);
-      }
-
       if (b1 == kRleStop || y == h) {
         return BL_SUCCESS;
       }
+
+      for (; x < to_x; x++, dst_data += 4) {
+        MemOps::writeU32a(dst_data, kRleBackground);
+      }
     }
   }
 }
-- 
2.43.0


From c72a6f4cb6b18f21569f8fa95088fce5a9e85a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:55 +0000
Subject: [PATCH 36/37] fix: BMP decoder refuses an image of zero height when
 its information is read

---
 blend2d/codec/bmpcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index e82496d..0a2304b 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -403,7 +403,7 @@ static BLResult decoder_read_info_internal(BLBmpDecoderImpl* decoder_impl, const
   }
 
   // Verify whether input data is ok.
-  if (h == Traits::min_value<int32_t>() || w <= 0) {
+  if (h == Traits::min_value<int32_t>() || h == 0 || w <= 0) {
     return bl_make_error(BL_ERROR_INVALID_DATA);
   }
 
-- 
2.43.0


From b437b35f97e16959499c89e3009eca52891abe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:10 +0000
Subject: [PATCH 37/37] fix: DEFLATE encoder keeps the whole compressed data
 when it appends to an array

---
 blend2d/compression/deflateencoder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/compression/deflateencoder.cpp b/blend2d/compression/deflateencoder.cpp
index 8ff5d32..cf32254 100644
--- a/blend2d/compression/deflateencoder.cpp
+++ b/blend2d/compression/deflateencoder.cpp
@@ -2182,8 +2182,10 @@ BLResult Encoder::compress(BLArray<uint8_t>& dst, BLModifyOp modify_op, BLDataVi
 
   BL_PROPAGATE(dst.modify_op(modify_op, min_output_size, &output_buffer));
 
+  // Bytes that were in `dst` before, which precede the compressed ones if the operation appends.
+  size_t output_index = size_t(output_buffer - dst.data());
   size_t output_size = compress_to(output_buffer, min_output_size, input.data, input.size);
-  return dst.truncate(output_size);
+  return dst.truncate(output_index + output_size);
 }
 
 } // {bl::Compression::Deflate}
-- 
2.43.0

