From 7faf4ecb8ff9841604ce8c4dfd114b79bd2eca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:59 +0000
Subject: [PATCH 01/38] fix: don't load past the end of the buffer when
 scanning a varint

pb_varint_scan loaded 16 bytes regardless of how many bytes were left, reading
up to 15 bytes past the end of the buffer. Only use the SSE2 path if 16 bytes
are left, otherwise scan linearly.
---
 src/core/varint.c | 48 ++++++++++++++++-------------------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 3e36101..32d508e 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -458,21 +458,13 @@ pb_varint_pack_sint64(uint8_t data[], const void *value) {
  * This function checks if an underrun might happen reading a variable-sized
  * integer from a buffer. Only underruns can be checked using this method,
  * overflows may still happen, but are properly reported by the unpack
- * functions. SSE2 intrinsics are used if the compiler supports it.
+ * functions. SSE2 intrinsics are used if the compiler supports it and there
+ * are at least 16 bytes left, so the load doesn't extend past the buffer.
  *
  * The SSE2 version works in constant time and independent of input length.
  *
- * \warning The SSE2 version is implemented for up to 10 bytes of length, so if
- * an encoded integer with more than 10 high-bits is encountered, an underrun
- * is falsely reported. This could be omitted by introducing a further branch
- * checking if the buffer is larger than 10 bytes and falling back to the
- * non-SSE version, but as it's an entirely internal case that is properly
- * handled by all invoking functions there is no necessity.
- *
- * \warning Using valgrind for tracking down invalid memory accesses, memcheck
- * will complain when it sees loads on data that extend to uninitialized memory
- * regions. This, however, is a false-positive, as uninitialized values are
- * singled out using the mapped bitmask.
+ * \warning At most 10 bytes are scanned, so if an encoded integer with more
+ * than 10 high-bits is encountered, an underrun is reported.
  *
  * \param[in] data[] Source buffer
  * \param[in] left   Remaining bytes
@@ -481,39 +473,31 @@ pb_varint_pack_sint64(uint8_t data[], const void *value) {
 extern size_t
 pb_varint_scan(const uint8_t data[], size_t left) {
   assert(data && left);
-  left = left > 10 ? 10 : left;
 
 #ifdef __SSE2__
 
-  /* Mapping: remaining bytes ==> bitmask */
-  static const int mask_map[] = {
-    0x0000, 0x0001, 0x0003, 0x0007,
-    0x000F, 0x001F, 0x003F, 0x007F,
-    0x00FF, 0x01FF, 0x03FF
-  };
-
-  /* Load buffer into 128-bit integer and create high-bit mask */
-  __m128i temp = _mm_loadu_si128((const __m128i *)data);
-  __m128i high = _mm_set1_epi8(0x80);
+  /* Loading 16 bytes is only safe if they are part of the buffer */
+  if (left >= sizeof(__m128i)) {
+    __m128i temp = _mm_loadu_si128((const __m128i *)data);
+    __m128i high = _mm_set1_epi8(0x80);
 
-  /* Intersect and extract mask with high-bits set */
-  int mask = _mm_movemask_epi8(_mm_and_si128(temp, high));
-  mask = (mask & mask_map[left]) ^ mask_map[left];
+    /* Intersect and extract mask with high-bits set */
+    int mask = _mm_movemask_epi8(_mm_and_si128(temp, high));
+    mask = (mask & 0x03FF) ^ 0x03FF;
 
-  /* Count trailing zeroes */
-  return mask ? __builtin_ctz(mask) + 1 : 0;
+    /* Count trailing zeroes */
+    return mask ? __builtin_ctz(mask) + 1 : 0;
+  }
 
-#else
+#endif /* __SSE2__ */
 
   /* Linear scan */
   size_t size = 0;
+  left = left > 10 ? 10 : left;
   while (data[size++] & 0x80)
     if (!--left)
       return 0;
   return size;
-
-#endif /* __SSE2__ */
-
 }
 
 /* ------------------------------------------------------------------------- */
-- 
2.43.0


From a8feaad37100454adfa44e68fc5c6f0f8ab31c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 02/38] fix: don't read past the end of a truncated negative
 32-bit varint

---
 src/core/varint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 32d508e..36bcf49 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -523,7 +523,7 @@ extern size_t
 pb_varint_unpack_int32(const uint8_t data[], size_t left, void *value) {
   size_t size = pb_varint_unpack_uint32(data, left, value);
   return size ? size :
-    data[4] & 0x80 && data[5] == 0xFF ? 10 : 0;
+    pb_varint_scan(data, left) == 10 && data[5] == 0xFF ? 10 : 0;
 }
 
 /*!
-- 
2.43.0


From 73576b129ca8f13223aefb663af7766fbaa9651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 03/38] fix: report an error when skipping a value of invalid
 wiretype

---
 src/core/stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/stream.h b/src/core/stream.h
index bdd40bd..4ded24e 100644
--- a/src/core/stream.h
+++ b/src/core/stream.h
@@ -211,7 +211,9 @@ pb_stream_read(pb_stream_t *stream, pb_type_t type, void *value) {
 PB_INLINE PB_WARN_UNUSED_RESULT
 pb_error_t
 pb_stream_skip(pb_stream_t *stream, pb_wiretype_t wiretype) {
-  assert(pb_stream_skip_jump[wiretype]);
+  if (unlikely_(wiretype > PB_WIRETYPE_32BIT ||
+      !pb_stream_skip_jump[wiretype]))
+    return PB_ERROR_INVALID;
   return pb_stream_skip_jump[wiretype](stream);
 }
 
-- 
2.43.0


From 5ac0c0a2f4831af4d4a8a0676e88f5703577888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 04/38] fix: don't read varints from an exhausted stream

---
 src/core/stream.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/stream.c b/src/core/stream.c
index 71c395d..145ff09 100644
--- a/src/core/stream.c
+++ b/src/core/stream.c
@@ -45,6 +45,8 @@
 static pb_error_t
 read_varint(pb_stream_t *stream, pb_type_t type, void *value) {
   assert(stream && value);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   size_t size = pb_varint_unpack(type,
     pb_buffer_data_from(stream->buffer, stream->offset),
     pb_stream_left(stream), value);
@@ -82,6 +84,8 @@ read_64bit(pb_stream_t *stream, pb_type_t type, void *value) {
 static pb_error_t
 read_length(pb_stream_t *stream, pb_type_t type, void *value) {
   assert(stream && value);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   uint32_t length = 0;
   size_t size = pb_varint_unpack_uint32(
     pb_buffer_data_from(stream->buffer, stream->offset),
@@ -126,6 +130,8 @@ read_32bit(pb_stream_t *stream, pb_type_t type, void *value) {
 static pb_error_t
 skip_varint(pb_stream_t *stream) {
   assert(stream);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   size_t size = pb_varint_scan(
     pb_buffer_data_from(stream->buffer, stream->offset),
     pb_stream_left(stream));
@@ -155,6 +161,8 @@ skip_64bit(pb_stream_t *stream) {
 static pb_error_t
 skip_length(pb_stream_t *stream) {
   assert(stream);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   uint32_t length = 0;
   size_t size = pb_varint_unpack_uint32(
     pb_buffer_data_from(stream->buffer, stream->offset),
-- 
2.43.0


From d28df49865b3b5cbc6f91f73d1b7fb82f9b5540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 05/38] fix: don't decode fields of unexpected wiretype

---
 src/core/decoder.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 8877ea5..9a73aa2 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -96,10 +96,11 @@ pb_decoder_decode(
     pb_wiretype_t wiretype = tag & 7;
     tag >>= 3;
 
-    /* Check descriptor and skip field if unknown */
+    /* Check descriptor and skip field if unknown or of unexpected wiretype */
     const pb_field_descriptor_t *descriptor =
       pb_descriptor_field_by_tag(decoder->descriptor, tag);
-    if (unlikely_(!descriptor)) {
+    if (unlikely_(!descriptor || (wiretype != PB_WIRETYPE_LENGTH &&
+        wiretype != pb_field_descriptor_wiretype(descriptor)))) {
       error = pb_stream_skip(&stream, wiretype);
       continue;
     }
-- 
2.43.0


From 060c607d5db12a8c8336e2132686e34966c0709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 06/38] fix: don't decode packed values beyond the packed field

---
 src/core/decoder.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 9a73aa2..27ee514 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -125,7 +125,9 @@ pb_decoder_decode(
       /* Iterate values of packed field */
       while (!error && pb_stream_offset(&stream) < offset + length)
         if (likely_(!(error = pb_stream_read(&stream, type, value))))
-          error = handler(descriptor, value, user);
+          error = pb_stream_offset(&stream) > offset + length
+            ? PB_ERROR_OFFSET
+            : handler(descriptor, value, user);
 
     /* Read value of given type from stream */
     } else {
-- 
2.43.0


From c8c7f135221edfb16a3349231aeb798cec8cf860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 07/38] fix: don't grow the stack with every decoded field

---
 src/core/decoder.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 27ee514..3c303e4 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -85,6 +85,10 @@ pb_decoder_decode(
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
 
+  /* Reserve temporary space for type-agnostic decoding */
+  union { uint64_t integer; double real; pb_string_t string; } space;
+  void *value = &space;
+
   /* Iterate tag-value pairs */
   pb_stream_t stream = pb_stream_create(decoder->buffer);
   while (!error && pb_stream_left(&stream)) {
@@ -105,10 +109,6 @@ pb_decoder_decode(
       continue;
     }
 
-    /* Allocate temporary space for type-agnostic decoding */
-    size_t item = pb_field_descriptor_type_size(descriptor);
-    void *value = alloca(item);
-
     /* Non-packed fields may also be encoded in packed encoding */
     pb_type_t type = pb_field_descriptor_type(descriptor);
     if (wiretype != pb_field_descriptor_wiretype(descriptor) &&
-- 
2.43.0


From 8a671b151f1ebd59c13a3ce166c5748bb0d5fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 08/38] fix: don't halt cursors on fields of unexpected
 wiretype

---
 src/message/cursor.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 586ba5b..8231766 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -152,6 +152,11 @@ next(pb_cursor_t *cursor) {
         continue;
     }
 
+    /* Skip field of unexpected wiretype */
+    if (unlikely_(wiretype != PB_WIRETYPE_LENGTH && wiretype !=
+        pb_field_descriptor_wiretype(cursor->current.descriptor)))
+      continue;
+
     /* Switch to packed context in case of packed field */
     if (wiretype != pb_field_descriptor_wiretype(cursor->current.descriptor) &&
         wiretype == PB_WIRETYPE_LENGTH) {
-- 
2.43.0


From 872ba6f1f4e71e977ecc10b6a46ba2d6dcf06cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 09/38] fix: don't mistake a truncated field for the end of the
 message

---
 src/message/cursor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 8231766..62c7054 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -175,7 +175,7 @@ next(pb_cursor_t *cursor) {
   }
 
   /* Invalidate cursor if at end */
-  if (!(pb_stream_left(&stream) && cursor->error))
+  if (!cursor->error)
     cursor->error = PB_ERROR_EOM;
 
   /* Cleanup and return */
-- 
2.43.0


From dc5b02b6fa4ba8abf9309ee1558e350f2ff6d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 10/38] fix: don't hide a oneof member followed by an unrelated
 field

---
 src/message/cursor.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 62c7054..d6ba572 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -228,8 +228,11 @@ pb_cursor_create(pb_message_t *message, pb_tag_t tag) {
       if (pb_field_descriptor_label(descriptor) == PB_LABEL_ONEOF) {
         pb_cursor_t temp = pb_cursor_copy(&cursor); temp.tag = 0;
         while (pb_cursor_next(&temp)) {
-          int member = pb_field_descriptor_oneof(descriptor) ==
-            pb_field_descriptor_oneof(cursor.current.descriptor);
+          const pb_field_descriptor_t *current = temp.current.descriptor;
+          int member =
+            pb_field_descriptor_label(current) == PB_LABEL_ONEOF &&
+            pb_field_descriptor_oneof(current) ==
+              pb_field_descriptor_oneof(descriptor);
           if (member && (cursor.error = PB_ERROR_EOM))
             break;
         }                                                  /* LCOV_EXCL_LINE */
-- 
2.43.0


From b00bb3433d0d7289ff10f8fdccc7aefbb2490501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 11/38] fix: align the packed context of a cursor according to
 its encoding

---
 src/message/cursor.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index d6ba572..06c64dd 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -556,8 +556,7 @@ pb_cursor_align(pb_cursor_t *cursor) {
     pb_version_t version = pb_cursor_version(cursor);
 
     /* Align current packed context offset, if given */
-    const pb_field_descriptor_t *descriptor = cursor->current.descriptor;
-    if (pb_field_descriptor_packed(descriptor)) {
+    if (cursor->current.packed.end) {
       pb_version_t version = pb_cursor_version(cursor);
       error = pb_journal_align(pb_cursor_journal(cursor),
         &version, &(cursor->current.packed));
-- 
2.43.0


From 3d584023a035950ec807c1418bf0b4ef534e9e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 12/38] fix: compare the sizes of strings when testing for
 equality

---
 include/protobluff/core/string.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/protobluff/core/string.h b/include/protobluff/core/string.h
index ece1721..acde32b 100644
--- a/include/protobluff/core/string.h
+++ b/include/protobluff/core/string.h
@@ -127,7 +127,8 @@ pb_string_empty(const pb_string_t *string) {
 PB_INLINE int
 pb_string_equals(const pb_string_t *x, const pb_string_t *y) {
   assert(x && y);
-  return !memcmp(pb_string_data(x), pb_string_data(y), pb_string_size(y));
+  return pb_string_size(x) == pb_string_size(y) &&
+    !memcmp(pb_string_data(x), pb_string_data(y), pb_string_size(y));
 }
 
 /* ----------------------------------------------------------------------------
-- 
2.43.0


From 5872dcf7d594dcb106eae682791e0f78dae973d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 13/38] fix: position iterators at the end of descriptors with
 a single entry

---
 include/protobluff/core/descriptor.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/protobluff/core/descriptor.h b/include/protobluff/core/descriptor.h
index 1d35cf3..98fd0bf 100644
--- a/include/protobluff/core/descriptor.h
+++ b/include/protobluff/core/descriptor.h
@@ -375,9 +375,10 @@ PB_INLINE PB_WARN_UNUSED_RESULT
 int
 pb_descriptor_iter_end(pb_descriptor_iter_t *it) {
   assert(it);
-  return !pb_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_descriptor_size(it->descriptor) - 1)
-    : 0;
+  if (pb_descriptor_empty(it->descriptor))
+    return 0;
+  it->pos = pb_descriptor_size(it->descriptor) - 1;
+  return 1;
 }
 
 /*!
@@ -542,9 +543,10 @@ PB_INLINE PB_WARN_UNUSED_RESULT
 int
 pb_enum_descriptor_iter_end(pb_enum_descriptor_iter_t *it) {
   assert(it);
-  return !pb_enum_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_enum_descriptor_size(it->descriptor) - 1)
-    : 0;
+  if (pb_enum_descriptor_empty(it->descriptor))
+    return 0;
+  it->pos = pb_enum_descriptor_size(it->descriptor) - 1;
+  return 1;
 }
 
 /*!
@@ -683,9 +685,10 @@ PB_INLINE PB_WARN_UNUSED_RESULT
 int
 pb_oneof_descriptor_iter_end(pb_oneof_descriptor_iter_t *it) {
   assert(it);
-  return !pb_oneof_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_oneof_descriptor_size(it->descriptor) - 1)
-    : 0;
+  if (pb_oneof_descriptor_empty(it->descriptor))
+    return 0;
+  it->pos = pb_oneof_descriptor_size(it->descriptor) - 1;
+  return 1;
 }
 
 /*!
-- 
2.43.0


From 634eaed591c8460471bc27a6e69856fc5594700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 14/38] fix: report failed allocations when encoding and drop
 partial values

---
 src/core/encoder.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index 8c20e62..4507409 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -382,11 +382,16 @@ pb_encoder_encode(
 
     /* Encode values one-by-one */
     const uint8_t *temp = values;
-    for (size_t v = 0; v < size; v++) {
+    size_t backup = pb_buffer_size(&(encoder->buffer));
+    for (size_t v = 0; !error && v < size; v++) {
       assert(encoder != (void *)temp);
       error = encode(&(encoder->buffer), descriptor, temp);
       temp += type_size;
     }
+
+    /* Drop partially encoded values on error */
+    if (unlikely_(error))
+      encoder->buffer.size = backup;
   }
   return error;
 }
-- 
2.43.0


From 72918cc14166a66da5e443eb80a34adb398204de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 15/38] fix: report a failed resize of a chunk

---
 src/util/chunk_allocator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/chunk_allocator.c b/src/util/chunk_allocator.c
index c078309..e63a6fb 100644
--- a/src/util/chunk_allocator.c
+++ b/src/util/chunk_allocator.c
@@ -159,7 +159,8 @@ allocator_resize(void *data, void *block, size_t size) {
         /* Return resized block */
         return block_from_chunk(head->next);
       }
-    }                                                      /* LCOV_EXCL_LINE */
+      return NULL;                                         /* LCOV_EXCL_LINE */
+    }
 
   /* Allocate new block */
   } else {
-- 
2.43.0


From 224e36508188cf5a8b61c129c1c57a0ffd3a12e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 16/38] fix: reserve space for the tags of extensions in the
 validator

---
 src/util/validator.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/util/validator.c b/src/util/validator.c
index ed66c93..adff2d5 100644
--- a/src/util/validator.c
+++ b/src/util/validator.c
@@ -93,10 +93,15 @@ check(const pb_decoder_t *decoder) {
   assert(decoder);
   assert(pb_decoder_valid(decoder));
 
+  /* Determine number of tags, including extensions */
+  size_t size = 0;
+  for (const pb_descriptor_t *descriptor = pb_decoder_descriptor(decoder);
+      descriptor; descriptor = pb_descriptor_extension(descriptor))
+    size += pb_descriptor_size(descriptor);
+
   /* Initialize occurrence counter */
   pb_validator_tags_t tags = {
-    .data = alloca(sizeof(pb_tag_t)
-          * pb_descriptor_size(pb_decoder_descriptor(decoder))),
+    .data = alloca(sizeof(pb_tag_t) * size),
     .size = 0
   };
 
-- 
2.43.0


From fcf26f0b517e88d6d8a7ef40bfb741b49d4f099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 17/38] fix: tolerate absent submessages when erasing from a
 nested message

---
 src/message/nested.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message/nested.c b/src/message/nested.c
index 48d23f7..861ef01 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -221,6 +221,10 @@ pb_message_nested_erase(
     pb_message_t submessage = pb_message_create_from_cursor(&cursor);
     error = pb_message_erase(&submessage, tags[size]);
     pb_message_destroy(&submessage);
+
+  /* Nothing to be erased, if the submessage doesn't exist */
+  } else if (pb_cursor_error(&cursor) == PB_ERROR_EOM) {
+    error = PB_ERROR_NONE;
   }
   pb_cursor_destroy(&cursor);
   return error;
-- 
2.43.0


From 69d0b59e183fea009069c9ff3bc924a633e74215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 18/38] fix: find enum values in presence of negative or
 aliased numbers

---
 src/core/descriptor.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/descriptor.c b/src/core/descriptor.c
index 03c7ee4..3ca7ecb 100644
--- a/src/core/descriptor.c
+++ b/src/core/descriptor.c
@@ -160,8 +160,8 @@ pb_descriptor_extend(
 /*!
  * Retrieve the value descriptor for a given number from an enum descriptor.
  *
- * \warning To find the matching enum value descriptor quickly if any, the same
- * approach like in pb_descriptor_field_by_tag() is used.
+ * \warning The values need to be in ascending order, but may be negative or
+ * aliased, so the number can't be used to limit the values to be checked.
  *
  * \param[in] descriptor Enum descriptor
  * \param[in] number     Number
@@ -172,7 +172,7 @@ pb_enum_descriptor_value_by_number(
     const pb_enum_descriptor_t *descriptor, pb_enum_t number) {
   assert(descriptor);
   if (descriptor->value.size) {
-    size_t v = min(number, descriptor->value.size - 1);
+    size_t v = descriptor->value.size - 1;
     do {
       if (pb_enum_value_descriptor_number(
           &(descriptor->value.data[v])) == number) {
-- 
2.43.0


From be0a2a5f9c0ca62408be3d997ab50f091f8bbd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 19/38] fix: don't append values of packed fields to values in
 non-packed encoding

---
 src/message/part.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index b1c8b7b..7b4e119 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -429,7 +429,7 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
       /* Initialize length prefix of part underlying a packed field */
       if (pb_field_descriptor_packed(descriptor)) {
-        if (tag != pb_cursor_tag(&cursor)) {
+        if (tag != pb_cursor_tag(&cursor) || !cursor.current.packed.end) {
           init(&part, PB_WIRETYPE_LENGTH, tag);
 
           /* Correct offsets for packed field */
-- 
2.43.0


From 68ae8bffb73ed64b4e204d1697a18825781ebc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 20/38] fix: keep parts aligned when data is inserted or
 removed at their boundaries

---
 src/message/journal.c | 133 +++++++++++++++++++++++++++---------------
 1 file changed, 85 insertions(+), 48 deletions(-)

diff --git a/src/message/journal.c b/src/message/journal.c
index f71a6ef..a043e9f 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -86,6 +86,24 @@ pop(pb_journal_t *journal) {
 
 /* LCOV_EXCL_STOP <<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<< */
 
+/*!
+ * Adjust a position in response to the removal of data.
+ *
+ * \param[in] position Position
+ * \param[in] start    Start offset of removed data
+ * \param[in] end      End offset of removed data
+ * \return             Adjusted position
+ */
+static size_t
+move_up(size_t position, size_t start, size_t end) {
+  assert(start <= end);
+  if (position >= end)
+    return position - (end - start);
+  return position > start
+    ? start
+    : position;
+}
+
 /* ----------------------------------------------------------------------------
  * Interface
  * ------------------------------------------------------------------------- */
@@ -347,60 +365,79 @@ pb_journal_align(
   while (*version < journal->entry.size) {
     const pb_journal_entry_t *entry = &journal->entry.data[*version];
 
-    /* Change happened before current part: move */
-    if (entry->origin < offset->start &&
-        entry->offset < offset->end) {
-      offset->start += entry->delta;
-      offset->end   += entry->delta;
-
-      /* Apply potential update on relative offsets */
-      ptrdiff_t *diff[3] = {
-        &(offset->diff.origin),
-        &(offset->diff.tag),
-        &(offset->diff.length)
-      };
-      for (size_t d = 0; d < 3; ++d)
-        if (entry->offset > offset->start + *(diff[d]) - entry->delta)
-          *(diff[d]) -= entry->delta;
-
-    /* Change happened within current part: resize or clear */
-    } else if (entry->origin >= offset->start + offset->diff.origin &&
-               entry->offset <= offset->end) {
-
-      /* Change happened inside current part: resize */
-      if (entry->origin >= offset->start) {
-        offset->end += entry->delta;
-
-        /* Current part is a packed field: invalidate */
-        if (offset->diff.origin && !offset->diff.tag &&
-            offset->start == offset->end)
-          invalid = 1;
-
-      /* Current part was cleared: clear */
-      } else if (offset->start + offset->diff.tag >=
-                 offset->end   + entry->delta) {
-        offset->start      += offset->diff.tag;
-        offset->end        += entry->delta;
-        offset->diff.origin = 0;
-        offset->diff.tag    = 0;
-        offset->diff.length = 0;
+    /* Convert relative to absolute offsets */
+    size_t start  = offset->start,
+           end    = offset->end,
+           origin = offset->start + offset->diff.origin,
+           tag    = offset->start + offset->diff.tag,
+           length = offset->start + offset->diff.length;
+
+    /* Data was removed: everything behind moves up */
+    if (entry->delta < 0) {
+      size_t left = entry->offset + entry->delta;
+
+      /* Current part was removed: clear, but keep the origin */
+      if ((offset->diff.origin || offset->diff.tag) &&
+          tag >= left && end <= entry->offset) {
+        start = end = tag = length = left;
+        origin = origin > left ? left : origin;
 
         /* Invalidate after alignment */
         invalid = 1;
+
+      /* Current part was moved or resized */
+      } else {
+        start  = move_up(start,  left, entry->offset);
+        end    = move_up(end,    left, entry->offset);
+        origin = move_up(origin, left, entry->offset);
+        tag    = move_up(tag,    left, entry->offset);
+        length = move_up(length, left, entry->offset);
       }
 
-    /* Change happened outside current part: clear */
-    } else if (entry->origin <= offset->start + offset->diff.origin &&
-               entry->origin == entry->offset + entry->delta) {
-      offset->start       = entry->origin;
-      offset->end         = entry->origin;
-      offset->diff.origin = 0;
-      offset->diff.tag    = 0;
-      offset->diff.length = 0;
-
-      /* Invalidate after alignment */
-      invalid = 1;
+    /* Data was inserted: everything behind moves down. If it was inserted right
+       at one of the offsets, it depends on what is altered and where */
+    } else {
+      int nested = offset->diff.tag != 0,
+          empty  = start == end;
+
+      /* Move the contents if the data was inserted before */
+      int move = start > entry->offset || (
+        start == entry->offset && entry->origin < start && (nested
+          ? !empty || length == entry->origin
+          : origin == start || origin != entry->origin));
+
+      /* Resize if the data was inserted within or by this part */
+      int grow = end > entry->offset || (
+        end == entry->offset && (move || (start <= entry->origin &&
+          (nested || !offset->diff.origin ||
+            (!empty && start == entry->origin)))));
+
+      /* Apply update on relative offsets */
+      if (offset->diff.origin
+          ? origin > entry->offset ||
+           (origin == entry->offset && entry->origin < origin)
+          : move)
+        origin += entry->delta;
+      if (nested ? tag >= entry->offset : move)
+        tag += entry->delta;
+      if (offset->diff.length ? length >= entry->offset : move)
+        length += entry->delta;
+
+      /* Apply update on absolute offsets */
+      start += move ? entry->delta : 0;
+      end   += grow ? entry->delta : 0;
     }
+
+    /* Convert absolute to relative offsets */
+    *offset = (pb_offset_t){
+      .start = start,
+      .end   = end,
+      .diff  = {
+        .origin = origin - start,
+        .tag    = tag    - start,
+        .length = length - start
+      }
+    };
     (*version)++;
   }
 
-- 
2.43.0


From b7500de7f4f069e0ae9ba06f2be06106ff838f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:51 +0000
Subject: [PATCH 21/38] fix: keep a cursor's value erased until the cursor is
 moved

---
 include/protobluff/message/cursor.h |  1 +
 src/message/cursor.c                | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/protobluff/message/cursor.h b/include/protobluff/message/cursor.h
index bf487a2..037ff8f 100644
--- a/include/protobluff/message/cursor.h
+++ b/include/protobluff/message/cursor.h
@@ -42,6 +42,7 @@ typedef struct pb_cursor_t {
       *descriptor;                     /*!< Current field descriptor */
     pb_offset_t offset;                /*!< Current offsets */
     pb_offset_t packed;                /*!< Current packed context */
+    int erased;                        /*!< Current value was erased */
   } current;
   size_t pos;                          /*!< Current position */
   pb_error_t error;                    /*!< Error code */
diff --git a/src/message/cursor.c b/src/message/cursor.c
index 06c64dd..095a14a 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -340,8 +340,10 @@ pb_cursor_next(pb_cursor_t *cursor) {
       result = cursor->current.packed.end
         ? next_packed(cursor)
         : next(cursor);
-      if (result)
+      if (result) {
         cursor->pos++;
+        cursor->current.erased = 0;
+      }
     } while (!cursor->error && !result);
   };
   return result;
@@ -566,7 +568,13 @@ pb_cursor_align(pb_cursor_t *cursor) {
     if (!(error = pb_message_align(&(cursor->message)))) {
       error = pb_journal_align(pb_cursor_journal(cursor),
         &version, &(cursor->current.offset));
+      if (error)
+        cursor->current.erased = 1;
     }
   }
-  return error;
+
+  /* An erased value remains erased until the cursor is moved */
+  return !error && cursor->current.erased
+    ? PB_ERROR_INVALID
+    : error;
 }
-- 
2.43.0


From 9b62d64790df4ba67af3bfafd808bb800767fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:27 +0000
Subject: [PATCH 22/38] fix: don't overwrite an empty string with its default
 when creating a field

---
 src/message/field.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/message/field.c b/src/message/field.c
index 488dfea..1136183 100644
--- a/src/message/field.c
+++ b/src/message/field.c
@@ -94,10 +94,20 @@ default_map[] = {
  */
 extern pb_field_t
 pb_field_create(pb_message_t *message, pb_tag_t tag) {
+  if (unlikely_(!pb_message_valid(message)))
+    return pb_field_create_invalid();
+  const pb_field_descriptor_t *descriptor =
+    pb_descriptor_field_by_tag(pb_message_descriptor(message), tag);
+
+  /* An existing field may be empty, so its default must not be written */
+  const int present =
+    pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED &&
+    pb_field_descriptor_default(descriptor) &&
+    pb_message_has(message, tag);
+
+  /* Create field and check whether it has a value */
   pb_field_t field = pb_field_create_without_default(message, tag);
-  if (pb_field_valid(&field) && pb_field_empty(&field)) {
-    const pb_field_descriptor_t *descriptor =
-      pb_descriptor_field_by_tag(pb_message_descriptor(message), tag);
+  if (pb_field_valid(&field) && pb_field_empty(&field) && !present) {
 
     /* Write explicit or implicit default value to field */
     const void *value = pb_field_descriptor_default(descriptor)
-- 
2.43.0


From 5a7fa6b80484b56b693ef7ec171e6c035cac5ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:35 +0000
Subject: [PATCH 23/38] fix: find existing fields of messages whose fields are
 out of order

---
 src/message/part.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index 7b4e119..8bbec15 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -365,7 +365,8 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
     pb_cursor_t temp   = pb_cursor_copy(&cursor);
     if (pb_cursor_valid(&temp)) {
       do {
-        if (pb_cursor_tag(&temp) <= tag) {
+        if (pb_cursor_tag(&temp) == tag || (
+            pb_cursor_tag(&temp) < tag && pb_cursor_tag(&cursor) != tag)) {
           pb_cursor_destroy(&cursor);
           cursor = pb_cursor_copy(&temp);
         }
-- 
2.43.0


From 1eb23b665052f129c28a36eb95b180921bdb0638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:41 +0000
Subject: [PATCH 24/38] fix: don't create a oneof member if its successors
 cannot be erased

---
 src/message/part.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/message/part.c b/src/message/part.c
index 8bbec15..4c0a480 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -383,20 +383,22 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
         /* If the tag is part of a oneof ensure it is the active tag */
         if (pb_field_descriptor_label(descriptor) == PB_LABEL_ONEOF) {
+          pb_error_t error = PB_ERROR_NONE;
           temp = pb_cursor_copy(&cursor);
           do {
             int member = pb_field_descriptor_oneof(descriptor) ==
               pb_field_descriptor_oneof(pb_cursor_descriptor(&temp));
             if (member && tag != pb_cursor_tag(&temp))
-              if (pb_cursor_erase(&temp))
-                break;                                     /* LCOV_EXCL_LINE */
-          } while (pb_cursor_next(&temp));
+              error = pb_cursor_erase(&temp);
+          } while (!error && pb_cursor_next(&temp));
           pb_cursor_destroy(&temp);
 
           /* Ensure alignment of cursor and message */
           pb_cursor_align(&cursor);
-          if (pb_message_align(message))
+          if (error || pb_message_align(message)) {
+            pb_cursor_destroy(&cursor);                    /* LCOV_EXCL_LINE */
             break;                                         /* LCOV_EXCL_LINE */
+          }
         }
 
         /* If the tag matches and the field is non-repeated, we're done */
-- 
2.43.0


From 11a5f6ae0d377753d7f7637993acca68cf6f6d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:29 +0000
Subject: [PATCH 25/38] fix: report invalid submessages when encoding

---
 src/core/encoder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index 4507409..cd1537d 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -122,6 +122,8 @@ encode_length(
   /* Extract data and size according to type */
   const uint8_t *string; uint32_t length;
   if (pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE) {
+    if (unlikely_(!pb_encoder_valid(value)))
+      return PB_ERROR_INVALID;
     string = pb_buffer_data(pb_encoder_buffer(value));
     length = pb_buffer_size(pb_encoder_buffer(value));
   } else {
-- 
2.43.0


From 9425a62cf270ca61cfc6d8e1afa36371551beedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 26/38] fix: don't ask ordinary fields for their extension
 scope

FieldDescriptor::extension_scope() may only be called for extensions,
so the generator aborted on every message that has a field.
---
 src/generator/field.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index e86edfa..c5802ec 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -77,7 +77,7 @@ namespace protobluff {
 
     /* Prefix scope to identifiers, if given */
     string prefix ("");
-    if (descriptor_->extension_scope()) {
+    if (descriptor_->is_extension() && descriptor_->extension_scope()) {
       const Descriptor *scope = descriptor_->extension_scope();
       prefix = scope->full_name();
 
-- 
2.43.0


From 494eed08f6fcf8c4f45752ebb8fc8b642da77a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 27/38] fix: don't refer to default values of oneof members

Oneof members have no default value, but enum members were treated as
if they had one, which made the generator abort.
---
 src/generator/field.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index c5802ec..e50b777 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -831,8 +831,9 @@ namespace protobluff {
    */
   bool Field::
   HasDefault() const {
-    return descriptor_->has_default_value() ||
-      (descriptor_->enum_type() && descriptor_->is_optional());
+    return !descriptor_->containing_oneof() && (
+      descriptor_->has_default_value() ||
+        (descriptor_->enum_type() && descriptor_->is_optional()));
   }
 
   /*!
-- 
2.43.0


From aa880ca9e4dae84641b4ecf280ca5a44f08d01ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 28/38] fix: create oneofs from their own descriptor in
 generated accessors

The accessor for the case of a oneof passed the descriptor of the
message.
---
 src/generator/oneof.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/oneof.cc b/src/generator/oneof.cc
index 82fcd5d..74615d1 100644
--- a/src/generator/oneof.cc
+++ b/src/generator/oneof.cc
@@ -169,7 +169,7 @@ namespace protobluff {
       "  assert(pb_message_descriptor(message) == \n"
       "    &`message`_descriptor);\n"
       "  pb_oneof_t oneof = pb_oneof_create(\n"
-      "    &`message`_descriptor, message);\n"
+      "    &`oneof`_descriptor, message);\n"
       "  pb_tag_t tag = pb_oneof_case(&oneof);\n"
       "  pb_oneof_destroy(&oneof);\n"
       "  return tag;\n"
-- 
2.43.0


From 663518e25e0aeb47c7e5d01e70671be836f92656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 29/38] fix: derive the indexes of oneof members from the order
 of tags

Field descriptors are generated in the order of tags, but the indexes of
members followed the order of declaration. Furthermore, the field behind
the last member was accessed.
---
 src/generator/oneof.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generator/oneof.cc b/src/generator/oneof.cc
index 74615d1..0df3012 100644
--- a/src/generator/oneof.cc
+++ b/src/generator/oneof.cc
@@ -136,9 +136,10 @@ namespace protobluff {
     /* Sort tags to determine indexes */
     sort(tags.begin(), tags.end());
 
-    /* Generate indexes */
-    for (size_t f = 0, g = 0; f < descriptor->field_count(); f++) {
-      if (descriptor->field(f) == descriptor_->field(g)) {
+    /* Generate indexes in ascending order */
+    for (size_t f = 0, g = 0; f < tags.size(); f++) {
+      const FieldDescriptor *field = descriptor->FindFieldByNumber(tags.at(f));
+      if (field->containing_oneof() == descriptor_) {
         printer->Print("`index`", "index", SimpleItoa(f));
         if (g < descriptor_->field_count() - 1)
           printer->Print(", ");
-- 
2.43.0


From 63d64f9c72ed696f418ab93381ce57b246c9fdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 30/38] fix: escape default values of strings and bytes

Quotes, backslashes, line breaks and trigraphs were copied to the source
as they are. Default values of bytes did not compile at all, because
pb_string_const doesn't take a size.
---
 src/generator/field.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index e50b777..8471c1c 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -55,6 +55,7 @@ namespace protobluff {
   using ::google::protobuf::FieldDescriptor;
   using ::google::protobuf::io::Printer;
 
+  using ::google::protobuf::CEscape;
   using ::google::protobuf::HasPrefixString;
   using ::google::protobuf::JoinStrings;
   using ::google::protobuf::LowerString;
@@ -222,11 +223,9 @@ namespace protobluff {
           break;
         case FieldDescriptor::CPPTYPE_STRING:
           variables_["default"] = "pb_string_const(\""
-            + descriptor_->default_value_string() + "\"";
-          if (descriptor_->type() == FieldDescriptor::TYPE_BYTES)
-            variables_["default"] += ", " + SimpleItoa(
-              descriptor_->default_value_string().length());
-          variables_["default"] += ")";
+            + StringReplace(CEscape(
+                descriptor_->default_value_string()), "?", "\\?", true)
+            + "\")";
           break;
         default:
           return;
-- 
2.43.0


From 3c0dea5773a150021fc951a1a105ce23a9780e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 31/38] fix: generate infinite and undefined default values

Default values inf and nan of floating point fields were copied to the
source, where they are no literals.
---
 src/generator/field.cc | 9 +++++++++
 src/generator/file.cc  | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index 8471c1c..d2f725a 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -230,6 +230,15 @@ namespace protobluff {
         default:
           return;
       }
+
+      /* Infinity and NaN are no literals in C */
+      if (descriptor_->cpp_type() == FieldDescriptor::CPPTYPE_FLOAT ||
+          descriptor_->cpp_type() == FieldDescriptor::CPPTYPE_DOUBLE) {
+        variables_["default"] = StringReplace(
+          variables_["default"], "inf", "INFINITY", true);
+        variables_["default"] = StringReplace(
+          variables_["default"], "nan", "NAN", true);
+      }
     }
 
     /* Extract enum type name and symbol */
diff --git a/src/generator/file.cc b/src/generator/file.cc
index 2fdf0f4..b549e8c 100644
--- a/src/generator/file.cc
+++ b/src/generator/file.cc
@@ -295,6 +295,7 @@ namespace protobluff {
 
     /* Generate library includes */
     printer->Print(variables_,
+      "#include <math.h>\n"
       "#include <protobluff/descriptor.h>\n"
       "\n");
 
-- 
2.43.0


From be1b6f21f12349fd299bf00c2f1cfabf392e81f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 32/38] fix: writing an empty string fails an assertion in
 debug builds

---
 include/protobluff/core/string.h | 2 +-
 src/message/buffer.c             | 2 +-
 src/message/journal.c            | 2 +-
 src/message/part.c               | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/protobluff/core/string.h b/include/protobluff/core/string.h
index acde32b..205dcf1 100644
--- a/include/protobluff/core/string.h
+++ b/include/protobluff/core/string.h
@@ -52,7 +52,7 @@ typedef struct pb_string_t {
  */
 PB_INLINE pb_string_t
 pb_string_init(uint8_t data[], size_t size) {
-  assert(data);
+  assert(data || !size);
   pb_string_t string = {
     .data = data,
     .size = size
diff --git a/src/message/buffer.c b/src/message/buffer.c
index 2fb3abb..f1ab614 100644
--- a/src/message/buffer.c
+++ b/src/message/buffer.c
@@ -53,7 +53,7 @@ extern pb_error_t
 pb_buffer_write(
     pb_buffer_t *buffer, size_t start, size_t end,
     const uint8_t data[], size_t size) {
-  assert(buffer && data && size);
+  assert(buffer && (data || !size));
   if (unlikely_(!pb_buffer_valid(buffer)))
     return PB_ERROR_INVALID;
 
diff --git a/src/message/journal.c b/src/message/journal.c
index a043e9f..aafbf7d 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -239,7 +239,7 @@ extern pb_error_t
 pb_journal_write(
     pb_journal_t *journal, size_t origin, size_t start, size_t end,
     const uint8_t data[], size_t size) {
-  assert(journal && data && size);
+  assert(journal && (data || !size));
   if (unlikely_(!pb_journal_valid(journal)))
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
diff --git a/src/message/part.c b/src/message/part.c
index 4c0a480..b08e38c 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -542,7 +542,7 @@ pb_part_error(const pb_part_t *part) {
  */
 extern pb_error_t
 pb_part_write(pb_part_t *part, const uint8_t data[], size_t size) {
-  assert(part && data && size);
+  assert(part && (data || !size));
   if (!pb_part_valid(part) || (!pb_part_aligned(part) && pb_part_align(part)))
     return PB_ERROR_INVALID;
 
-- 
2.43.0


From eb975b0758a060d4ee2bc4fc59cc763f8b2b33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 33/38] fix: decoding a zero tag fails an assertion in debug
 builds

---
 src/core/descriptor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/descriptor.c b/src/core/descriptor.c
index 3ca7ecb..0517cb2 100644
--- a/src/core/descriptor.c
+++ b/src/core/descriptor.c
@@ -117,7 +117,7 @@ pb_field_descriptor_wiretype_map[] = {
 extern const pb_field_descriptor_t *
 pb_descriptor_field_by_tag(
     const pb_descriptor_t *descriptor, pb_tag_t tag) {
-  assert(descriptor && tag);
+  assert(descriptor);
   for (size_t f = min(tag, descriptor->field.size); f > 0; ) {
     if (pb_field_descriptor_tag(
         &(descriptor->field.data[--f])) == tag) {
-- 
2.43.0


From 5eb27e626e86e471513b0759796ef3e350094f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 34/38] fix: branches of tags fail an assertion in debug builds

---
 src/message/nested.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/nested.c b/src/message/nested.c
index 861ef01..869991d 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -62,7 +62,7 @@ resolve(pb_message_t *message, const pb_tag_t tags[], size_t size) {
 
     /* Assert non-repeated messages */
     const pb_field_descriptor_t *descriptor =
-      pb_descriptor_field_by_tag(pb_message_descriptor(message), tags[t]);
+      pb_descriptor_field_by_tag(pb_message_descriptor(&temp), tags[t]);
     assert(descriptor &&
       pb_field_descriptor_type(descriptor)  == PB_TYPE_MESSAGE &&
       pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED);
-- 
2.43.0


From dd12a346a2882606acf6d9a427655488a4be17e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:54 +0000
Subject: [PATCH 35/38] fix: write strings that lie in the message itself

---
 src/message/buffer.c  | 15 ++++++++++++++-
 src/message/message.c | 14 +++++++++++++-
 src/message/message.h | 25 +++++++++++++++++++++++++
 src/message/nested.c  | 28 +++++++++++++++++++++++++++-
 4 files changed, 79 insertions(+), 3 deletions(-)

diff --git a/src/message/buffer.c b/src/message/buffer.c
index f1ab614..1c97347 100644
--- a/src/message/buffer.c
+++ b/src/message/buffer.c
@@ -67,6 +67,19 @@ pb_buffer_write(
     if (unlikely_(buffer->allocator == &allocator_zero_copy))
       return PB_ERROR_ALLOC;
 
+    /* Data is part of the buffer and may move, so write a copy */
+    if (unlikely_(size && data >= buffer->data &&
+                          data <  buffer->data + buffer->size)) {
+      pb_buffer_t copy = pb_buffer_create_with_allocator(
+        buffer->allocator, data, size);
+      if (unlikely_(!pb_buffer_valid(&copy)))
+        return pb_buffer_error(&copy);
+      pb_error_t error = pb_buffer_write(
+        buffer, start, end, pb_buffer_data(&copy), size);
+      pb_buffer_destroy(&copy);
+      return error;
+    }
+
     /* Buffer grows, so grow space and then move data */
     if (delta > 0) {
       uint8_t *new_data = pb_allocator_resize(buffer->allocator,
@@ -96,7 +109,7 @@ pb_buffer_write(
   }
 
   /* Finally, copy data */
-  memcpy(&(buffer->data[start]), data, size);
+  memmove(&(buffer->data[start]), data, size);
   return PB_ERROR_NONE;
 }
 
diff --git a/src/message/message.c b/src/message/message.c
index fd3a7d5..c0700ff 100644
--- a/src/message/message.c
+++ b/src/message/message.c
@@ -314,8 +314,20 @@ pb_message_put(pb_message_t *message, pb_tag_t tag, const void *value) {
     pb_descriptor_field_by_tag(message->descriptor, tag);
   assert(descriptor);
 
+  /* Write a copy of a string that may move when the field is created */
+  if (unlikely_(pb_message_contains(message, descriptor, value))) {
+    pb_buffer_t copy = pb_buffer_create_with_allocator(
+      pb_buffer_allocator(pb_journal_buffer(pb_message_journal(message))),
+        pb_string_data(value), pb_string_size(value));
+    if (unlikely_(!pb_buffer_valid(&copy)))
+      return pb_buffer_error(&copy);
+    pb_string_t string = pb_string_init(
+      (uint8_t *)pb_buffer_data(&copy), pb_buffer_size(&copy));
+    error = pb_message_put(message, tag, &string);
+    pb_buffer_destroy(&copy);
+
   /* Create field and write value */
-  if (pb_field_descriptor_type(descriptor) != PB_TYPE_MESSAGE) {
+  } else if (pb_field_descriptor_type(descriptor) != PB_TYPE_MESSAGE) {
     pb_field_t field = pb_field_create_without_default(message, tag);
     error = pb_field_put(&field, value);
     pb_field_destroy(&field);
diff --git a/src/message/message.h b/src/message/message.h
index 849879b..e9a70c8 100644
--- a/src/message/message.h
+++ b/src/message/message.h
@@ -29,6 +29,8 @@
 
 #include <protobluff/message/message.h>
 
+#include "core/allocator.h"
+#include "core/descriptor.h"
 #include "message/common.h"
 #include "message/journal.h"
 #include "message/part.h"
@@ -77,6 +79,29 @@ pb_message_journal(pb_message_t *message) {
   return pb_part_journal(&(message->part));
 }
 
+/*!
+ * Check whether a value is a string that is part of the underlying journal of
+ * a message, and may thus move when something is written to the message.
+ *
+ * \param[in,out] message    Message
+ * \param[in]     descriptor Field descriptor
+ * \param[in]     value      Pointer holding value
+ * \return                   Test result
+ */
+PB_INLINE int
+pb_message_contains(
+    pb_message_t *message, const pb_field_descriptor_t *descriptor,
+    const void *value) {
+  assert(message && descriptor && value);
+  if (pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE ||
+      pb_field_descriptor_wiretype(descriptor) != PB_WIRETYPE_LENGTH)
+    return 0;
+  const pb_buffer_t *buffer = pb_journal_buffer(pb_message_journal(message));
+  return pb_buffer_allocator(buffer) != &allocator_zero_copy &&
+    pb_string_size(value) && pb_string_data(value) >= buffer->data &&
+    pb_string_data(value) < buffer->data + buffer->size;
+}
+
 /*!
  * Retrieve the version of a message.
  *
diff --git a/src/message/nested.c b/src/message/nested.c
index 869991d..28dc9c2 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -194,9 +194,35 @@ pb_message_nested_put(
     const pb_tag_t tags[], size_t size,
     const void *value) {
   assert(message && tags && size > 1 && value);
+  if (unlikely_(!pb_message_valid(message)))
+    return PB_ERROR_INVALID;
+  pb_error_t error = PB_ERROR_NONE;
+
+  /* Determine field descriptor */
+  const pb_field_descriptor_t *descriptor =
+    pb_descriptor_field_by_tag(message->descriptor, tags[0]);
+  for (size_t t = 1; t < size; t++)
+    descriptor = pb_descriptor_field_by_tag(
+      pb_field_descriptor_nested(descriptor), tags[t]);
+
+  /* Write a copy of a string that may move when the branch is created */
+  if (unlikely_(pb_message_contains(message, descriptor, value))) {
+    pb_buffer_t copy = pb_buffer_create_with_allocator(
+      pb_buffer_allocator(pb_journal_buffer(pb_message_journal(message))),
+        pb_string_data(value), pb_string_size(value));
+    if (unlikely_(!pb_buffer_valid(&copy)))
+      return pb_buffer_error(&copy);
+    pb_string_t string = pb_string_init(
+      (uint8_t *)pb_buffer_data(&copy), pb_buffer_size(&copy));
+    error = pb_message_nested_put(message, tags, size, &string);
+    pb_buffer_destroy(&copy);
+    return error;
+  }
+
+  /* Create branch and write value */
   pb_message_t submessage =
     pb_message_create_nested(message, tags, --size);
-  pb_error_t error = pb_message_put(&submessage, tags[size], value);
+  error = pb_message_put(&submessage, tags[size], value);
   pb_message_destroy(&submessage);
   return error;
 }
-- 
2.43.0


From 71a05b89b8e92cbade533d65ea6cbcc0b3ce7c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:18 +0000
Subject: [PATCH 36/38] fix: replacing all of a buffer with nothing released
 its memory but kept using it

---
 src/message/buffer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message/buffer.c b/src/message/buffer.c
index 1c97347..e251676 100644
--- a/src/message/buffer.c
+++ b/src/message/buffer.c
@@ -61,6 +61,10 @@ pb_buffer_write(
   if (unlikely_(start > end || end > buffer->size))
     return PB_ERROR_OFFSET;
 
+  /* Without data, the range is just cleared */
+  if (unlikely_(!size))
+    return pb_buffer_clear(buffer, start, end);
+
   /* Resize buffer and move data if necessary */
   ptrdiff_t delta = size - (end - start);
   if (delta) {
-- 
2.43.0


From b006e893d5a54e6df7b1bb035cddf24a607b574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 37/38] fix: a cursor of an erased message read outside of the
 buffer when moved

---
 src/message/cursor.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 095a14a..0e51235 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -336,6 +336,14 @@ pb_cursor_next(pb_cursor_t *cursor) {
   int result = 0;
   if (pb_cursor_valid(cursor)) {
     pb_cursor_align(cursor);
+
+    /* There's nothing left if the message was erased */
+    if (unlikely_(!pb_message_valid(&(cursor->message)))) {
+      cursor->error = PB_ERROR_INVALID;
+      return result;
+    }
+
+    /* Move to next field or value */
     do {
       result = cursor->current.packed.end
         ? next_packed(cursor)
-- 
2.43.0


From c03fa96c695b7cd9dffc54b63fd94d55a14fd629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:51 +0000
Subject: [PATCH 38/38] fix: a cursor at an erased value moved into the value
 in front of it

If an empty value right in front of an erased value was written, a cursor
at the erased value ended up inside of what was written.
---
 src/message/journal.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/message/journal.c b/src/message/journal.c
index aafbf7d..59b5a67 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -404,7 +404,11 @@ pb_journal_align(
       int move = start > entry->offset || (
         start == entry->offset && entry->origin < start && (nested
           ? !empty || length == entry->origin
-          : origin == start || origin != entry->origin));
+          : origin == start || origin != entry->origin)) || (
+
+        /* An empty part right before a removed part was written */
+        start == entry->offset && entry->origin == start &&
+          !nested && empty && origin != start);
 
       /* Resize if the data was inserted within or by this part */
       int grow = end > entry->offset || (
-- 
2.43.0

