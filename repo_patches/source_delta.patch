From 3813579431023d3a854d1fc2aecb185c3a129229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:29 +0000
Subject: [PATCH 01/46] fix: keep variable-sized integer reads inside the
 buffer

A value or length prefix that starts exactly at the end of the data was read
one byte past it, the SSE2 scan always loaded sixteen bytes, and a truncated
negative int32 was probed at offsets 4 and 5 regardless of what was left.
---
 src/core/stream.c | 8 ++++++++
 src/core/varint.c | 7 +++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/stream.c b/src/core/stream.c
index 71c395d..19a7722 100644
--- a/src/core/stream.c
+++ b/src/core/stream.c
@@ -45,6 +45,8 @@
 static pb_error_t
 read_varint(pb_stream_t *stream, pb_type_t type, void *value) {
   assert(stream && value);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   size_t size = pb_varint_unpack(type,
     pb_buffer_data_from(stream->buffer, stream->offset),
     pb_stream_left(stream), value);
@@ -83,6 +85,8 @@ static pb_error_t
 read_length(pb_stream_t *stream, pb_type_t type, void *value) {
   assert(stream && value);
   uint32_t length = 0;
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   size_t size = pb_varint_unpack_uint32(
     pb_buffer_data_from(stream->buffer, stream->offset),
     pb_stream_left(stream), &length);
@@ -126,6 +130,8 @@ read_32bit(pb_stream_t *stream, pb_type_t type, void *value) {
 static pb_error_t
 skip_varint(pb_stream_t *stream) {
   assert(stream);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   size_t size = pb_varint_scan(
     pb_buffer_data_from(stream->buffer, stream->offset),
     pb_stream_left(stream));
@@ -156,6 +162,8 @@ static pb_error_t
 skip_length(pb_stream_t *stream) {
   assert(stream);
   uint32_t length = 0;
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   size_t size = pb_varint_unpack_uint32(
     pb_buffer_data_from(stream->buffer, stream->offset),
     pb_stream_left(stream), &length);
diff --git a/src/core/varint.c b/src/core/varint.c
index 3e36101..1d3ecc1 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -23,6 +23,7 @@
 #include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 
 #ifdef __SSE2__
 #include <emmintrin.h>
@@ -493,7 +494,9 @@ pb_varint_scan(const uint8_t data[], size_t left) {
   };
 
   /* Load buffer into 128-bit integer and create high-bit mask */
-  __m128i temp = _mm_loadu_si128((const __m128i *)data);
+  uint8_t copy[16] = {};
+  memcpy(copy, data, left);
+  __m128i temp = _mm_loadu_si128((const __m128i *)copy);
   __m128i high = _mm_set1_epi8(0x80);
 
   /* Intersect and extract mask with high-bits set */
@@ -539,7 +542,7 @@ extern size_t
 pb_varint_unpack_int32(const uint8_t data[], size_t left, void *value) {
   size_t size = pb_varint_unpack_uint32(data, left, value);
   return size ? size :
-    data[4] & 0x80 && data[5] == 0xFF ? 10 : 0;
+    left >= 10 && data[4] & 0x80 && data[5] == 0xFF ? 10 : 0;
 }
 
 /*!
-- 
2.43.0


From 317519204ec492331ecf88bade41895e110e6358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:20 +0000
Subject: [PATCH 02/46] fix: report unknown wiretypes instead of calling a null
 pointer

Skipping a field with one of the wiretypes 3, 4, 6 or 7 called through an
empty or out of bounds slot of the jump table, crashing on garbled data.
---
 src/core/stream.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/core/stream.c b/src/core/stream.c
index 19a7722..5977ef8 100644
--- a/src/core/stream.c
+++ b/src/core/stream.c
@@ -184,6 +184,18 @@ skip_32bit(pb_stream_t *stream) {
   return pb_stream_advance(stream, 4);
 }
 
+/*!
+ * Refuse to skip a value of unknown wiretype, as its size is unknown.
+ *
+ * \param[in,out] stream Stream
+ * \return               Error code
+ */
+static pb_error_t
+skip_unknown(pb_stream_t *stream) {
+  assert(stream);
+  return PB_ERROR_OFFSET;
+}
+
 /* ----------------------------------------------------------------------------
  * Jump tables
  * ------------------------------------------------------------------------- */
@@ -212,11 +224,15 @@ pb_stream_read_jump[] = {
 
 /*! Jump table: wiretype ==> skip method */
 const pb_stream_skip_f
-pb_stream_skip_jump[7] = {
+pb_stream_skip_jump[8] = {
   [PB_WIRETYPE_VARINT] = skip_varint,
   [PB_WIRETYPE_64BIT]  = skip_64bit,
   [PB_WIRETYPE_LENGTH] = skip_length,
-  [PB_WIRETYPE_32BIT]  = skip_32bit
+  [3]                  = skip_unknown,
+  [4]                  = skip_unknown,
+  [PB_WIRETYPE_32BIT]  = skip_32bit,
+  [6]                  = skip_unknown,
+  [7]                  = skip_unknown
 };
 
 /* ----------------------------------------------------------------------------
-- 
2.43.0


From 1786d7d40b0cabfb43418e3a09d390cac5661dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 03/46] fix: do not grow the stack with every decoded field

The temporary value was allocated with alloca inside the decoding loop and
thus only released on return, so decoding a large flat message overflowed
the stack.
---
 src/core/decoder.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 8877ea5..1ea2229 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -20,7 +20,6 @@
  * IN THE SOFTWARE.
  */
 
-#include <alloca.h>
 #include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -105,8 +104,8 @@ pb_decoder_decode(
     }
 
     /* Allocate temporary space for type-agnostic decoding */
-    size_t item = pb_field_descriptor_type_size(descriptor);
-    void *value = alloca(item);
+    union { uint64_t scalar; pb_string_t string; } temp;
+    void *value = &temp;
 
     /* Non-packed fields may also be encoded in packed encoding */
     pb_type_t type = pb_field_descriptor_type(descriptor);
-- 
2.43.0


From 65f40396aa959edbc7cc5e30e57a1b1219c45364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 04/46] fix: report packed values which exceed their length
 prefix

The last value of a packed field was read past the end of the packed payload
into the following field and still handed to the handler.
---
 src/core/decoder.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 1ea2229..770f3d7 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -123,7 +123,9 @@ pb_decoder_decode(
       /* Iterate values of packed field */
       while (!error && pb_stream_offset(&stream) < offset + length)
         if (likely_(!(error = pb_stream_read(&stream, type, value))))
-          error = handler(descriptor, value, user);
+          error = pb_stream_offset(&stream) <= offset + length
+            ? handler(descriptor, value, user)
+            : PB_ERROR_OFFSET;
 
     /* Read value of given type from stream */
     } else {
-- 
2.43.0


From 189dcec2c8ae76795516998e6d8cb8c4760f8f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 05/46] fix: do not look up tag zero when reading garbled data

Looking up a descriptor requires a non-zero tag, so a record with tag zero
tripped the assertion instead of being skipped like any unknown field.
---
 src/core/decoder.c   | 5 +++--
 src/message/cursor.c | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 770f3d7..4636a9e 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -96,8 +96,9 @@ pb_decoder_decode(
     tag >>= 3;
 
     /* Check descriptor and skip field if unknown */
-    const pb_field_descriptor_t *descriptor =
-      pb_descriptor_field_by_tag(decoder->descriptor, tag);
+    const pb_field_descriptor_t *descriptor = tag
+      ? pb_descriptor_field_by_tag(decoder->descriptor, tag)
+      : NULL;
     if (unlikely_(!descriptor)) {
       error = pb_stream_skip(&stream, wiretype);
       continue;
diff --git a/src/message/cursor.c b/src/message/cursor.c
index 586ba5b..47e208a 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -147,8 +147,8 @@ next(pb_cursor_t *cursor) {
     /* Otherwise try to load descriptor for current tag */
     } else if (!cursor->current.descriptor ||
         pb_field_descriptor_tag(cursor->current.descriptor) != tag) {
-      if (!(cursor->current.descriptor = pb_descriptor_field_by_tag(
-          pb_message_descriptor(&(cursor->message)), tag)))
+      if (!(cursor->current.descriptor = tag ? pb_descriptor_field_by_tag(
+          pb_message_descriptor(&(cursor->message)), tag) : NULL))
         continue;
     }
 
-- 
2.43.0


From 89488b8f70e06aaad81aa236369c1be25f3544b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 06/46] fix: keep read errors of a cursor at the end of a
 message

A garbled last field made a cursor report the regular end of the
message, because the error was replaced whenever nothing was left to
read. Updates then treated the message as well-formed.
---
 src/message/cursor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 47e208a..39e680c 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -170,7 +170,7 @@ next(pb_cursor_t *cursor) {
   }
 
   /* Invalidate cursor if at end */
-  if (!(pb_stream_left(&stream) && cursor->error))
+  if (!cursor->error)
     cursor->error = PB_ERROR_EOM;
 
   /* Cleanup and return */
-- 
2.43.0


From da408bcd7b5e58703b644745b8b908cb3cdcbfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:21 +0000
Subject: [PATCH 07/46] fix: keep a oneof member visible when other fields
 follow

Creating a cursor for a oneof member compared the member with itself
instead of with the fields which follow it, so any field behind an
active member made it look absent.
---
 src/message/cursor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 39e680c..f4fb5f3 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -224,7 +224,7 @@ pb_cursor_create(pb_message_t *message, pb_tag_t tag) {
         pb_cursor_t temp = pb_cursor_copy(&cursor); temp.tag = 0;
         while (pb_cursor_next(&temp)) {
           int member = pb_field_descriptor_oneof(descriptor) ==
-            pb_field_descriptor_oneof(cursor.current.descriptor);
+            pb_field_descriptor_oneof(temp.current.descriptor);
           if (member && (cursor.error = PB_ERROR_EOM))
             break;
         }                                                  /* LCOV_EXCL_LINE */
-- 
2.43.0


From ce95a9640eb3197760b3405b4bf53a8dde43cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:27 +0000
Subject: [PATCH 08/46] fix: compare the sizes of strings before their contents

Strings were compared over the size of one of them, so a prefix matched
and a longer string made the comparison read beyond the shorter one.
---
 include/protobluff/core/string.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/protobluff/core/string.h b/include/protobluff/core/string.h
index ece1721..139c280 100644
--- a/include/protobluff/core/string.h
+++ b/include/protobluff/core/string.h
@@ -127,7 +127,8 @@ pb_string_empty(const pb_string_t *string) {
 PB_INLINE int
 pb_string_equals(const pb_string_t *x, const pb_string_t *y) {
   assert(x && y);
-  return !memcmp(pb_string_data(x), pb_string_data(y), pb_string_size(y));
+  return pb_string_size(x) == pb_string_size(y) && (pb_string_empty(x) ||
+    !memcmp(pb_string_data(x), pb_string_data(y), pb_string_size(y)));
 }
 
 /* ----------------------------------------------------------------------------
-- 
2.43.0


From 45ea8696c3736b6f61f9c4897c15e85e7ddaec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:39 +0000
Subject: [PATCH 09/46] fix: allow the creation of empty strings

pb_string_init_empty() is documented, but always ran into an assertion.
---
 include/protobluff/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/protobluff/core/string.h b/include/protobluff/core/string.h
index 139c280..5dacf46 100644
--- a/include/protobluff/core/string.h
+++ b/include/protobluff/core/string.h
@@ -52,7 +52,7 @@ typedef struct pb_string_t {
  */
 PB_INLINE pb_string_t
 pb_string_init(uint8_t data[], size_t size) {
-  assert(data);
+  assert(data || !size);
   pb_string_t string = {
     .data = data,
     .size = size
-- 
2.43.0


From 3af355a54c6f37ff6b255164af2284400905b8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 10/46] fix: let iterators find the end of descriptors with a
 single item

The position of the last item was used as the result, so moving an
iterator to the end of a descriptor with a single item failed.
---
 include/protobluff/core/descriptor.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/protobluff/core/descriptor.h b/include/protobluff/core/descriptor.h
index 1d35cf3..0f847f5 100644
--- a/include/protobluff/core/descriptor.h
+++ b/include/protobluff/core/descriptor.h
@@ -376,7 +376,7 @@ int
 pb_descriptor_iter_end(pb_descriptor_iter_t *it) {
   assert(it);
   return !pb_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
@@ -543,7 +543,7 @@ int
 pb_enum_descriptor_iter_end(pb_enum_descriptor_iter_t *it) {
   assert(it);
   return !pb_enum_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_enum_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_enum_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
@@ -684,7 +684,7 @@ int
 pb_oneof_descriptor_iter_end(pb_oneof_descriptor_iter_t *it) {
   assert(it);
   return !pb_oneof_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_oneof_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_oneof_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
-- 
2.43.0


From 70cebef42b74c7d67cd64532e41847477143cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:53 +0000
Subject: [PATCH 11/46] fix: find negative and aliased values in enum
 descriptors

The number was used to limit the values to be searched, which is only
possible if all numbers are distinct and not negative.
---
 src/core/descriptor.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/descriptor.c b/src/core/descriptor.c
index 03c7ee4..b8beadd 100644
--- a/src/core/descriptor.c
+++ b/src/core/descriptor.c
@@ -160,8 +160,9 @@ pb_descriptor_extend(
 /*!
  * Retrieve the value descriptor for a given number from an enum descriptor.
  *
- * \warning To find the matching enum value descriptor quickly if any, the same
- * approach like in pb_descriptor_field_by_tag() is used.
+ * \warning The values need to be in ascending order, so the search can be ended
+ * early. However, contrary to tags the numbers may be negative and may occur
+ * more than once, so they don't limit the values which have to be checked.
  *
  * \param[in] descriptor Enum descriptor
  * \param[in] number     Number
@@ -172,7 +173,7 @@ pb_enum_descriptor_value_by_number(
     const pb_enum_descriptor_t *descriptor, pb_enum_t number) {
   assert(descriptor);
   if (descriptor->value.size) {
-    size_t v = min(number, descriptor->value.size - 1);
+    size_t v = descriptor->value.size - 1;
     do {
       if (pb_enum_value_descriptor_number(
           &(descriptor->value.data[v])) == number) {
-- 
2.43.0


From 14d1acf19923ba324887b0d901484d3fccdaf7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 12/46] fix: report when a chunk allocator cannot grow a block

If the system ran out of memory, the block was returned as it was, so the
caller wrote beyond its end.
---
 src/util/chunk_allocator.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/chunk_allocator.c b/src/util/chunk_allocator.c
index c078309..774b214 100644
--- a/src/util/chunk_allocator.c
+++ b/src/util/chunk_allocator.c
@@ -159,7 +159,10 @@ allocator_resize(void *data, void *block, size_t size) {
         /* Return resized block */
         return block_from_chunk(head->next);
       }
-    }                                                      /* LCOV_EXCL_LINE */
+
+      /* The block still has its old size */
+      return NULL;                                         /* LCOV_EXCL_LINE */
+    }
 
   /* Allocate new block */
   } else {
-- 
2.43.0


From b7bde57dae8c92bdf02f8ee3b44840f7136c762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 13/46] fix: do not leave partially encoded values in an
 encoder

When encoding failed, the tag was left behind, so everything encoded
afterwards was garbled. Furthermore, values following the one which
failed were still encoded and their result hid the error.
---
 src/core/encoder.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index 8c20e62..c42971a 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -365,6 +365,7 @@ pb_encoder_encode(
   if (unlikely_(!pb_encoder_valid(encoder)))
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
+  size_t     start = pb_buffer_size(&(encoder->buffer));
 
   /* Assert descriptor and correct label */
   const pb_field_descriptor_t *descriptor =
@@ -382,11 +383,15 @@ pb_encoder_encode(
 
     /* Encode values one-by-one */
     const uint8_t *temp = values;
-    for (size_t v = 0; v < size; v++) {
+    for (size_t v = 0; !error && v < size; v++) {
       assert(encoder != (void *)temp);
       error = encode(&(encoder->buffer), descriptor, temp);
       temp += type_size;
     }
   }
+
+  /* Drop partially encoded values */
+  if (unlikely_(error))
+    encoder->buffer.size = start;
   return error;
 }
-- 
2.43.0


From 3eceea60206b9c19576fba8b7930183e1bc7cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:30 +0000
Subject: [PATCH 14/46] fix: report an invalid encoder passed as a submessage

A submessage whose encoder is invalid was encoded as an empty one and
the call succeeded.
---
 src/core/encoder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index c42971a..9178318 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -122,6 +122,8 @@ encode_length(
   /* Extract data and size according to type */
   const uint8_t *string; uint32_t length;
   if (pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE) {
+    if (unlikely_(!pb_encoder_valid(value)))
+      return PB_ERROR_INVALID;
     string = pb_buffer_data(pb_encoder_buffer(value));
     length = pb_buffer_size(pb_encoder_buffer(value));
   } else {
-- 
2.43.0


From 45cfd0a532062f5abd266664e4e0e99ab0bdad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 15/46] fix: account for extensions when validating a buffer

The space for the tags which occur in a message was sized for the fields
of the message itself, so extension fields were counted beyond its end.
---
 src/util/validator.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/util/validator.c b/src/util/validator.c
index ed66c93..80e351c 100644
--- a/src/util/validator.c
+++ b/src/util/validator.c
@@ -93,10 +93,15 @@ check(const pb_decoder_t *decoder) {
   assert(decoder);
   assert(pb_decoder_valid(decoder));
 
+  /* Determine number of fields including extensions */
+  size_t size = 0;
+  for (const pb_descriptor_t *descriptor = pb_decoder_descriptor(decoder);
+      descriptor; descriptor = pb_descriptor_extension(descriptor))
+    size += pb_descriptor_size(descriptor);
+
   /* Initialize occurrence counter */
   pb_validator_tags_t tags = {
-    .data = alloca(sizeof(pb_tag_t)
-          * pb_descriptor_size(pb_decoder_descriptor(decoder))),
+    .data = alloca(sizeof(pb_tag_t) * (size + 1)),
     .size = 0
   };
 
-- 
2.43.0


From 5db3cab862f8916204242d9f0a2f1aff4bbadc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:06 +0000
Subject: [PATCH 16/46] fix: check the right message when resolving nested
 messages

The assertion looked up every tag of the branch in the outermost message,
so reading from the third level on was aborted in debug builds.
---
 src/message/nested.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/nested.c b/src/message/nested.c
index 48d23f7..ecce423 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -62,7 +62,7 @@ resolve(pb_message_t *message, const pb_tag_t tags[], size_t size) {
 
     /* Assert non-repeated messages */
     const pb_field_descriptor_t *descriptor =
-      pb_descriptor_field_by_tag(pb_message_descriptor(message), tags[t]);
+      pb_descriptor_field_by_tag(pb_message_descriptor(&temp), tags[t]);
     assert(descriptor &&
       pb_field_descriptor_type(descriptor)  == PB_TYPE_MESSAGE &&
       pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED);
-- 
2.43.0


From 024bf906fd7d591c9f723f852bc173baf5b8f1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 17/46] fix: let erasing from an absent nested message succeed

Erasing is documented to be idempotent, regardless of whether the field
existed or not, but failed if the containing submessage was absent.
---
 src/message/nested.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/message/nested.c b/src/message/nested.c
index ecce423..868b810 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -217,7 +217,10 @@ pb_message_nested_erase(
 
   /* Use cursor to omit field creation */
   pb_cursor_t cursor = resolve(message, tags, --size);
-  if (pb_cursor_valid(&cursor)) {
+  if (unlikely_(!pb_cursor_valid(&cursor))) {
+    if ((error = pb_cursor_error(&cursor)) == PB_ERROR_EOM)
+      error = PB_ERROR_NONE;
+  } else {
     pb_message_t submessage = pb_message_create_from_cursor(&cursor);
     error = pb_message_erase(&submessage, tags[size]);
     pb_message_destroy(&submessage);
-- 
2.43.0


From 63adfbcb2bf074b7f0cf351e2af5849072220b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 18/46] fix: report tags which are not part of a message as
 invalid

Writing a value for an unknown tag is documented to return an error, but
dereferenced a null pointer unless assertions were enabled.
---
 src/core/encoder.c    | 2 ++
 src/message/field.c   | 2 ++
 src/message/message.c | 8 ++++++++
 3 files changed, 12 insertions(+)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index 9178318..92dfe23 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -374,6 +374,8 @@ pb_encoder_encode(
     pb_descriptor_field_by_tag(encoder->descriptor, tag);
   assert(descriptor && (
     size == 1 || pb_field_descriptor_label(descriptor) == PB_LABEL_REPEATED));
+  if (unlikely_(!descriptor))
+    return PB_ERROR_INVALID;
 
   /* Encode values based on potential packed flag */
   if (size > 1 && pb_field_descriptor_packed(descriptor)) {
diff --git a/src/message/field.c b/src/message/field.c
index 488dfea..cf5905a 100644
--- a/src/message/field.c
+++ b/src/message/field.c
@@ -131,6 +131,8 @@ pb_field_create_without_default(pb_message_t *message, pb_tag_t tag) {
       pb_descriptor_field_by_tag(pb_message_descriptor(message), tag);
     assert(descriptor &&
       pb_field_descriptor_type(descriptor) != PB_TYPE_MESSAGE);
+    if (unlikely_(!descriptor))
+      return pb_field_create_invalid();
     pb_field_t field = {
       .descriptor = descriptor,
       .part       = pb_part_create(message, tag)
diff --git a/src/message/message.c b/src/message/message.c
index fd3a7d5..79605b7 100644
--- a/src/message/message.c
+++ b/src/message/message.c
@@ -71,6 +71,8 @@ pb_message_create_within(pb_message_t *message, pb_tag_t tag) {
     assert(descriptor &&
       pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE &&
       pb_field_descriptor_nested(descriptor));
+    if (unlikely_(!descriptor))
+      return pb_message_create_invalid();
     pb_message_t submessage = {
       .descriptor = pb_field_descriptor_nested(descriptor),
       .part       = pb_part_create(message, tag)
@@ -262,6 +264,8 @@ pb_message_get(pb_message_t *message, pb_tag_t tag, void *value) {
   assert(descriptor &&
     pb_field_descriptor_type(descriptor)  != PB_TYPE_MESSAGE &&
     pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED);
+  if (unlikely_(!descriptor))
+    return PB_ERROR_INVALID;
 
   /* Use cursor to omit field creation */
   pb_cursor_t cursor = pb_cursor_create(message, tag);
@@ -313,6 +317,8 @@ pb_message_put(pb_message_t *message, pb_tag_t tag, const void *value) {
   const pb_field_descriptor_t *descriptor =
     pb_descriptor_field_by_tag(message->descriptor, tag);
   assert(descriptor);
+  if (unlikely_(!descriptor))
+    return PB_ERROR_INVALID;
 
   /* Create field and write value */
   if (pb_field_descriptor_type(descriptor) != PB_TYPE_MESSAGE) {
@@ -372,6 +378,8 @@ pb_message_erase(pb_message_t *message, pb_tag_t tag) {
   const pb_field_descriptor_t *descriptor =
     pb_descriptor_field_by_tag(message->descriptor, tag);
   assert(descriptor);
+  if (unlikely_(!descriptor))
+    return PB_ERROR_INVALID;
 
   /* Clear non-oneof field or submessage */
   if (likely_(pb_field_descriptor_label(descriptor) != PB_LABEL_ONEOF)) {
-- 
2.43.0


From 385ced75ad441ad6575c0dbf291d032080e857ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:13 +0000
Subject: [PATCH 19/46] fix: allow empty strings and submessages to be written

Writing an empty value was aborted by assertions, though it is a regular
value. If it emptied the whole buffer, the buffer kept its freed memory.
---
 src/message/buffer.c  | 6 +++++-
 src/message/journal.c | 2 +-
 src/message/part.c    | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/message/buffer.c b/src/message/buffer.c
index 2fb3abb..98ef986 100644
--- a/src/message/buffer.c
+++ b/src/message/buffer.c
@@ -53,10 +53,14 @@ extern pb_error_t
 pb_buffer_write(
     pb_buffer_t *buffer, size_t start, size_t end,
     const uint8_t data[], size_t size) {
-  assert(buffer && data && size);
+  assert(buffer && (data || !size));
   if (unlikely_(!pb_buffer_valid(buffer)))
     return PB_ERROR_INVALID;
 
+  /* Writing nothing is the same as clearing the range */
+  if (!size)
+    return pb_buffer_clear(buffer, start, end);
+
   /* Check valid range */
   if (unlikely_(start > end || end > buffer->size))
     return PB_ERROR_OFFSET;
diff --git a/src/message/journal.c b/src/message/journal.c
index f71a6ef..d77a56a 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -221,7 +221,7 @@ extern pb_error_t
 pb_journal_write(
     pb_journal_t *journal, size_t origin, size_t start, size_t end,
     const uint8_t data[], size_t size) {
-  assert(journal && data && size);
+  assert(journal && (data || !size));
   if (unlikely_(!pb_journal_valid(journal)))
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
diff --git a/src/message/part.c b/src/message/part.c
index b1c8b7b..06ecf6d 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -539,7 +539,7 @@ pb_part_error(const pb_part_t *part) {
  */
 extern pb_error_t
 pb_part_write(pb_part_t *part, const uint8_t data[], size_t size) {
-  assert(part && data && size);
+  assert(part && (data || !size));
   if (!pb_part_valid(part) || (!pb_part_aligned(part) && pb_part_align(part)))
     return PB_ERROR_INVALID;
 
-- 
2.43.0


From bda71157a7f13999a742bb69ec468a1d5d418563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 20/46] fix: find existing fields which are followed by smaller
 tags

When fields were not encoded in order of their tags, creating a field or
submessage did not find the one which is already there. Instead, an empty
one was created, so the contents of a submessage were lost.
---
 src/message/part.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index 06ecf6d..a56ae9a 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -365,7 +365,8 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
     pb_cursor_t temp   = pb_cursor_copy(&cursor);
     if (pb_cursor_valid(&temp)) {
       do {
-        if (pb_cursor_tag(&temp) <= tag) {
+        if (pb_cursor_tag(&temp) == tag || (
+            pb_cursor_tag(&temp) < tag && pb_cursor_tag(&cursor) != tag)) {
           pb_cursor_destroy(&cursor);
           cursor = pb_cursor_copy(&temp);
         }
-- 
2.43.0


From 556f8869fff0e35a8287143f718301a8cccb226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 21/46] fix: append to packed fields which were encoded
 unpacked

Whether a value can be appended to an existing packed field was decided
by the declaration of the field only, so the value was written without a
tag if the last occurrence is not packed.
---
 src/message/part.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index a56ae9a..48445f5 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -430,7 +430,7 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
       /* Initialize length prefix of part underlying a packed field */
       if (pb_field_descriptor_packed(descriptor)) {
-        if (tag != pb_cursor_tag(&cursor)) {
+        if (tag != pb_cursor_tag(&cursor) || !cursor.current.packed.end) {
           init(&part, PB_WIRETYPE_LENGTH, tag);
 
           /* Correct offsets for packed field */
-- 
2.43.0


From 74dbf21196b074d851336c6fcaba1d60202d0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 22/46] fix: align packed values of fields which are not
 declared packed

Whether a cursor is within a packed field was decided by the declaration
of the field. If packed values were received for a field which is not
declared packed, the end of the packed field was not aligned after an
update, so the cursor read beyond the end of the message.
---
 src/message/cursor.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index f4fb5f3..f72cd78 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -548,8 +548,7 @@ pb_cursor_align(pb_cursor_t *cursor) {
     pb_version_t version = pb_cursor_version(cursor);
 
     /* Align current packed context offset, if given */
-    const pb_field_descriptor_t *descriptor = cursor->current.descriptor;
-    if (pb_field_descriptor_packed(descriptor)) {
+    if (cursor->current.packed.end) {
       pb_version_t version = pb_cursor_version(cursor);
       error = pb_journal_align(pb_cursor_journal(cursor),
         &version, &(cursor->current.packed));
-- 
2.43.0


From 4a3577ea1b8e88baf9aa5fbb8915cc85ef3946c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 23/46] fix: report integers which do not fit their type

---
 src/core/varint.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 1d3ecc1..acede7e 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -542,7 +542,8 @@ extern size_t
 pb_varint_unpack_int32(const uint8_t data[], size_t left, void *value) {
   size_t size = pb_varint_unpack_uint32(data, left, value);
   return size ? size :
-    left >= 10 && data[4] & 0x80 && data[5] == 0xFF ? 10 : 0;
+    left >= 10 && data[4] >= 0xF8 && data[5] == 0xFF && data[6] == 0xFF &&
+    data[7] == 0xFF && data[8] == 0xFF && data[9] == 0x01 ? 10 : 0;
 }
 
 /*!
@@ -579,7 +580,8 @@ pb_varint_unpack_uint8(const uint8_t data[], size_t left, void *value) {
   if (data[size++] & 0x80 && --left)
     temp |= (data[size++] & 0x7F) << 7;
   *(uint8_t *)value = temp;
-  return !left || data[size - 1] & 0x80 ? 0 : size;
+  return !left || data[size - 1] & 0x80 ||
+    (size == 2 && data[1] > 0x01) ? 0 : size;
 }
 
 /*!
@@ -610,7 +612,8 @@ pb_varint_unpack_uint32(const uint8_t data[], size_t left, void *value) {
     }
   }
   *(uint32_t *)value = temp;
-  return !left || data[size - 1] & 0x80 ? 0 : size;
+  return !left || data[size - 1] & 0x80 ||
+    (size == 5 && data[4] > 0x0F) ? 0 : size;
 }
 
 /*!
@@ -656,7 +659,8 @@ pb_varint_unpack_uint64(const uint8_t data[], size_t left, void *value) {
     }
   }
   *(uint64_t *)value = temp;
-  return !left || data[size - 1] & 0x80 ? 0 : size;
+  return !left || data[size - 1] & 0x80 ||
+    (size == 10 && data[9] > 0x01) ? 0 : size;
 }
 
 /*!
-- 
2.43.0


From e02d46c085e5fe28cae49fd82314c64c2286e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 24/46] fix: accept length prefixes which shrink by the growth
 of their value

---
 src/message/part.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index 48445f5..9b036bd 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -559,7 +559,7 @@ pb_part_write(pb_part_t *part, const uint8_t data[], size_t size) {
       /* Recursive length prefix update of parent messages */
       if (part->offset.diff.length)
         error = adjust_prefix(part, &delta);
-      if (!error)
+      if (!error && delta)
         error = adjust(part, delta);
 
       /* Ensure aligned part */
-- 
2.43.0


From f4fb2df7a267ab68c96e94482d3ca26ad8a08d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 25/46] fix: leave a created field aligned when a length prefix
 grows

---
 src/message/part.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index 9b036bd..eb9b255 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -280,7 +280,8 @@ init(pb_part_t *part, pb_wiretype_t wiretype, pb_tag_t tag) {
       part->offset.diff.length -= part->offset.start;
 
       /* Recursive length prefix update of parent messages */
-      if (!adjust(part, size))
+      if (!adjust(part, size) &&
+          (pb_part_aligned(part) || !pb_part_align(part)))
         return;
     }                                                      /* LCOV_EXCL_LINE */
   } while (0);                                             /* LCOV_EXCL_LINE */
-- 
2.43.0


From 6aab433509c36fe64ab7e9d00cf489c057f93d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:04 +0000
Subject: [PATCH 26/46] fix: track replaced ranges in journals, so live handles
 and cursors stay in sync or get invalidated

---
 src/message/cursor.c  | 43 ++++++++++++++++---
 src/message/journal.c | 98 +++++++++++++++++++++----------------------
 src/message/journal.h |  3 +-
 3 files changed, 86 insertions(+), 58 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index f72cd78..14ea39c 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -67,6 +67,7 @@ next_packed(pb_cursor_t *cursor) {
 
     /* Adjust offsets */
     offset->diff.origin -= offset->end - offset->start;
+    offset->diff.tag     = 0;
     offset->start        = offset->end;
     offset->end         += pb_stream_offset(&stream);
 
@@ -328,6 +329,12 @@ pb_cursor_next(pb_cursor_t *cursor) {
   int result = 0;
   if (pb_cursor_valid(cursor)) {
     pb_cursor_align(cursor);
+
+    /* The underlying message was erased, so there's nothing to iterate */
+    if (unlikely_(!pb_message_valid(&(cursor->message)))) {
+      cursor->error = PB_ERROR_INVALID;
+      return 0;
+    }
     do {
       result = cursor->current.packed.end
         ? next_packed(cursor)
@@ -542,6 +549,14 @@ pb_cursor_align(pb_cursor_t *cursor) {
   assert(cursor);
   assert(pb_cursor_valid(cursor));
   pb_error_t error = PB_ERROR_NONE;
+  pb_offset_t *offset = &(cursor->current.offset);
+
+  /* Check if underlying message was erased */
+  if (unlikely_(!pb_message_valid(&(cursor->message))))
+    return PB_ERROR_INVALID;
+
+  /* Check if current part was erased */
+  int erased = offset->diff.tag > 0;
 
   /* Check if cursor is already aligned */
   if (unlikely_(!pb_cursor_aligned(cursor))) {
@@ -550,15 +565,31 @@ pb_cursor_align(pb_cursor_t *cursor) {
     /* Align current packed context offset, if given */
     if (cursor->current.packed.end) {
       pb_version_t version = pb_cursor_version(cursor);
-      error = pb_journal_align(pb_cursor_journal(cursor),
-        &version, &(cursor->current.packed));
+      if (pb_journal_align(pb_cursor_journal(cursor),
+          &version, &(cursor->current.packed)))
+        cursor->current.packed.end = 0;
     }
 
     /* Align current cursor offset */
-    if (!(error = pb_message_align(&(cursor->message)))) {
-      error = pb_journal_align(pb_cursor_journal(cursor),
-        &version, &(cursor->current.offset));
+    if ((error = pb_message_align(&(cursor->message))))
+      return error;
+    if (erased)
+      offset->diff.tag = 0;
+    if (pb_journal_align(pb_cursor_journal(cursor), &version, offset))
+      erased = 1;
+
+    /* Mark current part as erased, so it can't be read or written */
+    if (erased) {
+      size_t end = cursor->current.packed.end
+        ? cursor->current.packed.end
+        : pb_message_end(&(cursor->message));
+      if (offset->start > end)
+        offset->start = end;
+      offset->end      = offset->start;
+      offset->diff.tag = 1;
     }
   }
-  return error;
+  return erased
+    ? PB_ERROR_INVALID
+    : PB_ERROR_NONE;
 }
diff --git a/src/message/journal.c b/src/message/journal.c
index d77a56a..a2bb2d1 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -40,14 +40,16 @@
  *
  * \param[in,out] journal Journal
  * \param[in]     origin  Origin
- * \param[in]     offset  Offset
+ * \param[in]     start   Start offset
+ * \param[in]     offset  End offset
  * \param[in]     delta   Delta
  * \return                Error code
  */
 static pb_error_t
 push(
-    pb_journal_t *journal, size_t origin, size_t offset, ptrdiff_t delta) {
-  assert(journal && origin <= offset && delta);
+    pb_journal_t *journal, size_t origin, size_t start, size_t offset,
+    ptrdiff_t delta) {
+  assert(journal && origin <= offset && start <= offset && delta);
   assert(pb_journal_valid(journal));
   pb_allocator_t *allocator = pb_buffer_allocator(&(journal->buffer));
   if (unlikely_(allocator == &allocator_zero_copy))
@@ -61,6 +63,7 @@ push(
     journal->entry.data = data;
     journal->entry.data[journal->entry.size++] = (pb_journal_entry_t){
       .origin = origin,
+      .start  = start,
       .offset = offset,
       .delta  = delta
     };
@@ -229,7 +232,7 @@ pb_journal_write(
   /* Perform journaled write if size changed */
   ptrdiff_t delta = size - (end - start);
   if (delta) {
-    if (likely_(!(error = push(journal, origin, end, delta)))) {
+    if (likely_(!(error = push(journal, origin, start, end, delta)))) {
       error = pb_buffer_write(&(journal->buffer), start, end, data, size);
       if (unlikely_(error))
         pop(journal);                                      /* LCOV_EXCL_LINE */
@@ -265,7 +268,7 @@ pb_journal_clear(
   /* Perform journaled clear if size changed */
   ptrdiff_t delta = start - end;
   if (delta) {
-    if (likely_(!(error = push(journal, origin, end, delta)))) {
+    if (likely_(!(error = push(journal, origin, start, end, delta)))) {
       error = pb_buffer_clear(&(journal->buffer), start, end);
       if (unlikely_(error))
         pop(journal);                                      /* LCOV_EXCL_LINE */
@@ -317,8 +320,9 @@ pb_journal_clear(
  *          ^^^^^^^^^^^^^^^^^     (b)
  *    \endcode
  *
- * -# The change happened outside the current part and the delta is negative,
- *    which means that the current part must be cleared completley.
+ * -# The change happened outside the current part and spans it, i.e. a parent
+ *    message was cleared or replaced, which means that the current part must be
+ *    cleared completely.
  *
  *    \code{.unparsed}
  *      ... [ T ][ L ][ ... ] ...
@@ -347,54 +351,46 @@ pb_journal_align(
   while (*version < journal->entry.size) {
     const pb_journal_entry_t *entry = &journal->entry.data[*version];
 
+    size_t origin = offset->start + offset->diff.origin,
+           tag    = offset->start + offset->diff.tag;
+
+    /* A value of a packed field has no tag of its own */
+    int packed = offset->diff.origin && !offset->diff.tag;
+
+    /* Change happened inside current part: resize */
+    if (entry->origin >= offset->start && entry->offset <= offset->end &&
+        !(packed && entry->origin == offset->end)) {
+      offset->end += entry->delta;
+
+      /* Current part is a packed field: invalidate */
+      if (packed && offset->start == offset->end)
+        invalid = 1;
+
     /* Change happened before current part: move */
-    if (entry->origin < offset->start &&
-        entry->offset < offset->end) {
+    } else if (entry->offset <= tag) {
       offset->start += entry->delta;
       offset->end   += entry->delta;
 
-      /* Apply potential update on relative offsets */
-      ptrdiff_t *diff[3] = {
-        &(offset->diff.origin),
-        &(offset->diff.tag),
-        &(offset->diff.length)
-      };
-      for (size_t d = 0; d < 3; ++d)
-        if (entry->offset > offset->start + *(diff[d]) - entry->delta)
-          *(diff[d]) -= entry->delta;
-
-    /* Change happened within current part: resize or clear */
-    } else if (entry->origin >= offset->start + offset->diff.origin &&
-               entry->offset <= offset->end) {
-
-      /* Change happened inside current part: resize */
-      if (entry->origin >= offset->start) {
-        offset->end += entry->delta;
-
-        /* Current part is a packed field: invalidate */
-        if (offset->diff.origin && !offset->diff.tag &&
-            offset->start == offset->end)
-          invalid = 1;
-
-      /* Current part was cleared: clear */
-      } else if (offset->start + offset->diff.tag >=
-                 offset->end   + entry->delta) {
-        offset->start      += offset->diff.tag;
-        offset->end        += entry->delta;
-        offset->diff.origin = 0;
-        offset->diff.tag    = 0;
-        offset->diff.length = 0;
-
-        /* Invalidate after alignment */
-        invalid = 1;
-      }
-
-    /* Change happened outside current part: clear */
-    } else if (entry->origin <= offset->start + offset->diff.origin &&
-               entry->origin == entry->offset + entry->delta) {
-      offset->start       = entry->origin;
-      offset->end         = entry->origin;
-      offset->diff.origin = 0;
+      /* Change happened inside the enclosing message */
+      if (entry->origin >= origin)
+        offset->diff.origin -= entry->delta;
+
+    /* Change happened on the length prefix of the current part: move */
+    } else if (entry->offset == offset->start &&
+               entry->start < offset->start && entry->start > tag) {
+      offset->start       += entry->delta;
+      offset->end         += entry->delta;
+      offset->diff.origin -= entry->delta;
+      offset->diff.tag    -= entry->delta;
+      offset->diff.length -= entry->delta;
+
+    /* Change replaced or removed the current part altogether: clear */
+    } else if (entry->start <= tag && entry->offset >= offset->end) {
+      offset->start       = entry->start;
+      offset->end         = entry->start;
+      offset->diff.origin = origin < entry->start
+        ? -(ptrdiff_t)(entry->start - origin)
+        : 0;
       offset->diff.tag    = 0;
       offset->diff.length = 0;
 
diff --git a/src/message/journal.h b/src/message/journal.h
index fc20d44..a74dbde 100644
--- a/src/message/journal.h
+++ b/src/message/journal.h
@@ -38,7 +38,8 @@
 
 typedef struct pb_journal_entry_t {
   size_t origin;                       /*!< Origin */
-  size_t offset;                       /*!< Offset */
+  size_t start;                        /*!< Start offset */
+  size_t offset;                       /*!< End offset */
   ptrdiff_t delta;                     /*!< Delta */
 } pb_journal_entry_t;
 
-- 
2.43.0


From d4b4ab114f7e905b5b3c02e04306303284af0ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 27/46] fix: invalidate handles into submessages that are
 replaced as a whole

---
 src/message/cursor.c  |  2 +-
 src/message/field.c   |  7 +++++--
 src/message/journal.c | 24 +++++++++++++++++++++++-
 src/message/journal.h |  7 +++++++
 src/message/message.c |  2 +-
 src/message/part.c    | 26 ++++++++++++++++++++++++++
 src/message/part.h    |  7 +++++++
 7 files changed, 70 insertions(+), 5 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 14ea39c..8f2b4e2 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -484,7 +484,7 @@ pb_cursor_put(pb_cursor_t *cursor, const void *value) {
 
       /* Write raw data */
       pb_part_t part = pb_part_create_from_cursor(cursor);
-      error = pb_part_write(&part, pb_journal_data_from(
+      error = pb_part_replace(&part, pb_journal_data_from(
         pb_message_journal(&submessage), pb_message_start(&submessage)),
           pb_message_size(&submessage));
 
diff --git a/src/message/field.c b/src/message/field.c
index cf5905a..85a33ad 100644
--- a/src/message/field.c
+++ b/src/message/field.c
@@ -306,8 +306,11 @@ pb_field_put(pb_field_t *field, const void *value) {
 
     /* Write a length-prefixed value */
     case PB_WIRETYPE_LENGTH:
-      error = pb_part_write(&(field->part),
-        pb_string_data(value), pb_string_size(value));
+      error = type == PB_TYPE_BYTES
+        ? pb_part_replace(&(field->part),
+            pb_string_data(value), pb_string_size(value))
+        : pb_part_write(&(field->part),
+            pb_string_data(value), pb_string_size(value));
       break;
 
     /* Write a fixed-sized 32-bit value */
diff --git a/src/message/journal.c b/src/message/journal.c
index a2bb2d1..8495065 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -49,7 +49,7 @@ static pb_error_t
 push(
     pb_journal_t *journal, size_t origin, size_t start, size_t offset,
     ptrdiff_t delta) {
-  assert(journal && origin <= offset && start <= offset && delta);
+  assert(journal && origin <= offset && start <= offset);
   assert(pb_journal_valid(journal));
   pb_allocator_t *allocator = pb_buffer_allocator(&(journal->buffer));
   if (unlikely_(allocator == &allocator_zero_copy))
@@ -281,6 +281,28 @@ pb_journal_clear(
   return error;
 }
 
+/*!
+ * Record that a range of a journal is about to be replaced as a whole.
+ *
+ * If the size of a range doesn't change, an update is not journaled. However,
+ * parts located inside the range must not survive its replacement. Zero-copy
+ * journals cannot hold entries, so there's nothing to record.
+ *
+ * \param[in,out] journal Journal
+ * \param[in]     start   Start offset
+ * \param[in]     end     End offset
+ * \return                Error code
+ */
+extern pb_error_t
+pb_journal_touch(pb_journal_t *journal, size_t start, size_t end) {
+  assert(journal && start < end);
+  if (unlikely_(!pb_journal_valid(journal)))
+    return PB_ERROR_INVALID;
+  return pb_buffer_allocator(&(journal->buffer)) != &allocator_zero_copy
+    ? push(journal, start, start, end, 0)
+    : PB_ERROR_NONE;
+}
+
 /*!
  * Align an offset of a specific version according to a journal.
  *
diff --git a/src/message/journal.h b/src/message/journal.h
index a74dbde..e31f22b 100644
--- a/src/message/journal.h
+++ b/src/message/journal.h
@@ -65,6 +65,13 @@ pb_journal_clear(
   size_t start,                        /* Start offset */
   size_t end);                         /* End offset */
 
+PB_WARN_UNUSED_RESULT
+extern pb_error_t
+pb_journal_touch(
+  pb_journal_t *journal,               /* Journal */
+  size_t start,                        /* Start offset */
+  size_t end);                         /* End offset */
+
 PB_WARN_UNUSED_RESULT
 extern pb_error_t
 pb_journal_align(
diff --git a/src/message/message.c b/src/message/message.c
index 79605b7..d3d5e84 100644
--- a/src/message/message.c
+++ b/src/message/message.c
@@ -337,7 +337,7 @@ pb_message_put(pb_message_t *message, pb_tag_t tag, const void *value) {
     /* Write raw data */
     } else {
       pb_part_t part = pb_part_create(message, tag);
-      error = pb_part_write(&part, pb_journal_data_from(
+      error = pb_part_replace(&part, pb_journal_data_from(
         pb_message_journal(&submessage), pb_message_start(&submessage)),
           pb_message_size(&submessage));
       pb_part_destroy(&part);
diff --git a/src/message/part.c b/src/message/part.c
index eb9b255..c45e570 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -571,6 +571,32 @@ pb_part_write(pb_part_t *part, const uint8_t data[], size_t size) {
   return error;
 }
 
+/*!
+ * Replace the raw data of a part that may contain other parts.
+ *
+ * This is the way to write submessages and bytes, as all parts located inside
+ * the given part are invalidated, even if its size doesn't change.
+ *
+ * \param[in,out] part Part
+ * \param[in]     data Raw data
+ * \param[in]     size Raw data size
+ * \return             Error code
+ */
+extern pb_error_t
+pb_part_replace(pb_part_t *part, const uint8_t data[], size_t size) {
+  assert(part && (data || !size));
+  if (!pb_part_valid(part) || (!pb_part_aligned(part) && pb_part_align(part)))
+    return PB_ERROR_INVALID;
+  if (size && size == pb_part_size(part)) {
+    pb_error_t error = pb_journal_touch(part->journal,
+      part->offset.start, part->offset.end);
+    if (unlikely_(error))
+      return error;
+    part->version = pb_journal_version(part->journal);
+  }
+  return pb_part_write(part, data, size);
+}
+
 /*!
  * Clear data from a part and invalidate it.
  *
diff --git a/src/message/part.h b/src/message/part.h
index 649efab..f1ecb63 100644
--- a/src/message/part.h
+++ b/src/message/part.h
@@ -70,6 +70,13 @@ pb_part_write(
   const uint8_t data[],                /* Raw data */
   size_t size);                        /* Raw data size */
 
+PB_WARN_UNUSED_RESULT
+extern pb_error_t
+pb_part_replace(
+  pb_part_t *part,                     /* Part */
+  const uint8_t data[],                /* Raw data */
+  size_t size);                        /* Raw data size */
+
 PB_WARN_UNUSED_RESULT
 extern pb_error_t
 pb_part_clear(
-- 
2.43.0


From abb2a7141a7819e94df5fce8e89902667c859cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:10 +0000
Subject: [PATCH 28/46] fix: fail when another member of a oneof cannot be
 erased before a put

---
 src/message/part.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/message/part.c b/src/message/part.c
index c45e570..686d305 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -384,20 +384,23 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
         /* If the tag is part of a oneof ensure it is the active tag */
         if (pb_field_descriptor_label(descriptor) == PB_LABEL_ONEOF) {
+          pb_error_t error = PB_ERROR_NONE;
           temp = pb_cursor_copy(&cursor);
           do {
             int member = pb_field_descriptor_oneof(descriptor) ==
               pb_field_descriptor_oneof(pb_cursor_descriptor(&temp));
             if (member && tag != pb_cursor_tag(&temp))
-              if (pb_cursor_erase(&temp))
+              if ((error = pb_cursor_erase(&temp)))
                 break;                                     /* LCOV_EXCL_LINE */
           } while (pb_cursor_next(&temp));
           pb_cursor_destroy(&temp);
 
           /* Ensure alignment of cursor and message */
           pb_cursor_align(&cursor);
-          if (pb_message_align(message))
+          if (error || pb_message_align(message)) {
+            pb_cursor_destroy(&cursor);                    /* LCOV_EXCL_LINE */
             break;                                         /* LCOV_EXCL_LINE */
+          }                                                /* LCOV_EXCL_LINE */
         }
 
         /* If the tag matches and the field is non-repeated, we're done */
-- 
2.43.0


From 43f09aaa60b273926014aaabe8c33c17a9239d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:19 +0000
Subject: [PATCH 29/46] fix: keep an empty string when a handle to its field is
 created

---
 src/message/field.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/message/field.c b/src/message/field.c
index 85a33ad..347ff0c 100644
--- a/src/message/field.c
+++ b/src/message/field.c
@@ -94,10 +94,19 @@ default_map[] = {
  */
 extern pb_field_t
 pb_field_create(pb_message_t *message, pb_tag_t tag) {
+  assert(message && tag);
+  const pb_field_descriptor_t *descriptor = pb_message_valid(message)
+    ? pb_descriptor_field_by_tag(pb_message_descriptor(message), tag)
+    : NULL;
+
+  /* A string which is present may be empty, so don't mistake it as absent */
+  int present = descriptor && pb_field_descriptor_default(descriptor) &&
+    pb_field_descriptor_wiretype(descriptor) == PB_WIRETYPE_LENGTH &&
+    pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED &&
+    pb_message_has(message, tag);
+
   pb_field_t field = pb_field_create_without_default(message, tag);
-  if (pb_field_valid(&field) && pb_field_empty(&field)) {
-    const pb_field_descriptor_t *descriptor =
-      pb_descriptor_field_by_tag(pb_message_descriptor(message), tag);
+  if (pb_field_valid(&field) && pb_field_empty(&field) && !present) {
 
     /* Write explicit or implicit default value to field */
     const void *value = pb_field_descriptor_default(descriptor)
-- 
2.43.0


From 4a285a83e7f4517e0a1d36c7e8f89b3f37ec1373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:46 +0000
Subject: [PATCH 30/46] fix: never bring back the old value of a superseded
 oneof member

---
 src/message/part.c | 77 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/src/message/part.c b/src/message/part.c
index 686d305..1a46c36 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -290,6 +290,57 @@ init(pb_part_t *part, pb_wiretype_t wiretype, pb_tag_t tag) {
   pb_part_invalidate(part);                                /* LCOV_EXCL_LINE */
 }
 
+/*!
+ * Ensure that a specific tag is the only candidate for its oneof.
+ *
+ * Unless the tag is already active, all members of the oneof are erased, as
+ * previous values must neither hide the new value, nor become visible again.
+ *
+ * \param[in,out] message    Message
+ * \param[in]     tag        Tag
+ * \param[in]     descriptor Oneof descriptor
+ * \return                   Error code
+ */
+static pb_error_t
+activate(
+    pb_message_t *message, pb_tag_t tag,
+    const pb_oneof_descriptor_t *descriptor) {
+  assert(message && tag && descriptor);
+  pb_tag_t active = 0;
+
+  /* Determine the active tag, which is the last one */
+  pb_cursor_t cursor = pb_cursor_create_without_tag(message);
+  pb_cursor_t temp   = pb_cursor_copy(&cursor);
+  if (pb_cursor_valid(&temp)) {
+    do {
+      if (pb_field_descriptor_oneof(
+          pb_cursor_descriptor(&temp)) == descriptor)
+        active = pb_cursor_tag(&temp);
+    } while (pb_cursor_next(&temp));
+  }
+
+  /* Don't indicate an error, if the cursor just reached the end */
+  pb_error_t error = pb_cursor_error(&temp) != PB_ERROR_EOM
+    ? pb_cursor_error(&temp)
+    : PB_ERROR_NONE;
+  pb_cursor_destroy(&temp);
+
+  /* Erase all members, if another tag is active */
+  if (!error && active && active != tag) {
+    do {
+      if (pb_field_descriptor_oneof(
+          pb_cursor_descriptor(&cursor)) == descriptor)
+        error = pb_cursor_erase(&cursor);
+    } while (!error && pb_cursor_next(&cursor));
+
+    /* Ensure alignment of message */
+    if (!error)
+      error = pb_message_align(message);
+  }
+  pb_cursor_destroy(&cursor);
+  return error;
+}
+
 /* ----------------------------------------------------------------------------
  * Interface
  * ------------------------------------------------------------------------- */
@@ -361,6 +412,11 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
       pb_descriptor_field_by_tag(pb_message_descriptor(message), tag);
     assert(descriptor);
 
+    /* If the tag is part of a oneof ensure it is the active tag */
+    if (pb_field_descriptor_label(descriptor) == PB_LABEL_ONEOF)
+      if (activate(message, tag, pb_field_descriptor_oneof(descriptor)))
+        break;                                             /* LCOV_EXCL_LINE */
+
     /* Determine exact or best matching field offset */
     pb_cursor_t cursor = pb_cursor_create_without_tag(message);
     pb_cursor_t temp   = pb_cursor_copy(&cursor);
@@ -382,27 +438,6 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
       size_t start = pb_message_start(message);
       if (pb_cursor_valid(&cursor)) {
 
-        /* If the tag is part of a oneof ensure it is the active tag */
-        if (pb_field_descriptor_label(descriptor) == PB_LABEL_ONEOF) {
-          pb_error_t error = PB_ERROR_NONE;
-          temp = pb_cursor_copy(&cursor);
-          do {
-            int member = pb_field_descriptor_oneof(descriptor) ==
-              pb_field_descriptor_oneof(pb_cursor_descriptor(&temp));
-            if (member && tag != pb_cursor_tag(&temp))
-              if ((error = pb_cursor_erase(&temp)))
-                break;                                     /* LCOV_EXCL_LINE */
-          } while (pb_cursor_next(&temp));
-          pb_cursor_destroy(&temp);
-
-          /* Ensure alignment of cursor and message */
-          pb_cursor_align(&cursor);
-          if (error || pb_message_align(message)) {
-            pb_cursor_destroy(&cursor);                    /* LCOV_EXCL_LINE */
-            break;                                         /* LCOV_EXCL_LINE */
-          }                                                /* LCOV_EXCL_LINE */
-        }
-
         /* If the tag matches and the field is non-repeated, we're done */
         if (pb_cursor_tag(&cursor) == tag &&
             pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED) {
-- 
2.43.0


From 08ea4dd0b54ab46428c62e436da8f383c70eff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 31/46] fix: report garbled data when clearing a oneof instead
 of success

---
 src/message/oneof.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message/oneof.c b/src/message/oneof.c
index ed43417..e2819cb 100644
--- a/src/message/oneof.c
+++ b/src/message/oneof.c
@@ -101,5 +101,9 @@ pb_oneof_clear(pb_oneof_t *oneof) {
         error = pb_cursor_erase(&(oneof->cursor));
     } while (!error && pb_cursor_next(&(oneof->cursor)));
   }
+
+  /* Don't hide that members could not be reached because of garbled data */
+  if (!error && (error = pb_oneof_error(oneof)) == PB_ERROR_INVALID)
+    error = PB_ERROR_NONE;
   return error;
 }
-- 
2.43.0


From c431645c3db7d1a2d08636655263c393f0ad820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 32/46] fix: generator aborts on every field that is no
 extension

---
 src/generator/field.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index e86edfa..c5802ec 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -77,7 +77,7 @@ namespace protobluff {
 
     /* Prefix scope to identifiers, if given */
     string prefix ("");
-    if (descriptor_->extension_scope()) {
+    if (descriptor_->is_extension() && descriptor_->extension_scope()) {
       const Descriptor *scope = descriptor_->extension_scope();
       prefix = scope->full_name();
 
-- 
2.43.0


From 94c8d48ffd1d03a0b3d8ade3fbd52577f219167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 33/46] fix: generator emits indexes of other fields for a
 oneof

---
 src/generator/oneof.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generator/oneof.cc b/src/generator/oneof.cc
index 82fcd5d..03331f0 100644
--- a/src/generator/oneof.cc
+++ b/src/generator/oneof.cc
@@ -137,8 +137,9 @@ namespace protobluff {
     sort(tags.begin(), tags.end());
 
     /* Generate indexes */
-    for (size_t f = 0, g = 0; f < descriptor->field_count(); f++) {
-      if (descriptor->field(f) == descriptor_->field(g)) {
+    for (size_t f = 0, g = 0; f < tags.size(); f++) {
+      const FieldDescriptor *field = descriptor->FindFieldByNumber(tags[f]);
+      if (field->containing_oneof() == descriptor_) {
         printer->Print("`index`", "index", SimpleItoa(f));
         if (g < descriptor_->field_count() - 1)
           printer->Print(", ");
-- 
2.43.0


From 3570e971b4907dfd10697494d3f1a9a9c20cf19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 34/46] fix: generated case accessor passes the descriptor of
 the message as oneof

---
 src/generator/oneof.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/oneof.cc b/src/generator/oneof.cc
index 03331f0..dc76e57 100644
--- a/src/generator/oneof.cc
+++ b/src/generator/oneof.cc
@@ -170,7 +170,7 @@ namespace protobluff {
       "  assert(pb_message_descriptor(message) == \n"
       "    &`message`_descriptor);\n"
       "  pb_oneof_t oneof = pb_oneof_create(\n"
-      "    &`message`_descriptor, message);\n"
+      "    &`oneof`_descriptor, message);\n"
       "  pb_tag_t tag = pb_oneof_case(&oneof);\n"
       "  pb_oneof_destroy(&oneof);\n"
       "  return tag;\n"
-- 
2.43.0


From c7a848fb4862eaad17add309f02b4d6326218f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 35/46] fix: generator does not escape string and bytes
 defaults

---
 src/generator/field.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index c5802ec..c8a097d 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -55,6 +55,7 @@ namespace protobluff {
   using ::google::protobuf::FieldDescriptor;
   using ::google::protobuf::io::Printer;
 
+  using ::google::protobuf::CEscape;
   using ::google::protobuf::HasPrefixString;
   using ::google::protobuf::JoinStrings;
   using ::google::protobuf::LowerString;
@@ -222,11 +223,9 @@ namespace protobluff {
           break;
         case FieldDescriptor::CPPTYPE_STRING:
           variables_["default"] = "pb_string_const(\""
-            + descriptor_->default_value_string() + "\"";
-          if (descriptor_->type() == FieldDescriptor::TYPE_BYTES)
-            variables_["default"] += ", " + SimpleItoa(
-              descriptor_->default_value_string().length());
-          variables_["default"] += ")";
+            + StringReplace(CEscape(
+                descriptor_->default_value_string()), "?", "\\?", true)
+            + "\")";
           break;
         default:
           return;
-- 
2.43.0


From d97e27f1ae70f7f1d8a1c0763f7082b675dfc891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 36/46] fix: generator emits incomplete defaults for members of
 a oneof

---
 src/generator/field.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index c8a097d..cf27e89 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -830,8 +830,9 @@ namespace protobluff {
    */
   bool Field::
   HasDefault() const {
-    return descriptor_->has_default_value() ||
-      (descriptor_->enum_type() && descriptor_->is_optional());
+    return !descriptor_->containing_oneof() &&
+      (descriptor_->has_default_value() ||
+        (descriptor_->enum_type() && descriptor_->is_optional()));
   }
 
   /*!
-- 
2.43.0


From 59a580030ab6bba15c3f1547ea7873533564c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 37/46] fix: generator emits defaults of inf, nan and -0 that
 are no valid literals

---
 src/generator/field.cc | 25 +++++++++++++++++++++----
 src/generator/file.cc  |  1 +
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index cf27e89..2c28fb7 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -67,6 +67,23 @@ namespace protobluff {
   using ::google::protobuf::StripSuffixString;
   using ::google::protobuf::UpperString;
 
+  /*!
+   * Convert the textual representation of a number into a C literal.
+   *
+   * \param[in] value Textual representation
+   * \return          C literal
+   */
+  static string
+  FloatingPointLiteral(const string &value) {
+    if (value == "inf")
+      return "INFINITY";
+    if (value == "-inf")
+      return "-INFINITY";
+    if (value == "nan" || value == "-nan")
+      return "NAN";
+    return value == "-0" ? "-0.0" : value;
+  }
+
   /*!
    * Create a field generator.
    *
@@ -206,12 +223,12 @@ namespace protobluff {
             descriptor_->default_value_uint64()) + "ULL";
           break;
         case FieldDescriptor::CPPTYPE_FLOAT:
-          variables_["default"] = SimpleFtoa(
-            descriptor_->default_value_float());
+          variables_["default"] = FloatingPointLiteral(SimpleFtoa(
+            descriptor_->default_value_float()));
           break;
         case FieldDescriptor::CPPTYPE_DOUBLE:
-          variables_["default"] = SimpleDtoa(
-            descriptor_->default_value_double());
+          variables_["default"] = FloatingPointLiteral(SimpleDtoa(
+            descriptor_->default_value_double()));
           break;
         case FieldDescriptor::CPPTYPE_BOOL:
           variables_["default"] =
diff --git a/src/generator/file.cc b/src/generator/file.cc
index 2fdf0f4..b549e8c 100644
--- a/src/generator/file.cc
+++ b/src/generator/file.cc
@@ -295,6 +295,7 @@ namespace protobluff {
 
     /* Generate library includes */
     printer->Print(variables_,
+      "#include <math.h>\n"
       "#include <protobluff/descriptor.h>\n"
       "\n");
 
-- 
2.43.0


From 635bf3af8f49b15b31a1bb9668eafe9c563bf3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 38/46] fix: generator emits include guards that are no valid
 identifiers

---
 src/generator/file.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/generator/file.cc b/src/generator/file.cc
index b549e8c..decb1c4 100644
--- a/src/generator/file.cc
+++ b/src/generator/file.cc
@@ -21,6 +21,7 @@
  */
 
 #include <cassert>
+#include <cctype>
 #include <ctime>
 #include <set>
 #include <string>
@@ -55,7 +56,6 @@ namespace protobluff {
   using ::google::protobuf::io::Printer;
 
   using ::google::protobuf::SimpleItoa;
-  using ::google::protobuf::StringReplace;
   using ::google::protobuf::StripSuffixString;
   using ::google::protobuf::UpperString;
 
@@ -111,10 +111,14 @@ namespace protobluff {
       ? descriptor_->package() : "-";
 
     /* Extract and prepare guard name */
-    variables_["guard"] = StringReplace(
-      StripSuffixString(descriptor_->name(), ".proto"),
-    ".", "_", true);
-    UpperString(&(variables_["guard"]));
+    string guard = StripSuffixString(descriptor_->name(), ".proto");
+    for (size_t c = 0; c < guard.size(); c++)
+      if (!isascii(guard[c]) || !isalnum(guard[c]))
+        guard[c] = '_';
+    if (isdigit(guard[0]))
+      guard = "_" + guard;
+    UpperString(&guard);
+    variables_["guard"] = guard;
 
     /* Prepare current runtime version */
     variables_["version"] = SimpleItoa(PB_VERSION);
-- 
2.43.0


From 8f3231c5ee8639a664a889b646fba3fea220cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 39/46] fix: generator omits the defaults of nested extensions

---
 src/generator/message.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generator/message.cc b/src/generator/message.cc
index 275316e..a7c2eb2 100644
--- a/src/generator/message.cc
+++ b/src/generator/message.cc
@@ -409,6 +409,11 @@ namespace protobluff {
       if (fields_[f]->HasDefault())
         return true;
 
+    /* Check extensions for default values */
+    for (size_t e = 0; e < extensions_.size(); e++)
+      if (extensions_[e]->HasDefaults())
+        return true;
+
     /* Check nested messages for default values */
     for (size_t n = 0; n < descriptor_->nested_type_count(); n++)
       if (nested_[n]->HasDefaults())
-- 
2.43.0


From cdbb6b4517062908c4b8e5c09363836de0414280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 40/46] fix: nested accessors of deprecated fields and enum
 values are not flagged

---
 src/generator/field.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index 2c28fb7..2395be3 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -636,6 +636,11 @@ namespace protobluff {
     tags.push_back(SimpleItoa(descriptor_->number()));
     name.push_back(descriptor_->lowercase_name());
 
+    /* Emit warning if any of the fields involved is deprecated */
+    for (size_t f = 0; f < trace.size(); f++)
+      if (trace.at(f)->options().deprecated())
+        variables["deprecated"] = "PB_DEPRECATED\n";
+
     /* Prepare accessor variables */
     variables["field"] = JoinStrings(name, "_");
     variables["tag"]  = "(const pb_tag_t []){ "
@@ -756,6 +761,11 @@ namespace protobluff {
           /* Extract enum value signature */
           enum_variables["enum.signature"] = value->name();
 
+          /* Emit warning if enum value is deprecated */
+          if (descriptor->options().deprecated() ||
+              value->options().deprecated())
+            enum_variables["deprecated"] = "PB_DEPRECATED\n";
+
           /* Generate accessors for enum value */
           printer->Print(enum_variables,
             "/* `signature` : has(`enum.signature`) */\n"
-- 
2.43.0


From 47d8cb87022c6eac357237cc5f035b384d3ac1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 41/46] fix: generator emits an integer literal too large for
 the minimum of int64

---
 src/generator/field.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index 2395be3..9a7c03c 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -211,8 +211,9 @@ namespace protobluff {
             descriptor_->default_value_int32());
           break;
         case FieldDescriptor::CPPTYPE_INT64:
-          variables_["default"] = SimpleItoa(
-            descriptor_->default_value_int64()) + "LL";
+          variables_["default"] = descriptor_->default_value_int64() < 0
+            ? SimpleItoa(descriptor_->default_value_int64() + 1) + "LL - 1"
+            : SimpleItoa(descriptor_->default_value_int64()) + "LL";
           break;
         case FieldDescriptor::CPPTYPE_UINT32:
           variables_["default"] = SimpleItoa(
-- 
2.43.0


From cf5ac4c3d5c29480b204d51fb13b817df5982956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 42/46] fix: give every generated header a guard of its own

---
 src/generator/file.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/generator/file.cc b/src/generator/file.cc
index decb1c4..1bb248e 100644
--- a/src/generator/file.cc
+++ b/src/generator/file.cc
@@ -22,6 +22,7 @@
 
 #include <cassert>
 #include <cctype>
+#include <cstdio>
 #include <ctime>
 #include <set>
 #include <string>
@@ -57,7 +58,6 @@ namespace protobluff {
 
   using ::google::protobuf::SimpleItoa;
   using ::google::protobuf::StripSuffixString;
-  using ::google::protobuf::UpperString;
 
   /*!
    * Create a file generator.
@@ -110,14 +110,19 @@ namespace protobluff {
     variables_["package"]  = descriptor_->package().size() > 0
       ? descriptor_->package() : "-";
 
-    /* Extract and prepare guard name */
-    string guard = StripSuffixString(descriptor_->name(), ".proto");
-    for (size_t c = 0; c < guard.size(); c++)
-      if (!isascii(guard[c]) || !isalnum(guard[c]))
-        guard[c] = '_';
-    if (isdigit(guard[0]))
-      guard = "_" + guard;
-    UpperString(&guard);
+    /* Extract and prepare guard name, which must differ for every file */
+    string guard ("FILE_");
+    string name = StripSuffixString(descriptor_->name(), ".proto");
+    for (size_t c = 0; c < name.size(); c++) {
+      if (isascii(name[c]) && isalnum(name[c])) {
+        guard += name[c];
+      } else {
+        char escaped[4];
+        snprintf(escaped, sizeof(escaped), "_%02x",
+          static_cast<unsigned char>(name[c]));
+        guard += escaped;
+      }
+    }
     variables_["guard"] = guard;
 
     /* Prepare current runtime version */
-- 
2.43.0


From 462c7b9ef75a2ce28cb435e0c44446df75b661cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 43/46] fix: print float defaults with as many digits as they
 need

---
 src/generator/strutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/strutil.cc b/src/generator/strutil.cc
index 31fca61..8bb3d5e 100644
--- a/src/generator/strutil.cc
+++ b/src/generator/strutil.cc
@@ -1115,7 +1115,7 @@ char* FloatToBuffer(float value, char* buffer) {
   float parsed_value;
   if (!safe_strtof(buffer, &parsed_value) || parsed_value != value) {
     int snprintf_result =
-      snprintf(buffer, kFloatToBufferSize, "%.*g", FLT_DIG+2, value);
+      snprintf(buffer, kFloatToBufferSize, "%.*g", FLT_DIG+3, value);
 
     // Should never overflow; see above.
     GOOGLE_DCHECK(snprintf_result > 0 && snprintf_result < kFloatToBufferSize);
-- 
2.43.0


From 617fd71fd72effe57d2335ec324575979bb0b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 44/46] fix: refuse sizes which overflow the capacity of a
 chunk

---
 src/util/chunk_allocator.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/util/chunk_allocator.c b/src/util/chunk_allocator.c
index 774b214..2ac6c3b 100644
--- a/src/util/chunk_allocator.c
+++ b/src/util/chunk_allocator.c
@@ -61,6 +61,17 @@ typedef struct pb_chunk_allocator_t {
   (assert(block), (void *)((uint8_t *)(block) - \
     sizeof(pb_chunk_allocator_t)))
 
+/*!
+ * Check that neither a capacity nor the size of its chunk has overflowed.
+ *
+ * \param[in] capacity Capacity
+ * \param[in] size     Bytes to be allocated
+ * \return             Test result
+ */
+#define capacity_valid(capacity, size) \
+  ((capacity) >= (size) && \
+    (capacity) <= SIZE_MAX - sizeof(pb_chunk_allocator_t))
+
 /* ----------------------------------------------------------------------------
  * Allocator callbacks
  * ------------------------------------------------------------------------- */
@@ -99,6 +110,8 @@ allocator_allocate(void *data, size_t size) {
 
   /* Calculate necessary capacity */
   size_t capacity = base->capacity * (size / base->capacity + 1);
+  if (unlikely_(!capacity_valid(capacity, size)))
+    return NULL;
 
   /* Allocate chunk and link in predecessor */
   pb_chunk_allocator_t *chunk = malloc(
@@ -148,6 +161,8 @@ allocator_resize(void *data, void *block, size_t size) {
 
       /* Calculate new capacity */
       size_t capacity = base->capacity * (size / base->capacity + 1);
+      if (unlikely_(!capacity_valid(capacity, size)))
+        return NULL;
 
       /* Grow chunk and link in predecessor */
       pb_chunk_allocator_t *chunk = realloc(head->next,
-- 
2.43.0


From 23bac4e64d556ce90de86274a89481041de033dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:24 +0000
Subject: [PATCH 45/46] fix: refuse to encode values which are too long for a
 length prefix

---
 src/core/encoder.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index 92dfe23..83c1add 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -120,25 +120,30 @@ encode_length(
   assert(pb_buffer_valid(buffer));
 
   /* Extract data and size according to type */
-  const uint8_t *string; uint32_t length;
+  const uint8_t *string; size_t size;
   if (pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE) {
     if (unlikely_(!pb_encoder_valid(value)))
       return PB_ERROR_INVALID;
     string = pb_buffer_data(pb_encoder_buffer(value));
-    length = pb_buffer_size(pb_encoder_buffer(value));
+    size   = pb_buffer_size(pb_encoder_buffer(value));
   } else {
     string = pb_string_data(value);
-    length = pb_string_size(value);
+    size   = pb_string_size(value);
   }
 
+  /* Refuse values which are too long for a length prefix */
+  uint32_t length = size;
+  if (unlikely_(length != size))
+    return PB_ERROR_INVALID;
+
   /* Encode length prefix */
   uint8_t *data = pb_buffer_grow(buffer,
-    pb_varint_size_uint32(&length) + length);
+    pb_varint_size_uint32(&length) + size);
   if (data) {
     data += pb_varint_pack_uint32(data, &length);
 
     /* Encode message or string */
-    memcpy(data, string, length);
+    memcpy(data, string, size);
     return PB_ERROR_NONE;
   }
   return PB_ERROR_ALLOC;                                   /* LCOV_EXCL_LINE */
-- 
2.43.0


From 6f3c7dcd6ea1f108e6f0c5a09b6140aef1f6d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:34 +0000
Subject: [PATCH 46/46] fix: refuse to encode packed values which are too long
 for a length prefix

---
 src/core/encoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index 83c1add..54a1778 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -222,6 +222,10 @@ encode_packed(
     }
   }
 
+  /* Refuse values which are too long for a length prefix */
+  if (unlikely_((uint32_t)length != length))
+    return PB_ERROR_INVALID;
+
   /* Pack wiretype into tag */
   pb_tag_t tag =
     (pb_field_descriptor_tag(descriptor) << 3) | PB_WIRETYPE_LENGTH;
-- 
2.43.0

