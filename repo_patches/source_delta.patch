From 1eb814b69759fc8517b7c216fcf323dcf6e39cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:27 +0000
Subject: [PATCH 01/47] fix: reject array_list capacities whose storage size
 overflows

---
 src/array_list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/array_list.c b/src/array_list.c
index 8761cec..eb05274 100644
--- a/src/array_list.c
+++ b/src/array_list.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <string.h>
 
 #include "rcutils/allocator.h"
@@ -66,6 +67,9 @@ rcutils_array_list_init(
   } else if (1 > data_size) {
     RCUTILS_SET_ERROR_MSG("data_size cannot be less than 1");
     return RCUTILS_RET_INVALID_ARGUMENT;
+  } else if (initial_capacity > SIZE_MAX / data_size) {
+    RCUTILS_SET_ERROR_MSG("requested capacity for array_list too large");
+    return RCUTILS_RET_BAD_ALLOC;
   }
 
   array_list->impl = allocator->allocate(sizeof(rcutils_array_list_impl_t), allocator->state);
-- 
2.43.0


From 1f63d89dc7e42ab9d55991086523cf96dbf0dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:27 +0000
Subject: [PATCH 02/47] fix: reject hash_map capacities whose storage size
 overflows

---
 src/hash_map.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hash_map.c b/src/hash_map.c
index 28748d6..eabe07d 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <string.h>
 #include <stdio.h>
 
@@ -86,6 +87,10 @@ static rcutils_ret_t hash_map_allocate_new_map(
   rcutils_array_list_t ** map, size_t capacity,
   const rcutils_allocator_t * allocator)
 {
+  // ensure that the size of the allocation won't overflow SIZE_MAX
+  if (capacity > (SIZE_MAX / sizeof(rcutils_hash_map_impl_t))) {
+    return RCUTILS_RET_BAD_ALLOC;
+  }
   *map = allocator->allocate(capacity * sizeof(rcutils_hash_map_impl_t), allocator->state);
   if (NULL == *map) {
     return RCUTILS_RET_BAD_ALLOC;
-- 
2.43.0


From 04b5bf1352f783491a651fa2d0bd47812785391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 03/47] fix: do not read past key_length in length-delimited
 string_map lookups

---
 src/string_map.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/string_map.c b/src/string_map.c
index 47688e0..5d0ac99 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -255,11 +255,9 @@ __get_index_of_key_if_exists(
     if (NULL == string_map_impl->key_value_pairs[i].key) {
       continue;
     }
-    size_t cmp_count = strlen(string_map_impl->key_value_pairs[i].key);
-    if (key_length > cmp_count) {
-      cmp_count = key_length;
-    }
-    if (strncmp(key, string_map_impl->key_value_pairs[i].key, cmp_count) == 0) {
+    const char * stored_key = string_map_impl->key_value_pairs[i].key;
+    // never look at more than key_length characters of key, it may not be null terminated
+    if (strlen(stored_key) <= key_length && strncmp(key, stored_key, key_length) == 0) {
       *index = i;
       return true;
     }
-- 
2.43.0


From d9d8210997f64f79e6485bea327ff8f28fe1496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 04/47] fix: keep all entries when shrinking a string_map with
 holes

---
 src/string_map.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/string_map.c b/src/string_map.c
index 5d0ac99..cac01c4 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -180,6 +180,23 @@ rcutils_string_map_reserve(rcutils_string_map_t * string_map, size_t capacity)
       return RCUTILS_RET_BAD_ALLOC;
     }
 
+    // when shrinking, entries may be stored beyond the new capacity: move them to the front
+    if (capacity < string_map->impl->capacity) {
+      key_value_pair_t * pairs = string_map->impl->key_value_pairs;
+      size_t free_index = 0;
+      for (size_t i = 0; i < string_map->impl->capacity; ++i) {
+        if (NULL == pairs[i].key) {
+          continue;
+        }
+        if (i != free_index) {
+          pairs[free_index] = pairs[i];
+          pairs[i].key = NULL;
+          pairs[i].value = NULL;
+        }
+        ++free_index;
+      }
+    }
+
     // resize the keys and values, assigning the result only if it succeeds
     key_value_pair_t * new_key_value_pairs = allocator.reallocate(
       string_map->impl->key_value_pairs, capacity * sizeof(key_value_pair_t), allocator.state);
-- 
2.43.0


From 8fc33b0f47889442273c7c0ed4307f74515a534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 05/47] fix: reject string_array sizes whose storage size
 overflows

---
 src/string_array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/string_array.c b/src/string_array.c
index e279a37..ebcc057 100644
--- a/src/string_array.c
+++ b/src/string_array.c
@@ -154,6 +154,11 @@ rcutils_string_array_resize(
   RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
     allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
 
+  if (new_size > SIZE_MAX / sizeof(char *)) {
+    RCUTILS_SET_ERROR_MSG("requested size for string array is too large");
+    return RCUTILS_RET_BAD_ALLOC;
+  }
+
   // Stash entries being removed
   rcutils_string_array_t to_reclaim = rcutils_get_zero_initialized_string_array();
   if (new_size < string_array->size) {
-- 
2.43.0


From f56ff7f743c1c1960c80bf946cf58ebf61ac7134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 06/47] fix: do not read past the end of the source in
 rcutils_char_array_strncat

---
 src/char_array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/char_array.c b/src/char_array.c
index 76743d1..5a68282 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -220,6 +220,11 @@ rcutils_char_array_strncat(rcutils_char_array_t * char_array, const char * src,
     // The buffer length always contains the trailing \0, so the strlen is one less than that.
     current_strlen = char_array->buffer_length - 1;
   }
+  // do not read past the end of src if it is shorter than n
+  const char * src_end = memchr(src, '\0', n);
+  if (NULL != src_end) {
+    n = (size_t)(src_end - src);
+  }
   size_t new_length = current_strlen + n + 1;
   rcutils_ret_t ret = rcutils_char_array_expand_as_needed(char_array, new_length);
   if (ret != RCUTILS_RET_OK) {
-- 
2.43.0


From 455ffa5080e293a7b30b87720bf5700c2cd458dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 07/47] fix: keep the char_array buffer valid when growing it
 fails

---
 src/char_array.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/char_array.c b/src/char_array.c
index 5a68282..67611dd 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -102,7 +102,9 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
   size_t old_length = char_array->buffer_length;
 
   if (char_array->owns_buffer) {  // we own the buffer, we can do whatever we want
-    char * new_buf = rcutils_reallocf(char_array->buffer, new_size * sizeof(char), allocator);
+    // on failure the old buffer stays valid and is still owned by the char array
+    char * new_buf = allocator->reallocate(
+      char_array->buffer, new_size * sizeof(char), allocator->state);
     RCUTILS_CHECK_FOR_NULL_WITH_MSG(
       new_buf,
       "failed to reallocate memory for char array",
-- 
2.43.0


From b656bfaf4503f9b149d076d070e8ff5f3ffaa63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 08/47] fix: copy all bytes of an unowned char_array buffer
 when growing it

---
 src/char_array.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/char_array.c b/src/char_array.c
index 67611dd..5ab826b 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -116,8 +116,11 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
       return ret;
     }
     size_t n = MIN(new_size, old_size);
-    memcpy(char_array->buffer, old_buf, n);
-    char_array->buffer[n - 1] = '\0';  // always have an ending
+    if (n > 0lu) {
+      memcpy(char_array->buffer, old_buf, n);
+    }
+    // always have an ending, without overwriting the copied content if there is room
+    char_array->buffer[MIN(n, new_size - 1)] = '\0';
   }
 
   char_array->buffer_capacity = new_size;
-- 
2.43.0


From 75626ff2279a9d032f619220e135f07f0cff66c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 09/47] fix: do not return an unwritten token from
 rcutils_split_last

---
 src/split.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/split.c b/src/split.c
index 98c4783..449518a 100644
--- a/src/split.c
+++ b/src/split.c
@@ -180,7 +180,8 @@ rcutils_split_last(
      * found_last is the index of the the last position the delimiter was found
      * and not the actual position in terms of counting from 1
      */
-    size_t inner_rhs_offset = (str[found_last - 1] == delimiter) ? 1 : 0;
+    size_t inner_rhs_offset =
+      (found_last > lhs_offset && str[found_last - 1] == delimiter) ? 1 : 0;
     string_array->data[0] = allocator.allocate(
       (found_last + 1 - lhs_offset - inner_rhs_offset + 1) * sizeof(char),
       allocator.state);
-- 
2.43.0


From cd0af8ed86d014f21b5e31ab979a137620724637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 10/47] fix: match the whole argument in rcutils_cli_get_option

---
 src/cmdline_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline_parser.c b/src/cmdline_parser.c
index 148c26f..fb15f35 100644
--- a/src/cmdline_parser.c
+++ b/src/cmdline_parser.c
@@ -32,7 +32,7 @@ char * rcutils_cli_get_option(char ** begin, char ** end, const char * option)
   size_t idx = 0;
   size_t end_idx = (size_t)(end - begin);
   for (; idx < end_idx; ++idx) {
-    if (strncmp(begin[idx], option, strlen(option)) == 0) {
+    if (strcmp(begin[idx], option) == 0) {
       break;
     }
   }
-- 
2.43.0


From 8d3d75d199717d49be64a670c33db78b4b5117a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 11/47] fix: do not read past an empty argument range in
 rcutils_cli_get_option

---
 src/cmdline_parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cmdline_parser.c b/src/cmdline_parser.c
index fb15f35..7eb579e 100644
--- a/src/cmdline_parser.c
+++ b/src/cmdline_parser.c
@@ -37,8 +37,9 @@ char * rcutils_cli_get_option(char ** begin, char ** end, const char * option)
     }
   }
 
-  if (idx < end_idx - 1 && begin[idx++] != NULL) {
-    return begin[idx];
+  // the option may be missing, or be the last argument and have no value
+  if (end_idx - idx > 1) {
+    return begin[idx + 1];
   }
 
   return NULL;
-- 
2.43.0


From 20e863604ae55a6851463af7d328faa841a4f117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 12/47] fix: do not write to an empty buffer in
 rcutils_strerror

---
 src/strerror.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/strerror.c b/src/strerror.c
index a425010..34a13f9 100644
--- a/src/strerror.c
+++ b/src/strerror.c
@@ -25,6 +25,9 @@ extern "C"
 void
 rcutils_strerror(char * buffer, size_t buffer_length)
 {
+  if (0 == buffer_length) {
+    return;
+  }
 #if defined(_WIN32)
   strerror_s(buffer, buffer_length, errno);
 #elif defined(_GNU_SOURCE) && (!defined(ANDROID) || __ANDROID_API__ >= 23) && !defined(__QNXNTO__)
-- 
2.43.0


From a551df78c46426b36252768c862852c9b49bcebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 13/47] fix: avoid undefined signed shift in sha256

---
 src/sha256.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha256.c b/src/sha256.c
index a1be113..dedfd16 100644
--- a/src/sha256.c
+++ b/src/sha256.c
@@ -75,7 +75,7 @@ static void sha256_transform(rcutils_sha256_ctx_t * ctx)
   uint8_t * data = ctx->data;
 
   for (i = 0, j = 0; i < 16; ++i, j += 4) {
-    m[i] = (data[j] << 24) | (data[j + 1] << 16) | (data[j + 2] << 8) | (data[j + 3]);
+    m[i] = ((uint32_t)data[j] << 24) | (data[j + 1] << 16) | (data[j + 2] << 8) | (data[j + 3]);
   }
   for ( ; i < 64; ++i) {
     m[i] = sig1(m[i - 2]) + m[i - 7] + sig0(m[i - 15]) + m[i - 16];
-- 
2.43.0


From d0b2cf726b589484457d0093911eaf75f20357ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 14/47] fix: handle INT64_MIN in
 rcutils_time_point_value_as_seconds_string

---
 src/time.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/time.c b/src/time.c
index 882c9d9..1e0c66e 100644
--- a/src/time.c
+++ b/src/time.c
@@ -114,7 +114,11 @@ rcutils_time_point_value_as_seconds_string(
   }
   // best to abs it to avoid issues with negative values in C89, see:
   //   https://stackoverflow.com/a/3604984/671658
-  uint64_t abs_time_point = (uint64_t)llabs(*time_point);
+  // and do it unsigned, as the absolute value of INT64_MIN is not an int64_t
+  uint64_t abs_time_point = (uint64_t)*time_point;
+  if (*time_point < 0) {
+    abs_time_point = 0u - abs_time_point;
+  }
   // break into two parts to avoid floating point error
   uint64_t seconds = abs_time_point / (1000u * 1000u * 1000u);
   uint64_t nanoseconds = abs_time_point % (1000u * 1000u * 1000u);
-- 
2.43.0


From b0cea576d91778807cb4a1d67f91d42d997201d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 15/47] fix: render time points before the epoch as their own
 date

---
 src/time.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/time.c b/src/time.c
index 1e0c66e..faf81e3 100644
--- a/src/time.c
+++ b/src/time.c
@@ -57,16 +57,18 @@ rcutils_time_point_value_as_date_string(
   if (0 == str_size) {
     return RCUTILS_RET_OK;
   }
-  // best to abs it to avoid issues with negative values in C89, see:
-  //   https://stackoverflow.com/a/3604984/671658
-  uint64_t abs_time_point = (uint64_t)llabs(*time_point);
   // break into two parts to avoid floating point error
-  uint64_t seconds = abs_time_point / (1000u * 1000u * 1000u);
-  uint64_t nanoseconds = abs_time_point % (1000u * 1000u * 1000u);
-  // Make sure the buffer is large enough to hold the largest possible uint64_t
+  int64_t seconds = *time_point / (1000 * 1000 * 1000);
+  int64_t nanoseconds = *time_point % (1000 * 1000 * 1000);
+  // the sub-second part counts forward, also for time points before the epoch
+  if (nanoseconds < 0) {
+    nanoseconds += 1000 * 1000 * 1000;
+    --seconds;
+  }
+  // Make sure the buffer is large enough to hold the largest possible int64_t
   char nanoseconds_str[21];
 
-  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%" PRIu64, nanoseconds) < 0) {
+  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%" PRId64, nanoseconds) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point nanoseconds into string");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From 730a47933e549e0b84e0e5f631c53ccac6220af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 16/47] fix: zero-pad the milliseconds of date strings

---
 src/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.c b/src/time.c
index faf81e3..f49c260 100644
--- a/src/time.c
+++ b/src/time.c
@@ -68,7 +68,7 @@ rcutils_time_point_value_as_date_string(
   // Make sure the buffer is large enough to hold the largest possible int64_t
   char nanoseconds_str[21];
 
-  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%" PRId64, nanoseconds) < 0) {
+  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%.9" PRId64, nanoseconds) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point nanoseconds into string");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From 8b78edc7075549eb1729548ff84063ae8d0f8331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 17/47] fix: truncate date strings to small buffers as
 documented

---
 src/time.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/time.c b/src/time.c
index f49c260..b6e28bc 100644
--- a/src/time.c
+++ b/src/time.c
@@ -87,15 +87,12 @@ rcutils_time_point_value_as_date_string(
   }
 #endif
 
-  if (str_size < 32 || strftime(str, 32, "%Y-%m-%d %H:%M:%S", &ptm) == 0) {
+  char date_str[32];
+  if (strftime(date_str, sizeof(date_str), "%Y-%m-%d %H:%M:%S", &ptm) == 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point into string as iso8601_date");
     return RCUTILS_RET_ERROR;
   }
-  static const int date_end_position = 19;
-  if (rcutils_snprintf(
-      &str[date_end_position], str_size - date_end_position, ".%.3s",
-      nanoseconds_str) < 0)
-  {
+  if (rcutils_snprintf(str, str_size, "%s.%.3s", date_str, nanoseconds_str) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point into string as date_time_with_ms");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From 9e2d23ffb41662acf6e8ffc7d33f0ca9417dc8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 18/47] fix: copy unknown escapes and a trailing backslash of
 the output format unchanged

---
 src/logging.c | 88 ++++++++++++++++++---------------------------------
 1 file changed, 31 insertions(+), 57 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 7aac274..05e7294 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -460,9 +460,6 @@ static void create_format_string(
   const char * logging_output_format_string)
 {
   size_t dest_buffer_index = 0;
-  size_t start_offset = 0;
-  size_t start_offset_previous_not_copy = 0;
-  size_t back_slash_index = 0;
 
   size_t length = strlen(logging_output_format_string);
   if (length > RCUTILS_LOGGING_MAX_OUTPUT_FORMAT_LEN - 1) {
@@ -470,64 +467,41 @@ static void create_format_string(
   }
 
   for (size_t i = 0; i < length; ) {
-    back_slash_index = rcutils_findn(
-      logging_output_format_string + i, RCUTILS_LOGGING_BACKSLASH_CHAR, length - i);
-    if (back_slash_index == SIZE_MAX) {
-      memcpy(
-        g_rcutils_logging_output_format_string + dest_buffer_index,
-        logging_output_format_string + start_offset - start_offset_previous_not_copy,
-        length - start_offset + start_offset_previous_not_copy);
-      break;
-    } else {
-      const char * expected_char = NULL;
-      int skip_chars = 0;
-
-      if (logging_output_format_string[i + back_slash_index + 1] == 'x' &&
-        logging_output_format_string[i + back_slash_index + 2] == '1' &&
-        logging_output_format_string[i + back_slash_index + 3] == 'b')
-      {
-        // detect escape sequence
-        ACTIVATE_VIRTUAL_TERMINAL_PROCESSING();
-        expected_char = "\x1b";
-        // the 4 char long "\x1b" string literal will become a 2 char long \x1b escape sequence
-        // therefore we need to skip forward in parsing the output format string
-        skip_chars = 2;
-      } else {
-        switch (logging_output_format_string[i + back_slash_index + 1]) {
-          case 'a':  expected_char = "\a"; break;  // alert
-          case 'b':  expected_char = "\b"; break;  // backspace
-          case 'n':  expected_char = "\n"; break;  // new line
-          case 'r':  expected_char = "\r"; break;  // carriage return
-          case 't':  expected_char = "\t"; break;  // horizontal tab
-          default:
-            break;
-        }
-      }
-
-      if (expected_char) {
-        if (back_slash_index > 0) {
-          // copy previous buffer first
-          size_t len = back_slash_index + start_offset_previous_not_copy;
-          memcpy(
-            g_rcutils_logging_output_format_string + dest_buffer_index,
-            logging_output_format_string + start_offset,
-            len);
-          dest_buffer_index += len;
-          start_offset += len;
-          start_offset_previous_not_copy = 0;
-        }
-
-        // copy the decoded character
-        g_rcutils_logging_output_format_string[dest_buffer_index] = expected_char[0];
-        dest_buffer_index += 1;
-        start_offset += 2 + skip_chars;
-      } else {
-        start_offset_previous_not_copy += (back_slash_index + 2);
+    const char * input = logging_output_format_string + i;
+    char decoded_char = '\0';
+    size_t sequence_length = 1;
+
+    if (input[0] == RCUTILS_LOGGING_BACKSLASH_CHAR && i + 1 < length) {
+      sequence_length = 2;
+      switch (input[1]) {
+        case 'a':  decoded_char = '\a'; break;  // alert
+        case 'b':  decoded_char = '\b'; break;  // backspace
+        case 'n':  decoded_char = '\n'; break;  // new line
+        case 'r':  decoded_char = '\r'; break;  // carriage return
+        case 't':  decoded_char = '\t'; break;  // horizontal tab
+        case 'x':
+          // detect escape sequence
+          if (i + 3 < length && input[2] == '1' && input[3] == 'b') {
+            ACTIVATE_VIRTUAL_TERMINAL_PROCESSING();
+            decoded_char = '\x1b';
+            sequence_length = 4;
+          }
+          break;
+        default:
+          break;
       }
+    }
 
-      i += (back_slash_index + 2 + skip_chars);
+    if (decoded_char != '\0') {
+      g_rcutils_logging_output_format_string[dest_buffer_index++] = decoded_char;
+    } else {
+      // not something to decode, copy it unchanged
+      memcpy(g_rcutils_logging_output_format_string + dest_buffer_index, input, sequence_length);
+      dest_buffer_index += sequence_length;
     }
+    i += sequence_length;
   }
+  g_rcutils_logging_output_format_string[dest_buffer_index] = '\0';
 }
 
 static bool add_handler(token_handler handler, size_t start_offset, size_t end_offset)
-- 
2.43.0


From 6a058ade80ae41e23f850321156c34a07d1a744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 19/47] fix: reject unknown severities in
 rcutils_logging_format_message

---
 src/logging.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index 05e7294..005717f 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -286,7 +286,17 @@ static const char * expand_severity(
   (void)start_offset;
   (void)end_offset;
 
-  const char * severity_string = g_rcutils_log_severity_names[logging_input->severity];
+  const int severity_count =
+    (int)(sizeof(g_rcutils_log_severity_names) / sizeof(g_rcutils_log_severity_names[0]));
+  const char * severity_string = NULL;
+  if (logging_input->severity >= 0 && logging_input->severity < severity_count) {
+    severity_string = g_rcutils_log_severity_names[logging_input->severity];
+  }
+  if (NULL == severity_string) {
+    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(
+      "unknown severity level: %d\n", logging_input->severity);
+    return NULL;
+  }
   if (rcutils_char_array_strcat(logging_output, severity_string) != RCUTILS_RET_OK) {
     RCUTILS_SAFE_FWRITE_TO_STDERR(rcutils_get_error_string().str);
     rcutils_reset_error();
-- 
2.43.0


From 952b9191f94b2fbec0f813626fcadad1caab220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 20/47] fix: do not truncate output formats with more than 1024
 parts

---
 src/logging.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index 005717f..42e2d61 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -129,7 +129,8 @@ typedef struct log_msg_part_s
 } log_msg_part_t;
 
 static size_t g_num_log_msg_handlers = 0;
-static log_msg_part_t g_handlers[1024];
+// Each part covers at least one character of the output format string.
+static log_msg_part_t g_handlers[RCUTILS_LOGGING_MAX_OUTPUT_FORMAT_LEN];
 
 rcutils_ret_t rcutils_logging_initialize(void)
 {
-- 
2.43.0


From 67cfab1f1ae0d74db881d774e3522bb39f66a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 21/47] fix: keep the default logger level in one place

---
 src/logging.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 42e2d61..b70476e 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -1091,6 +1091,11 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
   }
 
   size_t name_length = strlen(name);
+  if (name_length == 0) {
+    // The empty name stands for the default logger level, which is not kept in the map
+    g_rcutils_logging_default_logger_level = level;
+    return RCUTILS_RET_OK;
+  }
 
   if (rcutils_hash_map_key_exists(&g_rcutils_logging_severities_map, &name)) {
     // Iterate over the entire contents of the severities map, looking for entries that start with
@@ -1158,11 +1163,6 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
       name, rcutils_get_error_string().str);
   }
 
-  if (name_length == 0) {
-    // If the name was empty, this also means we should update the default logger level
-    g_rcutils_logging_default_logger_level = level;
-  }
-
   return add_key_ret;
 }
 
-- 
2.43.0


From 60dd3c6776f06a9488ad23d087ef1e8200b12483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:50 +0000
Subject: [PATCH 22/47] fix: keep an unowned char_array buffer when growing it
 fails

---
 src/char_array.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/char_array.c b/src/char_array.c
index 5ab826b..d814282 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -111,8 +111,10 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
       return RCUTILS_RET_BAD_ALLOC);
     char_array->buffer = new_buf;
   } else {  // we don't realloc memory we don't own. instead, we alloc some new space
-    rcutils_ret_t ret = rcutils_char_array_init(char_array, new_size, allocator);
+    rcutils_char_array_t old_array = *char_array;
+    rcutils_ret_t ret = rcutils_char_array_init(char_array, new_size, &old_array.allocator);
     if (ret != RCUTILS_RET_OK) {
+      *char_array = old_array;
       return ret;
     }
     size_t n = MIN(new_size, old_size);
-- 
2.43.0


From 2dced5ba625a3ceb0c7dc455471791e48cb5c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:50 +0000
Subject: [PATCH 23/47] fix: do not leak a logger name when storing its level
 fails

---
 src/logging.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logging.c b/src/logging.c
index b70476e..99bda82 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -902,6 +902,9 @@ static rcutils_ret_t add_key_to_hash_map(const char * name, int level, bool set_
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(
       "Error setting severity level for logger named '%s': %s",
       name, rcutils_get_error_string().str);
+    if (!already_exists) {
+      g_rcutils_logging_allocator.deallocate((char *)copy_name, g_rcutils_logging_allocator.state);
+    }
     return RCUTILS_RET_ERROR;
   }
 
-- 
2.43.0


From 388eaa2cf97ca9eaee51a40f5cb9c43bd8f26843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 24/47] fix: keep the level of a logger when changing it fails

---
 src/logging.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 99bda82..7f97faa 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -1115,16 +1115,11 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
       char * previous_key = key;
       bool free_current_key = false;
       if (key != NULL && strncmp(name, key, name_length) == 0) {
-        // If this is the key we are replacing, unconditionally remove it from the hash map;
-        // we'll be adding it back as a user-set level anyway
-        if (key[name_length] == '\0') {
+        // If this is the key we are replacing, keep it; its level will be replaced below.
+        // Otherwise, this is a descendant; only remove it from the hash map
+        // if we cached it (the user didn't explicitly set it).
+        if (key[name_length] != '\0' && !(tmp_level & 0x1)) {
           free_current_key = true;
-        } else {
-          // Otherwise, this is a descendant; only remove it from the hash map
-          // if we cached it (the user didn't explicitly set it).
-          if (!(tmp_level & 0x1)) {
-            free_current_key = true;
-          }
         }
       }
 
-- 
2.43.0


From 8195f7471f14c01deb45157a8c735b6becce7e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 25/47] fix: do not report a completed string_array resize as
 failed

---
 src/string_array.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/string_array.c b/src/string_array.c
index ebcc057..a4fd18c 100644
--- a/src/string_array.c
+++ b/src/string_array.c
@@ -177,13 +177,7 @@ rcutils_string_array_resize(
     string_array->data, new_size * sizeof(char *), allocator->state);
   if (NULL == new_data && 0 != new_size) {
     RCUTILS_SET_ERROR_MSG("failed to allocate string array");
-    for (size_t i = 0; i < to_reclaim.size; ++i) {
-      to_reclaim.data[i] = NULL;
-    }
-    rcutils_ret_t ret = rcutils_string_array_fini(&to_reclaim);
-    if (RCUTILS_RET_OK != ret) {
-      RCUTILS_SET_ERROR_MSG("memory was leaked during error handling");
-    }
+    allocator->deallocate(to_reclaim.data, allocator->state);
     return RCUTILS_RET_BAD_ALLOC;
   }
   string_array->data = new_data;
@@ -195,8 +189,12 @@ rcutils_string_array_resize(
 
   string_array->size = new_size;
 
-  // Lastly, reclaim removed entries
-  return rcutils_string_array_fini(&to_reclaim);
+  // Lastly, reclaim removed entries, which cannot fail as the resize has been done already
+  for (size_t i = 0; i < to_reclaim.size; ++i) {
+    allocator->deallocate(to_reclaim.data[i], allocator->state);
+  }
+  allocator->deallocate(to_reclaim.data, allocator->state);
+  return RCUTILS_RET_OK;
 }
 
 int
-- 
2.43.0


From 6103c1db2394d4c54b3431df7b8e3b0d201649de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 26/47] fix: reject an incomplete allocator in
 rcutils_string_array_init

---
 src/string_array.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/string_array.c b/src/string_array.c
index a4fd18c..2fa3cfd 100644
--- a/src/string_array.c
+++ b/src/string_array.c
@@ -45,6 +45,8 @@ rcutils_string_array_init(
     RCUTILS_SET_ERROR_MSG("allocator is null");
     return RCUTILS_RET_INVALID_ARGUMENT;
   }
+  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
+    allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
   if (NULL == string_array) {
     RCUTILS_SET_ERROR_MSG("string_array is null");
     return RCUTILS_RET_INVALID_ARGUMENT;
-- 
2.43.0


From ac02a02037f1f29301d19dfe47439f3a50d0cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 27/47] fix: do not deallocate twice in rcutils_reallocf with
 size zero

---
 src/allocator.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/allocator.c b/src/allocator.c
index d364bde..62c4bdf 100644
--- a/src/allocator.c
+++ b/src/allocator.c
@@ -109,6 +109,11 @@ rcutils_reallocf(void * pointer, size_t size, rcutils_allocator_t * allocator)
 #endif
     return NULL;
   }
+  if (0u == size) {
+    // like realloc(), reallocate may deallocate pointer and return NULL for a size of zero
+    allocator->deallocate(pointer, allocator->state);
+    return NULL;
+  }
   void * new_pointer = allocator->reallocate(pointer, size, allocator->state);
   if (NULL == new_pointer) {
     allocator->deallocate(pointer, allocator->state);
-- 
2.43.0


From b210177850fb19dc4ae9aa5c59989977d4060df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 28/47] fix: do not truncate long paths in rcutils_join_path

---
 src/filesystem.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 25c71d7..0f6bd4f 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -182,8 +182,9 @@ rcutils_join_path(
     return NULL;
   }
 
-  return rcutils_format_string(
+  return rcutils_format_string_limit(
     allocator,
+    strlen(left_hand_path) + strlen(RCUTILS_PATH_DELIMITER) + strlen(right_hand_path) + 1,
     "%s%s%s",
     left_hand_path, RCUTILS_PATH_DELIMITER, right_hand_path);
 }
-- 
2.43.0


From aea7c725b93cbc6d3f3d8ab7fffa8c0a3be4dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 29/47] fix: do not follow symlinks when calculating directory
 sizes

---
 src/filesystem.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/filesystem.c b/src/filesystem.c
index 0f6bd4f..9d980d1 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -309,6 +309,15 @@ static rcutils_ret_t check_and_calculate_size(
     return RCUTILS_RET_BAD_ALLOC;
   }
 
+#ifndef _WIN32
+  // Do not follow symbolic links
+  struct stat link_stat;
+  if (lstat(file_path, &link_stat) == 0 && S_ISLNK(link_stat.st_mode)) {
+    allocator.deallocate(file_path, allocator.state);
+    return RCUTILS_RET_OK;
+  }
+#endif  // _WIN32
+
   if (rcutils_is_directory(file_path)) {
     if ((max_depth == 0) || ((dir_list->depth + 1) <= max_depth)) {
       // Add new directory to dir_list
-- 
2.43.0


From 1b4a437089ff7b494c74651821eddca34887f355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 30/47] fix: handle directories without any entry when
 calculating directory sizes

---
 src/filesystem.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/filesystem.c b/src/filesystem.c
index 9d980d1..bd7f577 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -298,6 +298,11 @@ static rcutils_ret_t check_and_calculate_size(
   dir_list_t * dir_list,
   rcutils_allocator_t allocator)
 {
+  // There is no first entry in a directory which has been removed meanwhile
+  if (NULL == filename) {
+    return RCUTILS_RET_OK;
+  }
+
   // Skip over local folder handle (`.`) and parent folder (`..`)
   if (strcmp(filename, ".") == 0 || strcmp(filename, "..") == 0) {
     return RCUTILS_RET_OK;
-- 
2.43.0


From 75be4a8604890b81180ffe2895aa9bf26008c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 31/47] fix: return false from rcutils_dir_iter_next without
 iteration state

---
 src/filesystem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index bd7f577..4daa566 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -490,7 +490,7 @@ bool
 rcutils_dir_iter_next(rcutils_dir_iter_t * iter)
 {
   RCUTILS_CHECK_ARGUMENT_FOR_NULL(iter, false);
-  RCUTILS_CHECK_FOR_NULL_WITH_MSG(iter->state, "iter is invalid", false);
+  RCUTILS_CHECK_FOR_NULL_WITH_MSG(iter->state, "iter is invalid", return false);
 
 #ifdef _WIN32
   if (FindNextFile(iter->state->handle, &iter->state->data)) {
-- 
2.43.0


From 22f8d844bb6aa11c1045cdfedc54388964de66f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 32/47] fix: reserve enough memory for the executable name of
 an empty program name

---
 src/process.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/process.c b/src/process.c
index b93ed9f..6a6ad26 100644
--- a/src/process.c
+++ b/src/process.c
@@ -79,7 +79,9 @@ char * rcutils_get_executable_name(rcutils_allocator_t allocator)
 
   // Since the above memory may be static, and the caller may want to modify
   // the argument, make and return a copy here.
-  char * executable_name = allocator.allocate(applen + 1, allocator.state);
+  // Reserve at least two characters, as the base name of an empty name is ".".
+  char * executable_name = allocator.allocate(
+    (applen > 0u ? applen : 1u) + 1, allocator.state);
   if (NULL == executable_name) {
     return NULL;
   }
-- 
2.43.0


From 69b2d5b02b597267a5a4718fe49cb5fc4a1dbef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 33/47] fix: do not throttle the first message

---
 resource/logging_macros.h.em | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resource/logging_macros.h.em b/resource/logging_macros.h.em
index d18d033..955c8ee 100644
--- a/resource/logging_macros.h.em
+++ b/resource/logging_macros.h.em
@@ -185,6 +185,7 @@ typedef bool (* RclLogFilter)(void);
 #define RCUTILS_LOG_CONDITION_THROTTLE_BEFORE(get_time_point_value, duration) { \
   static rcutils_duration_value_t __rcutils_logging_duration = RCUTILS_MS_TO_NS(RCUTILS_CAST_DURATION(duration)); \
   static rcutils_time_point_value_t __rcutils_logging_last_logged = 0; \
+  static bool __rcutils_logging_logged_before = false; \
   rcutils_time_point_value_t __rcutils_logging_now = 0; \
   bool __rcutils_logging_condition = true; \
   if (get_time_point_value(&__rcutils_logging_now) != RCUTILS_RET_OK) { \
@@ -193,10 +194,12 @@ typedef bool (* RclLogFilter)(void);
       "%s() at %s:%d getting current steady time failed\n", \
       __func__, __FILE__, __LINE__); \
   } else { \
-  __rcutils_logging_condition = __rcutils_logging_now >= __rcutils_logging_last_logged + __rcutils_logging_duration; \
+  __rcutils_logging_condition = !__rcutils_logging_logged_before || \
+    __rcutils_logging_now >= __rcutils_logging_last_logged + __rcutils_logging_duration; \
   } \
  \
   if (RCUTILS_LIKELY(__rcutils_logging_condition)) { \
+  __rcutils_logging_logged_before = true; \
   __rcutils_logging_last_logged = __rcutils_logging_now;
 
 /**
-- 
2.43.0


From 93cd3aedb4552209c640d86a3a05bdb47453e78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 34/47] fix: report entries whose size cannot be obtained

---
 src/filesystem.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 4daa566..099b3d5 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -317,7 +317,17 @@ static rcutils_ret_t check_and_calculate_size(
 #ifndef _WIN32
   // Do not follow symbolic links
   struct stat link_stat;
-  if (lstat(file_path, &link_stat) == 0 && S_ISLNK(link_stat.st_mode)) {
+  if (lstat(file_path, &link_stat) != 0) {
+    // An entry which has been removed meanwhile does not count, any other one has an unknown size
+    int error = errno;
+    if (ENOENT != error) {
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(
+        "Can't get the status of %s. Error code: %d\n", file_path, error);
+    }
+    allocator.deallocate(file_path, allocator.state);
+    return ENOENT == error ? RCUTILS_RET_OK : RCUTILS_RET_ERROR;
+  }
+  if (S_ISLNK(link_stat.st_mode)) {
     allocator.deallocate(file_path, allocator.state);
     return RCUTILS_RET_OK;
   }
-- 
2.43.0


From 6ca910083cc38aa731e4068960cc0632d96be418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 35/47] fix: report a failure to read a directory

---
 src/filesystem.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/filesystem.c b/src/filesystem.c
index 099b3d5..463576c 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -57,6 +57,8 @@ typedef struct rcutils_dir_iter_state_s
   WIN32_FIND_DATA data;
 #else
   DIR * dir;
+  // The error code if reading the directory has failed, or zero
+  int error;
 #endif
 } rcutils_dir_iter_state_t;
 
@@ -418,6 +420,13 @@ rcutils_calculate_directory_size_with_recursion(
       }
     } while (rcutils_dir_iter_next(iter));
 
+#ifndef _WIN32
+    if (0 != iter->state->error) {
+      ret = RCUTILS_RET_ERROR;
+      goto fail;
+    }
+#endif  // _WIN32
+
     rcutils_dir_iter_end(iter);
 
     remove_first_dir_from_list(&dir_list, allocator);
@@ -508,11 +517,17 @@ rcutils_dir_iter_next(rcutils_dir_iter_t * iter)
     return true;
   }
 #else
+  errno = 0;
   struct dirent * entry = readdir(iter->state->dir);
   if (NULL != entry) {
     iter->entry_name = entry->d_name;
     return true;
   }
+  if (0 != errno) {
+    iter->state->error = errno;
+    RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(
+      "Can't continue to iterate directory. Error code: %d\n", iter->state->error);
+  }
 #endif
 
   iter->entry_name = NULL;
-- 
2.43.0


From a87459f6ed2577a05b53104795b6a6b2f332c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 36/47] fix: check the whole value for NULL

---
 include/rcutils/error_handling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rcutils/error_handling.h b/include/rcutils/error_handling.h
index ee5667a..0a2ec0c 100644
--- a/include/rcutils/error_handling.h
+++ b/include/rcutils/error_handling.h
@@ -217,7 +217,7 @@ rcutils_set_error_state(const char * error_string, const char * file, size_t lin
  */
 #define RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement) \
   do { \
-    if (NULL == value) { \
+    if (NULL == (value)) { \
       RCUTILS_SET_ERROR_MSG(msg); \
       error_statement; \
     } \
-- 
2.43.0


From baa02d2cdf36277232479e95d1000f47939674da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 37/47] fix: keep the names of the user's variables out of the
 error macros' way

---
 include/rcutils/error_handling.h | 34 +++++++++++++++++---------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/include/rcutils/error_handling.h b/include/rcutils/error_handling.h
index 0a2ec0c..16d4e33 100644
--- a/include/rcutils/error_handling.h
+++ b/include/rcutils/error_handling.h
@@ -65,12 +65,13 @@ extern "C"
  */
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, ...) \
   do { \
-    char output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
-    int ret = rcutils_snprintf(output_msg, sizeof(output_msg), format_string, __VA_ARGS__); \
-    if (ret < 0) { \
+    char __rcutils_output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
+    int __rcutils_ret = rcutils_snprintf( \
+      __rcutils_output_msg, sizeof(__rcutils_output_msg), format_string, __VA_ARGS__); \
+    if (__rcutils_ret < 0) { \
       RCUTILS_SAFE_FWRITE_TO_STDERR("Failed to call snprintf for error message formatting\n"); \
     } else { \
-      RCUTILS_SAFE_FWRITE_TO_STDERR(output_msg); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR(__rcutils_output_msg); \
     } \
   } while (0)
 
@@ -247,12 +248,13 @@ rcutils_set_error_state(const char * error_string, const char * file, size_t lin
  */
 #define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, ...) \
   do { \
-    char output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
-    int ret = rcutils_snprintf(output_msg, sizeof(output_msg), format_string, __VA_ARGS__); \
-    if (ret < 0) { \
+    char __rcutils_output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
+    int __rcutils_ret = rcutils_snprintf( \
+      __rcutils_output_msg, sizeof(__rcutils_output_msg), format_string, __VA_ARGS__); \
+    if (__rcutils_ret < 0) { \
       RCUTILS_SAFE_FWRITE_TO_STDERR("Failed to call snprintf for error message formatting\n"); \
     } else { \
-      RCUTILS_SET_ERROR_MSG(output_msg); \
+      RCUTILS_SET_ERROR_MSG(__rcutils_output_msg); \
     } \
   } while (0)
 
@@ -321,10 +323,10 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR(msg) \
   do { \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
+    rcutils_error_string_t __rcutils_error_string = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
-      RCUTILS_EXPAND(msg ": %s"), error_string.str); \
+      RCUTILS_EXPAND(msg ": %s"), __rcutils_error_string.str); \
   } while (0)
 
 /// Set the error message with RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING and append the previous
@@ -341,10 +343,10 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(format_string, ...) \
   do { \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
+    rcutils_error_string_t __rcutils_error_string = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
-      RCUTILS_EXPAND(format_string ": %s"), __VA_ARGS__, error_string.str); \
+      RCUTILS_EXPAND(format_string ": %s"), __VA_ARGS__, __rcutils_error_string.str); \
   } while (0)
 
 /// Write the given msg out to stderr, limiting the buffer size in the `fwrite`, appending the
@@ -355,10 +357,10 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(msg) \
   do { \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
+    rcutils_error_string_t __rcutils_error_string = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
-    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", __rcutils_error_string.str); \
   } while (0)
 
 /// Set the error message to stderr using a format string and format arguments, appending the
@@ -377,10 +379,10 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(format_string, ...) \
   do { \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
+    rcutils_error_string_t __rcutils_error_string = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
-    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", __rcutils_error_string.str); \
   } while (0)
 
 #ifdef __cplusplus
-- 
2.43.0


From c60db83ae4e1dc39ae31d0d15a6764e8e78146fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 38/47] fix: do not use source text as a format string

---
 include/rcutils/testing/fault_injection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rcutils/testing/fault_injection.h b/include/rcutils/testing/fault_injection.h
index d397fd7..723c4ff 100644
--- a/include/rcutils/testing/fault_injection.h
+++ b/include/rcutils/testing/fault_injection.h
@@ -102,7 +102,7 @@ _rcutils_fault_injection_maybe_fail(void);
 #define RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR(return_value_on_error) \
   if (RCUTILS_FAULT_INJECTION_FAIL_NOW == _rcutils_fault_injection_maybe_fail()) { \
     printf( \
-      "%s:%d Injecting fault and returning " #return_value_on_error "\n", __FILE__, __LINE__); \
+      "%s:%d Injecting fault and returning %s\n", __FILE__, __LINE__, #return_value_on_error); \
     return return_value_on_error; \
   }
 
@@ -126,7 +126,7 @@ _rcutils_fault_injection_maybe_fail(void);
 #define RCUTILS_FAULT_INJECTION_MAYBE_FAIL(failure_code) \
   if (RCUTILS_FAULT_INJECTION_FAIL_NOW == _rcutils_fault_injection_maybe_fail()) { \
     printf( \
-      "%s:%d Injecting fault and executing " #failure_code "\n", __FILE__, __LINE__); \
+      "%s:%d Injecting fault and executing %s\n", __FILE__, __LINE__, #failure_code); \
     failure_code; \
   }
 
-- 
2.43.0


From d26dc5dcf4809b45215c9cebb915a56d3131e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 39/47] fix: recognize severity names in every locale

---
 src/logging.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 7f97faa..4e714cf 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -12,7 +12,6 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-#include <ctype.h>
 #include <errno.h>
 #include <inttypes.h>
 #include <stdint.h>
@@ -815,7 +814,10 @@ rcutils_logging_severity_level_from_string(
     return RCUTILS_RET_BAD_ALLOC;
   }
   for (int i = 0; severity_string_upper[i]; ++i) {
-    severity_string_upper[i] = (char)toupper(severity_string_upper[i]);
+    // do not use toupper(), as the names do not depend on the locale
+    if (severity_string_upper[i] >= 'a' && severity_string_upper[i] <= 'z') {
+      severity_string_upper[i] = (char)(severity_string_upper[i] - 'a' + 'A');
+    }
   }
 
   // Determine the severity value matching the severity name.
-- 
2.43.0


From efd44d5e0a2d41f539b577db86418f549b8171cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 40/47] Revert "fix: do not use source text as a format string"

This reverts commit c60db83ae4e1dc39ae31d0d15a6764e8e78146fa.
---
 include/rcutils/testing/fault_injection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rcutils/testing/fault_injection.h b/include/rcutils/testing/fault_injection.h
index 723c4ff..d397fd7 100644
--- a/include/rcutils/testing/fault_injection.h
+++ b/include/rcutils/testing/fault_injection.h
@@ -102,7 +102,7 @@ _rcutils_fault_injection_maybe_fail(void);
 #define RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR(return_value_on_error) \
   if (RCUTILS_FAULT_INJECTION_FAIL_NOW == _rcutils_fault_injection_maybe_fail()) { \
     printf( \
-      "%s:%d Injecting fault and returning %s\n", __FILE__, __LINE__, #return_value_on_error); \
+      "%s:%d Injecting fault and returning " #return_value_on_error "\n", __FILE__, __LINE__); \
     return return_value_on_error; \
   }
 
@@ -126,7 +126,7 @@ _rcutils_fault_injection_maybe_fail(void);
 #define RCUTILS_FAULT_INJECTION_MAYBE_FAIL(failure_code) \
   if (RCUTILS_FAULT_INJECTION_FAIL_NOW == _rcutils_fault_injection_maybe_fail()) { \
     printf( \
-      "%s:%d Injecting fault and executing %s\n", __FILE__, __LINE__, #failure_code); \
+      "%s:%d Injecting fault and executing " #failure_code "\n", __FILE__, __LINE__); \
     failure_code; \
   }
 
-- 
2.43.0


From 0668e2273b99952b0b7bf086e40e3e9accbc7ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 41/47] fix: do not read past the end of a logger name given by
 length

---
 src/logging.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index 4e714cf..441a9ed 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -946,8 +946,11 @@ int rcutils_logging_get_logger_leveln(const char * name, size_t name_length)
 
   char * short_name = rcutils_strndup(name, name_length, g_rcutils_logging_allocator);
   if (short_name == NULL) {
+    // The name is only name_length characters long, it doesn't have to be null-terminated.
+    const size_t max_length = RCUTILS_ERROR_MESSAGE_MAX_LENGTH;
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(
-      "Failed to allocate memory when looking up logger level for '%s'", name);
+      "Failed to allocate memory when looking up logger level for '%.*s'",
+      (int)(name_length < max_length ? name_length : max_length), name);
     return -1;
   }
 
-- 
2.43.0


From f648431fb74e153d39bc09bb39f9b0f07a7d51b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 42/47] fix: leave no size without storage when a string array
 cannot be allocated

---
 src/string_array.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/string_array.c b/src/string_array.c
index 2fa3cfd..9d8cc31 100644
--- a/src/string_array.c
+++ b/src/string_array.c
@@ -51,12 +51,13 @@ rcutils_string_array_init(
     RCUTILS_SET_ERROR_MSG("string_array is null");
     return RCUTILS_RET_INVALID_ARGUMENT;
   }
-  string_array->size = size;
+  string_array->size = 0;
   string_array->data = allocator->zero_allocate(size, sizeof(char *), allocator->state);
   if (NULL == string_array->data && 0 != size) {
     RCUTILS_SET_ERROR_MSG("failed to allocate string array");
     return RCUTILS_RET_BAD_ALLOC;
   }
+  string_array->size = size;
   string_array->allocator = *allocator;
   return RCUTILS_RET_OK;
 }
-- 
2.43.0


From b4acf1bf78710dd58c0e026d929c1eec56b847b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 43/47] fix: report the overwriting of an error by one it
 begins with

---
 src/error_handling.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/error_handling.c b/src/error_handling.c
index a060537..51b2565 100644
--- a/src/error_handling.c
+++ b/src/error_handling.c
@@ -197,16 +197,19 @@ rcutils_set_error_state(
   __rcutils_copy_string(error_state.file, sizeof(error_state.file), file);
   error_state.line_number = line_number;
 #if RCUTILS_REPORT_ERROR_HANDLING_ERRORS
-  // Only warn of overwritting if the new error is different from the old ones.
-  size_t characters_to_compare = strnlen(error_string, RCUTILS_ERROR_MESSAGE_MAX_LENGTH);
+  // Only warn of overwritting if the new error is different from the old ones,
+  // which it is as well when it is the beginning of the old one.
   // assumption is that message length is <= max error string length
   static_assert(
     sizeof(gtls_rcutils_error_state.message) <= sizeof(gtls_rcutils_error_string.str),
     "expected error state's max message length to be less than or equal to error string max");
   if (
     gtls_rcutils_error_is_set &&
-    !__same_string(error_string, gtls_rcutils_error_string.str, characters_to_compare) &&
-    !__same_string(error_string, gtls_rcutils_error_state.message, characters_to_compare))
+    !(gtls_rcutils_error_string_is_formatted &&
+    __same_string(
+      error_string, gtls_rcutils_error_string.str, sizeof(gtls_rcutils_error_string.str))) &&
+    !__same_string(
+      error_state.message, gtls_rcutils_error_state.message, sizeof(error_state.message)))
   {
     char output_buffer[4096];
     __format_overwriting_error_state_message(output_buffer, sizeof(output_buffer), &error_state);
-- 
2.43.0


From d9351b7f156d64d96cf46acdc81ec6ead7771140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 44/47] fix: copy tokens instead of formatting them

---
 src/split.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/split.c b/src/split.c
index 449518a..76c4ee9 100644
--- a/src/split.c
+++ b/src/split.c
@@ -17,7 +17,6 @@ extern "C"
 {
 #endif
 
-#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -27,6 +26,14 @@ extern "C"
 #include "rcutils/split.h"
 #include "rcutils/types.h"
 
+// Copy one token. Formatting it would look at all of the remaining string every time,
+// and fail if that has more than INT_MAX characters.
+static void copy_token(char * dst, const char * src, size_t length)
+{
+  memcpy(dst, src, length);
+  dst[length] = '\0';
+}
+
 rcutils_ret_t
 rcutils_split(
   const char * str,
@@ -86,7 +93,7 @@ rcutils_split(
           string_array->size = token_counter;
           goto fail;
         }
-        snprintf(string_array->data[token_counter], (rhs - lhs + 1), "%s", str + lhs);
+        copy_token(string_array->data[token_counter], str + lhs, rhs - lhs);
         ++token_counter;
       }
       lhs = rhs;
@@ -104,7 +111,7 @@ rcutils_split(
     if (NULL == string_array->data[token_counter]) {
       goto fail;
     }
-    snprintf(string_array->data[token_counter], (rhs - lhs + 1), "%s", str + lhs);
+    copy_token(string_array->data[token_counter], str + lhs, rhs - lhs);
   }
 
   return RCUTILS_RET_OK;
@@ -167,7 +174,7 @@ rcutils_split_last(
       result_error = RCUTILS_RET_BAD_ALLOC;
       goto fail;
     }
-    snprintf(string_array->data[0], found_last - lhs_offset + 1, "%s", str + lhs_offset);
+    copy_token(string_array->data[0], str + lhs_offset, found_last - lhs_offset);
   } else {
     rcutils_ret_t ret = rcutils_string_array_init(string_array, 2, &allocator);
     if (ret != RCUTILS_RET_OK) {
@@ -189,9 +196,8 @@ rcutils_split_last(
       result_error = RCUTILS_RET_BAD_ALLOC;
       goto fail;
     }
-    snprintf(
-      string_array->data[0], found_last + 1 - lhs_offset - inner_rhs_offset,
-      "%s", str + lhs_offset);
+    copy_token(
+      string_array->data[0], str + lhs_offset, found_last - lhs_offset - inner_rhs_offset);
 
     string_array->data[1] = allocator.allocate(
       (string_size - found_last - rhs_offset + 1) * sizeof(char),
@@ -200,9 +206,8 @@ rcutils_split_last(
       result_error = RCUTILS_RET_BAD_ALLOC;
       goto fail;
     }
-    snprintf(
-      string_array->data[1], string_size - found_last - rhs_offset, "%s",
-      str + found_last + 1);
+    copy_token(
+      string_array->data[1], str + found_last + 1, string_size - found_last - rhs_offset - 1);
   }
 
   return RCUTILS_RET_OK;
-- 
2.43.0


From b09bbb174b1ac54f2e8d2de4c8438757b97c54a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 45/47] fix: do not look for the first logger again after each
 one removed

---
 src/logging.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 441a9ed..596c2bb 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -763,17 +763,22 @@ rcutils_ret_t rcutils_logging_shutdown(void)
     rcutils_ret_t hash_map_ret = rcutils_hash_map_get_next_key_and_data(
       &g_rcutils_logging_severities_map, NULL, &key, &level);
     while (RCUTILS_RET_OK == hash_map_ret) {
-      hash_map_ret = rcutils_hash_map_unset(&g_rcutils_logging_severities_map, &key);
+      // Get the next key before this one is removed, looking for the first one again
+      // would pass all of the buckets emptied so far
+      char * previous_key = key;
+      rcutils_ret_t next_ret = rcutils_hash_map_get_next_key_and_data(
+        &g_rcutils_logging_severities_map, &previous_key, &key, &level);
+
+      hash_map_ret = rcutils_hash_map_unset(&g_rcutils_logging_severities_map, &previous_key);
       if (hash_map_ret != RCUTILS_RET_OK) {
         RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(
           "Failed to clear out logger severities [%s] during shutdown; memory will be leaked.",
           rcutils_get_error_string().str);
         break;
       }
-      g_rcutils_logging_allocator.deallocate(key, g_rcutils_logging_allocator.state);
+      g_rcutils_logging_allocator.deallocate(previous_key, g_rcutils_logging_allocator.state);
 
-      hash_map_ret = rcutils_hash_map_get_next_key_and_data(
-        &g_rcutils_logging_severities_map, NULL, &key, &level);
+      hash_map_ret = next_ret;
     }
 
     hash_map_ret = rcutils_hash_map_fini(&g_rcutils_logging_severities_map);
-- 
2.43.0


From fbc433ebf8a7722931f26ea8cd5911cc1b0774e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:12 +0000
Subject: [PATCH 46/47] fix: keep the error state when a string map grows

---
 src/string_map.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/string_map.c b/src/string_map.c
index cac01c4..8fb51d8 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -246,7 +246,6 @@ rcutils_string_map_set(rcutils_string_map_t * string_map, const char * key, cons
   rcutils_ret_t ret = rcutils_string_map_set_no_resize(string_map, key, value);
   // if it fails due to not enough space, resize and try again
   if (ret == RCUTILS_RET_NOT_ENOUGH_SPACE) {
-    rcutils_reset_error();
     // default to doubling the size of the map's capacity
     size_t new_capacity = (string_map->impl->capacity) ? 2 * string_map->impl->capacity : 1;
     ret = rcutils_string_map_reserve(string_map, new_capacity);
-- 
2.43.0


From cff01db6b40e3e1d3f9e3be1c95cfd1dc50bab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:32 +0000
Subject: [PATCH 47/47] fix: index severity names of any length

---
 src/logging.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index 596c2bb..7c3ea90 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -818,7 +818,7 @@ rcutils_logging_severity_level_from_string(
     RCUTILS_SET_ERROR_MSG("failed to allocate memory for uppercase string");
     return RCUTILS_RET_BAD_ALLOC;
   }
-  for (int i = 0; severity_string_upper[i]; ++i) {
+  for (size_t i = 0; severity_string_upper[i]; ++i) {
     // do not use toupper(), as the names do not depend on the locale
     if (severity_string_upper[i] >= 'a' && severity_string_upper[i] <= 'z') {
       severity_string_upper[i] = (char)(severity_string_upper[i] - 'a' + 'A');
-- 
2.43.0

