From f677f3612ee85f1c26c08a3906b64a1d4f4e13c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 01/44] fix: str_char2hex overran the output buffer when
 truncating and dropped the last digit of an exact fit

---
 src/mem/strings.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index bf405eb..4548799 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -205,13 +205,18 @@ size_t str_char2hex(char* out_hex_str, size_t out_hex_str_capacity,
 
 	if (chars_count * ONE_HEX_STR_SIZE >= out_hex_str_capacity)
 	{
-		len_hex_str = snprintf(out_hex_str, out_hex_str_capacity - 1U, "hex truncated(%zu):", chars_count);
-		chars_count = out_hex_str_capacity / ONE_HEX_STR_SIZE - 1U;
+		int prefix_len = snprintf(out_hex_str, out_hex_str_capacity, "hex truncated(%zu):", chars_count);
+		if (prefix_len < 0 || (size_t)prefix_len >= out_hex_str_capacity)
+		{
+			return strlen(out_hex_str); // no room left for any hex
+		}
+		len_hex_str = (size_t)prefix_len;
+		chars_count = (out_hex_str_capacity - len_hex_str - 1U) / ONE_HEX_STR_SIZE;
 	}
 	for (size_t chars_index = 0U; chars_index < chars_count; ++chars_index)
 	{
 		int ret_sn = snprintf(out_hex_str + len_hex_str,
-			out_hex_str_capacity - len_hex_str - 1,
+			out_hex_str_capacity - len_hex_str,
 			" %02x", (unsigned char)chars[chars_index]);
 		if (ONE_HEX_STR_SIZE != ret_sn /*ret_sn < 0*/) /* should be ONE_HEX_STR_SIZE */
 		{
-- 
2.43.0


From 9c987bf605bfd025227017998f5439177bbc4f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 02/44] fix: ini_parser leaked the section's key list when the
 section could not be appended

---
 src/file/ini_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 957cf5c..a5db89d 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -279,6 +279,7 @@ static section_info_t* search_target_section(ini_parser_handle parser_p, bool au
 		strlcpy(target_section->section_name, section, sizeof(target_section->section_name));
 		if (false == list_append(parser_p->plist_sections, target_section))
 		{
+			list_free(target_section->plist_section);
 			allocator_my_free(target_section);
 			return NULL;
 		}
-- 
2.43.0


From 4e80ae175f950ec7e577cb5a9921e1829eca5dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 03/44] fix: ini_parser_save left the file open when there is
 nothing to write

---
 src/file/ini_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index a5db89d..ca4af80 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -558,6 +558,7 @@ ini_parser_code_e ini_parser_save(ini_parser_handle parser_p, const char* file_p
 		{
 			free(ini_str);
 		}
+		fclose(fp);
 		return INI_PARSER_CODE_FAILED;
 	}
 	size_t ini_str_len = strlen(ini_str);
-- 
2.43.0


From ad8efb9b6c8acf46178649d1fd926a92e08aa71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 04/44] fix: ini_parser_save reported success although the file
 was not written completely

---
 src/file/ini_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index ca4af80..01218d8 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -562,10 +562,10 @@ ini_parser_code_e ini_parser_save(ini_parser_handle parser_p, const char* file_p
 		return INI_PARSER_CODE_FAILED;
 	}
 	size_t ini_str_len = strlen(ini_str);
-	fwrite(ini_str, 1, ini_str_len, fp);
+	bool is_saved = (ini_str_len == fwrite(ini_str, 1, ini_str_len, fp)) && (0 == fflush(fp));
 	free(ini_str);
 	fclose(fp);
-	return INI_PARSER_CODE_SUCCEED;
+	return is_saved ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_FAILED;
 }
 
 ini_parser_code_e ini_parser_has_section_key(ini_parser_handle parser_p, const char* section, const char* key)
-- 
2.43.0


From 9c0f1b644278ff03b360f44e1b23b9d059fef8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 05/44] fix: ini_parser kept using a deleted section through
 its last-used cache

---
 src/file/ini_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 01218d8..2988e77 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -423,6 +423,10 @@ ini_parser_code_e ini_parser_delete_section(ini_parser_handle parser_p, const ch
 	{
 		return INI_PARSER_CODE_NOT_FOUND_SECTION_KEY;
 	}
+	if (p_section == parser_p->p_last_used_section)
+	{
+		parser_p->p_last_used_section = NULL;
+	}
 	list_free(p_section->plist_section);
 	return list_remove(parser_p->plist_sections, p_section) ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_FAILED;
 }
-- 
2.43.0


From b823ae806fef2b6cb681e57d5c66f7c302432cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 06/44] fix: file_logger_init dereferenced NULL when the folder
 path could not be copied

---
 src/log/file_logger.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 78e2601..c9d49d8 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -94,6 +94,13 @@ file_logger_handle file_logger_init(file_logger_cfg *cfg_p)
 		return NULL;
 	}
 	char* log_folder_path_formatted = strreplace(cfg_p->log_folder_path, "\\", "/");
+	if (NULL == log_folder_path_formatted)
+	{
+		msg_queue_handler_destroy(&handle->msg_queue);
+		free(msg);
+		free(handle);
+		return NULL;
+	}
 	strlcpy(cfg_p->log_folder_path, log_folder_path_formatted, MAX_LOG_FOLDER_PATH_SIZE);
 	free(log_folder_path_formatted);
 	size_t log_folder_path_len = strlen(cfg_p->log_folder_path);
-- 
2.43.0


From 589dbd87928a6fced066b8ca854522ef3531608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 07/44] fix: str_params_create_str leaked the key of a repeated
 parameter and mishandled exhausted memory

---
 src/mem/str_params.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 0407bd2..3e98979 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -128,8 +128,22 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 			key = strdup(kvpair);
 			value = strdup("");
 		}
-		/* we replaced a value */
-		old_val = hashmap_put(parms->map, key, value);
+		int saved_errno = errno;
+		errno = 0;
+		old_val = (key && value) ? hashmap_put(parms->map, key, value) : NULL;
+		bool is_failed = (!key || !value || (!old_val && errno == ENOMEM));
+		errno = saved_errno;
+		if (old_val || is_failed)
+		{
+			/* we replaced a value, or the map did not take the pair: key is still ours */
+			free(key);
+		}
+		if (is_failed)
+		{
+			free(value);
+			free(str);
+			goto label_err_strdup;
+		}
 		RELEASE_OWNERSHIP(value);
 		RELEASE_OWNERSHIP(old_val);
 		RELEASE_OWNERSHIP(key);
-- 
2.43.0


From fd07d2bc022e912259bfbd292835c01ccc2140bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 08/44] fix: hashmap_foreach went on with the next bucket after
 the callback asked to stop

---
 src/data/hashmap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index c90b6cd..5214e00 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -368,12 +368,13 @@ void hashmap_clear(hashmap_t* map)
 
 void hashmap_foreach(hashmap_t* map, hashmap_iter_cb callback, void* context) {
 	size_t i;
+	bool keep_going = true;
 	if (!map)
 	{
 		return;
 	}
 	hashmap_enter(map);
-	for (i = 0; i < map->bucketCount; i++)
+	for (i = 0; keep_going && i < map->bucketCount; i++)
 	{
 		Entry* entry = map->buckets[i];
 		while (entry != NULL)
@@ -381,6 +382,7 @@ void hashmap_foreach(hashmap_t* map, hashmap_iter_cb callback, void* context) {
 			Entry* next = entry->next;
 			if (!callback(entry->key, entry->value, context))
 			{
+				keep_going = false;
 				break;
 			}
 			entry = next;
-- 
2.43.0


From eb4507252ee19938ee62eb4c7c3575ea9e6c5365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 09/44] fix: ini_parser_foreach went on with the next section
 after the handler asked to stop

---
 src/file/ini_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 2988e77..f00a5f6 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -219,9 +219,9 @@ static bool iter_foreach_section(void* data, void* context)
 		return true; // just ignored empty section and continue
 	}
 
-	list_foreach(context_p->p_section_info->plist_section,
+	// a key-value handler that breaks the chain breaks it for the following sections too
+	return NULL == list_foreach(context_p->p_section_info->plist_section,
 		iter_foreach_section_key_value, context_p);
-	return true;
 }
 
 ini_parser_code_e ini_parser_foreach(ini_parser_handle parser_p, ini_parser_handler handler, void* user)
-- 
2.43.0


From 40851b167b0502b3e00b32f720f4c02d2e10b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 10/44] fix: allocation_tracker lost its record when the map
 had no memory for it

---
 src/mem/allocation_tracker.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mem/allocation_tracker.c b/src/mem/allocation_tracker.c
index 5bba3c6..d8ea595 100644
--- a/src/mem/allocation_tracker.c
+++ b/src/mem/allocation_tracker.c
@@ -17,6 +17,7 @@
  ******************************************************************************/
 
 #include "mem/allocation_tracker.h"
+#include <errno.h>
 #include "thread/posix_thread.h"
 #include <stdbool.h>
 #include "mem/strings.h"
@@ -160,7 +161,11 @@ void* allocation_tracker_notify_alloc(allocator_id_t allocator_id, void* ptr, si
 	{
 		allocation = (allocation_t*)calloc(1, sizeof(allocation_t));
 		ASSERT_ABORT(allocation);
+		int saved_errno = errno;
+		errno = 0;
 		hashmap_put(allocations, return_ptr, allocation);
+		ASSERT_ABORT(ENOMEM != errno); // an untracked allocation could never be freed
+		errno = saved_errno;
 	}
 	allocation->allocator_id = allocator_id;
 	allocation->freed = false;
-- 
2.43.0


From 3b8c48257fd8e2c407c49326ad9bb5ea7413735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 11/44] fix: hashmap_put told ENOMEM for a pair it had stored
 when the bucket array could not grow

---
 src/data/hashmap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index 5214e00..331d0ad 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -133,10 +133,12 @@ static void expandIfNecessary(hashmap_t* map)
 	}
 	// Start off with a 0.33 load factor.
 	size_t newBucketCount = map->bucketCount << 1;
+	int saved_errno = errno;
 	Entry** newBuckets = (Entry**)(calloc(newBucketCount, sizeof(Entry*)));
 	if (newBuckets == NULL)
 	{
-		// Abort expansion.
+		// Abort expansion, the entry is in the map all the same: don't tell the caller ENOMEM.
+		errno = saved_errno;
 		return;
 	}
 	// Move over existing entries.
-- 
2.43.0


From 6a308a139fed25e6a1a1ca8a1babf368776e9c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 12/44] fix: strreplace's result could not be freed in the
 memory-check build

---
 src/mem/strings.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index 4548799..a06c0cc 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -1,3 +1,4 @@
+#include "mem/mem_debug.h"
 #include "mem/strings.h"
 #include <malloc.h>
 
-- 
2.43.0


From 0146e73dbac204b74fbc07abcc9ef46290ee4f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 13/44] fix: str_params_to_str's result could not be freed in
 the memory-check build

---
 src/mem/str_params.c | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 3e98979..b19aa8f 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -341,28 +341,21 @@ typedef struct
 static bool combine_strings(void* key, void* value, void* context)
 {
 	combine_strings_ctx* combine_ctx = (combine_strings_ctx*)context;
-	char* new_str = NULL;
-	int ret = asprintf(&new_str, "%s%s%s=%s",
-		combine_ctx->str ? combine_ctx->str : "",
-		combine_ctx->str ? combine_ctx->params_ptr->delimiter : "",
-		(char*)key,
-		(char*)value);
-	if (combine_ctx->str)
-	{
-		free(combine_ctx->str);
-	}
-	if (ret >= 0)
+	const char* prefix = combine_ctx->str ? combine_ctx->str : "";
+	const char* delimiter = combine_ctx->str ? combine_ctx->params_ptr->delimiter : "";
+	// not asprintf: its memory is not from our (maybe tracking) malloc, so it can't be freed with our free.
+	int len = snprintf(NULL, 0, "%s%s%s=%s", prefix, delimiter, (char*)key, (char*)value);
+	char* new_str = len >= 0 ? (char*)malloc((size_t)len + 1U) : NULL;
+	if (new_str)
 	{
-		combine_ctx->str = new_str;
-		return true;
+		snprintf(new_str, (size_t)len + 1U, "%s%s%s=%s", prefix, delimiter, (char*)key, (char*)value);
 	}
-	if (new_str)
+	if (combine_ctx->str)
 	{
-		free(new_str);
-		new_str = NULL;
+		free(combine_ctx->str);
 	}
-	combine_ctx->str = NULL;
-	return false;
+	combine_ctx->str = new_str;
+	return NULL != new_str;
 }
 
 char* str_params_to_str(str_params_ptr params)
-- 
2.43.0


From 1aec63dbca936f19fee4076206d7cbd348399a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 14/44] fix: str_params freed its tracked keys and values with
 the C library's free in the memory-check build

---
 src/mem/str_params.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index b19aa8f..75eed13 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -52,11 +52,17 @@ static int str_hash_fn(const void* str)
 	return (int)hash;
 }
 
+/* keys and values come from our strdup: in the memory-check build that is not the C library's */
+static void free_str(void* str)
+{
+	free(str);
+}
+
 str_params_ptr str_params_create(const char* delimiter)
 {
 	str_params_ptr s = (str_params_ptr)calloc(1, sizeof(struct str_params));
 	if (!s) return NULL;
-	s->map = hashmap_create(16, str_hash_fn, free, free, str_eq, NULL);
+	s->map = hashmap_create(16, str_hash_fn, free_str, free_str, str_eq, NULL);
 	if (!s->map)
 	{
 		free(s);
-- 
2.43.0


From 33048317f4eb13a66678ee890142f62bd944e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 15/44] fix: RingBuffer_create_with_mem made a ring of size 0
 of more than 2 GB of memory

---
 src/ring/ringbuffer.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ring/ringbuffer.c b/src/ring/ringbuffer.c
index 17debbc..c417689 100644
--- a/src/ring/ringbuffer.c
+++ b/src/ring/ringbuffer.c
@@ -32,7 +32,7 @@ static inline int pri_is_power_of_2(uint32_t n)
 	return (n > 1 && !(n & (n - 1)));
 }
 
-static inline uint32_t pri_roundup_pow_of_two(uint32_t x)
+static inline uint64_t pri_roundup_pow_of_two(uint32_t x)
 {
 	if (x == 0 || pri_is_power_of_2(x))
 	{
@@ -44,7 +44,7 @@ static inline uint32_t pri_roundup_pow_of_two(uint32_t x)
 	{
 		counter++;
 	}
-	return (uint32_t)(2 << counter);
+	return ((uint64_t)2) << counter; /* may be 2^32, which does not fit in uint32_t */
 }
 
 struct __ring_buffer_t
@@ -75,7 +75,7 @@ ring_buffer_handle RingBuffer_create_with_mem(__in void* buf, __in uint32_t buf_
 	if (!pri_is_power_of_2(ring_buf_size))
 	{
 		RING_LOGW("%s buf_size=%u is not power of 2", __func__, ring_buf_size);
-		ring_buf_size = (pri_roundup_pow_of_two(ring_buf_size) >> 1);
+		ring_buf_size = (uint32_t)(pri_roundup_pow_of_two(ring_buf_size) >> 1);
 		RING_LOGW("%s changed buf_size to %u ", __func__, ring_buf_size);
 	}
 	ring_buffer_handle ring_buffer_p = (ring_buffer_handle)buf;
@@ -97,7 +97,7 @@ ring_buffer_handle RingBuffer_create(__in uint32_t buf_size)
 	if (!pri_is_power_of_2(buf_size))
 	{
 		RING_LOGW("%s buf_size=%u is not power of 2", __func__, buf_size);
-		buf_size = pri_roundup_pow_of_two(buf_size);
+		buf_size = (uint32_t)pri_roundup_pow_of_two(buf_size);
 		RING_LOGW("%s changed buf_size to %u ", __func__, buf_size);
 	}
 
-- 
2.43.0


From 20ca4d3f2ca34bdaf3548269a1ea3d37765b236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 16/44] fix: auto_cover_buf_read aborted when asked for more
 than INT_MAX bytes

---
 src/ring/autocover_buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ring/autocover_buffer.c b/src/ring/autocover_buffer.c
index e468983..fe925e4 100644
--- a/src/ring/autocover_buffer.c
+++ b/src/ring/autocover_buffer.c
@@ -100,7 +100,7 @@ static int auto_cover_buf_internal_read(const auto_cover_buf_handle buf_handle,
 	}
 	ASSERT_ABORT(real_can_read_len <= (int)ring_available_data);
 
-	if (target && real_can_read_len >= (int)request_read_len)
+	if (target && real_can_read_len >= 0 && (uint32_t)real_can_read_len >= request_read_len)
 	{
 		//perform discard
 		const uint32_t should_discard_len = ring_available_data - real_can_read_len;
@@ -135,7 +135,7 @@ int auto_cover_buf_read(__in const auto_cover_buf_handle buf_handle,
 		return available_read_data;
 	}
 	int real_read_len;
-	if (available_read_data < (int)req_read_len)
+	if ((uint32_t)available_read_data < req_read_len)
 	{
 		//error: not enough data, we NOT perform read operation.
 		real_read_len = AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH;
-- 
2.43.0


From 1f7b454d1921cbd8015d9862458d81663d00d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 17/44] fix: auto_cover_buf_write aborted when the data was
 longer than the buffer

---
 src/ring/autocover_buffer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ring/autocover_buffer.c b/src/ring/autocover_buffer.c
index fe925e4..3479f12 100644
--- a/src/ring/autocover_buffer.c
+++ b/src/ring/autocover_buffer.c
@@ -153,6 +153,11 @@ int auto_cover_buf_write(__in const auto_cover_buf_handle buf_handle,
 {
 	ASSERT(buf_handle);
 	ASSERT(source);
+	if (write_len > buf_handle->ring_buffer_size)
+	{
+		//error: never fits, even if all of the old data is covered.
+		return AUTO_COVER_BUF_ERR_INVALID_PARAM;
+	}
 	AUTOCOVER_LOCK(buf_handle);
 
 	const uint32_t ring_available_write = RingBuffer_available_write(buf_handle->ring);
-- 
2.43.0


From bf5ad3b2838606279d615cb7f03fc0f81e844112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:51 +0000
Subject: [PATCH 18/44] fix: msg_queue_pop did not tell the caller the size of
 the message it delivered

---
 src/ring/msg_queue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index 697e1c8..ce61c6b 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -96,6 +96,7 @@ msg_q_code_e msg_queue_pop(__in msg_queue msg_queue_p, __out void* msg_p, __inou
 	ASSERT_ABORT(read_bytes == sizeof(msg_header_t));
 	read_bytes = RingBuffer_read(msg_queue_p->ring_buf_p, msg_p, header.msg_size);
 	ASSERT_ABORT(read_bytes == header.msg_size);
+	*msg_size_p = header.msg_size; // tell caller the msg real size
 	return MSG_Q_CODE_SUCCESS;
 }
 
-- 
2.43.0


From 4de8cdbe479e6d80f8fc1dd2906584425fbf242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:51 +0000
Subject: [PATCH 19/44] fix: msg_queue_destroy dereferenced a NULL queue

---
 src/ring/msg_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index ce61c6b..66362eb 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -120,7 +120,7 @@ uint32_t msg_queue_available_push_bytes(__in msg_queue msg_queue_p)
 
 void msg_queue_destroy(__inout msg_queue* msg_queue_pp)
 {
-	if (!msg_queue_pp || !((*msg_queue_pp)->ring_buf_p))
+	if (!msg_queue_pp || !(*msg_queue_pp) || !((*msg_queue_pp)->ring_buf_p))
 	{
 		return;
 	}
-- 
2.43.0


From dc8bc567f51db1d8ff9c95e5a2196ac46c5f4b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:19 +0000
Subject: [PATCH 20/44] fix: file_iterator_foreach reports an entry it could
 not stat instead of returning success

---
 src/file/file_iterator.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/file/file_iterator.c b/src/file/file_iterator.c
index a8ec870..64c042b 100644
--- a/src/file/file_iterator.c
+++ b/src/file/file_iterator.c
@@ -40,6 +40,7 @@ int file_iterator_foreach(char* dir, file_iterator_handle_file_info_fn handler,
 	struct dirent* direntp;
 	int stats;
 	struct stat statbuf;
+	int ret = 0;
 
 	char path_buf[PATH_MAX + 1] = { 0 };
 
@@ -71,7 +72,11 @@ int file_iterator_foreach(char* dir, file_iterator_handle_file_info_fn handler,
 		}
 		snprintf(path_buf, sizeof(path_buf) - 1, "%s/%s", dir, direntp->d_name);
 		stats = pri_get_file_stat(path_buf, &statbuf);
-		if (stats == -1) break;
+		if (stats == -1)
+		{
+			ret = 1;
+			break;
+		}
 		/*if (FILE_ITERATOR_TYPE_FILE == stats)
 		{
 			LOGD("file:%s", path_buf);
@@ -90,5 +95,5 @@ int file_iterator_foreach(char* dir, file_iterator_handle_file_info_fn handler,
 		if (0 != handler(&info, user_data)) break;
 	}
 	closedir(dirp);
-	return 0;
+	return ret;
 }
-- 
2.43.0


From 9b7e530e27788663e2c992499693ea67d65bd031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:41 +0000
Subject: [PATCH 21/44] fix: wake every thread blocked in thpool_wait, not just
 one

---
 src/thread/thpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index ad47491..6d5f4bd 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -392,7 +392,7 @@ static void* thread_do(struct thread* thread_p){
 		pthread_mutex_lock(&thpool_p->thcount_lock);
 		thpool_p->num_threads_working--;
 		if (!thpool_p->num_threads_working) {
-			pthread_cond_signal(&thpool_p->threads_all_idle);
+			pthread_cond_broadcast(&thpool_p->threads_all_idle);
 		}
 		pthread_mutex_unlock(&thpool_p->thcount_lock);
 	}
-- 
2.43.0


From fea24c5357a5156ca500c3d0d6b7d0d147bdda45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:41 +0000
Subject: [PATCH 22/44] fix: thpool_destroy waits until the last thread has
 left thcount_lock before freeing it

---
 src/thread/thpool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 6d5f4bd..b04b36d 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -241,6 +241,10 @@ void thpool_destroy(thpool_* thpool_p){
 		sleep(1);
 	}
 
+	/* The last thread may still be unlocking thcount_lock */
+	pthread_mutex_lock(&thpool_p->thcount_lock);
+	pthread_mutex_unlock(&thpool_p->thcount_lock);
+
 	/* Job queue cleanup */
 	jobqueue_destroy(&thpool_p->jobqueue);
 	/* Deallocs */
-- 
2.43.0


From 76339d7a927010ae0bdaa0227c196db377f1d659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:41 +0000
Subject: [PATCH 23/44] fix: thpool_init fails instead of waiting forever when
 a thread cannot be created

---
 src/thread/thpool.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index b04b36d..f89a06a 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -164,17 +164,25 @@ struct thpool_* thpool_init(int num_threads){
 	/* Thread init */
 	int n;
 	for (n=0; n<num_threads; n++){
-		thread_init(thpool_p, &thpool_p->threads[n], n);
+		if (thread_init(thpool_p, &thpool_p->threads[n], n) != 0){
+			break;
+		}
 #if THPOOL_DEBUG
 			printf("THPOOL_DEBUG: Created thread %d in pool \n", n);
 #endif
 	}
 
 	/* Wait for threads to initialize */
-	while (thpool_p->num_threads_alive != num_threads) {
+	while (thpool_p->num_threads_alive != n) {
 		usleep(1000);
 	}
 
+	if (n < num_threads){
+		err("thpool_init(): Could not create all threads\n");
+		thpool_destroy(thpool_p);
+		return NULL;
+	}
+
 	return thpool_p;
 }
 
@@ -319,7 +327,12 @@ static int thread_init (thpool_* thpool_p, struct thread** thread_p, int id){
 	(*thread_p)->thpool_p = thpool_p;
 	(*thread_p)->id       = id;
 
-	pthread_create(&(*thread_p)->pthread, NULL, (void * (*)(void *)) thread_do, (*thread_p));
+	if (pthread_create(&(*thread_p)->pthread, NULL, (void * (*)(void *)) thread_do, (*thread_p)) != 0){
+		err("thread_init(): Could not create thread\n");
+		free(*thread_p);
+		*thread_p = NULL;
+		return -1;
+	}
 	pthread_detach((*thread_p)->pthread);
 	return 0;
 }
-- 
2.43.0


From 2c8afd8a5512907c9e6531a1edda51ca72b60f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:41 +0000
Subject: [PATCH 24/44] fix: message handlers are not created without their
 semaphore

---
 src/ring/fixed_msg_queue_handler.c | 4 ++--
 src/ring/msg_queue_handler.c       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ring/fixed_msg_queue_handler.c b/src/ring/fixed_msg_queue_handler.c
index d543cef..aa6b650 100644
--- a/src/ring/fixed_msg_queue_handler.c
+++ b/src/ring/fixed_msg_queue_handler.c
@@ -94,9 +94,9 @@ fixed_msg_queue_handler fixed_msg_queue_handler_create(__in uint32_t max_msg_cap
 	memcpy(&handler->param, init_param_p, sizeof(fixed_msg_queue_handler_init_param_t));
 	handler->token_counter = 0;
 	handler->min_valid_token = 0;
-	portable_sem_init(&(handler->semaphore), 0, 0);
+	int sem_ret = portable_sem_init(&(handler->semaphore), 0, 0);
 	handler->msg_queue_p = fixed_msg_queue_create(sizeof(fixed_handler_msg_t), max_msg_capacity);
-	if (!handler->msg_queue_p || 
+	if (0 != sem_ret || !handler->msg_queue_p || 
 		0 != portable_thread_create(&(handler->thread_handler), NULL, thread_fun_handle_msg, handler))
 	{
 		LOGE("error on create thread or queue!");
diff --git a/src/ring/msg_queue_handler.c b/src/ring/msg_queue_handler.c
index 9ccc864..0cb64fc 100644
--- a/src/ring/msg_queue_handler.c
+++ b/src/ring/msg_queue_handler.c
@@ -128,9 +128,9 @@ msg_queue_handler msg_queue_handler_create(__in uint32_t queue_buf_size,
 	}
 	handler->flag2exit = false;
 	memcpy(&(handler->param), param_p, sizeof(msg_queue_handler_init_param_t));
-	portable_sem_init(&(handler->semaphore), 0, 0);
+	int sem_ret = portable_sem_init(&(handler->semaphore), 0, 0);
 	handler->msg_queue_p = msg_queue_create(queue_buf_size);
-	if (!handler->msg_queue_p ||
+	if (0 != sem_ret || !handler->msg_queue_p ||
 		0 != portable_thread_create(&(handler->thread_handler), NULL, thread_worker_handle_msg, handler))
 	{
 		LOGE("error on create thread or queue!");
-- 
2.43.0


From 805bdfe3aaf8608ed31005dc60485597efb3b7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:41 +0000
Subject: [PATCH 25/44] fix: shift in size_t when rounding the receive buffer
 up

---
 src/ring/msg_queue_handler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring/msg_queue_handler.c b/src/ring/msg_queue_handler.c
index 0cb64fc..7d2d82e 100644
--- a/src/ring/msg_queue_handler.c
+++ b/src/ring/msg_queue_handler.c
@@ -27,7 +27,7 @@ static size_t pri_roundup_power2(size_t n)
 		{
 			++counter;
 		}
-		n = (2 << counter);
+		n = ((size_t)2 << counter);
 	}
 	return n;
 }
-- 
2.43.0


From 9070dd3031aeea80668ba4f6d5f159a6ace7cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:16 +0000
Subject: [PATCH 26/44] fix: a dump of an ini tree reported success although a
 section header or blank line could not be appended

---
 src/file/ini_parser.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index f00a5f6..13c4422 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -463,10 +463,17 @@ static bool iter_section_for_dump(void* data, void* context)
 	{
 		return false; // error occurred on foreach last section, break chain.
 	}
-	stringbuilder_appendf(dump_ctx->sb, "[%s]\r\n", (char*)p_section->section_name);
+	dump_ctx->ret_code = stringbuilder_appendf(dump_ctx->sb, "[%s]\r\n", (char*)p_section->section_name);
+	if (0 != dump_ctx->ret_code)
+	{
+		return false;
+	}
 	list_foreach(p_section->plist_section, iter_key_value_for_dump, dump_ctx);
-	stringbuilder_appendstr(dump_ctx->sb, "\r\n");
-	return true;
+	if (0 == dump_ctx->ret_code)
+	{
+		dump_ctx->ret_code = stringbuilder_appendstr(dump_ctx->sb, "\r\n");
+	}
+	return 0 == dump_ctx->ret_code;
 }
 
 static stringbuilder_t* pri_dump_ini(ini_parser_handle parser_p)
-- 
2.43.0


From d0554364fe6f05ffa210a0bfc5b7ae5af0657603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:16 +0000
Subject: [PATCH 27/44] fix: ini_parser_put_string dereferenced a NULL section

---
 src/file/ini_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 13c4422..9d3e5b8 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -308,7 +308,7 @@ static key_value_t* iter_section_for_search_target_kv(list_t* section, const cha
 ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 	const char* section, const char* key, const char* value)
 {
-	if (!parser_p || !key || '\0' == key[0])
+	if (!parser_p || !section || !key || '\0' == key[0])
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
-- 
2.43.0


From 57bd2c098ca57025d98029594bfe9316b34d25b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:16 +0000
Subject: [PATCH 28/44] fix: ini_parser_get_int/get_bool succeeded with a
 truncated number, the integer getters wrote the value on failure

---
 src/file/ini_parser.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 9d3e5b8..a363879 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -7,6 +7,7 @@
 #include "mem/stringbuilder.h"
 #include <stdio.h>       /* for fopen */
 #include <stdlib.h>      /* for atoi/atol/atof */
+#include <limits.h>      /* for INT_MIN/INT_MAX */
 
 #define INI_VALUE_STACK_SIZE (256)
 #define SECTION_NAME_MAX_SIZE (INI_VALUE_STACK_SIZE / 4)
@@ -703,13 +704,16 @@ if (!end_ptr || *end_ptr != '\0') { ret = INI_PARSER_CODE_FAILED; break; }\
 				result = false;
 				break;
 			}
-			int num = (int)parse_str2longlong(&ret, str_value);
+			long long num = parse_str2longlong(&ret, str_value);
 			if (INI_PARSER_CODE_SUCCEED == ret)
 			{
 				result = (0 == num ? false : true);
 			}
 		} while (0);
-		*((bool*)value) = result;
+		if (INI_PARSER_CODE_SUCCEED == ret)
+		{
+			*((bool*)value) = result;
+		}
 	}
 	break;
 	case INI_VALUE_TYPE_DOUBLE:
@@ -723,14 +727,25 @@ if (!end_ptr || *end_ptr != '\0') { ret = INI_PARSER_CODE_FAILED; break; }\
 	}
 	break;
 	case INI_VALUE_TYPE_INT:
-		*((int*)value) = (int)parse_str2longlong(&ret, str_value);
-		break;
+	{
+		long long num = parse_str2longlong(&ret, str_value);
+		if (num < INT_MIN || num > INT_MAX) ret = INI_PARSER_CODE_FAILED;
+		if (INI_PARSER_CODE_SUCCEED == ret) *((int*)value) = (int)num;
+	}
+	break;
 	case INI_VALUE_TYPE_LONG:
-		*((long*)value) = (long)parse_str2longlong(&ret, str_value);
-		break;
+	{
+		long long num = parse_str2longlong(&ret, str_value);
+		if (num < LONG_MIN || num > LONG_MAX) ret = INI_PARSER_CODE_FAILED;
+		if (INI_PARSER_CODE_SUCCEED == ret) *((long*)value) = (long)num;
+	}
+	break;
 	case INI_VALUE_TYPE_LONG_LONG:
-		*((long long*)value) = parse_str2longlong(&ret, str_value);
-		break;
+	{
+		long long num = parse_str2longlong(&ret, str_value);
+		if (INI_PARSER_CODE_SUCCEED == ret) *((long long*)value) = num;
+	}
+	break;
 	default:
 		ret = INI_PARSER_CODE_FAILED;
 		break;
-- 
2.43.0


From 7582a95b635e41c93e315800570c681fba4d8b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 29/44] fix: stringbuilder_appendf corrupted the builder when
 formatting failed

---
 src/mem/stringbuilder.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index a64fd98..fa61a63 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -140,12 +140,13 @@ int stringbuilder_appendf(stringbuilder_t* sb, const char* format, ...)
 
 	va_start(va, format);
 	// first we get the string length that will write. ('\0' is not belong of the length)
-	size_t len = vsnprintf(NULL, 0, format, va);
+	const int fmt_len = vsnprintf(NULL, 0, format, va);
 	va_end(va);
-	if (len < 1)
+	if (fmt_len < 1)
 	{
-		return -2;
+		return -2; // nothing to append, or format error
 	}
+	const size_t len = (size_t)fmt_len;
 
 	if (sb_ensure_space(sb, len) != 0)
 	{
-- 
2.43.0


From 259191116a975e28c7905be6f22a03a704b0a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 30/44] fix: stringbuilder_appendnstr read past the end of a
 string shorter than len

---
 src/mem/stringbuilder.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index fa61a63..3dc9d92 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -111,10 +111,7 @@ int stringbuilder_appendnstr(stringbuilder_t* sb, const char* str, size_t len)
 	{
 		return -1;
 	}
-	if (len == 0)
-	{
-		len = strlen(str);
-	}
+	len = (len == 0) ? strlen(str) : strnlen(str, len);
 	if (len == 0)
 	{
 		return -2;
-- 
2.43.0


From 0728ebce68f7bb620a1f43ccdafa698e666ddb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 31/44] fix: strreplace never returned for an empty pattern

---
 src/mem/strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index a06c0cc..8b10f02 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -115,7 +115,7 @@ char* strreplace(char const* const original,
 	const char* patloc;
 
 	// find how many times the pattern occurs in the original string
-	for (oriptr = original; NULL != (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
+	for (oriptr = original; patlen && NULL != (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
 	{
 		++patcnt;
 	}
@@ -130,7 +130,7 @@ char* strreplace(char const* const original,
 		// copy the original string, 
 		// replacing all the instances of the pattern
 		char* retptr = returned;
-		for (oriptr = original; (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
+		for (oriptr = original; patlen && (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
 		{
 			size_t const skplen = patloc - oriptr;
 			// copy the section until the occurrence of the pattern
-- 
2.43.0


From 0a4b486128d24a2951bad83ed1686d15ce3e00bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 32/44] fix: strnutf8len read one byte beyond max_count

---
 src/mem/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index 8b10f02..9b25beb 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -188,7 +188,7 @@ size_t strnutf8len(const char* utf8str, size_t max_count)
 {
 	size_t code_points = 0;
 	size_t chars_count = 0;
-	while (*utf8str && chars_count < max_count) 
+	while (chars_count < max_count && *utf8str) 
 	{
 		code_points += ((*utf8str & 0xC0) != 0x80);
 		++utf8str;
-- 
2.43.0


From 1103702fee4d0a58a2e0509b424a6a1283fc32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 33/44] fix: str_params_add_double stored the cut digits of a
 large number

---
 src/mem/str_params.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 75eed13..3108fb9 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -245,10 +245,10 @@ int str_params_add_int(str_params_ptr params, const char* key, int value)
 
 int str_params_add_double(str_params_ptr params, const char* key, double value)
 {
-	char val_str[32];
+	char val_str[352]; // -DBL_MAX has 309 digits in front of the decimal point
 	int ret;
 	ret = snprintf(val_str, sizeof(val_str), "%.10f", value);
-	if (ret < 0)
+	if (ret < 0 || (size_t)ret >= sizeof(val_str))
 	{
 		return -EINVAL;
 	}
-- 
2.43.0


From 8747439d7a9a26f93c7db849af3e196bd4a4ee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 34/44] fix: str_params_get_int handed out a truncated number

---
 src/mem/str_params.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 3108fb9..8c5a1b5 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -6,6 +6,7 @@
 #include "mem/str_params.h"
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include "mem/strings.h"
 #include "data/hashmap.h"
@@ -302,9 +303,13 @@ int str_params_get_int(str_params_ptr params, const char* key, int* out_val)
 {
 	long long_num;
 	int ret = str_params_get_long(params, key, &long_num);
+	if (ret == 0 && (long_num < INT_MIN || long_num > INT_MAX))
+	{
+		return -ERANGE;
+	}
 	if (ret == 0)
 	{
-		*out_val = long_num;
+		*out_val = (int)long_num;
 	}
 	return ret;
 }
-- 
2.43.0


From 54a475d37827c1f0ae4007bb86788acc7c6ed2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 35/44] fix: str_params_to_str returned an empty text when
 memory ran out

---
 src/mem/str_params.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 8c5a1b5..7a359f6 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -347,6 +347,7 @@ typedef struct
 {
 	char* str;
 	str_params_ptr params_ptr;
+	bool is_failed;
 }combine_strings_ctx;
 
 static bool combine_strings(void* key, void* value, void* context)
@@ -366,6 +367,7 @@ static bool combine_strings(void* key, void* value, void* context)
 		free(combine_ctx->str);
 	}
 	combine_ctx->str = new_str;
+	combine_ctx->is_failed = (NULL == new_str);
 	return NULL != new_str;
 }
 
@@ -375,8 +377,13 @@ char* str_params_to_str(str_params_ptr params)
 	{
 	   .str = NULL,
 	   .params_ptr = params,
+	   .is_failed = false,
 	};
 	hashmap_foreach(params->map, combine_strings, &ctx);
+	if (ctx.is_failed)
+	{
+		return NULL;
+	}
 	return (ctx.str != NULL) ? ctx.str : strdup("");
 }
 
-- 
2.43.0


From e8ea7e9b8282df0abd1e1e735ae42113a25e2539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 36/44] fix: xlog cuts an overlong function name instead of
 overrunning its header buffer

---
 src/log/xlog.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/log/xlog.c b/src/log/xlog.c
index 436cdfc..1cc3433 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -395,12 +395,17 @@ static inline int my_int2str(int num, char* str)
 }
 
 // (func:line)  
-static inline int print_func_line(char* buffer, const char* func, int line_num)
+#define MAX_FUNC_LINE_EXTRA (15) // '(' ':' number(10) ')' ' ' '\0'
+static inline int print_func_line(char* buffer, size_t buffer_size, const char* func, int line_num)
 {
 	char *str = buffer;
 	str[0] = '(';
 	++str;
 	size_t len_func = strlen(func);
+	if (len_func > buffer_size - MAX_FUNC_LINE_EXTRA)
+	{
+		len_func = buffer_size - MAX_FUNC_LINE_EXTRA;
+	}
 	memcpy(str, func, len_func);
 	str += len_func;
 	str[0] = ':';
@@ -484,7 +489,7 @@ void __xlog_internal_print(LogLevel level, const char* tag, const char* func_nam
 #if(defined(USE_SNPRINTF_HEADER) && USE_SNPRINTF_HEADER)
 			buffer_strlen += snprintf(buffer_log + buffer_strlen, default_buffer_remaining_size, "(%s:%d) ", func_name, file_line);
 #else
-			buffer_strlen += print_func_line(buffer_log + buffer_strlen, func_name, file_line);
+			buffer_strlen += print_func_line(buffer_log + buffer_strlen, default_buffer_remaining_size, func_name, file_line);
 #endif // USE_SNPRINTF_HEADER
 	    }
 
-- 
2.43.0


From 9d27a73341e7e161ec12f9814a889649f15700ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 37/44] fix: file_util_mkdirs keeps room for the terminator of
 a path of exactly 256 characters

---
 src/file/file_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 1f859e4..8d5eea5 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -71,7 +71,7 @@ int file_util_mkdirs(__in const char* folder_path)
 	}
 	int ret;
 	size_t dir_path_len = strlen(folder_path);
-	if (dir_path_len > MAX_FOLDER_PATH_LEN)
+	if (dir_path_len >= MAX_FOLDER_PATH_LEN)
 	{
 		return -2; // dir too long
 	}
-- 
2.43.0


From 10f39bdba19e7c81e20e010bc7d1d93870159544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 38/44] fix: lcu_malloc, lcu_calloc and lcu_realloc refuse
 sizes whose arithmetic wraps around

---
 src/mem/allocator.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index ad0f4f4..d0eba03 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -92,6 +92,10 @@ char* lcu_strndup(const char* str, size_t len)
 void* lcu_malloc_trace(size_t size, const char* file_path, const char* func_name, int file_line)
 {
 	size_t real_size = allocation_tracker_resize_for_canary(size);
+	if (real_size < size)
+	{
+		return NULL; // the size with its canaries can't be represented
+	}
 	void* ptr = malloc(real_size);
 	if (!ptr)
 	{
@@ -107,8 +111,16 @@ void* lcu_malloc(size_t size)
 
 void* lcu_calloc_trace(size_t item_count, size_t item_size, const char* file_path, const char* func_name, int file_line)
 {
+	if (item_size && item_count > SIZE_MAX / item_size)
+	{
+		return NULL; // the product can't be represented
+	}
 	size_t request_size = item_count * item_size;
 	size_t real_size = allocation_tracker_resize_for_canary(request_size);
+	if (real_size < request_size)
+	{
+		return NULL; // the size with its canaries can't be represented
+	}
 	void* ptr = calloc(1, real_size);
 	if (!ptr)
 	{
@@ -143,6 +155,10 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 	if (NULL == ptr)
 	{
 		/* a little trick: give more memory than you need, for maybe reduce realloc times */
+		if (size > SIZE_MAX - 2048U)
+		{
+			return NULL;
+		}
 		return lcu_malloc_trace(size + 2048U, file_path, func_name, file_line);
 	}
 
@@ -154,6 +170,10 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 	}
 
 	/* a little trick: give more memory than you need, for reduce realloc times */
+	if (size > SIZE_MAX - 2048U)
+	{
+		return NULL;
+	}
 	void* new_ptr = lcu_malloc_trace(size + 2048U, file_path, func_name, file_line);
 	if (!new_ptr)
 	{
-- 
2.43.0


From 426d6c92705f9fbf69984e26c92330e19cecc8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:21 +0000
Subject: [PATCH 39/44] fix: lcu_strndup does not read past the given length

---
 src/mem/allocator.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index d0eba03..50f3a9a 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -62,11 +62,7 @@ char* lcu_strdup(const char* str)
 
 char* lcu_strndup_trace(const char* str, size_t len, const char* file_path, const char* func_name, int file_line)
 {
-	size_t size = strlen(str);
-	if (len < size)
-	{
-		size = len;
-	}
+	size_t size = strnlen(str, len);
 	size_t real_size = allocation_tracker_resize_for_canary(size + 1);
 	void* ptr = malloc(real_size);
 	if (!ptr)
-- 
2.43.0


From 974fd7492b1d74f9f3b5227a2446a29923f7112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:30 +0000
Subject: [PATCH 40/44] fix: file_logger_log refuses a message whose length
 does not fit the queue's length field

---
 src/log/file_logger.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index c9d49d8..85fd65f 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -132,6 +132,10 @@ int file_logger_log(file_logger_handle handle, void* log_msg, size_t msg_size)
 	msg_q_code_e status = MSG_Q_CODE_BUF_NOT_ENOUGH;
 	int retry_counter = 0;
 	
+	if (msg_size > INT32_MAX) // the length of a queued message is an int
+	{
+		return (int)status;
+	}
 	FILE_LOGGER_LOCK(handle);
 	do
 	{
-- 
2.43.0


From a3d7cac7f08b44e4106ac0ce45c505a3c21e9576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:11 +0000
Subject: [PATCH 41/44] fix: file_util_read_all reports a truncated length for
 a file larger than INT_MAX

---
 src/file/file_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 8d5eea5..ff9484f 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -227,7 +227,7 @@ int file_util_read_all(__in const char* file_path, __out char** out_alloced_file
 	*out_file_byte_len = (int)file_size;
 	do
 	{
-		if (file_size < 1)
+		if (file_size < 1 || file_size > INT32_MAX) // the length is reported as an int
 		{
 			ret = -3;
 			break;
-- 
2.43.0


From 90e34e1116702774748cfd8ab6d630c2a30ae043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:58 +0000
Subject: [PATCH 42/44] fix: xlog_back2stdout decides with the lock held
 whether there is a stream to close

---
 src/log/xlog.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/log/xlog.c b/src/log/xlog.c
index 1cc3433..cc85060 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -165,11 +165,12 @@ void xlog_stdout2file(char* file_path)
 
 void xlog_back2stdout()
 {
-	if (!g_xlog_cfg.fp_out)
+	XLOG_LOCK();
+	if (!g_xlog_cfg.fp_out) // check it with the lock held: another thread may have closed it meanwhile
 	{
+		XLOG_UNLOCK();
 		return;
 	}
-	XLOG_LOCK();
 	// must close current stream first, and then reopen it
 	fflush(g_xlog_cfg.fp_out);
 	fclose(g_xlog_cfg.fp_out);
-- 
2.43.0


From 5abb43db3292a5e62c47c03811bfdf2a022dc5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:51 +0000
Subject: [PATCH 43/44] fix: portable_mutex_unlock checks for a NULL mutex

---
 src/thread/portable_thread_posix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread/portable_thread_posix.c b/src/thread/portable_thread_posix.c
index 5b656ea..9709b1c 100644
--- a/src/thread/portable_thread_posix.c
+++ b/src/thread/portable_thread_posix.c
@@ -131,7 +131,7 @@ int portable_mutex_lock(portable_mutex_t* mutex)
 
 int portable_mutex_unlock(portable_mutex_t* mutex)
 {
-	if (NULL == mutex)
+	if (NULL == mutex || NULL == *mutex)
 	{
 		return -1;
 	}
-- 
2.43.0


From a7521e2836b274bf0058211761d52a234531275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:10 +0000
Subject: [PATCH 44/44] fix: lcu_realloc keeps the contents when the tracker is
 off

---
 src/mem/allocator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index 50f3a9a..8b8e40a 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -158,6 +158,12 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 		return lcu_malloc_trace(size + 2048U, file_path, func_name, file_line);
 	}
 
+	if (0 == allocation_tracker_resize_for_canary(0))
+	{
+		// tracker is off, only the C library knows the size of the memory
+		return realloc(ptr, size);
+	}
+
 	size_t cur_ptr_size = allocation_tracker_ptr_size(ALLOCTOR_ID, ptr);
 	if (cur_ptr_size && size <= cur_ptr_size)
 	{
-- 
2.43.0

