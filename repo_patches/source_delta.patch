From 4109827de8752363680bb0af1cbc47503b41ae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 01/36] fix: look for the next build in the following page when
 a page ends early

When a nested build leaves less than a minimum buffer in its page, the rest of
the page is abandoned even though another build header may fit in it (on
platforms where mpack_build_t is smaller than the minimum buffer size). If the
build was empty, resolving stopped there, losing the rest of the message and
leaking the remaining pages.
---
 src/mpack/mpack-writer.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 029b065..2360a48 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1734,10 +1734,12 @@ static void mpack_builder_resolve(mpack_writer_t* writer) {
             offset = sizeof(mpack_builder_page_t);
         }
 
-        // now see if we can find another build.
+        // now see if we can find another build. (if it isn't in this page, it
+        // can still be in the next one: a page is also abandoned if there is
+        // room for another build in it but not for a minimum buffer.)
         offset = mpack_builder_align_build(offset);
-        if (offset + sizeof(mpack_build_t) > mpack_builder_page_size(writer, page)) {
-            mpack_log("not enough room in this page for another build\n");
+        if (offset + sizeof(mpack_build_t) > page->bytes_used) {
+            mpack_log("there isn't another build in this page\n");
             mpack_builder_page_t* next_page = page->next;
             mpack_builder_free_page(writer, page);
             page = next_page;
-- 
2.43.0


From 242792c5d9d2e8eb6c16211bd2280b11bff650a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 02/36] fix: flag an error when a file reader skips past the
 end of the file

Seeking past the end of a file succeeds, so discarding an object whose data
was cut off by the end of the file reported success.
---
 src/mpack/mpack-reader.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index dfac4c2..0eb735f 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -112,8 +112,13 @@ static void mpack_file_reader_skip(mpack_reader_t* reader, size_t count) {
     // without causing a file error.
     if (ftell(file) >= 0) {
         mpack_log("seeking forward %i bytes\n", (int)count);
-        if (fseek(file, (long int)count, SEEK_CUR) == 0)
+
+        // Seeking past the end of a file succeeds, so we seek only up to the
+        // last byte and read that one to make sure that it exists.
+        if (fseek(file, (long int)(count - 1), SEEK_CUR) == 0) {
+            mpack_reader_skip_using_fill(reader, 1);
             return;
+        }
         mpack_log("fseek() didn't return zero!\n");
         if (ferror(file)) {
             mpack_reader_flag_error(reader, mpack_error_io);
-- 
2.43.0


From 8790cd1fa7218232b0847926c4758e959ae34ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 03/36] fix: leave an empty string in the buffer when a cstr
 read fails midway

mpack_read_cstr(), mpack_read_utf8_cstr() and the expect functions based on
them document that the buffer contains an empty string if an error occurs, but
the data read before a failing fill was left in the buffer.
---
 src/mpack/mpack-reader.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 0eb735f..ce2aca0 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -475,6 +475,11 @@ static void mpack_read_cstr_unchecked(mpack_reader_t* reader, char* buf, size_t
 
     mpack_reader_track_str_bytes_all(reader, byte_count);
     mpack_read_native(reader, buf, byte_count);
+    if (mpack_reader_error(reader) != mpack_ok) {
+        // part of the string may have been read already
+        buf[0] = 0;
+        return;
+    }
     buf[byte_count] = 0;
 }
 
-- 
2.43.0


From 10cd9a1b069c92926df08a3d807b554062475b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 04/36] fix: report a tree size of zero unless a message was
 parsed

---
 src/mpack/mpack-node.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.h b/src/mpack/mpack-node.h
index 26046e8..80fcbb0 100644
--- a/src/mpack/mpack-node.h
+++ b/src/mpack/mpack-node.h
@@ -520,7 +520,9 @@ MPACK_INLINE mpack_error_t mpack_tree_error(mpack_tree_t* tree) {
  * be determined if the data is invalid or corrupted.)
  */
 MPACK_INLINE size_t mpack_tree_size(mpack_tree_t* tree) {
-    return tree->size;
+    // if parsing did not complete (because of an error or because more data is
+    // needed), tree->size is how far the parser got.
+    return (tree->parser.state == mpack_tree_parse_state_parsed) ? tree->size : 0;
 }
 
 /**
-- 
2.43.0


From b4b6b72ae25a5a8f729212693cddedb1aa5a991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 05/36] fix: apply the message size limit of trees to the
 message, not to the buffer

---
 src/mpack/mpack-node.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 8af1562..c73e815 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -89,14 +89,6 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
             "there are already enough bytes! call mpack_tree_ensure() instead.");
     mpack_log("filling to reserve %i bytes\n", (int)bytes);
 
-    // if the necessary bytes would put us over the maximum tree
-    // size, fail right away.
-    // TODO: check for overflow?
-    if (tree->data_length + bytes > tree->max_size) {
-        mpack_tree_flag_error(tree, mpack_error_too_big);
-        return false;
-    }
-
     // we'll need a read function to fetch more data. if there's
     // no read function, the data should contain an entire message
     // (or messages), so we flag it as invalid.
@@ -106,12 +98,14 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
         return false;
     }
 
-    // expand the buffer if needed
-    if (tree->data_length + bytes > tree->buffer_capacity) {
+    // expand the buffer if needed. some of the bytes to reserve may be in the
+    // buffer already. (mpack_tree_reserve_bytes() has checked that this is
+    // within the maximum message size, so it does not overflow.)
+    size_t needed = tree->data_length - tree->parser.possible_nodes_left + bytes;
+    if (needed > tree->buffer_capacity) {
 
-        // TODO: check for overflow?
         size_t new_capacity = (tree->buffer_capacity == 0) ? MPACK_BUFFER_SIZE : tree->buffer_capacity;
-        while (new_capacity < tree->data_length + bytes)
+        while (new_capacity < needed)
             new_capacity *= 2;
         if (new_capacity > tree->max_size)
             new_capacity = tree->max_size;
@@ -196,6 +190,15 @@ MPACK_STATIC_INLINE bool mpack_tree_reserve_bytes(mpack_tree_t* tree, size_t ext
 
     tree->parser.current_node_reserved += extra_bytes;
 
+    // The bytes of this message parsed or reserved by previous nodes plus those
+    // reserved by this one must not put us over the maximum message size. This
+    // does not depend on how much data happens to be buffered already.
+    size_t used = tree->data_length - tree->parser.possible_nodes_left;
+    if (used > tree->max_size || tree->parser.current_node_reserved > tree->max_size - used) {
+        mpack_tree_flag_error(tree, mpack_error_too_big);
+        return false;
+    }
+
     // Note that possible_nodes_left already accounts for reserved bytes for
     // children of previous compound nodes. So even if there are hundreds of
     // bytes left in the buffer, we might need to read anyway.
-- 
2.43.0


From b46249fca67088b13151673f6d3b1266a1059005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 06/36] fix: do not count the children of a node twice when
 parsing resumes at it

---
 src/mpack/mpack-node.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index c73e815..e9e2473 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -286,8 +286,8 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
     }
 
     // Make sure we are under our total node limit (TODO can this overflow?)
-    tree->node_count += total;
-    if (tree->node_count > tree->max_nodes) {
+    size_t node_count = tree->node_count + total;
+    if (node_count > tree->max_nodes) {
         mpack_tree_flag_error(tree, mpack_error_too_big);
         return false;
     }
@@ -297,6 +297,10 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
     if (!mpack_tree_reserve_bytes(tree, total))
         return false;
 
+    // Count the nodes only now. If there isn't enough data yet, this node will
+    // be parsed again when there is.
+    tree->node_count = node_count;
+
     // If there are enough nodes left in the current page, no need to grow
     if (total <= parser->nodes_left) {
         node->value.children = parser->nodes;
-- 
2.43.0


From 8b8488430c680c4dc7684447e2de2e7539d5299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 07/36] fix: do not pop from an unrelated build after an error

---
 src/mpack/mpack-writer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index d842a3f..de136a5 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -720,8 +720,10 @@ MPACK_INLINE void mpack_builder_compound_pop(mpack_writer_t* writer) {
     MPACK_UNUSED(writer);
 
     #if MPACK_BUILDER
+    // An error can leave a build open that should have been completed, in which
+    // case our start wasn't counted in it.
     mpack_build_t* build = writer->builder.current_build;
-    if (build != NULL) {
+    if (build != NULL && mpack_writer_error(writer) == mpack_ok) {
         mpack_assert(build->nested_compound_elements > 0);
         --build->nested_compound_elements;
     }
-- 
2.43.0


From 4a67931ec0194f6846ec898b3fc32903ba057959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 08/36] fix: stop opening a build when its page cannot be
 allocated

---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 2360a48..4061e09 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1593,6 +1593,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
         mpack_log("not enough space for a build. %zi bytes used of %zi in this page\n",
                 builder->current_page->bytes_used, mpack_builder_page_size(writer, builder->current_page));
         mpack_builder_add_page(writer);
+        if (mpack_writer_error(writer) != mpack_ok)
+            return;
         // there is always enough space in a fresh page.
         offset = mpack_builder_align_build(builder->current_page->bytes_used);
     }
-- 
2.43.0


From 12bf8ef774fa2ecdd92842126364629884961c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 09/36] fix: stop opening a build when it cannot be tracked

---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 4061e09..9ad1776 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1574,6 +1574,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
 
     mpack_writer_track_element(writer);
     mpack_writer_track_push_builder(writer, type);
+    if (mpack_writer_error(writer) != mpack_ok)
+        return;
 
     mpack_builder_t* builder = &writer->builder;
 
-- 
2.43.0


From 62dbb1593c6bfdd00acf2e944011d7caba948e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 10/36] fix: do not leave a freed buffer in a growable writer

---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 9ad1776..f50a8ea 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -254,6 +254,8 @@ static void mpack_growable_writer_teardown(mpack_writer_t* writer) {
             char* buffer = (char*)mpack_realloc(writer->buffer, used, size);
             if (!buffer) {
                 MPACK_FREE(writer->buffer);
+                writer->buffer = NULL; // the error handler can jump out
+                writer->context = NULL;
                 mpack_writer_flag_error(writer, mpack_error_memory);
                 return;
             }
-- 
2.43.0


From 18fd2b16f4665af57b8a894af8a8fe1c22d20c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 11/36] fix: tear down file readers and writers before
 reporting a failed close

---
 src/mpack/mpack-reader.c | 5 +++--
 src/mpack/mpack-writer.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index ce2aca0..eecbcc0 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -143,13 +143,14 @@ static void mpack_file_reader_teardown(mpack_reader_t* reader) {
 static void mpack_file_reader_teardown_close(mpack_reader_t* reader) {
     FILE* file = (FILE*)reader->context;
 
+    // tear down first since the error handler can jump out
+    mpack_file_reader_teardown(reader);
+
     if (file) {
         int ret = fclose(file);
         if (ret != 0)
             mpack_reader_flag_error(reader, mpack_error_io);
     }
-
-    mpack_file_reader_teardown(reader);
 }
 
 void mpack_reader_init_stdfile(mpack_reader_t* reader, FILE* file, bool close_when_done) {
diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index f50a8ea..f3f1dd9 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -319,13 +319,14 @@ static void mpack_file_writer_teardown(mpack_writer_t* writer) {
 static void mpack_file_writer_teardown_close(mpack_writer_t* writer) {
     FILE* file = (FILE*)writer->context;
 
+    // tear down first since the error handler can jump out
+    mpack_file_writer_teardown(writer);
+
     if (file) {
         int ret = fclose(file);
         if (ret != 0)
             mpack_writer_flag_error(writer, mpack_error_io);
     }
-
-    mpack_file_writer_teardown(writer);
 }
 
 void mpack_writer_init_stdfile(mpack_writer_t* writer, FILE* file, bool close_when_done) {
-- 
2.43.0


From 7cd315cdf974e213525e15ccdb25074c19e7a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 12/36] fix: call the error handler when the first node page
 cannot be allocated

---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index e9e2473..ae110ff 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -914,7 +914,7 @@ static bool mpack_tree_parse_start(mpack_tree_t* tree) {
         mpack_log("allocated initial page %p of size %i count %i\n",
                 (void*)page, (int)MPACK_PAGE_ALLOC_SIZE, (int)MPACK_NODES_PER_PAGE);
         if (page == NULL) {
-            tree->error = mpack_error_memory;
+            mpack_tree_flag_error(tree, mpack_error_memory);
             return false;
         }
         page->next = NULL;
-- 
2.43.0


From 8647e367fec22a6845580274f4524b2cf8032fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:14 +0000
Subject: [PATCH 13/36] fix: mpack_expect_bool() returns false when the object
 is not a bool

It returned the lowest bit of whatever type byte it had read, so it
returned true along with mpack_error_type for e.g. the number 1.
---
 src/mpack/mpack-expect.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 81576d1..3739d1a 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -326,8 +326,10 @@ void mpack_expect_nil(mpack_reader_t* reader) {
 
 bool mpack_expect_bool(mpack_reader_t* reader) {
     uint8_t type = mpack_expect_type_byte(reader);
-    if ((type & ~1) != 0xc2)
+    if ((type & ~1) != 0xc2) {
         mpack_reader_flag_error(reader, mpack_error_type);
+        return false;
+    }
     return (bool)(type & 1);
 }
 
-- 
2.43.0


From 1a20ae3da6754b9d5273d6a9ba3e5e1b0c9d4f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 14/36] fix: float and double ranges refuse NaN

mpack_expect_float_range() and mpack_expect_double_range() accepted NaN,
which compares false against both ends of the range and is not inside any.
---
 src/mpack/mpack-expect.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 3739d1a..8ea1d5e 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -275,8 +275,8 @@ uint64_t mpack_expect_raw_double(mpack_reader_t* reader) {
     if (mpack_reader_error(reader) != mpack_ok)                         \
         return min_value;                                               \
                                                                         \
-    /* make sure it fits */                                             \
-    if (val < min_value || val > max_value) {                           \
+    /* make sure it fits (NaN is never in range) */                     \
+    if (!(val >= min_value && val <= max_value)) {                      \
         mpack_reader_flag_error(reader, mpack_error_type);              \
         return min_value;                                               \
     }                                                                   \
-- 
2.43.0


From caf6fa0c0992f9234919161e36e9dbc521387858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 15/36] fix: shorten doubles just above the float range to
 infinity, not NaN

A double in [2^128, 2^129) gets the biased float exponent 0xff, which with
a non-zero significand is NaN rather than infinity.
---
 src/mpack/mpack-common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-common.h b/src/mpack/mpack-common.h
index 3e77e07..308c53d 100644
--- a/src/mpack/mpack-common.h
+++ b/src/mpack/mpack-common.h
@@ -1035,7 +1035,7 @@ MPACK_INLINE float mpack_shorten_raw_double_to_float(uint64_t d) {
             // we don't currently handle subnormal numbers. just set it to zero.
             f_exponent = 0;
             f_significand = 0;
-        } else if (MPACK_UNLIKELY(fix_bias > 0xff)) {
+        } else if (MPACK_UNLIKELY(fix_bias >= 0xff)) {
             // exponent is too large; saturate to infinity
             f_exponent = 0xff;
             f_significand = 0;
-- 
2.43.0


From 26ac2994fd7a5ab1c73e94963f04878601489ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 16/36] fix: expect_ext_alloc/max report the ext type exactly
 on success

---
 src/mpack/mpack-expect.c | 8 ++++----
 src/mpack/mpack-expect.h | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 8ea1d5e..21cd74d 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -761,11 +761,11 @@ char* mpack_expect_ext_alloc(mpack_reader_t* reader, int8_t* type, size_t maxsiz
     char* data = mpack_read_bytes_alloc(reader, length);
     mpack_done_ext(reader);
 
-    if (data) {
-        *size = length;
-    } else {
+    // NULL is returned for no bytes; this is not an error.
+    if (mpack_reader_error(reader) != mpack_ok)
         *type = 0;
-    }
+    if (data)
+        *size = length;
     return data;
 }
 #endif
diff --git a/src/mpack/mpack-expect.h b/src/mpack/mpack-expect.h
index 02a1abc..4de568c 100644
--- a/src/mpack/mpack-expect.h
+++ b/src/mpack/mpack-expect.h
@@ -1228,6 +1228,7 @@ uint32_t mpack_expect_ext(mpack_reader_t* reader, int8_t* type);
 MPACK_INLINE uint32_t mpack_expect_ext_max(mpack_reader_t* reader, int8_t* type, uint32_t maxsize) {
     uint32_t length = mpack_expect_ext(reader, type);
     if (length > maxsize) {
+        *type = 0;
         mpack_reader_flag_error(reader, mpack_error_type);
         return 0;
     }
-- 
2.43.0


From f086e35ca13032d5a79ede393d7b7ae089a93780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 17/36] fix: expect_ext functions refuse timestamps as
 documented

---
 src/mpack/mpack-expect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 21cd74d..f2b6183 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -589,7 +589,7 @@ void mpack_expect_bin_size_buf(mpack_reader_t* reader, char* buf, uint32_t size)
 #if MPACK_EXTENSIONS
 uint32_t mpack_expect_ext(mpack_reader_t* reader, int8_t* type) {
     mpack_tag_t var = mpack_read_tag(reader);
-    if (var.type == mpack_type_ext) {
+    if (var.type == mpack_type_ext && mpack_tag_ext_exttype(&var) != MPACK_EXTTYPE_TIMESTAMP) {
         *type = mpack_tag_ext_exttype(&var);
         return mpack_tag_ext_length(&var);
     }
-- 
2.43.0


From d8aede4e97184b3eb7608a95261f876384686f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 18/36] fix: expect_str_match compares bytes as unsigned

---
 src/mpack/mpack-expect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index f2b6183..a40ee0f 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -700,7 +700,7 @@ void mpack_expect_str_match(mpack_reader_t* reader, const char* str, size_t len)
 
     // check each byte one by one (matched strings are likely to be very small)
     for (; len > 0; --len) {
-        if (mpack_expect_native_u8(reader) != *str++) {
+        if (mpack_expect_native_u8(reader) != (uint8_t)*str++) {
             mpack_reader_flag_error(reader, mpack_error_type);
             return;
         }
-- 
2.43.0


From 0d85430d492c0a80a14bf9eb53fb8f8ed9bceaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 19/36] fix: expect_key_uint recognizes non-negative keys in
 signed formats

---
 src/mpack/mpack-expect.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index a40ee0f..8d3ebc4 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -837,8 +837,10 @@ size_t mpack_expect_key_uint(mpack_reader_t* reader, bool found[], size_t count)
     }
     mpack_assert(found != NULL, "found cannot be NULL");
 
-    // the key is only recognized if it is an unsigned int
-    if (mpack_peek_tag(reader).type != mpack_type_uint) {
+    // the key is only recognized if it is a non-negative int (some encoders
+    // write these in signed formats)
+    mpack_tag_t tag = mpack_peek_tag(reader);
+    if (tag.type != mpack_type_uint && !(tag.type == mpack_type_int && tag.v.i >= 0)) {
         mpack_discard(reader);
         return count;
     }
-- 
2.43.0


From f9cf6dd20c376ba330102f3ba308a168453a5c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 20/36] fix: expect_array_alloc refuses sizes that overflow
 size_t

---
 src/mpack/mpack-expect.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 8d3ebc4..1d18589 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -476,7 +476,10 @@ void* mpack_expect_array_alloc_impl(mpack_reader_t* reader, size_t element_size,
         return NULL;
     }
 
-    void* p = MPACK_MALLOC(element_size * count);
+    // the total size may not fit in a size_t
+    void* p = NULL;
+    if (element_size == 0 || count <= SIZE_MAX / element_size)
+        p = MPACK_MALLOC(element_size * count);
     if (p == NULL) {
         mpack_reader_flag_error(reader, mpack_error_memory);
         return NULL;
-- 
2.43.0


From a3a581613a91e68991690e15d01106013f906617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 21/36] fix: mpack_skip_bytes stops when tracking refuses the
 skip

---
 src/mpack/mpack-reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index eecbcc0..10f07c4 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -403,7 +403,8 @@ void mpack_skip_bytes(mpack_reader_t* reader, size_t count) {
         return;
     mpack_log("skip requested for %i bytes\n", (int)count);
 
-    mpack_reader_track_bytes(reader, count);
+    if (mpack_reader_track_bytes(reader, count) != mpack_ok)
+        return;
 
     // check if we have enough in the buffer already
     size_t left = (size_t)(reader->end - reader->data);
-- 
2.43.0


From f2550213398087717e15f24f0f1ffa8fc8938056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 22/36] fix: report unclosed compounds when destroying a writer

---
 src/mpack/mpack-writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index f3f1dd9..8a37bb4 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -535,7 +535,7 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
 
     // clean up tracking, asserting if we're not already in an error state
     #if MPACK_WRITE_TRACKING
-    mpack_track_destroy(&writer->track, writer->error != mpack_ok);
+    mpack_writer_flag_if_error(writer, mpack_track_destroy(&writer->track, writer->error != mpack_ok));
     #endif
 
     #if MPACK_BUILDER
-- 
2.43.0


From 1ab70016362c11d569a690a6ec737aad23571302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 23/36] fix: mpack_discard() does not recurse

---
 src/mpack/mpack-reader.c | 96 ++++++++++++++++++++++++----------------
 1 file changed, 58 insertions(+), 38 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 10f07c4..a60c0fa 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -1001,46 +1001,66 @@ mpack_tag_t mpack_peek_tag(mpack_reader_t* reader) {
 }
 
 void mpack_discard(mpack_reader_t* reader) {
-    mpack_tag_t var = mpack_read_tag(reader);
-    if (mpack_reader_error(reader))
-        return;
-    switch (var.type) {
-        case mpack_type_str:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_str(reader);
-            break;
-        case mpack_type_bin:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_bin(reader);
-            break;
-        #if MPACK_EXTENSIONS
-        case mpack_type_ext:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_ext(reader);
-            break;
-        #endif
-        case mpack_type_array: {
-            for (; var.v.n > 0; --var.v.n) {
-                mpack_discard(reader);
-                if (mpack_reader_error(reader))
-                    break;
-            }
-            mpack_done_array(reader);
-            break;
+
+    // This is not recursive because the nesting of untrusted data is limited
+    // only by its size. We count the objects that are left to discard instead.
+    uint64_t left = 1;
+    #if MPACK_READ_TRACKING
+    size_t opened = 0; // the number of open compound types that we opened
+    #endif
+
+    do {
+        mpack_tag_t var = mpack_read_tag(reader);
+        if (mpack_reader_error(reader))
+            return;
+        --left;
+
+        switch (var.type) {
+            case mpack_type_str:
+                mpack_skip_bytes(reader, var.v.l);
+                mpack_done_str(reader);
+                break;
+            case mpack_type_bin:
+                mpack_skip_bytes(reader, var.v.l);
+                mpack_done_bin(reader);
+                break;
+            #if MPACK_EXTENSIONS
+            case mpack_type_ext:
+                mpack_skip_bytes(reader, var.v.l);
+                mpack_done_ext(reader);
+                break;
+            #endif
+            case mpack_type_array:
+                left += var.v.n;
+                #if MPACK_READ_TRACKING
+                ++opened;
+                #endif
+                break;
+            case mpack_type_map:
+                left += (uint64_t)var.v.n * 2;
+                #if MPACK_READ_TRACKING
+                ++opened;
+                #endif
+                break;
+            default:
+                break;
         }
-        case mpack_type_map: {
-            for (; var.v.n > 0; --var.v.n) {
-                mpack_discard(reader);
-                mpack_discard(reader);
-                if (mpack_reader_error(reader))
-                    break;
-            }
-            mpack_done_map(reader);
-            break;
+        if (mpack_reader_error(reader))
+            return;
+
+        #if MPACK_READ_TRACKING
+        // close those of our compound types that are finished
+        while (opened > 0) {
+            mpack_track_element_t* element = &reader->track.elements[reader->track.count - 1];
+            if (element->left != 0 || element->key_needs_value)
+                break;
+            mpack_done_type(reader, element->type);
+            if (mpack_reader_error(reader))
+                return;
+            --opened;
         }
-        default:
-            break;
-    }
+        #endif
+    } while (left > 0);
 }
 
 #if MPACK_EXTENSIONS
-- 
2.43.0


From 97211bd572856f503ac27666749db517c0237218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 24/36] fix: growing a tree's buffer beyond half of SIZE_MAX
 does not loop forever

---
 src/mpack/mpack-node.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index ae110ff..199ecb1 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -105,8 +105,14 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
     if (needed > tree->buffer_capacity) {
 
         size_t new_capacity = (tree->buffer_capacity == 0) ? MPACK_BUFFER_SIZE : tree->buffer_capacity;
-        while (new_capacity < needed)
+        while (new_capacity < needed) {
+            if (new_capacity > SIZE_MAX / 2) {
+                // doubling would overflow
+                new_capacity = needed;
+                break;
+            }
             new_capacity *= 2;
+        }
         if (new_capacity > tree->max_size)
             new_capacity = tree->max_size;
 
-- 
2.43.0


From 58538c3562693f8d6a471c9ae9045952ca697061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:12 +0000
Subject: [PATCH 25/36] fix: don't seek a FILE reader by a distance that does
 not fit in a long

---
 src/mpack/mpack-reader.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index a60c0fa..6275217 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -109,8 +109,9 @@ static void mpack_file_reader_skip(mpack_reader_t* reader, size_t count) {
     FILE* file = (FILE*)reader->context;
 
     // We call ftell() to test whether the stream is seekable
-    // without causing a file error.
-    if (ftell(file) >= 0) {
+    // without causing a file error. The offset must also fit in
+    // a long, which may be only 32 bits wide.
+    if ((uint64_t)(count - 1) <= (uint64_t)LONG_MAX && ftell(file) >= 0) {
         mpack_log("seeking forward %i bytes\n", (int)count);
 
         // Seeking past the end of a file succeeds, so we seek only up to the
-- 
2.43.0


From ad6d3975210d4de66f97aa5cd3ebbdfca10dde49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:49 +0000
Subject: [PATCH 26/36] fix: report sizes that don't fit in size_t in the
 growable writer

---
 src/mpack/mpack-writer.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 8a37bb4..b2b0876 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -205,15 +205,24 @@ static void mpack_growable_writer_flush(mpack_writer_t* writer, const char* data
     mpack_log("flush size %i used %i data %p buffer %p\n",
             (int)count, (int)used, data, writer->buffer);
 
-    mpack_assert(data == writer->buffer || used + count > size,
+    mpack_assert(data == writer->buffer || count > size - used,
             "extra flush for %i but there is %i space left in the buffer! (%i/%i)",
             (int)count, (int)mpack_writer_buffer_left(writer), (int)used, (int)size);
 
-    // grow to fit the data
-    // TODO: this really needs to correctly test for overflow
+    // grow to fit the data, at least doubling the buffer. it's a memory
+    // error if the size we'd need cannot be represented.
+    if (count > SIZE_MAX - used || size > SIZE_MAX / 2) {
+        mpack_writer_flag_error(writer, mpack_error_memory);
+        return;
+    }
     size_t new_size = size * 2;
-    while (new_size < used + count)
+    while (new_size < used + count) {
+        if (new_size > SIZE_MAX / 2) {
+            mpack_writer_flag_error(writer, mpack_error_memory);
+            return;
+        }
         new_size *= 2;
+    }
 
     mpack_log("flush growing buffer size from %i to %i\n", (int)size, (int)new_size);
 
-- 
2.43.0


From 950ef0b8183716d71a91831881d02c3323bc89af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:54 +0000
Subject: [PATCH 27/36] fix: close the FILE when a tree refuses its maximum
 size

---
 src/mpack/mpack-node.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 199ecb1..736c368 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1204,10 +1204,8 @@ static void mpack_tree_init_stdfile_noclose(mpack_tree_t* tree, FILE* stdfile, s
 }
 
 void mpack_tree_init_stdfile(mpack_tree_t* tree, FILE* stdfile, size_t max_bytes, bool close_when_done) {
-    if (!mpack_tree_file_check_max_bytes(tree, max_bytes))
-        return;
-
-    mpack_tree_init_stdfile_noclose(tree, stdfile, max_bytes);
+    if (mpack_tree_file_check_max_bytes(tree, max_bytes))
+        mpack_tree_init_stdfile_noclose(tree, stdfile, max_bytes);
 
     if (close_when_done)
         fclose(stdfile);
-- 
2.43.0


From d96e0f171fd22f9fd3cb52aa7bee507b846b0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:39 +0000
Subject: [PATCH 28/36] fix: print large doubles completely in debug printing

---
 src/mpack/mpack-node.c   | 3 ++-
 src/mpack/mpack-reader.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 736c368..f38b716 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1369,7 +1369,8 @@ static void mpack_node_print_element(mpack_node_t node, mpack_print_t* print, si
                     prefix_length = mpack_node_data_len(node);
                 }
 
-                char buf[256];
+                // The largest double takes 317 characters with %f.
+                char buf[320];
                 mpack_tag_t tag = mpack_node_tag(node);
                 mpack_tag_debug_pseudo_json(tag, buf, sizeof(buf), prefix, prefix_length);
                 mpack_print_append_cstr(print, buf);
diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 6275217..bdd46e5 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -1220,7 +1220,8 @@ static void mpack_print_element(mpack_reader_t* reader, mpack_print_t* print, si
             break;
     }
 
-    char buf[256];
+    // The largest double takes 317 characters with %f.
+    char buf[320];
     mpack_tag_debug_pseudo_json(val, buf, sizeof(buf), buffer, count);
     mpack_print_append_cstr(print, buf);
 }
-- 
2.43.0


From 58769eeab56769a499fc132e9dc27af123696116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:07 +0000
Subject: [PATCH 29/36] fix: count maps and arrays closed by
 mpack_finish_type() in builds

---
 src/mpack/mpack-writer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index de136a5..8f7233d 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -1083,6 +1083,8 @@ MPACK_INLINE void mpack_finish_ext(mpack_writer_t* writer) {
  */
 MPACK_INLINE void mpack_finish_type(mpack_writer_t* writer, mpack_type_t type) {
     mpack_writer_track_pop(writer, type);
+    if (type == mpack_type_array || type == mpack_type_map)
+        mpack_builder_compound_pop(writer);
 }
 
 /**
-- 
2.43.0


From af62d0589b242fee58847eaf2650075385d24b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:36 +0000
Subject: [PATCH 30/36] fix: C++ builds without float or double support compile

---
 src/mpack/mpack-writer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index 8f7233d..78494c3 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -1222,13 +1222,17 @@ MPACK_INLINE void mpack_write(mpack_writer_t* writer, bool value) {
     mpack_write_bool(writer, value);
 }
 
+#if MPACK_FLOAT
 MPACK_INLINE void mpack_write(mpack_writer_t* writer, float value) {
     mpack_write_float(writer, value);
 }
+#endif
 
+#if MPACK_DOUBLE
 MPACK_INLINE void mpack_write(mpack_writer_t* writer, double value) {
     mpack_write_double(writer, value);
 }
+#endif
 
 MPACK_INLINE void mpack_write(mpack_writer_t* writer, char *value) {
     mpack_write_cstr_or_nil(writer, value);
@@ -1285,15 +1289,19 @@ MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, bool v
     mpack_write_bool(writer, value);
 }
 
+#if MPACK_FLOAT
 MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, float value) {
     mpack_write_cstr(writer, key);
     mpack_write_float(writer, value);
 }
+#endif
 
+#if MPACK_DOUBLE
 MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, double value) {
     mpack_write_cstr(writer, key);
     mpack_write_double(writer, value);
 }
+#endif
 
 MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, char *value) {
     mpack_write_cstr(writer, key);
-- 
2.43.0


From 55a11634729b0a012b3206b6258b44ab20ee4621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:51 +0000
Subject: [PATCH 31/36] fix: mpack_assert_fail() has C linkage in C++

---
 src/mpack/mpack-platform.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mpack/mpack-platform.h b/src/mpack/mpack-platform.h
index 0f7465e..d0de734 100644
--- a/src/mpack/mpack-platform.h
+++ b/src/mpack/mpack-platform.h
@@ -900,7 +900,13 @@
  * Asserts are only used when @ref MPACK_DEBUG is enabled, and can be
  * triggered by bugs in MPack or bugs due to incorrect usage of MPack.
  */
+#ifdef __cplusplus
+extern "C" {
+#endif
 void mpack_assert_fail(const char* message);
+#ifdef __cplusplus
+}
+#endif
 /**
  * @}
  */
-- 
2.43.0


From 3de5643c81264d865a75650f00625930ecb3161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:05 +0000
Subject: [PATCH 32/36] fix: mpack_tree_try_parse() flags truncated data
 without malloc

---
 src/mpack/mpack-node.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index f38b716..69521dc 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -214,6 +214,9 @@ MPACK_STATIC_INLINE bool mpack_tree_reserve_bytes(mpack_tree_t* tree, size_t ext
     #ifdef MPACK_MALLOC
     return mpack_tree_reserve_fill(tree);
     #else
+    // without an allocator there is no read function, so the data should
+    // contain an entire message. (see mpack_tree_reserve_fill().)
+    mpack_tree_flag_error(tree, mpack_error_invalid);
     return false;
     #endif
 }
-- 
2.43.0


From e251c5c8606a2bbe3fc3cbc2eacf5e6f373adc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:20 +0000
Subject: [PATCH 33/36] fix: node cstr_alloc size does not wrap on 32-bit
 lengths

mpack_node_cstr_alloc() and mpack_node_utf8_cstr_alloc() added the
null terminator in 32-bit arithmetic before widening, so a string of
4294967295 bytes allocated zero bytes and overflowed the heap.
---
 src/mpack/mpack-node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 69521dc..3fdb668 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1692,7 +1692,7 @@ char* mpack_node_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
@@ -1729,7 +1729,7 @@ char* mpack_node_utf8_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
-- 
2.43.0


From 096c135357d9fc7492318235c8b0257833f4da94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:22 +0000
Subject: [PATCH 34/36] fix: mpack_node_data_alloc() of empty data must not
 depend on malloc(0)

---
 src/mpack/mpack-node.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 3fdb668..dafc108 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1656,7 +1656,9 @@ char* mpack_node_data_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len);
+    // We always return a non-null pointer that must be freed, even if the data
+    // is empty. malloc() does not necessarily do this so we enforce it ourselves.
+    char* ret = (char*) MPACK_MALLOC((node.data->len != 0) ? (size_t)node.data->len : 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
-- 
2.43.0


From e192182596a44885bdb6ee00e70d055a2e8131d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:17 +0000
Subject: [PATCH 35/36] fix: node limit is checked without overflow on 32-bit

---
 src/mpack/mpack-node.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index dafc108..65a13af 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -294,9 +294,11 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
         total *= 2;
     }
 
-    // Make sure we are under our total node limit (TODO can this overflow?)
+    // Make sure we are under our total node limit, if there is one. The sum is
+    // compared without overflow. (If it overflows without a limit, there can't
+    // be enough data for it so reserving the bytes will fail below.)
     size_t node_count = tree->node_count + total;
-    if (node_count > tree->max_nodes) {
+    if (tree->max_nodes != SIZE_MAX && (node_count < total || node_count > tree->max_nodes)) {
         mpack_tree_flag_error(tree, mpack_error_too_big);
         return false;
     }
-- 
2.43.0


From 572e8d6616c1590fc7428ac7a8b3a27503444ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:07 +0000
Subject: [PATCH 36/36] fix: size of a large node page does not wrap on 32-bit

---
 src/mpack/mpack-node.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 65a13af..197ad24 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -340,9 +340,11 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
         mpack_tree_page_t* page;
 
         if (total > MPACK_NODES_PER_PAGE || parser->nodes_left > MPACK_NODES_PER_PAGE / 8) {
-            // TODO: this should check for overflow
-            page = (mpack_tree_page_t*)MPACK_MALLOC(
-                    sizeof(mpack_tree_page_t) + sizeof(mpack_node_data_t) * (total - 1));
+            // the size of the page may not fit in a size_t
+            page = NULL;
+            if (total - 1 <= (SIZE_MAX - sizeof(mpack_tree_page_t)) / sizeof(mpack_node_data_t))
+                page = (mpack_tree_page_t*)MPACK_MALLOC(
+                        sizeof(mpack_tree_page_t) + sizeof(mpack_node_data_t) * (total - 1));
             if (page == NULL) {
                 mpack_tree_flag_error(tree, mpack_error_memory);
                 return false;
-- 
2.43.0

