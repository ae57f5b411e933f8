From aeb50f2cb84d50427c644d43c9cef6bcb4c94a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:33 +0000
Subject: [PATCH 01/15] fix: mpack_expect_bool() returns false on a type
 mismatch

It returned the low bit of whatever byte it found (true for e.g. the
integer 1) although it is documented to return false with an error.
---
 src/mpack/mpack-expect.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 81576d1..3739d1a 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -326,8 +326,10 @@ void mpack_expect_nil(mpack_reader_t* reader) {
 
 bool mpack_expect_bool(mpack_reader_t* reader) {
     uint8_t type = mpack_expect_type_byte(reader);
-    if ((type & ~1) != 0xc2)
+    if ((type & ~1) != 0xc2) {
         mpack_reader_flag_error(reader, mpack_error_type);
+        return false;
+    }
     return (bool)(type & 1);
 }
 
-- 
2.43.0


From 6f854a61ca494be18a7e0f0179800c077c6db4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:35 +0000
Subject: [PATCH 02/15] fix: reject NaN in mpack_expect_float_range() and
 mpack_expect_double_range()

NaN is not within any range, but it compares neither less than the
minimum nor greater than the maximum so it was accepted.
---
 src/mpack/mpack-expect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 3739d1a..8510389 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -276,7 +276,7 @@ uint64_t mpack_expect_raw_double(mpack_reader_t* reader) {
         return min_value;                                               \
                                                                         \
     /* make sure it fits */                                             \
-    if (val < min_value || val > max_value) {                           \
+    if (!(val >= min_value && val <= max_value)) { /* rejects NaN */    \
         mpack_reader_flag_error(reader, mpack_error_type);              \
         return min_value;                                               \
     }                                                                   \
-- 
2.43.0


From 4d191bbeb697d6799e3a21fea893b38d4e3ec5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 03/15] fix: mpack_expect_str_match() can match bytes above
 0x7f

The unsigned byte read was compared to a plain char, so where char is
signed a string containing such a byte (any non-ASCII UTF-8 text) never
matched itself.
---
 src/mpack/mpack-expect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 8510389..c103506 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -700,7 +700,7 @@ void mpack_expect_str_match(mpack_reader_t* reader, const char* str, size_t len)
 
     // check each byte one by one (matched strings are likely to be very small)
     for (; len > 0; --len) {
-        if (mpack_expect_native_u8(reader) != *str++) {
+        if (mpack_expect_native_u8(reader) != (uint8_t)*str++) {
             mpack_reader_flag_error(reader, mpack_error_type);
             return;
         }
-- 
2.43.0


From e340e55b2a297d03e856394005498ca6a20641f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:38 +0000
Subject: [PATCH 04/15] fix: leave an empty string when reading a C string
 fails midway

If the data ended in the middle of the string, the buffer was left with
whatever part had been copied although the documentation promises an
empty string on error.
---
 src/mpack/mpack-reader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index dfac4c2..78c64a4 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -470,6 +470,10 @@ static void mpack_read_cstr_unchecked(mpack_reader_t* reader, char* buf, size_t
 
     mpack_reader_track_str_bytes_all(reader, byte_count);
     mpack_read_native(reader, buf, byte_count);
+    if (mpack_reader_error(reader)) {
+        buf[0] = 0;
+        return;
+    }
     buf[byte_count] = 0;
 }
 
-- 
2.43.0


From ecfee13539c27f23e1ce96007dc40c7beeb1094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:40 +0000
Subject: [PATCH 05/15] fix: allocate the terminator of a 4 GB string in
 mpack_node_cstr_alloc()

The length is 32 bits wide, so the length of the longest string plus one
wrapped to zero before being converted to size_t.
---
 src/mpack/mpack-node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 8af1562..2905512 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1677,7 +1677,7 @@ char* mpack_node_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
@@ -1714,7 +1714,7 @@ char* mpack_node_utf8_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
-- 
2.43.0


From ddbe35dcf7a6a9eb1e878a54b6267435cc36de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:57 +0000
Subject: [PATCH 06/15] fix: report an error when a file reader skips past the
 end of the file

---
 src/mpack/mpack-reader.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 78c64a4..2b448ca 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -109,11 +109,15 @@ static void mpack_file_reader_skip(mpack_reader_t* reader, size_t count) {
     FILE* file = (FILE*)reader->context;
 
     // We call ftell() to test whether the stream is seekable
-    // without causing a file error.
-    if (ftell(file) >= 0) {
-        mpack_log("seeking forward %i bytes\n", (int)count);
-        if (fseek(file, (long int)count, SEEK_CUR) == 0)
+    // without causing a file error. fseek() can move past the end
+    // of the file, so we always read the last byte to be sure that
+    // everything we skip exists.
+    if (count > 1 && count - 1 <= (size_t)LONG_MAX && ftell(file) >= 0) {
+        mpack_log("seeking forward %i bytes\n", (int)(count - 1));
+        if (fseek(file, (long int)(count - 1), SEEK_CUR) == 0) {
+            mpack_reader_skip_using_fill(reader, 1);
             return;
+        }
         mpack_log("fseek() didn't return zero!\n");
         if (ferror(file)) {
             mpack_reader_flag_error(reader, mpack_error_io);
-- 
2.43.0


From 7debe19fd97a44fdc8a4923f8f9d84b4fab3bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 07/15] fix: count the children of a node only once when its
 parsing is retried

---
 src/mpack/mpack-node.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 2905512..d45791d 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -283,8 +283,7 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
     }
 
     // Make sure we are under our total node limit (TODO can this overflow?)
-    tree->node_count += total;
-    if (tree->node_count > tree->max_nodes) {
+    if (tree->node_count + total > tree->max_nodes) {
         mpack_tree_flag_error(tree, mpack_error_too_big);
         return false;
     }
@@ -294,6 +293,10 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
     if (!mpack_tree_reserve_bytes(tree, total))
         return false;
 
+    // We count the children only once we have reserved space for them since
+    // the node is parsed again if there is not enough data yet.
+    tree->node_count += total;
+
     // If there are enough nodes left in the current page, no need to grow
     if (total <= parser->nodes_left) {
         node->value.children = parser->nodes;
-- 
2.43.0


From e80c4c59f772054b8ef076bcd8de55ac57066d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 08/15] fix: do not count buffered bytes twice against the
 maximum tree size

---
 src/mpack/mpack-node.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index d45791d..d4bfc58 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -90,9 +90,11 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
     mpack_log("filling to reserve %i bytes\n", (int)bytes);
 
     // if the necessary bytes would put us over the maximum tree
-    // size, fail right away.
+    // size, fail right away. (some of the bytes may be in the buffer
+    // already.)
     // TODO: check for overflow?
-    if (tree->data_length + bytes > tree->max_size) {
+    size_t missing = bytes - tree->parser.possible_nodes_left;
+    if (tree->data_length + missing > tree->max_size) {
         mpack_tree_flag_error(tree, mpack_error_too_big);
         return false;
     }
@@ -107,11 +109,11 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
     }
 
     // expand the buffer if needed
-    if (tree->data_length + bytes > tree->buffer_capacity) {
+    if (tree->data_length + missing > tree->buffer_capacity) {
 
         // TODO: check for overflow?
         size_t new_capacity = (tree->buffer_capacity == 0) ? MPACK_BUFFER_SIZE : tree->buffer_capacity;
-        while (new_capacity < tree->data_length + bytes)
+        while (new_capacity < tree->data_length + missing)
             new_capacity *= 2;
         if (new_capacity > tree->max_size)
             new_capacity = tree->max_size;
-- 
2.43.0


From 509b08e5212c86e2a5652bc62bd988488b6a46a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 09/15] fix: report a refused initial node page through the
 error function

---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index d4bfc58..c2406bc 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -912,7 +912,7 @@ static bool mpack_tree_parse_start(mpack_tree_t* tree) {
         mpack_log("allocated initial page %p of size %i count %i\n",
                 (void*)page, (int)MPACK_PAGE_ALLOC_SIZE, (int)MPACK_NODES_PER_PAGE);
         if (page == NULL) {
-            tree->error = mpack_error_memory;
+            mpack_tree_flag_error(tree, mpack_error_memory);
             return false;
         }
         page->next = NULL;
-- 
2.43.0


From f78b029ff5068c60c2cf2446cdc603eb42792a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 10/15] fix: do not overflow the size of maps of more than 2^31
 entries

---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index c2406bc..99fe9bb 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -778,7 +778,7 @@ static bool mpack_tree_parse_node(mpack_tree_t* tree, mpack_node_data_t* node) {
     if (node->type == mpack_type_array)
         node_size -= node->len;
     else if (node->type == mpack_type_map)
-        node_size -= node->len * 2;
+        node_size -= (size_t)node->len * 2;
     tree->size += node_size;
 
     mpack_log("parsed a node of type %s of %i bytes and "
-- 
2.43.0


From fc3709ecf6945e05889f0b3a6a94d60fcb04bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 11/15] fix: stop a build when its page cannot be allocated

---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 029b065..c6bc019 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1593,6 +1593,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
         mpack_log("not enough space for a build. %zi bytes used of %zi in this page\n",
                 builder->current_page->bytes_used, mpack_builder_page_size(writer, builder->current_page));
         mpack_builder_add_page(writer);
+        if (mpack_writer_error(writer) != mpack_ok)
+            return;
         // there is always enough space in a fresh page.
         offset = mpack_builder_align_build(builder->current_page->bytes_used);
     }
-- 
2.43.0


From 0c5727c60fed204e702283784803e51fb0721c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 12/15] fix: do not start a build that could not be tracked

---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index c6bc019..9f1e5b3 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1574,6 +1574,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
 
     mpack_writer_track_element(writer);
     mpack_writer_track_push_builder(writer, type);
+    if (mpack_writer_error(writer) != mpack_ok)
+        return;
 
     mpack_builder_t* builder = &writer->builder;
 
-- 
2.43.0


From 84d4379714e1fdab9266caa04b1aba41615c0c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 13/15] fix: report unclosed compound types when closing a
 writer

---
 src/mpack/mpack-writer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 9f1e5b3..2460f6c 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -532,7 +532,9 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
 
     // clean up tracking, asserting if we're not already in an error state
     #if MPACK_WRITE_TRACKING
-    mpack_track_destroy(&writer->track, writer->error != mpack_ok);
+    mpack_error_t track_error = mpack_track_destroy(&writer->track, writer->error != mpack_ok);
+    if (track_error != mpack_ok)
+        mpack_writer_flag_error(writer, track_error);
     #endif
 
     #if MPACK_BUILDER
-- 
2.43.0


From 546fcd1247406d0c5d5ce62812de7c264a0bdaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 14/15] fix: refuse an array whose allocation size overflows

---
 src/mpack/mpack-expect.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index c103506..9fe4571 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -476,7 +476,9 @@ void* mpack_expect_array_alloc_impl(mpack_reader_t* reader, size_t element_size,
         return NULL;
     }
 
-    void* p = MPACK_MALLOC(element_size * count);
+    void* p = NULL;
+    if (element_size == 0 || count <= SIZE_MAX / element_size)
+        p = MPACK_MALLOC(element_size * count);
     if (p == NULL) {
         mpack_reader_flag_error(reader, mpack_error_memory);
         return NULL;
-- 
2.43.0


From 130642b75b60492fff09de3446c4df16af2689b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:11 +0000
Subject: [PATCH 15/15] fix: write out builds that follow a discarded rest of a
 page

---
 src/mpack/mpack-writer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 2460f6c..d92c1e2 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1742,8 +1742,11 @@ static void mpack_builder_resolve(mpack_writer_t* writer) {
 
         // now see if we can find another build.
         offset = mpack_builder_align_build(offset);
-        if (offset + sizeof(mpack_build_t) > mpack_builder_page_size(writer, page)) {
-            mpack_log("not enough room in this page for another build\n");
+
+        // (if it did not fit in this page, or if there was not enough room left
+        // after it, what follows is in the next page.)
+        if (offset + sizeof(mpack_build_t) > page->bytes_used) {
+            mpack_log("no other build in this page\n");
             mpack_builder_page_t* next_page = page->next;
             mpack_builder_free_page(writer, page);
             page = next_page;
-- 
2.43.0

