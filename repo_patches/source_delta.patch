From 63d7cbe67f39905d4b58421a556f23cf91d419fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 01/15] fix: reject negative diff and extra sizes in the C
 patch applier

A negative size converted to size_t wrapped around in the check against
the size of the to-data, so data past the declared size was written.
---
 c/detools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/detools.c b/c/detools.c
index 5d25489..c893e10 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -1081,7 +1081,7 @@ static int common_process_size(
         return (res);
     }
 
-    if (to_pos + (size_t)*size_p > to_size) {
+    if ((*size_p < 0) || ((size_t)*size_p > to_size - to_pos)) {
         return (-DETOOLS_CORRUPT_PATCH);
     }
 
-- 
2.43.0


From 3fbd6ab9731f99f30fbbee509a9af0f5fdf9809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:33 +0000
Subject: [PATCH 02/15] fix: uncompressed patches fed in small chunks are
 rejected

The number of patch bytes left after the header was computed from the
offset in the current chunk only, so the patch was reported as corrupt
if the header was split over two or more calls of the process function.
---
 c/detools.c | 18 ++++++++++++++++--
 c/detools.h |  1 +
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/c/detools.c b/c/detools.c
index c893e10..70053f1 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -1088,6 +1088,14 @@ static int common_process_size(
     return (res);
 }
 
+/* Number of patch bytes not yet read. */
+static size_t patch_left(size_t patch_size,
+                         size_t patch_offset,
+                         struct detools_apply_patch_chunk_t *chunk_p)
+{
+    return (patch_size - (patch_offset - chunk_left(chunk_p)));
+}
+
 /*
  * Low level sequential patch type functionality.
  */
@@ -1127,7 +1135,9 @@ static int process_init_to_size(struct detools_apply_patch_t *self_p)
 
     res = patch_reader_init(&self_p->patch_reader,
                             &self_p->chunk,
-                            self_p->patch_size - self_p->chunk.offset,
+                            patch_left(self_p->patch_size,
+                                       self_p->patch_offset,
+                                       &self_p->chunk),
                             self_p->compression);
 
     if (res != 0) {
@@ -1836,7 +1846,9 @@ static int in_place_process_init_to_size(
 
     res = patch_reader_init(&self_p->patch_reader,
                             &self_p->chunk,
-                            self_p->patch_size - self_p->chunk.offset,
+                            patch_left(self_p->patch_size,
+                                       self_p->patch_offset,
+                                       &self_p->chunk),
                             self_p->compression);
 
     if (res != 0) {
@@ -2134,6 +2146,7 @@ int detools_apply_patch_in_place_init(
     self_p->arg_p = arg_p;
     self_p->state = detools_apply_patch_state_init_t;
     self_p->ongoing_step = 1;
+    self_p->patch_offset = 0;
     self_p->init_state = detools_apply_patch_in_place_init_state_fixed_header_t;
     self_p->patch_reader.destroy = NULL;
 
@@ -2148,6 +2161,7 @@ int detools_apply_patch_in_place_process(
     int res;
 
     res = 0;
+    self_p->patch_offset += size;
     self_p->chunk.buf_p = patch_p;
     self_p->chunk.size = size;
     self_p->chunk.offset = 0;
diff --git a/c/detools.h b/c/detools.h
index 1cc9c6f..dd89f10 100644
--- a/c/detools.h
+++ b/c/detools.h
@@ -375,6 +375,7 @@ struct detools_apply_patch_in_place_t {
     enum detools_apply_patch_in_place_init_state_t init_state;
     int compression;
     int ongoing_step;
+    size_t patch_offset;
     size_t to_pos;
     size_t to_size;
     size_t from_size;
-- 
2.43.0


From 30a63fe1408b3688ff81f9011d53c9866750ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 03/15] fix: empty CRLE segments make the C patch applier use
 uninitialised data

An empty segment was reported as zero successfully decompressed bytes,
after which the size unpacker used a byte that was never read.
---
 c/detools.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/c/detools.c b/c/detools.c
index 70053f1..c15b854 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -681,8 +681,12 @@ static int patch_reader_crle_decompress_scattered_size(
         return (res);
     }
 
-    crle_p->state = detools_crle_state_scattered_data_t;
-    crle_p->kind.scattered.number_of_bytes_left = (size_t)size;
+    if (size > 0) {
+        crle_p->state = detools_crle_state_scattered_data_t;
+        crle_p->kind.scattered.number_of_bytes_left = (size_t)size;
+    } else {
+        crle_p->state = detools_crle_state_idle_t;
+    }
 
     return (2);
 }
@@ -745,7 +749,11 @@ static int patch_reader_crle_decompress_repeated_data(
         return (res);
     }
 
-    crle_p->state = detools_crle_state_repeated_data_read_t;
+    if (crle_p->kind.repeated.number_of_bytes_left > 0) {
+        crle_p->state = detools_crle_state_repeated_data_read_t;
+    } else {
+        crle_p->state = detools_crle_state_idle_t;
+    }
 
     return (2);
 }
-- 
2.43.0


From 269be33bbf9dc50bdacf3ed8b1d55fe95af401a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 04/15] fix: finalizing a restored heatshrink patch uses an
 uninitialised decoder

The decoder is not initialised until the heatshrink header has been
read. A state dumped before that must be restored without a decoder.
---
 c/detools.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c/detools.c b/c/detools.c
index c15b854..2e0cc0f 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -983,8 +983,14 @@ static int patch_reader_restore(struct detools_apply_patch_patch_reader_t *self_
 #if DETOOLS_CONFIG_COMPRESSION_HEATSHRINK == 1
 #    if HEATSHRINK_DYNAMIC_ALLOC == 0
     case COMPRESSION_HEATSHRINK:
-        self_p->compression.heatshrink.decoder_p =
-            &self_p->compression.heatshrink.decoder;
+        if (self_p->compression.heatshrink.window_sz2 != -1) {
+            self_p->compression.heatshrink.decoder_p =
+                &self_p->compression.heatshrink.decoder;
+        } else {
+            /* The heatshrink header has not yet been read. */
+            self_p->compression.heatshrink.decoder_p = NULL;
+        }
+
         self_p->destroy = patch_reader_heatshrink_destroy;
         self_p->decompress = patch_reader_heatshrink_decompress;
         break;
-- 
2.43.0


From 8e54f4d0c4e4c1b40a0d36a641e0e061d3100575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 05/15] fix: from offset overflow in the C patch applier

Adjustments can move the from offset outside the range of an int, which
is undefined behaviour and makes a dumped state seek to another position
than the one the patch was at. Reject such patches as corrupt.
---
 c/detools.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/c/detools.c b/c/detools.c
index 2e0cc0f..46a1493 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -30,6 +30,7 @@
  * OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <limits.h>
 #include <stdlib.h>
 #include "detools.h"
 
@@ -1236,6 +1237,16 @@ static int process_size(struct detools_apply_patch_t *self_p,
     return (res);
 }
 
+/* True if given from offset can be moved given offset. */
+static bool is_from_offset_ok(int from_offset, int offset)
+{
+    int64_t res;
+
+    res = ((int64_t)from_offset + offset);
+
+    return ((res >= INT_MIN) && (res <= INT_MAX));
+}
+
 static int process_data(struct detools_apply_patch_t *self_p,
                         enum detools_apply_patch_state_t next_state)
 {
@@ -1262,13 +1273,17 @@ static int process_data(struct detools_apply_patch_t *self_p,
     }
 
     if (next_state == detools_apply_patch_state_extra_size_t) {
+        if (!is_from_offset_ok(self_p->from_offset, (int)to_size)) {
+            return (-DETOOLS_CORRUPT_PATCH);
+        }
+
         res = self_p->from_read(self_p->arg_p, &from[0], to_size);
 
         if (res != 0) {
             return (-DETOOLS_IO_FAILED);
         }
 
-        self_p->from_offset += to_size;
+        self_p->from_offset += (int)to_size;
 
         for (i = 0; i < to_size; i++) {
             to[i] = (uint8_t)(to[i] + from[i]);
@@ -1318,6 +1333,10 @@ static int process_adjustment(struct detools_apply_patch_t *self_p)
         return (res);
     }
 
+    if (!is_from_offset_ok(self_p->from_offset, offset)) {
+        return (-DETOOLS_CORRUPT_PATCH);
+    }
+
     res = self_p->from_seek(self_p->arg_p, offset);
 
     if (res != 0) {
-- 
2.43.0


From 9f3d9abdd77588360a992d08c73ddc58df0b89a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 06/15] fix: validate the memory layout of in-place patches

A segment size of zero divides by zero, and sizes not fitting in the
memory make the C patch applier read, write and erase outside it. Reject
such patches as corrupt.
---
 c/detools.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/c/detools.c b/c/detools.c
index 46a1493..7b84ebd 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -1801,6 +1801,10 @@ static int in_place_process_init_memory_size(
         return (res);
     }
 
+    if (memory_size < 0) {
+        return (-DETOOLS_CORRUPT_PATCH);
+    }
+
     self_p->memory_size = (size_t)memory_size;
     self_p->init_state = detools_apply_patch_in_place_init_state_segment_size_t;
     self_p->size.state = detools_unpack_usize_state_first_t;
@@ -1820,6 +1824,10 @@ static int in_place_process_init_segment_size(
         return (res);
     }
 
+    if (segment_size < 0) {
+        return (-DETOOLS_CORRUPT_PATCH);
+    }
+
     self_p->segment_size = (size_t)segment_size;
     self_p->init_state = detools_apply_patch_in_place_init_state_shift_size_t;
     self_p->size.state = detools_unpack_usize_state_first_t;
@@ -1839,6 +1847,10 @@ static int in_place_process_init_shift_size(
         return (res);
     }
 
+    if (shift_size < 0) {
+        return (-DETOOLS_CORRUPT_PATCH);
+    }
+
     self_p->shift_size = (size_t)shift_size;
     self_p->init_state = detools_apply_patch_in_place_init_state_from_size_t;
     self_p->size.state = detools_unpack_usize_state_first_t;
@@ -1858,6 +1870,10 @@ static int in_place_process_init_from_size(
         return (res);
     }
 
+    if (from_size < 0) {
+        return (-DETOOLS_CORRUPT_PATCH);
+    }
+
     self_p->from_size = (size_t)from_size;
     self_p->init_state = detools_apply_patch_in_place_init_state_to_size_t;
     self_p->size.state = detools_unpack_usize_state_first_t;
@@ -1865,6 +1881,17 @@ static int in_place_process_init_from_size(
     return (0);
 }
 
+/* True if everything to be accessed is within the memory. */
+static bool in_place_is_memory_layout_ok(
+    struct detools_apply_patch_in_place_t *self_p)
+{
+    return ((self_p->segment_size > 0)
+            && ((self_p->memory_size % self_p->segment_size) == 0)
+            && ((self_p->shift_size % self_p->segment_size) == 0)
+            && (self_p->shift_size <= self_p->memory_size)
+            && (self_p->to_size <= self_p->memory_size));
+}
+
 static int in_place_process_init_to_size(
     struct detools_apply_patch_in_place_t *self_p)
 {
@@ -1896,6 +1923,10 @@ static int in_place_process_init_to_size(
     self_p->to_size = (size_t)to_size;
     self_p->segment.index = 0;
 
+    if (!in_place_is_memory_layout_ok(self_p)) {
+        return (-DETOOLS_CORRUPT_PATCH);
+    }
+
     if (to_size > 0) {
         res = in_place_shift_memory(self_p,
                                     self_p->memory_size,
-- 
2.43.0


From 4653f3d10a0be1fd5e502a4b8484961f886cbf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 07/15] fix: in-place patches without shift destroy the from
 data

Patches created with a minimum shift size of zero may have a shift size of
zero. Each segment was erased before it was copied onto itself.
---
 c/detools.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/detools.c b/c/detools.c
index 7b84ebd..15b3ea5 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -1712,6 +1712,10 @@ static int in_place_shift_memory(struct detools_apply_patch_in_place_t *self_p,
     size_t offset;
     size_t size;
 
+    if (self_p->shift_size == 0) {
+        return (0);
+    }
+
     number_of_segments = DIV_CEIL(MIN(from_size, memory_size - self_p->shift_size),
                                   self_p->segment_size);
     read_address = ((number_of_segments - 1) * self_p->segment_size);
-- 
2.43.0


From e4116f57edd53ae8ae0c4e8206def5bfcfd5b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 08/15] fix: in-place patch data beyond the end of its segment

The C patch applier wrote data of a segment into the following segments,
which are not yet erased, instead of rejecting the patch as corrupt.
---
 c/detools.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/detools.c b/c/detools.c
index 15b3ea5..c976847 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -2024,8 +2024,8 @@ static int in_place_process_size(struct detools_apply_patch_in_place_t *self_p,
     int size;
 
     res = common_process_size(&self_p->patch_reader,
-                              self_p->to_pos,
-                              self_p->to_size,
+                              self_p->segment.to_pos,
+                              self_p->segment.to_size,
                               &size);
 
     if (res != 0) {
-- 
2.43.0


From d5471444beb3f24c122899c3b00b32860c92464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:30 +0000
Subject: [PATCH 09/15] fix: in-place patches can read outside the from data

The from offset of an in-place patch was not checked, so a corrupt patch
made the C patch applier read outside the memory, or in the segment being
written. Reject such patches as corrupt.
---
 c/detools.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/c/detools.c b/c/detools.c
index c976847..20e0004 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -2038,6 +2038,21 @@ static int in_place_process_size(struct detools_apply_patch_in_place_t *self_p,
     return (0);
 }
 
+/* True if given number of bytes can be read from the from data. The
+   from data starts after the segment being written. */
+static bool in_place_is_from_ok(struct detools_apply_patch_in_place_t *self_p,
+                                size_t size)
+{
+    size_t begin;
+
+    begin = (self_p->segment.to_offset + self_p->segment.to_size);
+
+    return ((self_p->segment.from_offset >= (int)begin)
+            && ((size_t)self_p->segment.from_offset <= self_p->memory_size)
+            && (size <= (self_p->memory_size
+                         - (size_t)self_p->segment.from_offset)));
+}
+
 static int in_place_process_data(struct detools_apply_patch_in_place_t *self_p,
                                  enum detools_apply_patch_state_t next_state)
 {
@@ -2064,6 +2079,10 @@ static int in_place_process_data(struct detools_apply_patch_in_place_t *self_p,
     }
 
     if (next_state == detools_apply_patch_state_extra_size_t) {
+        if (!in_place_is_from_ok(self_p, to_size)) {
+            return (-DETOOLS_CORRUPT_PATCH);
+        }
+
         res = in_place_mem_read(self_p,
                                 &from[0],
                                 (size_t)self_p->segment.from_offset,
@@ -2133,9 +2152,11 @@ static int in_place_process_adjustment(struct detools_apply_patch_in_place_t *se
     } else if (self_p->segment.to_pos == self_p->segment.to_size) {
         res = in_place_next_step(self_p);
         self_p->state = detools_apply_patch_state_dfpatch_size_t;
-    } else {
+    } else if (is_from_offset_ok(self_p->segment.from_offset, offset)) {
         self_p->segment.from_offset += offset;
         self_p->state = detools_apply_patch_state_diff_size_t;
+    } else {
+        res = -DETOOLS_CORRUPT_PATCH;
     }
 
     return (res);
-- 
2.43.0


From 0ab07cb448bedf64ae80351b14f91da7a7a4fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 10/15] fix: errors closing files are ignored

The filename functions of the C patch applier ignored errors closing the
files after a successful patch, so lost output was reported as success.
---
 c/detools.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/c/detools.c b/c/detools.c
index 20e0004..c2087f9 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -2593,6 +2593,7 @@ int detools_apply_patch_filenames(const char *from_p,
                                   const char *to_p)
 {
     int res;
+    int cleanup_res;
     struct file_io_t file_io;
     size_t patch_size;
 
@@ -2613,14 +2614,18 @@ int detools_apply_patch_filenames(const char *from_p,
                                         file_io_to_write,
                                         &file_io);
 
-    if (res != 0) {
-        goto err1;
+    if (res < 0) {
+        (void)file_io_cleanup(&file_io);
+
+        return (res);
     }
 
-    return (file_io_cleanup(&file_io));
+    /* Written data may be lost if closing fails. */
+    cleanup_res = file_io_cleanup(&file_io);
 
- err1:
-    (void)file_io_cleanup(&file_io);
+    if (cleanup_res != 0) {
+        res = cleanup_res;
+    }
 
     return (res);
 }
@@ -2756,6 +2761,7 @@ int detools_apply_patch_in_place_filenames(const char *memory_p,
                                            detools_step_get_t step_get)
 {
     int res;
+    int cleanup_res;
     struct in_place_file_io_t file_io;
     size_t patch_size;
 
@@ -2777,14 +2783,18 @@ int detools_apply_patch_in_place_filenames(const char *memory_p,
                                                  patch_size,
                                                  &file_io);
 
-    if (res != 0) {
-        goto err1;
+    if (res < 0) {
+        (void)in_place_file_io_cleanup(&file_io);
+
+        return (res);
     }
 
-    return (in_place_file_io_cleanup(&file_io));
+    /* Written data may be lost if closing fails. */
+    cleanup_res = in_place_file_io_cleanup(&file_io);
 
- err1:
-    (void)in_place_file_io_cleanup(&file_io);
+    if (cleanup_res != 0) {
+        res = cleanup_res;
+    }
 
     return (res);
 }
-- 
2.43.0


From 14da6d60e789e0cf4b601cc4a292a4bf8df299de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 11/15] fix: in-place memory callback errors are not always
 reported

The value returned by the memory callbacks was returned as is, so a
callback failing with -11 (-DETOOLS_ALREADY_DONE) was taken for success.
Report -DETOOLS_IO_FAILED, as for all other callbacks.
---
 c/detools.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/c/detools.c b/c/detools.c
index c2087f9..8b02cb8 100644
--- a/c/detools.c
+++ b/c/detools.c
@@ -1650,12 +1650,16 @@ static int in_place_mem_read(struct detools_apply_patch_in_place_t *self_p,
     }
 
     if (!is_step_completed) {
-        return (self_p->mem_read(self_p->arg_p, dst_p, src, size));
+        res = self_p->mem_read(self_p->arg_p, dst_p, src, size);
+
+        if (res != 0) {
+            return (-DETOOLS_IO_FAILED);
+        }
     } else {
         memset(dst_p, 0, size);
-
-        return (0);
     }
+
+    return (0);
 }
 
 static int in_place_mem_write(struct detools_apply_patch_in_place_t *self_p,
@@ -1673,10 +1677,14 @@ static int in_place_mem_write(struct detools_apply_patch_in_place_t *self_p,
     }
 
     if (!is_step_completed) {
-        return (self_p->mem_write(self_p->arg_p, dst, src_p, size));
-    } else {
-        return (0);
+        res = self_p->mem_write(self_p->arg_p, dst, src_p, size);
+
+        if (res != 0) {
+            return (-DETOOLS_IO_FAILED);
+        }
     }
+
+    return (0);
 }
 
 static int in_place_mem_erase(struct detools_apply_patch_in_place_t *self_p,
@@ -1693,10 +1701,14 @@ static int in_place_mem_erase(struct detools_apply_patch_in_place_t *self_p,
     }
 
     if (!is_step_completed) {
-        return (self_p->mem_erase(self_p->arg_p, addr, size));
-    } else {
-        return (0);
+        res = self_p->mem_erase(self_p->arg_p, addr, size);
+
+        if (res != 0) {
+            return (-DETOOLS_IO_FAILED);
+        }
     }
+
+    return (0);
 }
 
 static int in_place_shift_memory(struct detools_apply_patch_in_place_t *self_p,
-- 
2.43.0


From a11feb1bfb1ba8ccbeca0de1daae8b777042aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 12/15] fix: negative sizes are accepted when applying a patch
 in Python

---
 detools/apply.py | 18 +++++++++++++++---
 detools/info.py  |  6 ++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/detools/apply.py b/detools/apply.py
index 4f49935..5cc2c49 100644
--- a/detools/apply.py
+++ b/detools/apply.py
@@ -89,6 +89,9 @@ class PatchReader(object):
 def iter_chunks(patch_reader, to_pos, to_size, message):
     size = unpack_size(patch_reader)
 
+    if size < 0:
+        raise Error('Negative patch data size.')
+
     if to_pos + size > to_size:
         raise Error(message)
 
@@ -141,6 +144,15 @@ def convert_compression(compression):
     return compression
 
 
+def unpack_to_size(fpatch):
+    to_size = unpack_size(fpatch)
+
+    if to_size < 0:
+        raise Error('Negative to size {}.'.format(to_size))
+
+    return to_size
+
+
 def read_header_sequential(fpatch):
     """Read a sequential header.
 
@@ -159,7 +171,7 @@ def read_header_sequential(fpatch):
                                                          patch_type))
 
     compression = convert_compression(compression)
-    to_size = unpack_size(fpatch)
+    to_size = unpack_to_size(fpatch)
 
     return compression, to_size
 
@@ -182,7 +194,7 @@ def read_header_hdiffpatch(fpatch):
                                                          patch_type))
 
     compression = convert_compression(compression)
-    to_size = unpack_size(fpatch)
+    to_size = unpack_to_size(fpatch)
     patch_size = unpack_size(fpatch)
 
     return compression, to_size, patch_size
@@ -210,7 +222,7 @@ def read_header_in_place(fpatch):
     segment_size = unpack_size(fpatch)
     shift_size = unpack_size(fpatch)
     from_size = unpack_size(fpatch)
-    to_size = unpack_size(fpatch)
+    to_size = unpack_to_size(fpatch)
 
     return compression, memory_size, segment_size, shift_size, from_size, to_size
 
diff --git a/detools/info.py b/detools/info.py
index 41161ab..d025306 100644
--- a/detools/info.py
+++ b/detools/info.py
@@ -42,6 +42,9 @@ def patch_info_sequential_inner(patch_reader, to_size):
         # Diff data.
         size, number_of_bytes = unpack_size_with_length(patch_reader)
 
+        if size < 0:
+            raise Error('Negative patch data size.')
+
         if to_pos + size > to_size:
             raise Error("Patch diff data too long.")
 
@@ -54,6 +57,9 @@ def patch_info_sequential_inner(patch_reader, to_size):
         size, number_of_bytes = unpack_size_with_length(patch_reader)
         number_of_size_bytes += number_of_bytes
 
+        if size < 0:
+            raise Error('Negative patch data size.')
+
         if to_pos + size > to_size:
             raise Error("Patch extra data too long.")
 
-- 
2.43.0


From 76f9374a3c68a3d7403988abcc0fcd06404f5577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:53 +0000
Subject: [PATCH 13/15] fix: the size -2^63 is written as zero

---
 detools/bsdiff.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/detools/bsdiff.c b/detools/bsdiff.c
index ffca277..d7d594e 100644
--- a/detools/bsdiff.c
+++ b/detools/bsdiff.c
@@ -93,6 +93,7 @@ static int32_t search(int32_t *sa_p,
 static int pack_size(uint8_t *buf_p, int64_t value, size_t size)
 {
     int res;
+    uint64_t left;
 
     if (size < 10) {
         return (-1);
@@ -106,18 +107,19 @@ static int pack_size(uint8_t *buf_p, int64_t value, size_t size)
     } else {
         if (value > 0) {
             buf_p[res] = 0;
+            left = (uint64_t)value;
         } else {
             buf_p[res] = 0x40;
-            value *= -1;
+            left = (0 - (uint64_t)value);
         }
 
-        buf_p[res] |= (0x80 | (value & 0x3f));
-        value >>= 6;
+        buf_p[res] |= (0x80 | (left & 0x3f));
+        left >>= 6;
         res++;
 
-        while (value > 0) {
-            buf_p[res] = (0x80 | (value & 0x7f));
-            value >>= 7;
+        while (left > 0) {
+            buf_p[res] = (0x80 | (left & 0x7f));
+            left >>= 7;
             res++;
         }
     }
-- 
2.43.0


From e7c1969a85cd04c2844a391be842b628a846af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:04 +0000
Subject: [PATCH 14/15] fix: buffers are not released if lengths of bytes to
 add differ

---
 detools/bsdiff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detools/bsdiff.c b/detools/bsdiff.c
index d7d594e..f922c90 100644
--- a/detools/bsdiff.c
+++ b/detools/bsdiff.c
@@ -585,7 +585,7 @@ static PyObject *m_add_bytes(PyObject *self_p, PyObject *args_p)
     if (first_view.len != second_view.len) {
         PyErr_SetString(PyExc_ValueError, "Lengths must be equal.");
 
-        return (NULL);
+        goto err1;
     }
 
     byte_array_p = PyByteArray_FromStringAndSize("", 1);
-- 
2.43.0


From c37bae246c6d1fd2d3cbaf54f6a97a3665d506f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:14 +0000
Subject: [PATCH 15/15] fix: failing to create a suffix array raises no
 exception

---
 detools/suffix_array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/detools/suffix_array.c b/detools/suffix_array.c
index bafa58c..831d03c 100644
--- a/detools/suffix_array.c
+++ b/detools/suffix_array.c
@@ -78,6 +78,9 @@ static PyObject *create(PyObject *self_p,
                           (int32_t)from_view.len);
 
     if (res != 0) {
+        PyErr_Format(PyExc_RuntimeError,
+                     "Suffix array creation failed with %d.",
+                     res);
         goto err2;
     }
 
-- 
2.43.0

