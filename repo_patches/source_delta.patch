From 37557bf4a98808efd792e86d9ac9d5240d2dd13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 001/117] fix: zpl_memswap evaluated its cursors twice per byte
 for sizes below 8

---
 code/source/essentials/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory.c b/code/source/essentials/memory.c
index 284492a..9064cff 100644
--- a/code/source/essentials/memory.c
+++ b/code/source/essentials/memory.c
@@ -17,7 +17,7 @@ void zpl_memswap(void *i, void *j, zpl_isize size) {
         zpl_u8 *a = cast(zpl_u8 *) i;
         zpl_u8 *b = cast(zpl_u8 *) j;
         if (a != b) {
-            while (size--) { zpl_swap(zpl_u8, *a++, *b++); }
+            while (size--) { zpl_swap(zpl_u8, *a, *b); a++; b++; }
         }
     } else {
         char buffer[256];
-- 
2.43.0


From b7cae8e2c0a6278e71be7aaa44bc8031630260be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 002/117] fix: arena allocator ignored alignment padding and
 handed out memory past its end

---
 code/source/essentials/memory_custom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 8a14656..c9e4166 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -172,7 +172,7 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
             void *end = zpl_pointer_add(arena->physical_start, arena->total_allocated);
-            zpl_isize total_size = zpl_align_forward_i64(size, alignment);
+            zpl_isize total_size = zpl_align_forward_i64(size, alignment) + zpl_arena_alignment_of(arena, alignment);
 
             // NOTE: Out of memory
             if (arena->total_allocated + total_size > cast(zpl_isize) arena->total_size) {
-- 
2.43.0


From 1bf3fa0cd87396d0be8412c7dd28ddd4362cb255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 003/117] fix: pool allocator handed out misaligned blocks when
 the block size is not a multiple of the alignment

---
 code/source/essentials/memory_custom.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index c9e4166..b60843b 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -204,6 +204,12 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
 // Pool Allocator
 //
 
+zpl_internal zpl_isize zpl__pool_block_stride(zpl_pool *pool) {
+    // NOTE: a free block holds the free list link, and every block has to stay aligned
+    zpl_isize stride = zpl_max(pool->block_size, zpl_size_of(zpl_uintptr));
+    return zpl_align_forward_i64(stride, pool->block_align);
+}
+
 void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_blocks, zpl_isize block_size, zpl_isize block_align) {
     zpl_isize actual_block_size, pool_size, block_index;
     void *data, *curr;
@@ -216,7 +222,7 @@ void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_bl
     pool->block_align = block_align;
     pool->num_blocks = num_blocks;
 
-    actual_block_size = block_size + block_align;
+    actual_block_size = zpl__pool_block_stride(pool);
     pool_size = num_blocks * actual_block_size;
 
     data = zpl_alloc_align(backing, pool_size, block_align);
@@ -271,7 +277,7 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
             void *curr;
             zpl_uintptr *end;
 
-            actual_block_size = pool->block_size + pool->block_align;
+            actual_block_size = zpl__pool_block_stride(pool);
             pool->total_size = 0;
 
             // NOTE: Init intrusive freelist
-- 
2.43.0


From 68c58df9b6ab803797d98efd0763ab9ff0cf10c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 004/117] fix: heap allocator misaligned large alignments and
 wrote to NULL under heap analysis

---
 code/source/essentials/memory_custom.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index b60843b..34b91c6 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -80,8 +80,7 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
 
 #    ifdef ZPL_HEAP_ANALYSIS
         zpl_isize alloc_info_size = zpl_size_of(zpl__heap_alloc_info);
-        zpl_isize alloc_info_remainder = (alloc_info_size % alignment);
-        zpl_isize track_size = zpl_max(alloc_info_size, alignment) + alloc_info_remainder;
+        zpl_isize track_size = zpl_align_forward_i64(alloc_info_size, alignment);
         switch (type) {
             case ZPL_ALLOCATION_FREE: {
                 if (!old_memory) break;
@@ -145,8 +144,8 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
     }
 
 #    ifdef ZPL_HEAP_ANALYSIS
-        if (type == ZPL_ALLOCATION_ALLOC) {
-            zpl__heap_alloc_info *alloc_info = cast(zpl__heap_alloc_info *)(cast(char *)ptr + alloc_info_remainder);
+        if (type == ZPL_ALLOCATION_ALLOC && ptr) {
+            zpl__heap_alloc_info *alloc_info = cast(zpl__heap_alloc_info *)(cast(char *)ptr + track_size - alloc_info_size);
             zpl_zero_item(alloc_info);
             alloc_info->size = size - track_size;
             alloc_info->physical_start = ptr;
-- 
2.43.0


From 0d73bad15c67a7297bbe3d52c884e93a99e272d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 005/117] fix: scratch allocator handed out overlapping and out
 of bounds blocks

---
 code/source/essentials/memory_custom.c | 33 ++++++++++++++++----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 34b91c6..d6cec4d 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -308,7 +308,7 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
 
 void zpl_scratch_memory_init(zpl_scratch_memory *s, void *start, zpl_isize size) {
     s->physical_start = start;
-    s->total_size = size;
+    s->total_size = size - size % zpl_size_of(zpl_allocation_header_ev); // NOTE: keep the headers aligned
     s->alloc_point = start;
     s->free_point = start;
 }
@@ -333,26 +333,35 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
 
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
-            void *pt = s->alloc_point;
-            zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) pt;
-            void *data = zpl_align_forward(header + 1, alignment);
-            void *end = zpl_pointer_add(s->physical_start, s->total_size);
+            void *pt, *data, *end = zpl_pointer_add(s->physical_start, s->total_size);
+            zpl_allocation_header_ev *header;
 
             ZPL_ASSERT(alignment % 4 == 0);
-            size = ((size + 3) / 4) * 4;
-            pt = zpl_pointer_add(pt, size);
+            // NOTE: keep the headers aligned
+            size = zpl_align_forward_i64(size, zpl_size_of(zpl_allocation_header_ev));
+
+            // NOTE: Nothing is in use, start over
+            if (s->free_point == s->alloc_point) s->free_point = s->alloc_point = s->physical_start;
+
+            pt = s->alloc_point;
+            header = cast(zpl_allocation_header_ev *) pt;
+            data = zpl_align_forward(header + 1, alignment);
+            pt = zpl_pointer_add(data, size);
 
             // NOTE: Wrap around
             if (pt > end) {
-                header->size = zpl_pointer_diff(header, end) | ZPL_ISIZE_HIGH_BIT;
+                // NOTE: The space behind us has already been used up by the previous wrap around
+                if (s->alloc_point < s->free_point) break;
+                if (cast(void *) header < end) header->size = zpl_pointer_diff(header, end) | ZPL_ISIZE_HIGH_BIT;
                 pt = s->physical_start;
                 header = cast(zpl_allocation_header_ev *) pt;
                 data = zpl_align_forward(header + 1, alignment);
-                pt = zpl_pointer_add(pt, size);
+                pt = zpl_pointer_add(data, size);
+                if (pt > end) break;
             }
 
             if (!zpl_scratch_memory_is_in_use(s, pt)) {
-                zpl_allocation_header_fill(header, pt, zpl_pointer_diff(header, pt));
+                zpl_allocation_header_fill(header, data, zpl_pointer_diff(header, pt));
                 s->alloc_point = cast(zpl_u8 *) pt;
                 ptr = data;
             }
@@ -375,8 +384,8 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
                         zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) s->free_point;
                         if ((header->size & ZPL_ISIZE_HIGH_BIT) == 0) break;
 
-                        s->free_point = zpl_pointer_add(s->free_point, h->size & (~ZPL_ISIZE_HIGH_BIT));
-                        if (s->free_point == end) s->free_point = s->physical_start;
+                        s->free_point = zpl_pointer_add(s->free_point, header->size & (~ZPL_ISIZE_HIGH_BIT));
+                        if (s->free_point == end && s->alloc_point != end) s->free_point = s->physical_start;
                     }
                 }
             }
-- 
2.43.0


From a067f2bcd058ee1387b50189d17f1fe825707d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 006/117] fix: stack allocator ignored the alignment and
 recorded a wrong size after growing

---
 code/header/essentials/memory_custom.h |  2 ++
 code/source/essentials/memory_custom.c | 25 +++++++++++++------------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index ec9b383..a46e295 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -435,6 +435,8 @@ ZPL_IMPL_INLINE void zpl_allocation_header_fill(zpl_allocation_header_ev *header
 ZPL_STATIC_ASSERT(ZPL_STACK_ALLOC_OFFSET == 8, "ZPL_STACK_ALLOC_OFFSET != 8");
 
 ZPL_IMPL_INLINE void zpl_stack_memory_init_from_memory(zpl_stack_memory *s, void *start, zpl_isize size) {
+    s->backing.proc = NULL;
+    s->backing.data = NULL;
     s->physical_start = start;
     s->total_size = size;
     s->allocated = 0;
diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index d6cec4d..36f2eb2 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -416,20 +416,22 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
 
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
-            size += ZPL_STACK_ALLOC_OFFSET;
             zpl_u64 alloc_offset = s->allocated;
+            zpl_usize required;
 
-            void *curr =
-                cast(zpl_u64 *) zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
+            // NOTE: the previous offset is stored right in front of the aligned block
+            alignment = zpl_max(alignment, zpl_size_of(zpl_u64));
+            required = s->allocated + ZPL_STACK_ALLOC_OFFSET + (alignment - 1) + size;
 
-            if (cast(zpl_u64 *) zpl_pointer_add(curr, size) > cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->total_size)) {
+            void *curr = zpl_align_forward(zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment);
+
+            if (zpl_pointer_add(curr, size) > zpl_pointer_add(s->physical_start, s->total_size)) {
                 if (s->backing.proc) {
-                    void *old_start = s->physical_start;
-                    s->physical_start =
-                        zpl_resize_align(s->backing, s->physical_start, s->total_size, s->total_size + size, alignment);
-                    curr = cast(zpl_u64 *)
-                        zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
-                    s->total_size = zpl_pointer_diff(old_start, s->physical_start);
+                    void *new_start = zpl_resize_align(s->backing, s->physical_start, s->total_size, required, alignment);
+                    if (!new_start) return NULL;
+                    s->physical_start = new_start;
+                    s->total_size = required;
+                    curr = zpl_align_forward(zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment);
                 } else {
                     ZPL_PANIC("Can not resize stack's memory! Allocator not defined!");
                 }
@@ -437,8 +439,7 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
 
             s->allocated = zpl_pointer_diff(s->physical_start, curr) + size;
 
-            *(zpl_u64 *)curr = alloc_offset;
-            curr = zpl_pointer_add(curr, ZPL_STACK_ALLOC_OFFSET);
+            *(cast(zpl_u64 *)curr - 1) = alloc_offset;
 
             ptr = curr;
         } break;
-- 
2.43.0


From cc1f96d9d5a63dc49d27b3481648af001d22cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 007/117] fix: scratch allocator wrap-around could overlap the
 oldest live block

---
 code/source/essentials/memory_custom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 36f2eb2..a3f9898 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -357,7 +357,7 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
                 header = cast(zpl_allocation_header_ev *) pt;
                 data = zpl_align_forward(header + 1, alignment);
                 pt = zpl_pointer_add(data, size);
-                if (pt > end) break;
+                if (pt >= cast(void *) s->free_point) break;
             }
 
             if (!zpl_scratch_memory_is_in_use(s, pt)) {
-- 
2.43.0


From 7c07e76da0420249b58b8625192f0849cd4c870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 008/117] fix: linked list insertion and removal left stale
 back links

---
 code/header/essentials/collections/list.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/list.h b/code/header/essentials/collections/list.h
index 65847a0..f2e0e09 100644
--- a/code/header/essentials/collections/list.h
+++ b/code/header/essentials/collections/list.h
@@ -65,7 +65,10 @@ ZPL_IMPL_INLINE void zpl_list_init(zpl_list *list, void const *ptr) {
 ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
     item->next = NULL;
 
-    if (list->next) { item->next = list->next; }
+    if (list->next) {
+        item->next = list->next;
+        list->next->prev = item;
+    }
 
     list->next = item;
     item->prev = list;
@@ -74,6 +77,7 @@ ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
 
 ZPL_IMPL_INLINE zpl_list *zpl_list_remove(zpl_list *list) {
     if (list->prev) { list->prev->next = list->next; }
+    if (list->next) { list->next->prev = list->prev; }
 
     return list->next;
 }
-- 
2.43.0


From 98f9aecd733903f959c7173d436e449efec432cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 009/117] fix: ring get_array returned one element less than
 asked for, everything when asked for none

---
 code/header/essentials/collections/ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/ring.h b/code/header/essentials/collections/ring.h
index d4ac319..d98a19c 100644
--- a/code/header/essentials/collections/ring.h
+++ b/code/header/essentials/collections/ring.h
@@ -91,7 +91,7 @@ zpl_array(type)
 ZPL_JOIN2(func, get_array)(ZPL_JOIN2(func, type) * pad, zpl_usize max_size, zpl_allocator a) {    \
 zpl_array(type) vals = 0;                                                                                          \
 zpl_array_init(vals, a);                                                                                       \
-while (--max_size && !ZPL_JOIN2(func, empty)(pad)) {                                               \
+while (max_size-- > 0 && !ZPL_JOIN2(func, empty)(pad)) {                                               \
 zpl_array_append(vals, *ZPL_JOIN2(func, get)(pad));                                            \
 }                                                                                                              \
 return vals;                                                                                                   \
-- 
2.43.0


From 82ba0af8be0f4101efa15f597bc3b49851707e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 010/117] fix: zpl_strncmp ordered unequal strings by their
 addresses

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index d6f7559..8bcf81b 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -302,7 +302,7 @@ ZPL_IMPL_INLINE char *zpl_strrev(char *str) {
 ZPL_IMPL_INLINE zpl_i32 zpl_strncmp(const char *s1, const char *s2, zpl_isize len) {
     for (; len > 0; s1++, s2++, len--) {
         if (*s1 != *s2)
-            return ((s1 < s2) ? -1 : +1);
+            return *(zpl_u8 *)s1 - *(zpl_u8 *)s2;
         else if (*s1 == '\0')
             return 0;
     }
-- 
2.43.0


From 3de1c371953b37744100a155b4669c35e2006c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 011/117] fix: zpl_strcpy and zpl_strcat did not terminate the
 destination

---
 code/header/core/string.h    | 2 ++
 code/source/core/file_misc.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 8bcf81b..035eef2 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -237,6 +237,7 @@ ZPL_IMPL_INLINE char *zpl_strcpy(char *dest, const char *source) {
     if (source) {
         char *str = dest;
         while (*source) *str++ = *source++;
+        *str = '\0';
     }
     return dest;
 }
@@ -247,6 +248,7 @@ ZPL_IMPL_INLINE char *zpl_strcat(char *dest, const char *source) {
         char *str = dest;
         while (*str) ++str;
         while (*source) *str++ = *source++;
+        *str = '\0';
     }
     return dest;
 }
diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 0cebc0d..f0891aa 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -354,7 +354,7 @@ void zpl_dirinfo_init(zpl_dir_info *dir, char const *path) {
 
     zpl_dir_info dir_ = {0};
     *dir = dir_;
-    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path));
+    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path) + 1);
     zpl_strcpy((char *)dir->fullpath, path);
 
 
-- 
2.43.0


From e99bb9ea6337c7b57e8125773449ef0ccb742288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 012/117] fix: zpl_strntok left a truncated token unterminated

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 035eef2..6bbcbda 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -321,7 +321,7 @@ ZPL_IMPL_INLINE const char *zpl_strtok(char *output, const char *src, const char
 ZPL_IMPL_INLINE const char *zpl_strntok(char *output, zpl_isize len, const char *src, const char *delimit) {
     ZPL_ASSERT(len > 0);
     *(output+len-1) = 0;
-    while (*src && zpl_char_first_occurence(delimit, *src) == NULL && len > 0) {
+    while (*src && zpl_char_first_occurence(delimit, *src) == NULL && len > 1) {
         *output++ = *src++;
         len --;
     }
-- 
2.43.0


From 1a2ea46183ecc26282ceba6670910b306b31d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 013/117] fix: zpl_strdup cleared memory outside the copy when
 the source is longer than max_len

---
 code/header/core/string.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 6bbcbda..ab2a44a 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -428,8 +428,9 @@ ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len)
     ZPL_ASSERT_NOT_NULL(src);
     zpl_isize len = zpl_strlen(src);
     char *dest = cast(char *) zpl_alloc(a, max_len);
+    if (len > max_len - 1) len = max_len - 1;
+    zpl_memcopy(dest, src, len);
     zpl_memset(dest + len, 0, max_len - len);
-    zpl_strncpy(dest, src, max_len);
 
     return dest;
 }
-- 
2.43.0


From 5f9d0c8a53799bef61f335a3e4f3ab40a4eb0b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 014/117] fix: zpl_str_split_lines ran past the end of text
 whose last line has no newline

---
 code/header/core/string.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index ab2a44a..2755a52 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -440,14 +440,12 @@ ZPL_IMPL_INLINE char **zpl_str_split_lines(zpl_allocator alloc, char *source, zp
     zpl_array_init(lines, alloc);
 
     while (*p) {
-        if (*pd == '\n') {
+        if (*pd == '\n' || *pd == '\0') {
+            zpl_b32 last = (*pd == '\0');
             *pd = 0;
-            if (*(pd - 1) == '\r') *(pd - 1) = 0;
-            if (strip_whitespace && (pd - p) == 0) {
-                p = pd + 1;
-                continue;
-            }
-            zpl_array_append(lines, p);
+            if (pd > p && *(pd - 1) == '\r') *(pd - 1) = 0;
+            if (!strip_whitespace || (pd - p) != 0) zpl_array_append(lines, p);
+            if (last) break;
             p = pd + 1;
         }
         ++pd;
-- 
2.43.0


From 3f527ac1ce4e0086d4cf2a0cf10ed64c4a9f1d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 015/117] fix: zpl_char_to_hex_digit returned 0 to 5 for the
 letters a to f

---
 code/header/core/string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 2755a52..2a9527d 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -149,9 +149,9 @@ ZPL_IMPL_INLINE zpl_u8 zpl_char_to_hex_digit(char c) {
     if (c >= '0' && c <= '9')
         return (zpl_u8)(c - '0');
     if (c >= 'a' && c <= 'f')
-        return (zpl_u8)(c - 'a');
+        return (zpl_u8)(c - 'a' + 10);
     if (c >= 'A' && c <= 'F')
-        return (zpl_u8)(c - 'A');
+        return (zpl_u8)(c - 'A' + 10);
     return 0;
 }
 
-- 
2.43.0


From ff7fb886595f2551bf07684ee5f013a751303c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 016/117] fix: zpl_ucs2_to_utf8 skipped the terminator after an
 unpaired high surrogate

---
 code/source/core/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 76d837c..b8898c1 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -283,6 +283,7 @@ zpl_u8 *zpl_ucs2_to_utf8(zpl_u8 *buffer, zpl_isize len, zpl_u16 const *str) {
         } else if (*str >= 0xd800 && *str < 0xdc00) {
             zpl_rune c;
             if (i + 4 > len) return NULL;
+            if (str[1] < 0xdc00 || str[1] > 0xdfff) return NULL;
             c = ((str[0] - 0xd800) << 10) + ((str[1]) - 0xdc00) + 0x10000;
             buffer[i++] = cast(char)(0xf0 + (c >> 18));
             buffer[i++] = cast(char)(0x80 + ((c >> 12) & 0x3f));
-- 
2.43.0


From b3c7b5d67d89c28d45711b57aad820f3fc190a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 017/117] fix: zpl_utf8_codepoint_size returned 1 for every
 multi-byte code point

---
 code/source/core/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index b8898c1..1166ed1 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -405,11 +405,11 @@ zpl_isize zpl_utf8_decode(zpl_u8 const *str, zpl_isize str_len, zpl_rune *codepo
 }
 
 zpl_isize zpl_utf8_codepoint_size(zpl_u8 const *str, zpl_isize str_len) {
-    zpl_isize i = 0;
+    zpl_isize i = 1;
     for (; i < str_len && str[i]; i++) {
         if ((str[i] & 0xc0) != 0x80) break;
     }
-    return i + 1;
+    return i;
 }
 
 zpl_isize zpl_utf8_encode_rune(zpl_u8 buf[4], zpl_rune r) {
-- 
2.43.0


From 7f26f2b6d5683b00a6f3ab5bd842412dface4920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 018/117] fix: zpl_strdup with a zero max_len wrote before the
 copy

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 2a9527d..caff2e5 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -428,7 +428,7 @@ ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len)
     ZPL_ASSERT_NOT_NULL(src);
     zpl_isize len = zpl_strlen(src);
     char *dest = cast(char *) zpl_alloc(a, max_len);
-    if (len > max_len - 1) len = max_len - 1;
+    if (len >= max_len) len = max_len > 0 ? max_len - 1 : 0;
     zpl_memcopy(dest, src, len);
     zpl_memset(dest + len, 0, max_len - len);
 
-- 
2.43.0


From f9d678d1f91faa4a032165ed560695b03900cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 019/117] fix: zpl_reverse ran past the end of the array
 instead of towards its middle

---
 code/source/core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 5b7df2e..167315b 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -165,7 +165,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
 void zpl_reverse(void *base, zpl_isize count, zpl_isize size) {
     zpl_isize i, j = count - 1;
-    for (i = 0; i < j; i++, j++) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
+    for (i = 0; i < j; i++, j--) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From bfe2a2d161b2aa304bd566eb29b4fd4bd02c5f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 020/117] fix: zpl_shuffle swapped with elements before the
 array for negative random numbers

---
 code/source/core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 167315b..180ba9a 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -157,7 +157,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
     a = cast(zpl_u8 *) base + (count - 1) * size;
     for (i = count; i > 1; i--) {
-        j = zpl_random_gen_isize(&random) % i;
+        j = cast(zpl_isize)(cast(zpl_usize)zpl_random_gen_isize(&random) % cast(zpl_usize)i);
         zpl_memswap(a, cast(zpl_u8 *) base + j * size, size);
         a -= size;
     }
-- 
2.43.0


From 01f68c1fb0267453cc25611efd32c54e9107d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 021/117] fix: zpl_random unique sequence repeated values
 because the square was truncated before the reduction

---
 code/source/core/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 87c38a7..34a905a 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -33,7 +33,7 @@ zpl_internal ZPL_ALWAYS_INLINE zpl_u32 zpl__permute_qpr(zpl_u32 x) {
     if (x >= prime) {
         return x;
     } else {
-        zpl_u32 residue = cast(zpl_u32)(cast(zpl_u64) x * x) % prime;
+        zpl_u32 residue = cast(zpl_u32)((cast(zpl_u64) x * x) % prime);
         if (x <= prime / 2)
             return residue;
         else
-- 
2.43.0


From 8924b20f0800b07df16fb225a36b75d3f27de9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 022/117] fix: random ranges covering the whole type divided by
 zero

---
 code/source/core/random.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 34a905a..293c294 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -121,8 +121,8 @@ zpl_isize zpl_random_gen_isize(zpl_random *r) {
 
 zpl_i64 zpl_random_range_i64(zpl_random *r, zpl_i64 lower_inc, zpl_i64 higher_inc) {
     zpl_u64 u = zpl_random_gen_u64(r);
-    zpl_i64 diff = higher_inc-lower_inc+1;
-    u %= diff;
+    zpl_u64 diff = cast(zpl_u64)higher_inc-cast(zpl_u64)lower_inc+1;
+    if (diff != 0) u %= diff;
     zpl_i64 i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
     i += lower_inc;
@@ -135,8 +135,8 @@ zpl_isize zpl_random_range_isize(zpl_random *r, zpl_isize lower_inc, zpl_isize h
 #else
     zpl_u64 u = zpl_random_gen_u64(r);
 #endif
-    zpl_isize diff = higher_inc-lower_inc+1;
-    u %= diff;
+    zpl_usize diff = cast(zpl_usize)higher_inc-cast(zpl_usize)lower_inc+1;
+    if (diff != 0) u %= diff;
     zpl_isize i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
     i += lower_inc;
-- 
2.43.0


From 948dfeb81ea1ec0409e86e2a0077d961c09e32e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 023/117] fix: zpl_bit_get returned false for every set bit
 above the seventh

---
 code/header/core/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/misc.h b/code/header/core/misc.h
index b5d50c7..e5f3608 100644
--- a/code/header/core/misc.h
+++ b/code/header/core/misc.h
@@ -59,7 +59,7 @@ ZPL_IMPL_INLINE zpl_i32 zpl_next_pow2(zpl_i32 x) {
 }
 
 ZPL_IMPL_INLINE void zpl_bit_set(zpl_u32* x, zpl_u32 bit) { *x = *x | (1 << bit); }
-ZPL_IMPL_INLINE zpl_b8 zpl_bit_get(zpl_u32 x, zpl_u32 bit) { return (x & (1 << bit)); }
+ZPL_IMPL_INLINE zpl_b8 zpl_bit_get(zpl_u32 x, zpl_u32 bit) { return (x & (1u << bit)) != 0; }
 ZPL_IMPL_INLINE void zpl_bit_reset(zpl_u32* x, zpl_u32 bit) { *x = *x & ~(1 << bit); }
 
 ZPL_IMPL_INLINE zpl_isize zpl_count_set_bits(zpl_u64 mask) {
-- 
2.43.0


From dd96a8a7650936fc23023e85cc806f0915df41fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 024/117] fix: zpl_base64_decode accepted truncated and
 misplaced padding, sized its result by strlen and leaked it on error

---
 code/source/hashing.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/code/source/hashing.c b/code/source/hashing.c
index e84973d..e10f336 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -213,15 +213,14 @@ zpl_isize zpl__base64_encoded_size(zpl_isize len) {
     return ret;
 }
 
-zpl_isize zpl__base64_decoded_size(void const *data) {
-    zpl_isize len, ret, i;
+zpl_isize zpl__base64_decoded_size(void const *data, zpl_isize len) {
+    zpl_isize ret, i;
     const zpl_u8 *s = cast(const zpl_u8 *)data;
 
     if (s == NULL) {
         return 0;
     }
 
-    len = zpl_strlen(cast(const char*)s);
     ret = len / 4 * 3;
 
     for (i=len; i-- > 0;) {
@@ -293,18 +292,26 @@ zpl_u8 *zpl_base64_decode(zpl_allocator a, void const *data, zpl_isize len) {
         return NULL;
     }
 
-    alen = zpl__base64_decoded_size(s);
-    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
-
-    ZPL_ASSERT_NOT_NULL(ret);
-
-    ret[alen] = 0;
+    if (len % 4 != 0) {
+        return NULL;
+    }
 
     for (i=0; i<len; i++) {
         if (!zpl__base64_valid_char(s[i]))
             return NULL;
+
+        // NOTE: Padding is allowed only as the last one or two characters
+        if (s[i] == '=' && (i < len-2 || s[len-1] != '='))
+            return NULL;
     }
 
+    alen = zpl__base64_decoded_size(s, len);
+    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
+
+    ZPL_ASSERT_NOT_NULL(ret);
+
+    ret[alen] = 0;
+
     for (i=0, j=0; i<len; i+=4, j+=3) {
         v = zpl__base64_dec_table[s[i]-43];
         v = (v << 6) | zpl__base64_dec_table[s[i+1]-43];
-- 
2.43.0


From 70dac21a62aab46961be4dff499be6e981ec0286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:19 +0000
Subject: [PATCH 025/117] fix: zpl_random_range_f64 could round past the upper
 bound

---
 code/source/core/random.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 293c294..6b66f61 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -162,6 +162,7 @@ zpl_f64 zpl_random_range_f64(zpl_random *r, zpl_f64 lower_inc, zpl_f64 higher_in
     
     f *= diff;
     f += lower_inc;
+    if (f > higher_inc) f = higher_inc; // NOTE: rounding may step over the bound
     return f;
 }
 
-- 
2.43.0


From 12196daa76f971847627745de63fc9e92597b810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 026/117] fix: zpl_random_init span forever when the clock
 passed the awaited moment between two readings

---
 code/source/core/random.c | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 6b66f61..d18ef3b 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -10,19 +10,8 @@ zpl_global zpl_i32 zpl__random_shared_counter = 0;
 #endif
 
 zpl_internal zpl_u32 zpl__get_noise_from_time(void) {
-    zpl_u32 accum = 0;
-    zpl_f64 start, remaining, end, curr = 0;
-    zpl_u64 interval = 100000ll;
-    
-    start     = zpl_time_rel();
-    remaining = (interval - cast(zpl_u64)(interval*start)%interval) / cast(zpl_f64)interval;
-    end       = start + remaining;
-    
-    do {
-        curr = zpl_time_rel();
-        accum += cast(zpl_u32)curr;
-    } while (curr >= end);
-    return accum;
+    // NOTE: Must not wait for the clock: a reading taken past the awaited end used to keep the loop going forever
+    return cast(zpl_u32)zpl_time_rel();
 }
 
 // NOTE: Partly from http://preshing.com/20121224/how-to-generate-a-sequence-of-unique-random-integers/
-- 
2.43.0


From 1c8b7e624c3540db3dd950462e773ce7fd18e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 027/117] fix: a memory stream whose buffer could not be
 allocated leaked its descriptor

---
 code/source/core/file_stream.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index bbf0651..72d2097 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -45,7 +45,10 @@ zpl_b8 zpl_file_stream_new(zpl_file* file, zpl_allocator allocator) {
     d->alloc = allocator;
     d->flags = ZPL_FILE_STREAM_CLONE_WRITABLE;
     d->cap = 0;
-    if (!zpl_array_init(d->buf, allocator)) return false;
+    if (!zpl_array_init(d->buf, allocator)) {
+        zpl_free(allocator, d);
+        return false;
+    }
     file->ops = zpl_memory_file_operations;
     file->fd = zpl__file_stream_fd_make(d);
     file->dir = NULL;
@@ -63,7 +66,10 @@ zpl_b8 zpl_file_stream_open(zpl_file* file, zpl_allocator allocator, zpl_u8 *buf
     d->alloc = allocator;
     d->flags = flags;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
-        if (!zpl_array_init_reserve(d->buf, allocator, size)) return false;
+        if (!zpl_array_init_reserve(d->buf, allocator, size)) {
+            zpl_free(allocator, d);
+            return false;
+        }
         zpl_memcopy(d->buf, buffer, size);
         d->cap = zpl_array_count(d->buf) = size;
     } else {
-- 
2.43.0


From 7644ec5225d82b9a138a3e7e790ddf3cfb4ee0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 028/117] fix: reading a memory stream ran past the end of its
 buffer

---
 code/source/core/file_stream.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index 72d2097..4f35cc7 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -109,7 +109,9 @@ zpl_internal ZPL_FILE_SEEK_PROC(zpl__memory_file_seek) {
 zpl_internal ZPL_FILE_READ_AT_PROC(zpl__memory_file_read) {
     zpl_unused(stop_at_newline);
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
-    zpl_memcopy(buffer, d->buf + offset, size);
+    if (offset < 0 || size < 0) return false;
+    size = offset < d->cap ? zpl_min(size, d->cap - offset) : 0;
+    if (size > 0) zpl_memcopy(buffer, d->buf + offset, size);
     if (bytes_read) *bytes_read = size;
     return true;
 }
-- 
2.43.0


From 03c1abdad36f2378f42da96fb355765f830ded23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 029/117] fix: writing a memory stream past its end copied with
 a negative length

---
 code/source/core/file_stream.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index 4f35cc7..2394815 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -120,18 +120,20 @@ zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__memory_file_write) {
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
     if (!(d->flags & (ZPL_FILE_STREAM_CLONE_WRITABLE|ZPL_FILE_STREAM_WRITABLE)))
         return false;
+    if (offset < 0 || size < 0) return false;
     zpl_isize buflen = d->cap;
-    zpl_isize extralen = zpl_max(0, size-(buflen-offset));
-    zpl_isize rwlen = size-extralen;
-    zpl_isize new_cap = buflen+extralen;
+    zpl_isize rwlen = offset < buflen ? zpl_min(size, buflen-offset) : 0;
+    zpl_isize extralen = size-rwlen;
+    zpl_isize new_cap = zpl_max(buflen, offset+size);
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
         if(zpl_array_capacity(d->buf) < new_cap) {
             if (!zpl_array_grow(d->buf, (zpl_i64)(new_cap))) return false;
         }
     }
-    zpl_memcopy(d->buf + offset, buffer, rwlen);
+    if (rwlen > 0) zpl_memcopy(d->buf + offset, buffer, rwlen);
 
     if ((d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) && extralen > 0) {
+        if (offset > buflen) zpl_memset(d->buf + buflen, 0, offset-buflen);
         zpl_memcopy(d->buf + offset + rwlen, zpl_ptr_add_const(buffer, rwlen), extralen);
         d->cap = zpl_array_count(d->buf) = new_cap;
     } else {
-- 
2.43.0


From f4e96a19435ff26c1e162a644478a66cce0d4552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 030/117] fix: zpl_fs_last_write_time returned the time only
 when stat failed

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index f0891aa..6a631d0 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -90,7 +90,7 @@ ZPL_BEGIN_C_DECLS
         time_t result = 0;
         struct stat file_stat;
 
-        if (stat(filepath, &file_stat)) result = file_stat.st_mtime;
+        if (stat(filepath, &file_stat) == 0) result = file_stat.st_mtime;
 
         return cast(zpl_file_time) result;
     }
-- 
2.43.0


From 655de045c3a7be1f02e8d861f377aff3cd71c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 031/117] fix: zpl_fs_copy ignored fail_if_exists, open
 failures and short transfers and left the tail of a longer target

---
 code/source/core/file_misc.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 6a631d0..0b103b1 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -103,8 +103,8 @@ ZPL_BEGIN_C_DECLS
 
 
     zpl_b32 zpl_fs_copy(char const *existing_filename, char const *new_filename, zpl_b32 fail_if_exists) {
-        zpl_unused(fail_if_exists);
 #    if defined(ZPL_SYSTEM_OSX)
+        zpl_unused(fail_if_exists);
         return copyfile(existing_filename, new_filename, NULL, COPYFILE_DATA) == 0;
 #    elif defined(ZPL_SYSTEM_OPENBSD)
         ZPL_NOT_IMPLEMENTED;
@@ -113,23 +113,32 @@ ZPL_BEGIN_C_DECLS
         ZPL_NOT_IMPLEMENTED;
         return 0;
 #    else
+        zpl_b32 result = false;
         int existing_fd = open(existing_filename, O_RDONLY, 0);
-        struct stat stat_existing;
-        fstat(existing_fd, &stat_existing);
-
-        zpl_isize size;
-        int new_fd = open(new_filename, O_WRONLY | O_CREAT, stat_existing.st_mode);
+        if (existing_fd < 0) return false;
 
+        struct stat stat_existing;
+        if (fstat(existing_fd, &stat_existing) == 0) {
+            int new_fd = open(new_filename, O_WRONLY | O_CREAT | (fail_if_exists ? O_EXCL : 0), stat_existing.st_mode & 07777);
+            if (new_fd >= 0) {
+                zpl_isize size = 0;
 #    if defined(ZPL_SYSTEM_FREEBSD)
-        size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size, NULL, 0, 0);
+                size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size, NULL, 0, 0);
 #    else
-        size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size);
+                while (size < stat_existing.st_size) {
+                    zpl_isize sent = sendfile(new_fd, existing_fd, 0, stat_existing.st_size - size);
+                    if (sent <= 0) break;
+                    size += sent;
+                }
 #    endif
+                result = size == stat_existing.st_size && ftruncate(new_fd, stat_existing.st_size) == 0;
+                if (close(new_fd) != 0) result = false;
+            }
+        }
 
-        close(new_fd);
         close(existing_fd);
 
-        return size == stat_existing.st_size;
+        return result;
 #    endif
     }
 
-- 
2.43.0


From 05b3d65672f1224cdb230535143088324831ff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 032/117] fix: zpl_path_get_full_name freed memory of realpath
 with an unrelated allocator

---
 code/source/core/file_misc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 0b103b1..ff693ca 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -210,9 +210,11 @@ char *zpl_path_get_full_name(zpl_allocator a, char const *path) {
     len = zpl_strlen(fullpath);
 
     result = zpl_alloc_array(a, char, len + 1);
-    zpl_memmove(result, fullpath, len);
-    result[len] = 0;
-    zpl_free(a, p);
+    if (result != NULL) {
+        zpl_memmove(result, fullpath, len);
+        result[len] = 0;
+    }
+    free(p);
 
     return result;
 #endif
-- 
2.43.0


From ee1c186d87b20685556c0b056ddb8ff954900786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 033/117] fix: directory listings skipped names starting with
 two dots and left every directory open

---
 code/source/core/file_misc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index ff693ca..3174992 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -284,14 +284,14 @@ zpl_file_error zpl_path_rmdir(char const *path) {
 
 void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *output, zpl_b32 recurse) {
 #if defined(ZPL_SYSTEM_UNIX) || defined(ZPL_SYSTEM_OSX)
-    DIR *d, *cd;
+    DIR *d;
     struct dirent *dir;
     d = opendir(dirname);
 
     if (d) {
         while ((dir = readdir(d))) {
             if (dir == 0) break;
-            if (!zpl_strncmp(dir->d_name, "..", 2)) continue;
+            if (dir->d_name[0] == '.' && dir->d_name[1] == '.' && dir->d_name[2] == 0) continue;
             if (dir->d_name[0] == '.' && dir->d_name[1] == 0) continue;
 
             zpl_string dirpath = zpl_string_make(alloc, dirname);
@@ -301,9 +301,10 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
             *output = zpl_string_appendc(*output, dirpath);
             *output = zpl_string_appendc(*output, "\n");
 
-            if (recurse && (cd = opendir(dirpath)) != NULL && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
+            if (recurse && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
             zpl_string_free(dirpath);
         }
+        closedir(d);
     }
 #elif defined(ZPL_SYSTEM_WINDOWS)
     zpl_usize length = zpl_strlen(dirname);
-- 
2.43.0


From 45011c96dec76f01e6bb24ec3695f9dbc2b3517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 034/117] fix: zpl_dirinfo_step overran its buffer or used a
 stale tail when taking the directory of a file

---
 code/source/core/file_misc.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 3174992..85493de 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -444,17 +444,25 @@ void zpl_dirinfo_step(zpl_dir_entry *entry) {
     zpl_dir_info dir_ = {0};
     *entry->dir_info = dir_;
 
-    zpl_local_persist char buf[128] = {0};
+    char *buf = NULL;
     char const *path = entry->filename;
 
     if (entry->type != ZPL_DIR_TYPE_FOLDER) {
         zpl_path_fix_slashes((char *)path);
         char const* slash = zpl_char_last_occurence(path, ZPL_PATH_SEPARATOR);
-        zpl_strncpy(buf, path, slash-path);
-        path = buf;
+        if (slash == NULL) {
+            path = ".";
+        } else {
+            zpl_isize len = zpl_max(slash-path, 1);
+            buf = (char *)zpl_malloc(len + 1);
+            zpl_memcopy(buf, path, len);
+            buf[len] = 0;
+            path = buf;
+        }
     }
 
     zpl_dirinfo_init(entry->dir_info, path);
+    if (buf != NULL) zpl_mfree(buf);
 }
 
 void zpl_file_dirinfo_refresh(zpl_file *file) {
-- 
2.43.0


From c2bc4ee6a0a60d62640caeb6a9b500f0c338d017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 035/117] fix: zpl_file_read and zpl_file_write advanced by the
 requested size after a short or failed transfer

---
 code/header/core/file.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/header/core/file.h b/code/header/core/file.h
index 5a6a911..a4cd0e5 100644
--- a/code/header/core/file.h
+++ b/code/header/core/file.h
@@ -382,15 +382,17 @@ ZPL_IMPL_INLINE zpl_i64 zpl_file_tell(zpl_file *f) {
 
 ZPL_IMPL_INLINE zpl_b32 zpl_file_read(zpl_file *f, void *buffer, zpl_isize size) {
     zpl_i64 cur_offset = zpl_file_tell(f);
-    zpl_b32 result = zpl_file_read_at(f, buffer, size, zpl_file_tell(f));
-    zpl_file_seek(f, cur_offset + size);
+    zpl_isize bytes_read = 0;
+    zpl_b32 result = zpl_file_read_at_check(f, buffer, size, cur_offset, &bytes_read);
+    zpl_file_seek(f, cur_offset + bytes_read);
     return result;
 }
 
 ZPL_IMPL_INLINE zpl_b32 zpl_file_write(zpl_file *f, void const *buffer, zpl_isize size) {
     zpl_i64 cur_offset = zpl_file_tell(f);
-    zpl_b32 result = zpl_file_write_at(f, buffer, size, zpl_file_tell(f));
-    zpl_file_seek(f, cur_offset + size);
+    zpl_isize bytes_written = 0;
+    zpl_b32 result = zpl_file_write_at_check(f, buffer, size, cur_offset, &bytes_written);
+    zpl_file_seek(f, cur_offset + bytes_written);
     return result;
 }
 
-- 
2.43.0


From 0034b3dfce09279cba716c8365f2707deb83fe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 036/117] fix: zpl_file_read_contents and zpl_file_read_lines
 returned unread memory after a failed or short read

---
 code/source/core/file.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index c819fee..dd1e399 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -423,6 +423,18 @@ zpl_file_error zpl_file_temp(zpl_file *file) {
     return ZPL_FILE_ERROR_NONE;
 }
 
+// Reads up to size bytes from the beginning of the file, returns how many there were or -1 on failure
+zpl_internal zpl_isize zpl__file_read_all(zpl_file *f, void *buffer, zpl_isize size) {
+    zpl_isize total = 0;
+    while (total < size) {
+        zpl_isize bytes_read = 0;
+        if (!zpl_file_read_at_check(f, zpl_ptr_add(buffer, total), size - total, total, &bytes_read)) return -1;
+        if (bytes_read <= 0) break;
+        total += bytes_read;
+    }
+    return total;
+}
+
 zpl_file_contents zpl_file_read_contents(zpl_allocator a, zpl_b32 zero_terminate, char const *filepath) {
     zpl_file_contents result = { 0 };
     zpl_file file = { 0 };
@@ -440,11 +452,14 @@ zpl_file_contents zpl_file_read_contents(zpl_allocator a, zpl_b32 zero_terminate
         zpl_isize file_size = cast(zpl_isize) zpl_file_size(&file);
         if (file_size > 0) {
             result.data = zpl_alloc(a, zero_terminate ? file_size + 1 : file_size);
-            result.size = file_size;
-            zpl_file_read_at(&file, result.data, result.size, 0);
-            if (zero_terminate) {
+            result.size = result.data ? zpl__file_read_all(&file, result.data, file_size) : -1;
+            if (result.size < 0) {
+                zpl_free(a, result.data);
+                result.data = NULL;
+                result.size = 0;
+            } else if (zero_terminate) {
                 zpl_u8 *str = cast(zpl_u8 *) result.data;
-                str[file_size] = '\0';
+                str[result.size] = '\0';
             }
         }
         zpl_file_close(&file);
@@ -485,8 +500,12 @@ char *zpl_file_read_lines(zpl_allocator alloc, zpl_array(char *)*lines, char con
     zpl_isize fsize = (zpl_isize)zpl_file_size(&f);
 
     char *contents = (char *)zpl_alloc(alloc, fsize + 1);
-    zpl_file_read(&f, contents, fsize);
-    contents[fsize] = 0;
+    if (contents == NULL) {
+        zpl_file_close(&f);
+        return NULL;
+    }
+    zpl_isize size = zpl__file_read_all(&f, contents, fsize);
+    contents[zpl_max(size, 0)] = 0;
     *lines = zpl_str_split_lines(alloc, contents, strip_whitespace);
     zpl_file_close(&f);
 
-- 
2.43.0


From 5b74f48bc002b9e4d0a2b52f94419b7318872e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 037/117] fix: zpl_file_write_contents reported success after a
 short write

---
 code/source/core/file.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index dd1e399..25edcc3 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -489,8 +489,16 @@ zpl_b32 zpl_file_write_contents(char const* filepath, void const* buffer, zpl_is
         return false;
     }
 
-    write_ok = zpl_file_write(&f, buffer, size);
+    zpl_isize total = 0;
+    do {
+        zpl_isize bytes_written = 0;
+        write_ok = zpl_file_write_at_check(&f, zpl_ptr_add_const(buffer, total), size - total, total, &bytes_written);
+        if (bytes_written <= 0) break;
+        total += bytes_written;
+    } while (write_ok && total < size);
+    write_ok = write_ok && total == size;
     zpl_file_close(&f);
+    if (!write_ok && err) *err = ZPL_FILE_ERROR_UNKNOWN;
     return write_ok;
 }
 
-- 
2.43.0


From b2e2af97367dca97be505735f45f0d2d5cc6834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 038/117] fix: zpl_file_temp leaked its stdio stream

---
 code/source/core/file.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 25edcc3..7df4153 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -416,7 +416,9 @@ zpl_file_error zpl_file_temp(zpl_file *file) {
 #if defined(ZPL_SYSTEM_WINDOWS) && !defined(ZPL_COMPILER_GCC)
     file->fd.i = _get_osfhandle(_fileno(fd));
 #else 
-    file->fd.i = fileno(fd);
+    file->fd.i = dup(fileno(fd));
+    fclose(fd);
+    if (file->fd.i < 0) return ZPL_FILE_ERROR_INVALID;
 #endif
     file->ops = zpl_default_file_operations;
     file->is_temp = true;
-- 
2.43.0


From 191afffc10f3f310f0ec3b9fa984357da0d4bf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:30 +0000
Subject: [PATCH 039/117] fix: zpl_tar_pack truncated member names to eleven
 characters and large sizes to 32 bits

---
 code/source/core/file_tar.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 911a8a9..2a507d4 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -48,10 +48,15 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
         }
 
         zpl_i64 file_size = zpl_file_size(&file);
-        zpl_snprintf(hr.name, 12, "%s", paths[i]);
-        zpl_snprintf(hr.size, 12, "%o", file_size);
+        zpl_isize name_len = zpl_strlen(paths[i]);
+        if (name_len >= zpl_size_of(hr.name) || file_size >= (1ll << 33)) { /* does not fit the header */
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_INVALID_INPUT);
+        }
+        zpl_memcopy(hr.name, paths[i], name_len);
+        zpl_snprintf(hr.size, 12, "%llo", file_size);
         zpl_snprintf(hr.mode, 8, "%o", 0664);
-        zpl_snprintf(hr.mtime, 12, "%o", zpl_fs_last_write_time(paths[i]));
+        zpl_snprintf(hr.mtime, 12, "%llo", zpl_fs_last_write_time(paths[i]));
         hr.type = ZPL_TAR_TYPE_REGULAR;
         zpl_snprintf(hr.checksum, 8, "%o", zpl__tar_checksum(&hr));
 
-- 
2.43.0


From 29ab8ae2210a21953806542c4f823f186a3449c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:30 +0000
Subject: [PATCH 040/117] fix: zpl_tar_pack wrote members of the wrong length
 when a file changed and ignored write failures

---
 code/source/core/file_tar.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 2a507d4..6b57777 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -25,11 +25,14 @@ zpl_internal zpl_usize zpl__tar_checksum(zpl__tar_header *hr) {
     return res;
 }
 
+zpl_internal zpl_b32 zpl__tar_write(zpl_file *archive, void const *data, zpl_isize cnt) {
+    zpl_i64 pos = zpl_file_tell(archive);
+    return zpl_file_write(archive, data, cnt) && zpl_file_tell(archive) == pos + cnt;
+}
+
 zpl_internal zpl_b32 zpl__tar_write_null(zpl_file *archive, zpl_isize cnt) {
     char *out = zpl_bprintf("%*r", cnt, '\0');
-    if (!zpl_file_write(archive, out, cnt))
-        return 0;
-    return 1;
+    return zpl__tar_write(archive, out, cnt);
 }
 
 zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_len) {
@@ -60,7 +63,10 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
         hr.type = ZPL_TAR_TYPE_REGULAR;
         zpl_snprintf(hr.checksum, 8, "%o", zpl__tar_checksum(&hr));
 
-        zpl_file_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header));
+        if (!zpl__tar_write(archive, &hr, zpl_size_of(zpl__tar_header))) {
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_IO_ERROR);
+        }
 
         // write data
         {
@@ -70,19 +76,16 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
             char buf[4096] = {0};
             zpl_i64 pos = 0;
             zpl_isize bytes_read = 0;
-            do {
-                if (!zpl_file_read_at_check(&file, buf, 4096, pos, &bytes_read)) {
+            while (remaining_data > 0) {
+                if (!zpl_file_read_at_check(&file, buf, zpl_min(4096, remaining_data), pos, &bytes_read) ||
+                    bytes_read <= 0 || !zpl__tar_write(archive, buf, bytes_read)) {
                     zpl_file_close(&file);
                     return -(ZPL_TAR_ERROR_IO_ERROR);
-                } else if (bytes_read == 0) {
-                    break;
                 }
 
-                zpl_file_write(archive, buf, bytes_read);
                 pos += bytes_read;
                 remaining_data -= bytes_read;
             }
-            while (remaining_data > 0);
 
             if (padding > 0) {
                 if (!zpl__tar_write_null(archive, padding)) {
-- 
2.43.0


From 359ebb3d03a3107beb042eeae7783451095ad624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:30 +0000
Subject: [PATCH 041/117] fix: zpl_tar_pack_dir failed on every directory that
 has sub-directories

---
 code/source/core/file_tar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 6b57777..1022e89 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -41,6 +41,7 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
 
     for (zpl_isize i = 0; i < paths_len; i++) {
         ZPL_ASSERT_NOT_NULL(paths[i]);
+        if (zpl_fs_get_type(paths[i]) == ZPL_DIR_TYPE_FOLDER) continue; /* only regular files are packed */
         zpl__tar_header hr = {0};
         zpl_file file;
         zpl_file_error ferr = zpl_file_open_mode(&file, ZPL_FILE_MODE_READ, paths[i]);
-- 
2.43.0


From fd8028a8d6761b0269e042c06400251db56318c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:30 +0000
Subject: [PATCH 042/117] fix: zpl_tar_unpack looped forever on truncated
 archives and negative sizes and read header fields past their end

---
 code/source/core/file_tar.c | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 1022e89..6f7526f 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -124,26 +124,48 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
     zpl_isize err = ZPL_TAR_ERROR_NONE;
 
     do {
-        if (!zpl_file_read(archive, cast(void*)&hr, zpl_size_of(hr))) {
+        zpl_isize bytes_read = 0;
+        if (!zpl_file_read_at_check(archive, cast(void*)&hr, zpl_size_of(hr), pos, &bytes_read)) {
+            err = ZPL_TAR_ERROR_IO_ERROR;
+            break;
+        }
+        else if (bytes_read == 0) {
+            break;
+        }
+        else if (bytes_read != zpl_size_of(hr)) {
             err = ZPL_TAR_ERROR_IO_ERROR;
             break;
         }
         else if (*hr.checksum == 0) {
             break;
         }
-        pos = zpl_file_tell(archive);
+        pos += bytes_read;
+        zpl_file_seek(archive, pos);
+
+        /* header fields may use their whole width */
+        char name[zpl_size_of(hr.name) + 1] = {0};
+        char size[zpl_size_of(hr.size) + 1] = {0};
+        char checksum[zpl_size_of(hr.checksum) + 1] = {0};
+        zpl_memcopy(name, hr.name, zpl_size_of(hr.name));
+        zpl_memcopy(size, hr.size, zpl_size_of(hr.size));
+        zpl_memcopy(checksum, hr.checksum, zpl_size_of(hr.checksum));
 
         zpl_tar_record rec = {0};
         rec.type = hr.type;
-        rec.path = hr.name;
+        rec.path = name;
         rec.offset = pos;
-        rec.length = zpl_str_to_i64(hr.size, 0, 8);
+        rec.length = zpl_str_to_i64(size, 0, 8);
         rec.error = ZPL_TAR_ERROR_NONE;
 
-        zpl_usize checksum1 = cast(zpl_usize)(zpl_str_to_i64(hr.checksum, 0, 8));
+        zpl_usize checksum1 = cast(zpl_usize)(zpl_str_to_i64(checksum, 0, 8));
         zpl_usize checksum2 = zpl__tar_checksum(&hr);
         rec.error = (checksum1 != checksum2) ? cast(zpl_isize)ZPL_TAR_ERROR_BAD_CHECKSUM : rec.error;
 
+        if (rec.length < 0 || rec.length > zpl_file_size(archive) - pos) {
+            err = ZPL_TAR_ERROR_IO_ERROR;
+            break;
+        }
+
         rec.error = unpack_proc(archive, &rec, user_data);
 
         if (rec.error > 0) {
@@ -152,7 +174,8 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
         }
 
         /* tar rounds files to 512 byte boundary */
-        zpl_file_seek(archive, pos + zpl_align_forward_i64(rec.length, 512));
+        pos += zpl_align_forward_i64(rec.length, 512);
+        zpl_file_seek(archive, pos);
     }
     while(err == ZPL_TAR_ERROR_NONE);
 
-- 
2.43.0


From 2e037f8188ee83b9f12b9458242b925716c83290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:30 +0000
Subject: [PATCH 043/117] fix: unpacking a tar archive could write outside the
 destination, overrun the path buffer and hide failed writes

---
 code/source/core/file_tar.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 6f7526f..e58d500 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -203,14 +203,21 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     if (file->type != ZPL_TAR_TYPE_REGULAR)
         return 0; /* we only care about regular files */
 
-    if (!zpl_strncmp(file->path, "..", 2))
-        return 0;
+    /* never leave the destination */
+    for (char const *part = file->path; part && *part;) {
+        char const *end = zpl_char_first_occurence(part, '/');
+        zpl_isize part_len = end ? end - part : zpl_strlen(part);
+        if (part_len == 2 && part[0] == '.' && part[1] == '.')
+            return 0;
+        part = end ? end + 1 : NULL;
+    }
 
     char tmp[ZPL_MAX_PATH] = {0};
     char *base_path = cast(char*)user_data;
     zpl_isize base_len = zpl_strlen(base_path);
     zpl_isize len = zpl_strlen(file->path);
-    ZPL_ASSERT(base_len+len-2 < ZPL_MAX_PATH); /* todo: account for missing leading path sep */
+    if (base_len+len+2 > ZPL_MAX_PATH)
+        return ZPL_TAR_ERROR_INVALID_INPUT;
 
     zpl_strcpy(tmp, base_path);
     zpl_path_fix_slashes(tmp); /* todo: need to do twice as base_path is checked before concat */
@@ -232,25 +239,23 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     }
 
     zpl_file f;
-    zpl_file_create(&f, tmp);
+    if (zpl_file_create(&f, tmp) != ZPL_FILE_ERROR_NONE)
+        return ZPL_TAR_ERROR_IO_ERROR;
     {
         char buf[4096] = {0};
         zpl_isize remaining_data = file->length;
         zpl_isize bytes_read = 0;
         zpl_i64 pos = file->offset;
-        do {
-            if (!zpl_file_read_at_check(archive, buf, zpl_min(4096, remaining_data), pos, &bytes_read)) {
+        while (remaining_data > 0) {
+            if (!zpl_file_read_at_check(archive, buf, zpl_min(4096, remaining_data), pos, &bytes_read) ||
+                bytes_read <= 0 || !zpl__tar_write(&f, buf, bytes_read)) {
                 zpl_file_close(&f);
-                return 1;
-            } else if (bytes_read == 0) {
-                break;
+                return ZPL_TAR_ERROR_IO_ERROR;
             }
 
-            zpl_file_write(&f, buf, bytes_read);
             pos += bytes_read;
             remaining_data -= bytes_read;
         }
-        while (remaining_data > 0);
     }
     zpl_file_close(&f);
     return 0;
-- 
2.43.0


From 8702031a03029eaac550bab2dc01aa82494b9633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 044/117] fix: formatted output overran its buffer, hid
 truncation and could stay unterminated

---
 code/source/core/print.c | 164 +++++++++++++++++----------------------
 1 file changed, 71 insertions(+), 93 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index b01e199..4d61607 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -14,6 +14,7 @@ zpl_isize zpl_printf_err_va(char const *fmt, va_list va) {
 zpl_isize zpl_fprintf_va(struct zpl_file *f, char const *fmt, va_list va) {
     zpl_local_persist zpl_thread_local char buf[ZPL_PRINTF_MAXLEN];
     zpl_isize len = zpl_snprintf_va(buf, zpl_size_of(buf), fmt, va);
+    if (len < 0) return -1;
     zpl_b32 res = zpl_file_write(f, buf, len - 1); // NOTE: prevent extra whitespace
     return res ? len : -1;
 }
@@ -122,53 +123,43 @@ typedef struct {
     zpl_i32 precision;
 } zpl__format_info;
 
+// NOTE: The conversion routines store at most max_len characters and return the full length of their text
 zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__format_info *info, char const *str) {
-    zpl_isize res = 0, len = 0;
-    zpl_isize remaining = max_len;
-    char *begin = text;
+    zpl_isize len, padding = 0, res = 0, i;
+    char pad = ' ';
+    zpl_b32 pad_right = false;
 
-    if (str == NULL && max_len >= 6) {
-        res += zpl_strlcpy(text, "(null)", 6);
-        return res;
-    }
+    if (str == NULL) str = "(null)";
 
     if (info && info->precision >= 0)
         len = zpl_strnlen(str, info->precision);
     else
         len = zpl_strlen(str);
 
-    if (info && (info->width == 0 && info->flags & ZPL_FMT_WIDTH)) {
-        return res;
-    }
-
-    if (info && (info->width == 0 || info->flags & ZPL_FMT_MINUS)) {
-        if (info->precision > 0) len = info->precision < len ? info->precision : len;
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
-        text += res;
+    if (info) {
+        if (info->width == 0 && info->flags & ZPL_FMT_WIDTH) return 0;
 
-        if (info->width > res) {
-            zpl_isize padding = info->width - len;
+        pad_right = (info->flags & ZPL_FMT_MINUS) != 0;
+        if (info->flags & ZPL_FMT_ZERO && !pad_right) pad = '0';
+        if (info->width > len) padding = info->width - len;
+    }
 
-            char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
-        }
-    } else {
-        if (info && (info->width > res)) {
-            zpl_isize padding = info->width - len;
-            char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
-        }
+    if (!pad_right) {
+        for (i = 0; i < padding && res + i < max_len; i++) text[res + i] = pad;
+        res += padding;
+    }
 
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
+    for (i = 0; i < len && res + i < max_len; i++) {
+        char c = str[i];
+        if (info && info->flags & ZPL_FMT_UPPER) c = zpl_char_to_upper(c);
+        else if (info && info->flags & ZPL_FMT_LOWER) c = zpl_char_to_lower(c);
+        text[res + i] = c;
     }
+    res += len;
 
-    if (info) {
-        if (info->flags & ZPL_FMT_UPPER)
-            zpl_str_to_upper(begin);
-        else if (info->flags & ZPL_FMT_LOWER)
-            zpl_str_to_lower(begin);
+    if (pad_right) {
+        for (i = 0; i < padding && res + i < max_len; i++) text[res + i] = pad;
+        res += padding;
     }
 
     return res;
@@ -181,10 +172,8 @@ zpl_internal zpl_isize zpl__print_char(char *text, zpl_isize max_len, zpl__forma
 }
 
 zpl_internal zpl_isize zpl__print_repeated_char(char *text, zpl_isize max_len, zpl__format_info *info, char arg) {
-    zpl_isize res = 0;
-    zpl_i32 rem = (info) ? (info->width > 0) ? info->width : 1 : 1;
-    res = rem;
-    while (rem-- > 0) *text++ = arg;
+    zpl_isize i, res = (info) ? (info->width > 0) ? info->width : 1 : 1;
+    for (i = 0; i < res && i < max_len; i++) text[i] = arg;
 
     return res;
 }
@@ -203,92 +192,81 @@ zpl_internal zpl_isize zpl__print_u64(char *text, zpl_isize max_len, zpl__format
 
 zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_b32 is_hexadecimal, zpl_f64 arg) {
     // TODO: Handle exponent notation
-    zpl_isize width, len, remaining = max_len;
-    char *text_begin = text;
+    zpl_isize len = 0, sign = 0, room, i;
+
+    // NOTE: text + len and max_len - len, but never past the end
+#define ZPL__PRINT_REST text + zpl_min(len, max_len), zpl_max(max_len - len, 0)
 
     if (arg) {
         zpl_u64 value;
         if (arg < 0) {
-            if (remaining > 1) *text = '-', remaining--;
-            text++;
+            len += zpl__print_char(ZPL__PRINT_REST, NULL, '-');
             arg = -arg;
-        } else if (info->flags & ZPL_FMT_MINUS) {
-            if (remaining > 1) *text = '+', remaining--;
-            text++;
+        } else if (info->flags & ZPL_FMT_PLUS) {
+            len += zpl__print_char(ZPL__PRINT_REST, NULL, '+');
         }
+        sign = len;
 
         value = cast(zpl_u64) arg;
-        len = zpl__print_u64(text, remaining, NULL, value);
-        text += len;
-
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
+        len += zpl__print_u64(ZPL__PRINT_REST, NULL, value);
         arg -= value;
 
         if (info->precision < 0) info->precision = 6;
 
         if ((info->flags & ZPL_FMT_ALT) || info->precision > 0) {
             zpl_i64 mult = 10;
-            if (remaining > 1) *text = '.', remaining--;
-            text++;
+            len += zpl__print_char(ZPL__PRINT_REST, NULL, '.');
             while (info->precision-- > 0) {
                 value = cast(zpl_u64)(arg * mult);
-                len = zpl__print_u64(text, remaining, NULL, value);
-                text += len;
-                if (len >= remaining)
-                    remaining = zpl_min(remaining, 1);
-                else
-                    remaining -= len;
+                len += zpl__print_u64(ZPL__PRINT_REST, NULL, value);
                 arg -= cast(zpl_f64) value / mult;
                 mult *= 10;
             }
         }
     } else {
-        if (remaining > 1) *text = '0', remaining--;
-        text++;
-        if (info->flags & ZPL_FMT_ALT) {
-            if (remaining > 1) *text = '.', remaining--;
-            text++;
-        }
+        len += zpl__print_char(ZPL__PRINT_REST, NULL, '0');
+        if (info->flags & ZPL_FMT_ALT) len += zpl__print_char(ZPL__PRINT_REST, NULL, '.');
     }
 
-    width = info->width - (text - text_begin);
-    if (width > 0) {
-        char fill = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-        char *end = text + remaining - 1;
-        len = (text - text_begin);
-
-        for (len = (text - text_begin); len--;) {
-            if ((text_begin + len + width) < end) *(text_begin + len + width) = *(text_begin + len);
-        }
-
-        len = width;
-        text += len;
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
+#undef ZPL__PRINT_REST
 
-        while (len--) {
-            if (text_begin + len < end) text_begin[len] = fill;
+    if (info->width > len) {
+        zpl_isize padding = info->width - len;
+        if (info->flags & ZPL_FMT_MINUS) {
+            for (i = len; i < info->width && i < max_len; i++) text[i] = ' ';
+        } else {
+            zpl_isize start = (info->flags & ZPL_FMT_ZERO) ? sign : 0;
+            room = zpl_min(info->width, max_len);
+            for (i = room - 1; i >= start + padding; i--) text[i] = text[i - padding];
+            for (i = start; i < start + padding && i < max_len; i++) text[i] = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
         }
+        len = info->width;
     }
 
-    return (text - text_begin);
+    return len;
 }
 
 ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char const *fmt, va_list va) {
     char const *text_begin = text;
-    zpl_isize remaining = max_len, res;
+    zpl_isize remaining = max_len - 1; // NOTE: one is kept for the terminator
+    zpl_b32 truncated = false;
+
+    if (max_len <= 0) return -1;
 
     while (*fmt) {
         zpl__format_info info = { 0 };
         zpl_isize len = 0;
         info.precision = -1;
 
-        while (*fmt && *fmt != '%' && remaining) *text++ = *fmt++;
+        while (*fmt && *fmt != '%') {
+            if (remaining > 0) {
+                *text++ = *fmt;
+                remaining--;
+            } else {
+                truncated = true;
+            }
+            fmt++;
+        }
 
         if (*fmt == '%') {
             do {
@@ -441,16 +419,16 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             }
         }
 
+        if (len > remaining) {
+            truncated = true;
+            len = remaining;
+        }
         text += len;
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
+        remaining -= len;
     }
 
     *text++ = '\0';
-    res = (text - text_begin);
-    return (res >= max_len || res < 0) ? -1 : res;
+    return truncated ? -1 : (text - text_begin);
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From 482e16e0314fd343e046f7c4b0d0b5315ba093ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 045/117] fix: zero padding of negative numbers put the zeros
 before the sign

---
 code/source/core/print.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index 4d61607..3b7c3c0 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -181,6 +181,11 @@ zpl_internal zpl_isize zpl__print_repeated_char(char *text, zpl_isize max_len, z
 zpl_internal zpl_isize zpl__print_i64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_i64 value) {
     char num[130];
     zpl_i64_to_str(value, num, info ? info->base : 10);
+    if (info && num[0] == '-' && info->flags & ZPL_FMT_ZERO && !(info->flags & ZPL_FMT_MINUS) && info->width > 1) {
+        if (max_len > 0) *text = '-';
+        info->width--;
+        return 1 + zpl__print_string(text + (max_len > 0), zpl_max(max_len - 1, 0), info, num + 1);
+    }
     return zpl__print_string(text, max_len, info, num);
 }
 
-- 
2.43.0


From f94ae65e1abe206662d1aad2ccf7bbd16ac22e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 046/117] fix: zpl_string_append_fmt moved the length backwards
 when the formatted text did not fit

---
 code/source/core/stringlib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 6db304b..fe3eac3 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -198,6 +198,7 @@ zpl_string zpl_string_append_fmt(zpl_string str, const char *fmt, ...) {
     va_start(va, fmt);
     res = zpl_snprintf_va(buf, zpl_count_of(buf) - 1, fmt, va) - 1;
     va_end(va);
+    if (res < 0) res = zpl_strlen(buf);
     return zpl_string_append_length(str, buf, res);
 }
 
-- 
2.43.0


From a8dbe8f4e08c75ece18afe6eea3394f4cc2de15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 047/117] fix: fixed-point output dropped digits by truncation,
 3.25 with three places became 3.249

---
 code/source/core/print.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index 3b7c3c0..35a4f9f 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -212,20 +212,25 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
         }
         sign = len;
 
+        if (info->precision < 0) info->precision = 6;
+
+        // NOTE: fraction in units of 2^-64, rounded to the last printed place
+        zpl_u64 fraction = 0, half = 1ull << 63;
         value = cast(zpl_u64) arg;
-        len += zpl__print_u64(ZPL__PRINT_REST, NULL, value);
-        arg -= value;
+        if (arg < 9007199254740992.0) fraction = cast(zpl_u64)((arg - value) * 18446744073709551616.0);
+        for (i = 0; i < info->precision && half; i++) half /= 10;
+        fraction += half + 1;
+        if (fraction <= half) value++;
 
-        if (info->precision < 0) info->precision = 6;
+        len += zpl__print_u64(ZPL__PRINT_REST, NULL, value);
 
         if ((info->flags & ZPL_FMT_ALT) || info->precision > 0) {
-            zpl_i64 mult = 10;
             len += zpl__print_char(ZPL__PRINT_REST, NULL, '.');
             while (info->precision-- > 0) {
-                value = cast(zpl_u64)(arg * mult);
-                len += zpl__print_u64(ZPL__PRINT_REST, NULL, value);
-                arg -= cast(zpl_f64) value / mult;
-                mult *= 10;
+                zpl_u64 low = (fraction & 0xffffffffull) * 10;
+                zpl_u64 high = (fraction >> 32) * 10 + (low >> 32);
+                fraction = (high << 32) | (low & 0xffffffffull);
+                len += zpl__print_char(ZPL__PRINT_REST, NULL, cast(char)('0' + (high >> 32)));
             }
         }
     } else {
-- 
2.43.0


From 713261a353c60b3add721e939d96ec85f82e9f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 048/117] fix: fixed-point output keeps truncating to the
 printed places but no longer loses digits the value has (3.25 is 3.250)

---
 code/source/core/print.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index 35a4f9f..4ab7067 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -214,13 +214,14 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
 
         if (info->precision < 0) info->precision = 6;
 
-        // NOTE: fraction in units of 2^-64, rounded to the last printed place
-        zpl_u64 fraction = 0, half = 1ull << 63;
+        // NOTE: fraction in units of 2^-64; a value within its own accuracy of a shorter decimal prints as that decimal
+        zpl_u64 fraction = 0;
         value = cast(zpl_u64) arg;
-        if (arg < 9007199254740992.0) fraction = cast(zpl_u64)((arg - value) * 18446744073709551616.0);
-        for (i = 0; i < info->precision && half; i++) half /= 10;
-        fraction += half + 1;
-        if (fraction <= half) value++;
+        if (arg < 4503599627370496.0) {
+            zpl_u64 slack = cast(zpl_u64)(arg * 2048.0) + 2;
+            fraction = cast(zpl_u64)((arg - value) * 18446744073709551616.0) + slack;
+            if (fraction < slack) value++;
+        }
 
         len += zpl__print_u64(ZPL__PRINT_REST, NULL, value);
 
-- 
2.43.0


From e7f6d54627a72aa5f48c8d50ba283a9146858a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 049/117] fix: printing infinities, NaN and numbers beyond 64
 bits converted out of range and printed garbage

---
 code/source/core/print.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index 4ab7067..6ddb8ba 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -197,12 +197,15 @@ zpl_internal zpl_isize zpl__print_u64(char *text, zpl_isize max_len, zpl__format
 
 zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_b32 is_hexadecimal, zpl_f64 arg) {
     // TODO: Handle exponent notation
-    zpl_isize len = 0, sign = 0, room, i;
+    zpl_isize len = 0, sign = 0, zeros = 0, room, i;
 
     // NOTE: text + len and max_len - len, but never past the end
 #define ZPL__PRINT_REST text + zpl_min(len, max_len), zpl_max(max_len - len, 0)
 
-    if (arg) {
+    if (arg != arg) {
+        len += zpl__print_string(ZPL__PRINT_REST, NULL, "nan");
+        info->flags &= ~ZPL_FMT_ZERO;
+    } else if (arg) {
         zpl_u64 value;
         if (arg < 0) {
             len += zpl__print_char(ZPL__PRINT_REST, NULL, '-');
@@ -212,6 +215,14 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
         }
         sign = len;
 
+        if (arg > 1.7976931348623157e308) {
+            len += zpl__print_string(ZPL__PRINT_REST, NULL, "inf");
+            info->flags &= ~ZPL_FMT_ZERO;
+            goto fill;
+        }
+
+        while (arg >= 1e19) arg /= 10, zeros++; // NOTE: the rest is beyond the accuracy of the type
+
         if (info->precision < 0) info->precision = 6;
 
         // NOTE: fraction in units of 2^-64; a value within its own accuracy of a shorter decimal prints as that decimal
@@ -224,6 +235,7 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
         }
 
         len += zpl__print_u64(ZPL__PRINT_REST, NULL, value);
+        while (zeros-- > 0) len += zpl__print_char(ZPL__PRINT_REST, NULL, '0');
 
         if ((info->flags & ZPL_FMT_ALT) || info->precision > 0) {
             len += zpl__print_char(ZPL__PRINT_REST, NULL, '.');
@@ -241,6 +253,7 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
 
 #undef ZPL__PRINT_REST
 
+fill:
     if (info->width > len) {
         zpl_isize padding = info->width - len;
         if (info->flags & ZPL_FMT_MINUS) {
-- 
2.43.0


From f3988ff7cb8435dc2ca364e188b78a2244ab5c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:47 +0000
Subject: [PATCH 050/117] fix: growing, inserting into, moving within or
 swapping nodes of a document tree left stale parent links and dangling node
 pointers

---
 code/source/adt.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index e8df32b..525e245 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -216,6 +216,16 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     return found_node;
 }
 
+/* nodes are stored by value: whenever they change their place, their children have to follow */
+zpl_internal void zpl__adt_relink(zpl_adt_node *nodes, zpl_isize from, zpl_isize to) {
+    for (zpl_isize i = from; i < to; ++i) {
+        zpl_adt_node *node = nodes + i;
+        if ((node->type == ZPL_ADT_TYPE_OBJECT || node->type == ZPL_ADT_TYPE_ARRAY) && node->nodes) {
+            for (zpl_isize j = 0; j < zpl_array_count(node->nodes); ++j) { node->nodes[j].parent = node; }
+        }
+    }
+}
+
 zpl_adt_node *zpl_adt_alloc_at(zpl_adt_node *parent, zpl_isize index) {
     if (!parent || (parent->type != ZPL_ADT_TYPE_OBJECT && parent->type != ZPL_ADT_TYPE_ARRAY)) {
         return NULL;
@@ -229,9 +239,12 @@ zpl_adt_node *zpl_adt_alloc_at(zpl_adt_node *parent, zpl_isize index) {
 
     zpl_adt_node o = {0};
     o.parent = parent;
+    zpl_adt_node *old_nodes = parent->nodes;
     if (!zpl_array_append_at(parent->nodes, o, index))
         return NULL;
 
+    zpl__adt_relink(parent->nodes, parent->nodes == old_nodes ? index + 1 : 0, zpl_array_count(parent->nodes));
+
     return parent->nodes + index;
 }
 
@@ -272,12 +285,21 @@ zpl_b8 zpl_adt_set_int(zpl_adt_node *obj, char const *name, zpl_i64 value) {
 zpl_adt_node *zpl_adt_move_node_at(zpl_adt_node *node, zpl_adt_node *new_parent, zpl_isize index) {
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(new_parent);
-    zpl_adt_node *old_parent = node->parent;
+    zpl_b32 is_same_parent = node->parent == new_parent;
+    zpl_isize old_index = is_same_parent ? (zpl_pointer_diff(new_parent->nodes, node) / zpl_size_of(zpl_adt_node)) : -1;
     zpl_adt_node *new_node = zpl_adt_alloc_at(new_parent, index);
+    if (!new_node)
+        return NULL;
+    if (is_same_parent) {
+        /* the allocation might have moved our node as well */
+        node = new_parent->nodes + old_index + (old_index >= index ? 1 : 0);
+    }
     *new_node = *node;
     new_node->parent = new_parent;
-    if (old_parent) {
+    zpl__adt_relink(new_node, 0, 1);
+    if (node->parent) {
         zpl_adt_remove_node(node);
+        if (is_same_parent && old_index < index) --new_node;
     }
     return new_node;
 }
@@ -301,6 +323,8 @@ void zpl_adt_swap_nodes(zpl_adt_node *node, zpl_adt_node *other_node) {
     other_parent->nodes[index2].parent = parent;
     parent->nodes[index] = other_parent->nodes[index2];
     other_parent->nodes[index2] = temp;
+    zpl__adt_relink(parent->nodes, index, index + 1);
+    zpl__adt_relink(other_parent->nodes, index2, index2 + 1);
 }
 
 void zpl_adt_remove_node(zpl_adt_node *node) {
@@ -309,6 +333,7 @@ void zpl_adt_remove_node(zpl_adt_node *node) {
     zpl_adt_node *parent = node->parent;
     zpl_isize index = (zpl_pointer_diff(parent->nodes, node) / zpl_size_of(zpl_adt_node));
     zpl_array_remove_at(parent->nodes, index);
+    zpl__adt_relink(parent->nodes, index, zpl_array_count(parent->nodes));
 }
 
 
-- 
2.43.0


From e96087d670d9a5c877a19b3ca8383a41a44554cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 051/117] fix: numbers in documents lost their sign, exponent,
 hexadecimal digits or value, digits overflowed fixed buffers, and words of
 hexadecimal letters became numbers

---
 code/header/adt.h         |   4 +-
 code/source/adt.c         | 150 ++++++++++++++++++++------------------
 code/source/core/string.c |   2 +-
 3 files changed, 83 insertions(+), 73 deletions(-)

diff --git a/code/header/adt.h b/code/header/adt.h
index 88b7210..010403c 100644
--- a/code/header/adt.h
+++ b/code/header/adt.h
@@ -84,8 +84,8 @@ typedef struct zpl_adt_node {
             /* number analysis */
             zpl_i32 base;
             zpl_i32 base2;
-            zpl_u8 base2_offset:4;
-            zpl_i8 exp         :4;
+            zpl_i16 exp;
+            zpl_u8 base2_offset;
             zpl_u8 neg_zero  :1;
             zpl_u8 lead_digit:1;
 #endif
diff --git a/code/source/adt.c b/code/source/adt.c
index 525e245..15cef0d 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -383,12 +383,17 @@ char *zpl_adt_parse_number_strict(zpl_adt_node *node, char* base_str) {
     while (*e)
         ++e;
 
-    while (*p && (zpl_strchr("eE.+-", *p) || zpl_char_is_hex_digit(*p))) {
+    while (*p && (zpl_strchr("eExX.+-", *p) || zpl_char_is_hex_digit(*p))) {
         ++p;
     }
 
-    if (p >= e) {
-        return zpl_adt_parse_number(node, base_str);
+    if (p >= e && p > base_str) {
+        zpl_adt_node number = *node;
+        number.type = ZPL_ADT_TYPE_UNINITIALISED;
+        if (zpl_adt_parse_number(&number, base_str) == e && (number.type == ZPL_ADT_TYPE_INTEGER || number.type == ZPL_ADT_TYPE_REAL)) {
+            *node = number;
+            return e;
+        }
     }
 
     return base_str;
@@ -397,119 +402,122 @@ char *zpl_adt_parse_number_strict(zpl_adt_node *node, char* base_str) {
 char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(base_str);
-    char *p = base_str, *e = p;
+    char *e = base_str;
 
     zpl_i32 base=0;
     zpl_i32 base2=0;
     zpl_u8 base2_offset=0;
-    zpl_i8 exp=0,orig_exp=0;
+    zpl_i16 exp=0;
     zpl_u8 neg_zero=0;
     zpl_u8 lead_digit=0;
     zpl_u8 node_type=0;
     zpl_u8 node_props=0;
 
-    /* skip false positives and special cases */
-    if (!!zpl_strchr("eE", *p) || (!!zpl_strchr(".+-", *p) && !zpl_char_is_hex_digit(*(p+1)) && *(p+1) != '.')) {
-        return ++base_str;
-    }
-
     node_type = ZPL_ADT_TYPE_INTEGER;
     neg_zero = false;
 
-    zpl_isize ib = 0;
-    char buf[48] = { 0 };
+    zpl_b32 is_neg = (*e == '-');
+    zpl_u64 const limit = is_neg ? (1ull << 63) : (1ull << 63) - 1;
+    zpl_u64 value = 0;
+    zpl_b32 fits = true;
+    zpl_isize digits = 0;
 
-    if (*e == '+')
+    if (*e == '+' || *e == '-')
         ++e;
-    else if (*e == '-') {
-        buf[ib++] = *e++;
-    }
-
-    if (*e == '.') {
-        node_type = ZPL_ADT_TYPE_REAL;
-        node_props = ZPL_ADT_PROPS_IS_PARSED_REAL;
-        lead_digit = false;
-        buf[ib++] = '0';
-        do {
-            buf[ib++] = *e;
-        } while (zpl_char_is_digit(*++e));
-    } else {
-        if (!zpl_strncmp(e, "0x", 2) || !zpl_strncmp(e, "0X", 2)) { node_props = ZPL_ADT_PROPS_IS_HEX; }
 
-        /* bail if ZPL_ADT_PROPS_IS_HEX is unset but we get 'x' on input */
-        if (zpl_char_to_lower(*e) == 'x' && (node_props != ZPL_ADT_PROPS_IS_HEX)) {
-            return ++base_str;
-        }
+    char *int_p = e, *frac_p = NULL;
 
-        while (zpl_char_is_hex_digit(*e) || zpl_char_to_lower(*e) == 'x') { buf[ib++] = *e++; }
+    if (*e == '0' && zpl_char_to_lower(*(e+1)) == 'x' && zpl_char_is_hex_digit(*(e+2))) {
+        node_props = ZPL_ADT_PROPS_IS_HEX;
+        for (e += 2; zpl_char_is_hex_digit(*e); ++e, ++digits) { value = (value << 4) | cast(zpl_u64)zpl_hex_digit_to_int(*e); }
+    } else {
+        for (; zpl_char_is_digit(*e); ++e, ++digits) {
+            zpl_u64 digit = cast(zpl_u64)zpl_digit_to_int(*e);
+            fits = fits && value <= (limit - digit) / 10;
+            value = value * 10 + digit;
+        }
 
         if (*e == '.') {
             node_type = ZPL_ADT_TYPE_REAL;
-            lead_digit = true;
-            zpl_u32 step = 0;
-
-            do {
-                buf[ib++] = *e;
-                ++step;
-            } while (zpl_char_is_digit(*++e));
-
-            if (step < 2) { buf[ib++] = '0'; }
+            lead_digit = digits > 0;
+            if (!lead_digit) node_props = ZPL_ADT_PROPS_IS_PARSED_REAL;
+            for (frac_p = ++e; zpl_char_is_digit(*e); ++e) { ++digits; }
         }
     }
 
-    /* check if we have a dot here, this is a false positive (IP address, ...) */
-    if (*e == '.') {
-        return ++base_str;
+    /* skip false positives and special cases: no digits at all, or one more dot (IP address, ...) */
+    if (digits == 0 || *e == '.') {
+        return *base_str ? ++base_str : base_str;
     }
 
-    zpl_f32 eb = 10;
-    char expbuf[6] = { 0 };
-    zpl_isize expi = 0;
+    if (node_props != ZPL_ADT_PROPS_IS_HEX && (*e == 'e' || *e == 'E')) {
+        char *exp_p = e + 1;
+        zpl_b32 exp_neg = (*exp_p == '-');
+        if (*exp_p == '+' || *exp_p == '-') { ++exp_p; }
+        if (zpl_char_is_digit(*exp_p)) {
+            for (; zpl_char_is_digit(*exp_p); ++exp_p) { exp = cast(zpl_i16)zpl_min(exp * 10 + zpl_digit_to_int(*exp_p), 9999); }
+            e = exp_p;
+            if (exp_neg) exp = -exp;
+        }
+    }
 
-    if (*e && !!zpl_strchr("eE", *e)) {
-        ++e;
-        if (*e == '+' || *e == '-' || zpl_char_is_digit(*e)) {
-            if (*e == '-') { eb = 0.1f; }
-            if (!zpl_char_is_digit(*e)) { ++e; }
-            while (zpl_char_is_digit(*e)) { expbuf[expi++] = *e++; }
+    if (node_type == ZPL_ADT_TYPE_INTEGER && node_props != ZPL_ADT_PROPS_IS_HEX) {
+        for (zpl_isize i = 0; i < exp && value && fits; ++i) {
+            fits = value <= limit / 10;
+            value *= 10;
         }
 
-        orig_exp = exp = (zpl_u8)zpl_str_to_i64(expbuf, NULL, 10);
+        /* not an integer or out of its range */
+        if (!fits || (exp < 0 && value)) {
+            node_type = ZPL_ADT_TYPE_REAL;
+            lead_digit = true;
+        }
     }
 
     if (node_type == ZPL_ADT_TYPE_INTEGER) {
-        node->integer = zpl_str_to_i64(buf, 0, 0);
+        node->integer = cast(zpl_i64)(is_neg ? 0 - value : value);
+        exp = 0;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
         /* special case: negative zero */
-        if (node->integer == 0 && buf[0] == '-') {
+        if (node->integer == 0 && is_neg) {
             neg_zero = true;
         }
 #endif
-        while (orig_exp-- > 0) { node->integer *= (zpl_i64)eb; }
     } else {
-        node->real = zpl_str_to_f64(buf, 0);
+        node->real = zpl_str_to_f64(base_str, 0);
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-        char *q = buf, *base_string = q, *base_string2 = q;
-        base_string = cast(char *)zpl_str_skip(base_string, '.');
-        *base_string = '\0';
-        base_string2 = base_string + 1;
-        char *base_string_off = base_string2;
-        while (*base_string_off++ == '0') base2_offset++;
-
-        base = (zpl_i32)zpl_str_to_i64(q, 0, 0);
-        base2 = (zpl_i32)zpl_str_to_i64(base_string2, 0, 0);
+        char *frac_e = frac_p;
+        zpl_u64 fraction = 0;
+        zpl_isize offset = 0;
+        for (; frac_p && *frac_p == '0'; ++frac_p) { ++offset; }
+        for (frac_e = frac_p; frac_e && zpl_char_is_digit(*frac_e); ++frac_e) {
+            if (fraction < ZPL_I32_MAX) fraction = fraction * 10 + cast(zpl_u64)zpl_digit_to_int(*frac_e);
+        }
+
+        zpl_i64 whole = 0;
+        for (char *q = int_p; zpl_char_is_digit(*q); ++q) {
+            if (whole < ZPL_I32_MAX) whole = whole * 10 + zpl_digit_to_int(*q);
+        }
+
         if (exp) {
-            exp = exp * (!(eb == 10.0f) ? -1 : 1);
             node_props = ZPL_ADT_PROPS_IS_EXP;
         }
 
+        /* the analysis has to be able to hold the number, otherwise it's up to its value */
+        if (whole > ZPL_I32_MAX || fraction > ZPL_I32_MAX || offset > ZPL_U8_MAX) {
+            node_props = 0;
+        } else {
+            base = cast(zpl_i32)(is_neg ? -whole : whole);
+            base2 = cast(zpl_i32)fraction;
+            base2_offset = cast(zpl_u8)offset;
+        }
+
         /* special case: negative zero */
-        if (base == 0 && buf[0] == '-') {
+        if (whole == 0 && is_neg && (node_props != 0 || node->real == 0)) {
             neg_zero = true;
         }
 #endif
-        while (orig_exp-- > 0) { node->real *= eb; }
     }
 
     node->type = node_type;
@@ -523,6 +531,8 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     node->neg_zero = neg_zero;
     node->lead_digit = lead_digit;
 #else
+    zpl_unused(int_p);
+    zpl_unused(frac_p);
     zpl_unused(base);
     zpl_unused(base2);
     zpl_unused(base2_offset);
diff --git a/code/source/core/string.c b/code/source/core/string.c
index 1166ed1..44c13f1 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -186,7 +186,7 @@ zpl_f64 zpl_str_to_f64(const char *str, char **end_ptr) {
             str++;
         }
 
-        for (exp = 0; zpl_char_is_digit(*str); str++) { exp = exp * 10 + (*str - '0'); }
+        for (exp = 0; zpl_char_is_digit(*str); str++) { if (exp <= 308) exp = exp * 10 + (*str - '0'); }
         if (exp > 308) exp = 308;
 
         while (exp >= 50) {
-- 
2.43.0


From c090efd8637fe42cd807ace265ec7d5253290d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:03 +0000
Subject: [PATCH 052/117] fix: a document query for something that is not an
 index found the first element of an array

---
 code/source/adt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 15cef0d..78b1fae 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -202,8 +202,9 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     }
     /* handle array index lookup */
     else {
-        zpl_isize idx = (zpl_isize)zpl_str_to_i64(buf, NULL, 10);
-        if (idx >= 0 && idx < zpl_array_count(node->nodes)) {
+        char *idx_end = buf;
+        zpl_isize idx = (zpl_isize)zpl_str_to_i64(buf, &idx_end, 10);
+        if (idx_end != buf && *idx_end == 0 && idx >= 0 && idx < zpl_array_count(node->nodes)) {
             found_node = &node->nodes[idx];
 
             /* go deeper if uri continues */
-- 
2.43.0


From b0482be0f6939468d292f48d9987a8dac9f8e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:50 +0000
Subject: [PATCH 053/117] fix: decimal fractions were parsed with accumulated
 rounding errors, so that 4.025 was not the nearest number and printed as
 4.024999

---
 code/source/core/string.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 44c13f1..09e2040 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -164,13 +164,19 @@ zpl_f64 zpl_str_to_f64(const char *str, char **end_ptr) {
     for (value = 0.0; zpl_char_is_digit(*str); str++) { value = value * 10.0 + (*str - '0'); }
 
     if (*str == '.') {
-        zpl_f64 pow10 = 10.0;
+        zpl_f64 pow10 = 1.0, div = 1.0, rest = 0.0;
         str++;
         while (zpl_char_is_digit(*str)) {
-            value += (*str - '0') / pow10;
             pow10 *= 10.0;
+            if (value < 9e14) { // NOTE: still an exact integer
+                value = value * 10.0 + (*str - '0');
+                div = pow10;
+            } else {
+                rest += (*str - '0') / pow10;
+            }
             str++;
         }
+        value = value / div + rest;
     }
 
     frac = 0;
-- 
2.43.0


From 4bf6d85ddf9908e8130babd845957d75abf2e39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:27 +0000
Subject: [PATCH 054/117] fix: JSON parsing left the text on unterminated
 strings, comments, names and objects, skipped characters after comments, cut
 the text before it was known to be valid, lost parent links and leaked on
 errors

---
 code/source/parsers/json.c | 136 +++++++++++++++++++++++++++----------
 1 file changed, 101 insertions(+), 35 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 5b6e675..b10b408 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -20,6 +20,7 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
 char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code);
 char *zpl__json_parse_name(zpl_adt_node *obj, char *base, zpl_u8 *err_code);
 char *zpl__json_trim(char *base, zpl_b32 catch_newline);
+void zpl__json_finish(zpl_adt_node *node);
 zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_isize indent, zpl_b32 is_inline, zpl_b32 is_last);
 
 #define zpl__json_fprintf(s_, fmt_, ...)                                                                               \
@@ -43,6 +44,7 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
 #endif
 
     zpl__json_parse_object(root, text, a, &err_code);
+    if (err_code == ZPL_JSON_ERROR_NONE) zpl__json_finish(root);
     return err_code;
 }
 
@@ -54,8 +56,10 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
     zpl_file tmp;
     if (!zpl_file_stream_new(&tmp, a))
         return NULL;
-    if (!zpl_json_write(&tmp, obj, indent))
+    if (!zpl_json_write(&tmp, obj, indent)) {
+        zpl_file_close(&tmp);
         return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
@@ -69,12 +73,9 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
 do {\
 if (!zpl_array_append(x, item)) {\
     *err_code = ZPL_JSON_ERROR_OUT_OF_MEMORY;\
+    zpl_adt_destroy_branch(&item);\
     return NULL;\
 }\
-if (item.type == ZPL_ADT_TYPE_OBJECT || item.type == ZPL_ADT_TYPE_ARRAY) {\
-for (zpl_isize i = 0; i < zpl_array_count(item.nodes); i++)\
-item.nodes[i].parent = zpl_array_end(x);\
-}\
 } while (0);
 
 static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_assign_char(char c) { return !!zpl_strchr(":=|", c); }
@@ -87,11 +88,11 @@ static ZPL_ALWAYS_INLINE const char *zpl__json_string_eol(zpl_adt_node *o, zpl_i
 #endif
     return !force_new_line && indent == ZPL_JSON_INDENT_STYLE_COMPACT ? "" : "\n";
 }
-ZPL_DEF_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err);
+ZPL_DEF_INLINE zpl_b32 zpl__json_validate_name(char const *str, char const *end, char *err);
 
-#define jx(x) !zpl_char_is_hex_digit(str[x])
-ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err) {
-    while (*str) {
+#define jx(x) (str + x >= end || !zpl_char_is_hex_digit(str[x]))
+ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char const *end, char *err) {
+    while (str < end) {
         /* todo: refactor name validation. */
         if ((str[0] == '\\' && !zpl_char_is_control(str[1])) &&
             (str[0] == '\\' && jx(1) && jx(2) && jx(3) && jx(4))) {
@@ -106,6 +107,37 @@ ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err) {
 }
 #undef jx
 
+/* find the end of a quoted text, a backslash escapes the next character */
+zpl_internal char *zpl__json_skip_quoted(char *p, char c) {
+    while (*p && *p != c) { p += (*p == '\\' && *(p + 1)) ? 2 : 1; }
+    return p;
+}
+
+zpl_internal char *zpl__json_skip_name(char *p) {
+    zpl_str_advance_while(p, *p && (zpl_char_is_alphanumeric(*p) || *p == '_') && !zpl_char_is_space(*p) && !zpl__json_is_assign_char(*p));
+    return p;
+}
+
+/* cut the parsed text into names and strings (in their order) and link the nodes to their parents */
+void zpl__json_finish(zpl_adt_node *node) {
+    if (node->name) {
+        char *name = cast(char *)node->name;
+        char c = name[-1];
+        if (c == '"' || c == '\'') *zpl__json_skip_quoted(name, c) = '\0';
+        else *zpl__json_skip_name(name) = '\0';
+    }
+
+    if (node->type == ZPL_ADT_TYPE_STRING || node->type == ZPL_ADT_TYPE_MULTISTRING) {
+        char *string = cast(char *)node->string;
+        *zpl__json_skip_quoted(string, string[-1]) = '\0';
+    } else if (node->type == ZPL_ADT_TYPE_OBJECT || node->type == ZPL_ADT_TYPE_ARRAY) {
+        for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
+            node->nodes[i].parent = node;
+            zpl__json_finish(node->nodes + i);
+        }
+    }
+}
+
 char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
     ZPL_ASSERT(obj && base);
     char *p = base;
@@ -126,7 +158,15 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         zpl_adt_node elem = { 0 };
         p = zpl__json_parse_value(&elem, p, a, err_code);
 
-        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (*err_code == ZPL_JSON_ERROR_NONE && elem.type == ZPL_ADT_TYPE_UNINITIALISED) {
+            ZPL_JSON_ASSERT("value expected");
+            *err_code = ZPL_JSON_ERROR_ARRAY_LEFT_OPEN;
+        }
+
+        if (*err_code != ZPL_JSON_ERROR_NONE) {
+            zpl_adt_destroy_branch(&elem);
+            return NULL;
+        }
 
         zpl__json_append_node(obj->nodes, elem);
 
@@ -154,14 +194,19 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
     char *p = base, *b = p, *e = p;
 
     /* handle quoted strings */
-    if (!!zpl_strchr("`\"'", *p)) {
+    if (*p && !!zpl_strchr("`\"'", *p)) {
         char c = *p;
         obj->type = (c == '`') ? ZPL_ADT_TYPE_MULTISTRING : ZPL_ADT_TYPE_STRING;
         b = e = p + 1;
         obj->string = b;
-        e = cast(char *)zpl_str_skip_literal(e, c);
-        *e = '\0', p = e + 1;
-    } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)))) {
+        e = zpl__json_skip_quoted(e, c);
+        if (*e == '\0') {
+            ZPL_JSON_ASSERT("unterminated string");
+            *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+            return NULL;
+        }
+        p = e + 1;
+    } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)) && *(p + 1) != '.')) {
         /* handle constants */
         if (zpl_str_has_prefix(p, "true")) {
             obj->type = ZPL_ADT_TYPE_REAL;
@@ -207,7 +252,7 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         /* handle numbers */
         /* defer operation to our helper method. */
         p = zpl_adt_parse_number(obj, p);
-    } else if (!!zpl_strchr("[{", *p)) {
+    } else if (*p && !!zpl_strchr("[{", *p)) {
         /* handle compound objects */
         p = zpl__json_parse_object(obj, p, a, err_code);
         ++p;
@@ -221,6 +266,7 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
     char *p = base;
 
     p = zpl__json_trim(p, false);
+    zpl_b32 is_braced = *p == '{';
     /**/ if (*p == '{') { ++p; }
     else if (*p == '[') { /* special case for when we call this func on an array. */
         ++p;
@@ -250,7 +296,14 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         p = zpl__json_trim(p + 1, false);
         p = zpl__json_parse_value(&node, p, a, err_code);
-        if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (*err_code == ZPL_JSON_ERROR_NONE) {
+            if (!node.name) *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+            else if (node.type == ZPL_ADT_TYPE_UNINITIALISED) *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+        }
+        if (*err_code != ZPL_JSON_ERROR_NONE) {
+            zpl_adt_destroy_branch(&node);
+            return NULL;
+        }
 
         zpl__json_append_node(obj->nodes, node);
 
@@ -271,17 +324,24 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
             }
 #endif
             if (*p == 0) {
-                return p;
+                break;
             }
             ++p;
         }
         p = zpl__json_trim(p, false);
     } while (*p);
+
+    if (is_braced) {
+        ZPL_JSON_ASSERT("object left open");
+        *err_code = ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED;
+        return NULL;
+    }
     return p;
 }
 
 char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
     char *p = base, *b = p, *e = p;
+    char *name_end = p;
     zpl_u8 name_style=0;
 
     if (*p == '"' || *p == '\'' || zpl_char_is_alpha(*p) || *p == '_' || *p == '$') {
@@ -295,17 +355,21 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
 #endif
             char c = *p;
             b = ++p;
-            e = cast(char *)zpl_str_control_skip(b, c);
+            e = zpl__json_skip_quoted(b, c);
+            if (*e == '\0') {
+                ZPL_JSON_ASSERT("unterminated name");
+                *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+                return NULL;
+            }
             node->name = b;
-
-            /* we can safely null-terminate here, since "e" points to the quote pair end. */
-            *e++ = '\0';
+            name_end = e++;
         }
         else {
             b = e = p;
-            zpl_str_advance_while(e, *e && (zpl_char_is_alphanumeric(*e) || *e == '_') && !zpl_char_is_space(*e) && !zpl__json_is_assign_char(*e));
+            e = zpl__json_skip_name(e);
             node->name = b;
             name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
+            name_end = e;
             /* we defer null-termination as it can potentially wipe our assign char as well. */
         }
 
@@ -315,7 +379,7 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
         node->assign_line_width = cast(zpl_u8)(p-assign_p);
 #endif
 
-        if (*p && !zpl__json_is_assign_char(*p)) {
+        if (*p == 0 || !zpl__json_is_assign_char(*p)) {
             ZPL_JSON_ASSERT("invalid assignment");
             *err_code = ZPL_JSON_ERROR_INVALID_ASSIGNMENT;
             return NULL;
@@ -331,16 +395,14 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
 #endif
         }
 
-        /* since we already know the assign style, we can cut it here for unquoted names */
-        if (name_style == ZPL_ADT_NAME_STYLE_NO_QUOTES && *e) {
-            *e = '\0';
+        if (name_style == ZPL_ADT_NAME_STYLE_NO_QUOTES) {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             node->name_style = name_style;
 #endif
         }
     }
 
-    if (node->name && !zpl__json_validate_name(node->name, NULL)) {
+    if (node->name && !zpl__json_validate_name(node->name, name_end, NULL)) {
         ZPL_JSON_ASSERT("invalid name");
         *err_code = ZPL_JSON_ERROR_INVALID_NAME;
         return NULL;
@@ -352,26 +414,30 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
 char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
     ZPL_ASSERT_NOT_NULL(base);
     char *p = base;
-    do {
+    for (;;) {
         if (zpl_str_has_prefix(p, "//")) {
             const char *e = zpl_str_skip(p, '\n');
             p += (e-p);
         }
         else if (zpl_str_has_prefix(p, "/*")) {
-            const char *e = zpl_str_skip(p+2, '*');
-            if (*e && *(e+1) == '/') {
-                e+=2; /* advance past end comment block */
-                p += (e-p);
+            const char *e = p+2;
+            while (*e && !zpl_str_has_prefix(e, "*/")) { ++e; }
+            if (*e == 0) {
+                return p; /* the comment never ends */
             }
+            e+=2; /* advance past end comment block */
+            p += (e-p);
         }
         else if (*p == '\n' && catch_newline) {
             return p;
         }
-        else if (!zpl_char_is_space(*p)) {
+        else if (*p == 0 || !zpl_char_is_space(*p)) {
             return p;
         }
-    } while (*p++);
-    return NULL;
+        else {
+            ++p;
+        }
+    }
 }
 
 zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
-- 
2.43.0


From 977e44eafb29b3c999fa5d4bd260eae7b4d76bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:25 +0000
Subject: [PATCH 055/117] fix: JSON strings kept the escape of their quotes,
 which writing escaped once more

---
 code/source/parsers/json.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index b10b408..cdca2f7 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -20,7 +20,7 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
 char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code);
 char *zpl__json_parse_name(zpl_adt_node *obj, char *base, zpl_u8 *err_code);
 char *zpl__json_trim(char *base, zpl_b32 catch_newline);
-void zpl__json_finish(zpl_adt_node *node);
+void zpl__json_finish(zpl_adt_node *node, char const *base);
 zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_isize indent, zpl_b32 is_inline, zpl_b32 is_last);
 
 #define zpl__json_fprintf(s_, fmt_, ...)                                                                               \
@@ -44,7 +44,7 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
 #endif
 
     zpl__json_parse_object(root, text, a, &err_code);
-    if (err_code == ZPL_JSON_ERROR_NONE) zpl__json_finish(root);
+    if (err_code == ZPL_JSON_ERROR_NONE) zpl__json_finish(root, text);
     return err_code;
 }
 
@@ -119,21 +119,30 @@ zpl_internal char *zpl__json_skip_name(char *p) {
 }
 
 /* cut the parsed text into names and strings (in their order) and link the nodes to their parents */
-void zpl__json_finish(zpl_adt_node *node) {
+void zpl__json_finish(zpl_adt_node *node, char const *base) {
     if (node->name) {
         char *name = cast(char *)node->name;
-        char c = name[-1];
+        char c = name > base ? name[-1] : '\0';
         if (c == '"' || c == '\'') *zpl__json_skip_quoted(name, c) = '\0';
         else *zpl__json_skip_name(name) = '\0';
     }
 
     if (node->type == ZPL_ADT_TYPE_STRING || node->type == ZPL_ADT_TYPE_MULTISTRING) {
         char *string = cast(char *)node->string;
-        *zpl__json_skip_quoted(string, string[-1]) = '\0';
+        char c = string[-1];
+        char *end = zpl__json_skip_quoted(string, c);
+        for (char *p = string; p < end;) {
+            if (*p == '\\') {
+                if (*(p + 1) != '"' && *(p + 1) != '\'' && *(p + 1) != '`') *string++ = *p;
+                ++p;
+            }
+            *string++ = *p++;
+        }
+        *string = *end = '\0';
     } else if (node->type == ZPL_ADT_TYPE_OBJECT || node->type == ZPL_ADT_TYPE_ARRAY) {
         for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
             node->nodes[i].parent = node;
-            zpl__json_finish(node->nodes + i);
+            zpl__json_finish(node->nodes + i, base);
         }
     }
 }
-- 
2.43.0


From c265780fd3348facbbf09febcbfb97daf962afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:04 +0000
Subject: [PATCH 056/117] fix: writing configuration documents with nested
 objects or a positive indent, and nested objects ended by a line delimiter,
 put out text that cannot be parsed

---
 code/source/parsers/json.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index cdca2f7..8782c02 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -22,6 +22,7 @@ char *zpl__json_parse_name(zpl_adt_node *obj, char *base, zpl_u8 *err_code);
 char *zpl__json_trim(char *base, zpl_b32 catch_newline);
 void zpl__json_finish(zpl_adt_node *node, char const *base);
 zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_isize indent, zpl_b32 is_inline, zpl_b32 is_last);
+zpl_b8 zpl__json_write_node(zpl_file *f, zpl_adt_node *o, zpl_isize indent, zpl_b32 is_nested);
 
 #define zpl__json_fprintf(s_, fmt_, ...)                                                                               \
 do {                                                                                                               \
@@ -450,19 +451,24 @@ char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
 }
 
 zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
+    return zpl__json_write_node(f, o, indent, false);
+}
+
+zpl_b8 zpl__json_write_node(zpl_file *f, zpl_adt_node *o, zpl_isize indent, zpl_b32 is_nested) {
     if (!o)
         return true;
 
     ZPL_ASSERT(o->type == ZPL_ADT_TYPE_OBJECT || o->type == ZPL_ADT_TYPE_ARRAY);
 
-    zpl___ind(indent - 4);
+    zpl_b32 is_braced = true;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-    if (!o->cfg_mode)
-#else
-    if (1)
+    is_braced = is_nested || !o->cfg_mode;
 #endif
+
+    zpl___ind(indent - 4);
+    if (is_braced)
     zpl__json_fprintf(f, "%c%s", o->type == ZPL_ADT_TYPE_OBJECT ? '{' : '[', zpl__json_string_eol(o, indent));
-    else
+    else if (indent != ZPL_JSON_INDENT_STYLE_COMPACT)
     {
         indent -= 4;
     }
@@ -477,13 +483,8 @@ zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
 
     zpl___ind(indent);
 
-    if (indent > 0) {
-        zpl__json_fprintf(f, "%c", o->type == ZPL_ADT_TYPE_OBJECT ? '}' : ']');
-    } else {
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-        if (!o->cfg_mode)
-#endif
-        zpl__json_fprintf(f, "%c%s", o->type == ZPL_ADT_TYPE_OBJECT ? '}' : ']', zpl__json_string_eol(o, indent));
+    if (is_braced) {
+        zpl__json_fprintf(f, "%c%s", o->type == ZPL_ADT_TYPE_OBJECT ? '}' : ']', is_nested || indent > 0 ? "" : zpl__json_string_eol(o, indent));
     }
 
     return true;
@@ -561,7 +562,7 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
         } break;
 
         case ZPL_ADT_TYPE_OBJECT: {
-            if (!zpl_json_write(f, node, indent)) return false;
+            if (!zpl__json_write_node(f, node, indent, true)) return false;
         } break;
     }
 
-- 
2.43.0


From a34c072107f98cf05aea0fcf6f931f2da920712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:30 +0000
Subject: [PATCH 057/117] fix: CSV parsing dropped an empty last field,
 accepted rows of different lengths and text after a quoted field, unescaped
 beyond empty fields, turned hexadecimal words into numbers and header numbers
 into wild names, and could not use a tab as the delimiter

---
 code/source/parsers/csv.c | 71 ++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 4a1a5b3..6ef8309 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -10,19 +10,24 @@
 
 ZPL_BEGIN_C_DECLS
 
+zpl_internal char *zpl__csv_trim(char *p, char delim, zpl_b32 catch_newline) {
+    while (*p != delim && zpl_char_is_space(*p) && !(catch_newline && *p == '\n')) { ++p; }
+    return p;
+}
+
 zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator allocator, zpl_b32 has_header, char delim) {
     zpl_csv_error err = ZPL_CSV_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
     ZPL_ASSERT_NOT_NULL(text);
     zpl_zero_item(root);
-    zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true);
+    if (zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true)) return ZPL_CSV_ERROR_INTERNAL;
     char *p = text, *b = p, *e = p;
-    zpl_isize colc = 0, total_colc = 0;
+    zpl_isize colc = 0, total_colc = -1;
 
-    do {
+    for (;;) {
         char d = 0;
-        p = cast(char *)zpl_str_trim(p, false);
-        if (*p == 0) break;
+        p = zpl__csv_trim(p, delim, colc > 0);
+        if (*p == 0 && colc == 0) break;
         zpl_adt_node row_item = {0};
         row_item.type = ZPL_ADT_TYPE_STRING;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
@@ -49,46 +54,45 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
                 return err;
             }
             *e = 0;
-            p = cast(char *)zpl_str_trim(e+1, true);
+            p = zpl__csv_trim(e+1, delim, true);
             d = *p;
+            if (d && d != delim && d != '\n') {
+                ZPL_CSV_ASSERT("unexpected text after a quoted string");
+                err = ZPL_CSV_ERROR_INTERNAL;
+                return err;
+            }
 
             /* unescape escaped quotes (so that unescaped text escapes :) */
             {
                 char *ep = b;
-                do {
+                while (*ep) {
                     if (*ep == '"' && *(ep+1) == '"') {
                         zpl_memmove(ep, ep+1, zpl_strlen(ep));
                     }
                     ep++;
-                } while (*ep);
+                }
             }
         }
-        else if (*p == delim) {
+        else if (*p == delim || *p == '\n' || *p == 0) {
             d = *p;
             row_item.string = "";
         }
-        else if (*p) {
+        else {
             /* regular data */
             b = e = p;
             row_item.string = b;
             do {
                 e++;
             } while (*e && *e != delim && *e != '\n');
-            if (*e) {
-                p = cast(char *)zpl_str_trim(e, true);
-                while (zpl_char_is_space(*(e-1))) { e--; }
-                d = *p;
-                *e = 0;
-            }
-            else {
-                d = 0;
-                p = e;
-            }
+            p = e;
+            d = *p;
+            while (zpl_char_is_space(*(e-1))) { e--; }
+            *e = 0;
 
-            /* check if number and process if so */
-            zpl_b32 skip_number = false;
+            /* check if number and process if so, the header holds names */
+            zpl_b32 skip_number = has_header && total_colc < 0;
             char *num_p = b;
-            do {
+            if (!skip_number) do {
                 if (!zpl_char_is_hex_digit(*num_p) && (!zpl_strchr("+-.eExX", *num_p))) {
                     skip_number = true;
                     break;
@@ -96,32 +100,33 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             } while (*num_p++);
 
             if (!skip_number) {
-                zpl_adt_str_to_number(&row_item);
+                zpl_adt_str_to_number_strict(&row_item);
             }
         }
 
         if (colc >= zpl_array_count(root->nodes)) {
-            zpl_adt_append_arr(root, NULL);
+            if (!zpl_adt_append_arr(root, NULL)) return ZPL_CSV_ERROR_INTERNAL;
         }
 
-        zpl_array_append(root->nodes[colc].nodes, row_item);
+        if (!zpl_array_append(root->nodes[colc].nodes, row_item)) return ZPL_CSV_ERROR_INTERNAL;
 
         if (d == delim) {
             colc++;
             p++;
         }
-        else if (d == '\n' || d == 0) {
+        else {
             /* check if number of rows is not mismatched */
-            if (total_colc < colc) total_colc = colc;
+            if (total_colc < 0) total_colc = colc;
             else if (total_colc != colc) {
                 ZPL_CSV_ASSERT("mismatched rows");
                 err = ZPL_CSV_ERROR_MISMATCHED_ROWS;
                 return err;
             }
             colc = 0;
-            if (d != 0) p++;
+            if (d == 0) break;
+            p++;
         }
-    } while(*p);
+    }
 
     if (zpl_array_count(root->nodes) == 0) {
         ZPL_CSV_ASSERT("unexpected end of input. stream is empty.");
@@ -139,6 +144,12 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
         }
     }
 
+    for (zpl_isize i = 0; i < zpl_array_count(root->nodes); i++) {
+        for (zpl_isize j = 0; j < zpl_array_count(root->nodes[i].nodes); j++) {
+            root->nodes[i].nodes[j].parent = root->nodes + i;
+        }
+    }
+
     return err;
 }
 void zpl_csv_free(zpl_csv_object *obj) {
-- 
2.43.0


From aa3efa72d069f6287796215b2545a3f987f6bae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:30 +0000
Subject: [PATCH 058/117] fix: CSV files with a header and no rows were written
 as nothing, and a failed stream was written to

---
 code/source/parsers/csv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 6ef8309..093a66f 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -198,7 +198,6 @@ void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter
     if (cols == 0) return;
 
     zpl_isize rows = zpl_array_count(obj->nodes[0].nodes);
-    if (rows == 0) return;
 
     zpl_b32 has_headers = obj->nodes[0].name != NULL;
 
@@ -225,7 +224,8 @@ void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter
 
 zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj, char delimiter) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
+    if (!zpl_file_stream_new(&tmp, a))
+        return NULL;
     zpl_csv_write_delimiter(&tmp, obj, delimiter);
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
-- 
2.43.0


From 2f2d17875775cd0e626d615f2475b1562141b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:04 +0000
Subject: [PATCH 059/117] fix: URI parsing left the text on an unfinished
 percent escape, cut values at invalid ones, took text after white space for
 parameters and ignored failed allocations

---
 code/source/parsers/uri.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 846b84f..ac140ce 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -3,14 +3,14 @@
 ZPL_BEGIN_C_DECLS
 
 void zpl__uri_decode_str(char *text) {
-    char buf[ZPL_PRINTF_MAXLEN] = {0}, *p = buf;
+    char *p = text; /* the decoded text is never longer */
     char *tp = text;
     
     char ch = -1;
     while (*tp) {
         ch = *tp++;
         
-        if (ch != '%') {
+        if (ch != '%' || !zpl_char_is_hex_digit(tp[0]) || !zpl_char_is_hex_digit(tp[1])) {
             if (ch == '+') {
                 *(p++) = ' ';
             } else {
@@ -26,17 +26,15 @@ void zpl__uri_decode_str(char *text) {
         }
     }
     
-    zpl_strcpy(text, buf);
-    text[p-buf] = 0;
+    *p = 0;
 }
 
 zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a) {
     zpl_u8 err_code = ZPL_URI_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
     zpl_zero_item(root);
-    zpl_adt_set_obj(root, NULL, a);
-    if (origin)
-        zpl_adt_append_str(root, "__zpl_origin__", origin);
+    if (zpl_adt_set_obj(root, NULL, a)) return ZPL_URI_ERROR_INTERNAL;
+    if (origin && !zpl_adt_append_str(root, "__zpl_origin__", origin)) return ZPL_URI_ERROR_INTERNAL;
     return err_code;
 }
 
@@ -47,7 +45,7 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     zpl_zero_item(root);
     text = (char *)zpl_str_trim(text, false);
     
-    zpl_adt_set_obj(root, NULL, a);
+    if (zpl_adt_set_obj(root, NULL, a)) return ZPL_URI_ERROR_INTERNAL;
     
     char *p = text, *b = p;
 
@@ -61,9 +59,9 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
         char c = *p;
         *p = 0;
 
-        zpl_adt_append_str(root, "__zpl_origin__", b);
+        if (!zpl_adt_append_str(root, "__zpl_origin__", b)) return ZPL_URI_ERROR_INTERNAL;
         
-        if (!c) {
+        if (c != '?') {
             // NOTE(zaklaus): URI has no query params, bail
             return err_code;
         }
@@ -94,14 +92,16 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
             field_value = b;
             zpl__uri_decode_str(field_value);
             zpl_adt_node *obj = zpl_adt_append_str(root, field_name, field_value);
+            if (!obj) return ZPL_URI_ERROR_INTERNAL;
             zpl_adt_str_to_number_strict(obj);
         } else {
             zpl_adt_node *obj = zpl_adt_append_flt(root, field_name, 1);
+            if (!obj) return ZPL_URI_ERROR_INTERNAL;
             obj->props = ZPL_ADT_PROPS_TRUE;
         }
         
         
-        if (!c) {
+        if (!c || zpl_char_is_space(c)) {
             break;
         }
         
-- 
2.43.0


From 020864cb1e272b67a9f77877a159f969a771d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:04 +0000
Subject: [PATCH 060/117] fix: writing URIs used the origin as a format string
 and wild pointers for a parameter of the origin's name, and put out
 separators without parameters

---
 code/source/parsers/uri.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index ac140ce..aa1f6fc 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -147,19 +147,20 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     // NOTE(zaklaus): write URI origin if available
     {
         origin = zpl_adt_query(obj, "__zpl_origin__");
-        if (origin) {
-            zpl_fprintf(f, origin->string);
+        if (origin && origin->type != ZPL_ADT_TYPE_STRING) origin = NULL;
+        if (origin && origin->string) {
+            zpl_fprintf(f, "%s", origin->string);
         }
     }
     
 	// NOTE(zaklaus): write params
-	if (zpl_array_count(obj->nodes) > 0)
-    	zpl_fprintf(f, "%s", "?");
-    
+    char const *separator = "?";
     for (zpl_isize i = 0; i < zpl_array_count(obj->nodes); i++) {
         zpl_adt_node *n = (obj->nodes+i);
         if (origin == n) continue;
         
+        zpl_fprintf(f, "%s", separator);
+        separator = "&";
         zpl__uri_print_str(f, n->name);
 
         if (n->type == ZPL_ADT_TYPE_STRING) {
@@ -172,10 +173,6 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
                 zpl_adt_print_number(f, n);
            } 
         }
-        
-        if (i+1 < zpl_array_count(obj->nodes)) {
-            zpl_fprintf(f, "%s", "&");
-        }
     }
 }
 
@@ -185,7 +182,8 @@ void zpl_uri_free(zpl_adt_node *obj) {
 
 zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
+    if (!zpl_file_stream_new(&tmp, a))
+        return NULL;
     zpl_uri_write(&tmp, obj);
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
-- 
2.43.0


From d998ffcd241ff3ce5ffe1ae51e28d56ecf43a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:26 +0000
Subject: [PATCH 061/117] fix: trimming virtual memory released the kept range
 instead of the trailing one, and failures to allocate, free or purge were
 reported as success (or the reverse)

---
 code/source/core/memory_virtual.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index 7f16908..cac3f4f 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -77,13 +77,13 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
         zpl_virtual_memory vm;
         ZPL_ASSERT(size > 0);
         vm.data = mmap(addr, size, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_PRIVATE, -1, 0);
+        if (vm.data == MAP_FAILED) vm.data = NULL;
         vm.size = size;
         return vm;
     }
 
     zpl_b32 zpl_vm_free(zpl_virtual_memory vm) {
-        munmap(vm.data, vm.size);
-        return true;
+        return munmap(vm.data, vm.size) == 0;
     }
 
     zpl_virtual_memory zpl_vm_trim(zpl_virtual_memory vm, zpl_isize lead_size, zpl_isize size) {
@@ -95,13 +95,13 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
         trail_size = vm.size - lead_size - size;
 
         if (lead_size != 0) zpl_vm_free(zpl_vm(vm.data, lead_size));
-        if (trail_size != 0) zpl_vm_free(zpl_vm(ptr, trail_size));
+        if (trail_size != 0) zpl_vm_free(zpl_vm(zpl_pointer_add(ptr, size), trail_size));
         return zpl_vm(ptr, size);
     }
 
     zpl_b32 zpl_vm_purge(zpl_virtual_memory vm) {
         int err = madvise(vm.data, vm.size, MADV_DONTNEED);
-        return err != 0;
+        return err == 0;
     }
 
     zpl_isize zpl_virtual_memory_page_size(zpl_isize *alignment_out) {
-- 
2.43.0


From d9d5cc9a32f5857b854334440639f4f50e19459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:30 +0000
Subject: [PATCH 062/117] fix: listing directories recursively skipped
 sub-directories whose type the file system does not tell, and block devices
 and sockets were taken for folders

---
 code/source/core/file_misc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 85493de..6f86a4b 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -301,7 +301,12 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
             *output = zpl_string_appendc(*output, dirpath);
             *output = zpl_string_appendc(*output, "\n");
 
-            if (recurse && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
+            zpl_b32 is_dir = dir->d_type == DT_DIR;
+            if (recurse && dir->d_type == DT_UNKNOWN) {
+                struct stat s;
+                is_dir = lstat(dirpath, &s) == 0 && S_ISDIR(s.st_mode);
+            }
+            if (recurse && is_dir) { zpl__file_direntry(alloc, dirpath, output, recurse); }
             zpl_string_free(dirpath);
         }
         closedir(d);
@@ -425,7 +430,7 @@ zpl_u8 zpl_fs_get_type(char const *path) {
     struct stat s;
     if( stat(path,&s) == 0 )
     {
-        if(s.st_mode & S_IFDIR)
+        if(S_ISDIR(s.st_mode))
             return ZPL_DIR_TYPE_FOLDER;
         else
             return ZPL_DIR_TYPE_FILE;
-- 
2.43.0


From b41b8194633d9bd861b6770e6c8e02a78232473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:30 +0000
Subject: [PATCH 063/117] fix: making directories recursively reported success
 when the directory could not be made

---
 code/source/core/file_misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 6f86a4b..15cd192 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -257,8 +257,8 @@ zpl_isize zpl_path_mkdir_recursive(char const *path, zpl_i32 mode) {
             *p = ZPL_PATH_SEPARATOR;
         }
     }
-    zpl_path_mkdir(tmp, mode);
-    return 0;
+    zpl_file_error error = zpl_path_mkdir(tmp, mode);
+    return (error == ZPL_FILE_ERROR_NONE || error == ZPL_FILE_ERROR_EXISTS) ? 0 : -1;
 }
 
 zpl_file_error zpl_path_rmdir(char const *path) {
-- 
2.43.0


From 034b51af2040cdba35a1ed5891492f4487b1f7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:30 +0000
Subject: [PATCH 064/117] fix: the extension of a path was taken from its
 directories when the file has none

---
 code/header/core/file_misc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/header/core/file_misc.h b/code/header/core/file_misc.h
index 8e46a03..e8d2219 100644
--- a/code/header/core/file_misc.h
+++ b/code/header/core/file_misc.h
@@ -137,7 +137,8 @@ ZPL_IMPL_INLINE char const *zpl_path_extension(char const *path) {
     char const *ld;
     ZPL_ASSERT_NOT_NULL(path);
     ld = zpl_char_last_occurence(path, '.');
-    return (ld == NULL) ? NULL : ld + 1;
+    if (ld == NULL || ld < zpl_path_base_name(path)) return NULL;
+    return ld + 1;
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From 8ce10093f4dec23c4ecab15238db8d71f6f4ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:35 +0000
Subject: [PATCH 065/117] fix: registering an option after a positional one
 left dangling pointers, options without a long name crashed while positionals
 were expected, values ending in a backslash and printing help read out of
 bounds, repeated values leaked, and the argument after the last was read

---
 code/source/opts.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index bd4bf43..c317a6e 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -42,7 +42,13 @@ void zpl_opts_add(zpl_opts *opts, char const *name, char const *lname, const cha
     e.met = false;
     e.pos = false;
 
-    zpl_array_append(opts->entries, e);
+    zpl_opts_entry *old_entries = opts->entries;
+    if (!zpl_array_append(opts->entries, e)) return;
+
+    /* positionals point to the entries, which might have moved */
+    for (zpl_isize i = 0; opts->entries != old_entries && i < zpl_array_count(opts->positioned); ++i) {
+        opts->positioned[i] = opts->entries + (opts->positioned[i] - old_entries);
+    }
 }
 
 zpl_opts_entry *zpl__opts_find(zpl_opts *opts, char const *name, zpl_usize len, zpl_b32 longname) {
@@ -89,10 +95,12 @@ zpl_i64 zpl_opts_integer(zpl_opts *opts, char const *name, zpl_i64 fallback) {
 }
 
 void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
+    zpl_b32 was_met = t->met;
     t->met = true;
 
     switch (t->type) {
         case ZPL_OPTS_STRING: {
+            if (was_met) zpl_string_free(t->text);
             t->text = zpl_string_make(opts->alloc, b);
         } break;
 
@@ -106,7 +114,7 @@ void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
     }
 
     for (zpl_isize i=0; i < zpl_array_count(opts->positioned); i++) {
-        if (!zpl_strcmp(opts->positioned[i]->lname, t->lname)) {
+        if (opts->positioned[i] == t) {
             zpl_array_remove_at(opts->positioned, i);
             break;
         }
@@ -124,7 +132,7 @@ zpl_b32 zpl_opts_has_arg(zpl_opts *opts, char const *name) {
 void zpl_opts_print_help(zpl_opts *opts) {
     zpl_printf("USAGE: %s", opts->appname);
 
-    for (zpl_isize i = zpl_array_count(opts->entries); i >= 0; --i) {
+    for (zpl_isize i = zpl_array_count(opts->entries) - 1; i >= 0; --i) {
         zpl_opts_entry *e = opts->entries + i;
 
         if (e->pos == (zpl_b32) true) { zpl_printf(" [%s]", e->lname); }
@@ -204,11 +212,11 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
 
                         b = e = e + 1;
                     } else if (*e == '\0') {
-                        char *sp = argv[i+1];
+                        char *sp = (i + 1 < argc) ? argv[i+1] : NULL;
 
                         if (sp && *sp != '-' && (zpl_array_count(opts->positioned) < 1  || t->type != ZPL_OPTS_FLAG)) {
                             if (t->type == ZPL_OPTS_FLAG) {
-                                zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_EXTRA_VALUE);
+                                zpl__opts_push_error(opts, ob, ZPL_OPTS_ERR_EXTRA_VALUE);
                                 had_errors = true;
                                 continue;
                             }
@@ -227,7 +235,6 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
                         }
                     }
 
-                    e = cast(char *)zpl_str_control_skip(e, '\0');
                     zpl__opts_set_value(opts, t, b);
                 } else {
                     zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_OPTION);
-- 
2.43.0


From adf60bfec9ac8a561c926f6c67e4ce1675143162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 066/117] fix: rounding whole numbers up gave the next one, -1
 rounded down to -2, and large or nearly-half values rounded wrongly

---
 code/source/math.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index fcb3fcf..358da92 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -60,9 +60,21 @@ zpl_f64 zpl_copy_sign64(zpl_f64 x, zpl_f64 y) {
     return r;
 }
 
-zpl_f64 zpl_floor64(zpl_f64 x)                { return cast(zpl_f64)((x >= 0.0) ? cast(zpl_i64) x : cast(zpl_i64)(x - 0.9999999999999999)); }
-zpl_f64 zpl_ceil64(zpl_f64 x)                 { return cast(zpl_f64)((x < 0) ? cast(zpl_i64) x : (cast(zpl_i64) x) + 1); }
-zpl_f64 zpl_round64(zpl_f64 x)                { return cast(zpl_f64)((x >= 0.0) ? zpl_floor64(x + 0.5) : zpl_ceil64(x - 0.5)); }
+zpl_f64 zpl_floor64(zpl_f64 x) {
+    zpl_f64 whole;
+    if (!(x > -4503599627370496.0 && x < 4503599627370496.0)) return x; /* NOTE: already whole (or not a number) */
+    whole = cast(zpl_f64)cast(zpl_i64) x;
+    return whole > x ? whole - 1.0 : whole;
+}
+zpl_f64 zpl_ceil64(zpl_f64 x) {
+    zpl_f64 whole = zpl_floor64(x);
+    return whole < x ? whole + 1.0 : whole;
+}
+zpl_f64 zpl_round64(zpl_f64 x) {
+    zpl_f64 whole = zpl_floor64(zpl_abs64(x));
+    if (zpl_abs64(x) - whole >= 0.5) whole += 1.0;
+    return x < 0 ? -whole : whole;
+}
 zpl_f64 zpl_remainder64(zpl_f64 x, zpl_f64 y) { return x - (zpl_round64(x / y) * y); }
 zpl_f64 zpl_abs64(zpl_f64 x)                  { return x < 0 ? -x : x; }
 zpl_f64 zpl_sign64(zpl_f64 x)                 { return x < 0 ? -1.0 : +1.0; }
@@ -255,9 +267,21 @@ zpl_f32 zpl_fast_exp(zpl_f32 x) {
 
 zpl_f32 zpl_fast_exp2(zpl_f32 x) { return zpl_fast_exp(ZPL_LOG_TWO * x); }
 
-zpl_f32 zpl_round(zpl_f32 x) { return (float)((x >= 0.0f) ? zpl_floor(x + 0.5f) : zpl_ceil(x - 0.5f)); }
-zpl_f32 zpl_floor(zpl_f32 x) { return (float)((x >= 0.0f) ? (int)x              : (int)(x - 0.9999999999999999f)); }
-zpl_f32 zpl_ceil(zpl_f32 x)  { return (float)((x <  0.0f) ? (int)x              : ((int)x) + 1); }
+zpl_f32 zpl_round(zpl_f32 x) {
+    zpl_f32 whole = zpl_floor(zpl_abs(x));
+    if (zpl_abs(x) - whole >= 0.5f) whole += 1.0f;
+    return x < 0 ? -whole : whole;
+}
+zpl_f32 zpl_floor(zpl_f32 x) {
+    zpl_f32 whole;
+    if (!(x > -8388608.0f && x < 8388608.0f)) return x; /* NOTE: already whole (or not a number) */
+    whole = (float)(int)x;
+    return whole > x ? whole - 1.0f : whole;
+}
+zpl_f32 zpl_ceil(zpl_f32 x) {
+    zpl_f32 whole = zpl_floor(x);
+    return whole < x ? whole + 1.0f : whole;
+}
 
 zpl_f32 zpl_half_to_float(zpl_half value) {
     union {
-- 
2.43.0


From eb861fd98d0dd70466f71de91d8c95c00ea48f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 067/117] fix: the remainder of a division was shifted by the
 divisor when it was right already, and left negative when it was not

---
 code/source/math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 358da92..18a1f2c 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -44,7 +44,7 @@ zpl_f32 zpl_mod(zpl_f32 x, zpl_f32 y) {
     zpl_f32 result;
     y = zpl_abs(y);
     result = zpl_remainder(zpl_abs(x), y);
-    if (zpl_sign(result) > 0.0f) result += y;
+    if (result < 0.0f) result += y;
     return zpl_copy_sign(result, x);
 }
 
@@ -83,7 +83,7 @@ zpl_f64 zpl_mod64(zpl_f64 x, zpl_f64 y) {
     zpl_f64 result;
     y = zpl_abs64(y);
     result = zpl_remainder64(zpl_abs64(x), y);
-    if (zpl_sign64(result)) result += y;
+    if (result < 0.0) result += y;
     return zpl_copy_sign64(result, x);
 }
 
-- 
2.43.0


From 9278db1c1499f97c3c2d61a7ec26b55293fc4d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 068/117] fix: copying a 2x2 matrix copied the size of a 3x3
 one

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index 18a1f2c..380cbfd 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -612,7 +612,7 @@ void zpl_float22_identity(zpl_f32 m[2][2]) {
 }
 
 void zpl_mat2_copy(zpl_mat2* out, zpl_mat2* m) {
-    zpl_memcopy(out, m, sizeof(zpl_mat3));
+    zpl_memcopy(out, m, sizeof(zpl_mat2));
 }
 
 void zpl_mat2_mul_vec2(zpl_vec2 *out, zpl_mat2 *m, zpl_vec2 in) { zpl_float22_mul_vec2(out, zpl_float22_m(m), in); }
-- 
2.43.0


From ea96d2be1237f5798dd3ddcd40a27564d61759cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 069/117] fix: 2x2 and 3x3 matrices were applied to vectors
 transposed, unlike their products and unlike 4x4 ones

---
 code/source/math.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 380cbfd..b656a23 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -652,8 +652,8 @@ void zpl_float22_mul(zpl_f32 (*out)[2], zpl_f32 (*mat1)[2], zpl_f32 (*mat2)[2])
 }
 
 void zpl_float22_mul_vec2(zpl_vec2 *out, zpl_f32 m[2][2], zpl_vec2 v) {
-    out->x = m[0][0] * v.x + m[0][1] * v.y;
-    out->y = m[1][0] * v.x + m[1][1] * v.y;
+    out->x = m[0][0] * v.x + m[1][0] * v.y;
+    out->y = m[0][1] * v.x + m[1][1] * v.y;
 }
 
 zpl_f32 zpl_mat2_determinate(zpl_mat2 *m) {
@@ -735,9 +735,9 @@ void zpl_float33_mul(zpl_f32 (*out)[3], zpl_f32 (*mat1)[3], zpl_f32 (*mat2)[3])
 }
 
 void zpl_float33_mul_vec3(zpl_vec3 *out, zpl_f32 m[3][3], zpl_vec3 v) {
-    out->x = m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z;
-    out->y = m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z;
-    out->z = m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z;
+    out->x = m[0][0] * v.x + m[1][0] * v.y + m[2][0] * v.z;
+    out->y = m[0][1] * v.x + m[1][1] * v.y + m[2][1] * v.z;
+    out->z = m[0][2] * v.x + m[1][2] * v.y + m[2][2] * v.z;
 }
 
 zpl_f32 zpl_mat3_determinate(zpl_mat3 *m) {
-- 
2.43.0


From 5e77e4afe7622a34e14f8192e485ca4408401d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 070/117] fix: the inverse of a 3x3 matrix came out transposed,
 and inverting a matrix in place used already overwritten entries

---
 code/source/math.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index b656a23..faf7ba2 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -662,8 +662,9 @@ zpl_f32 zpl_mat2_determinate(zpl_mat2 *m) {
 }
 
 void zpl_mat2_inverse(zpl_mat2 *out, zpl_mat2 *in) {
+    zpl_mat2 temp = *in;
     zpl_float2 *o = zpl_float22_m(out);
-    zpl_float2 *i = zpl_float22_m(in);
+    zpl_float2 *i = zpl_float22_m(&temp);
 
     zpl_f32 ood = 1.0f / zpl_mat2_determinate(in);
 
@@ -750,19 +751,20 @@ zpl_f32 zpl_mat3_determinate(zpl_mat3 *m) {
 }
 
 void zpl_mat3_inverse(zpl_mat3 *out, zpl_mat3 *in) {
+    zpl_mat3 temp = *in;
     zpl_float3 *o = zpl_float33_m(out);
-    zpl_float3 *i = zpl_float33_m(in);
+    zpl_float3 *i = zpl_float33_m(&temp);
 
     zpl_f32 ood = 1.0f / zpl_mat3_determinate(in);
 
     o[0][0] = +(i[1][1] * i[2][2] - i[2][1] * i[1][2]) * ood;
-    o[0][1] = -(i[1][0] * i[2][2] - i[2][0] * i[1][2]) * ood;
-    o[0][2] = +(i[1][0] * i[2][1] - i[2][0] * i[1][1]) * ood;
-    o[1][0] = -(i[0][1] * i[2][2] - i[2][1] * i[0][2]) * ood;
+    o[1][0] = -(i[1][0] * i[2][2] - i[2][0] * i[1][2]) * ood;
+    o[2][0] = +(i[1][0] * i[2][1] - i[2][0] * i[1][1]) * ood;
+    o[0][1] = -(i[0][1] * i[2][2] - i[2][1] * i[0][2]) * ood;
     o[1][1] = +(i[0][0] * i[2][2] - i[2][0] * i[0][2]) * ood;
-    o[1][2] = -(i[0][0] * i[2][1] - i[2][0] * i[0][1]) * ood;
-    o[2][0] = +(i[0][1] * i[1][2] - i[1][1] * i[0][2]) * ood;
-    o[2][1] = -(i[0][0] * i[1][2] - i[1][0] * i[0][2]) * ood;
+    o[2][1] = -(i[0][0] * i[2][1] - i[2][0] * i[0][1]) * ood;
+    o[0][2] = +(i[0][1] * i[1][2] - i[1][1] * i[0][2]) * ood;
+    o[1][2] = -(i[0][0] * i[1][2] - i[1][0] * i[0][2]) * ood;
     o[2][2] = +(i[0][0] * i[1][1] - i[1][0] * i[0][1]) * ood;
 }
 
@@ -856,8 +858,9 @@ void zpl_float44_mul_vec4(zpl_vec4 *out, zpl_f32 m[4][4], zpl_vec4 v) {
 }
 
 void zpl_mat4_inverse(zpl_mat4 *out, zpl_mat4 *in) {
+    zpl_mat4 temp = *in;
     zpl_float4 *o = zpl_float44_m(out);
-    zpl_float4 *m = zpl_float44_m(in);
+    zpl_float4 *m = zpl_float44_m(&temp);
 
     zpl_f32 ood;
 
-- 
2.43.0


From 2bca29180fd57d11bcf3a7e986359734f15fa08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 071/117] fix: refraction scaled the normal by a product
 instead of a sum and gave NaN on total reflection

---
 code/source/math.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index faf7ba2..cdb0bb6 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -578,10 +578,13 @@ void zpl_vec2_refract(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n, zpl_f32 eta) {
 
     dv = zpl_vec2_dot(n, i);
     k = 1.0f - eta * eta * (1.0f - dv * dv);
+    if (k < 0.0f) {
+        *d = zpl_vec2f_zero( );
+        return;
+    }
     zpl_vec2_mul(&a, i, eta);
-    zpl_vec2_mul(&b, n, eta * dv * zpl_sqrt(k));
+    zpl_vec2_mul(&b, n, eta * dv + zpl_sqrt(k));
     zpl_vec2_sub(d, a, b);
-    zpl_vec2_muleq(d, (float)(k >= 0.0f));
 }
 
 void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta) {
@@ -590,10 +593,13 @@ void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta) {
 
     dv = zpl_vec3_dot(n, i);
     k = 1.0f - eta * eta * (1.0f - dv * dv);
+    if (k < 0.0f) {
+        *d = zpl_vec3f_zero( );
+        return;
+    }
     zpl_vec3_mul(&a, i, eta);
-    zpl_vec3_mul(&b, n, eta * dv * zpl_sqrt(k));
+    zpl_vec3_mul(&b, n, eta * dv + zpl_sqrt(k));
     zpl_vec3_sub(d, a, b);
-    zpl_vec3_muleq(d, (float)(k >= 0.0f));
 }
 
 zpl_f32 zpl_vec2_aspect_ratio(zpl_vec2 v) { return (v.y < 0.0001f) ? 0.0f : v.x / v.y; }
-- 
2.43.0


From a0179ada0c58e21f87e102a214ed7b7ae121dd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 072/117] fix: the DirectX perspective matrix forgot the far
 plane in its depth offset

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index cdb0bb6..40e88d2 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1084,7 +1084,7 @@ void zpl_mat4_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f3
     m[1][1] = 1.0f / (tan_half_fovy);
     m[2][2] = -(z_far ) / (z_far - z_near);
     m[2][3] = -1.0f;
-    m[3][2] = - z_near / (z_far - z_near);
+    m[3][2] = -(z_far * z_near) / (z_far - z_near);
 }
 
 void zpl_mat4_infinite_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near) {
-- 
2.43.0


From 6c8c5d918eaebf085a0b900fc039209c71cb5945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 073/117] fix: the axis of a quaternion that is not a unit was
 wrong

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index 40e88d2..d15f229 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1259,7 +1259,7 @@ void zpl_quat_inverse(zpl_quat *d, zpl_quat q) {
 void zpl_quat_axis(zpl_vec3 *axis, zpl_quat q) {
     zpl_quat n;
     zpl_quat_norm(&n, q);
-    zpl_vec3_div(axis, n.xyz, zpl_sin(zpl_arccos(q.w)));
+    zpl_vec3_div(axis, n.xyz, zpl_sin(zpl_arccos(n.w)));
 }
 
 zpl_f32 zpl_quat_angle(zpl_quat q) {
-- 
2.43.0


From d204f0920753458d675fb23c26074080985912db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 074/117] fix: roll and pitch of a quaternion doubled only one
 of the two products

---
 code/source/math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index d15f229..ebee559 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1270,10 +1270,10 @@ zpl_f32 zpl_quat_angle(zpl_quat q) {
 }
 
 zpl_f32 zpl_quat_roll(zpl_quat q) {
-    return zpl_arctan2(2.0f * q.x * q.y + q.z * q.w, q.x * q.x + q.w * q.w - q.y * q.y - q.z * q.z);
+    return zpl_arctan2(2.0f * (q.x * q.y + q.z * q.w), q.x * q.x + q.w * q.w - q.y * q.y - q.z * q.z);
 }
 zpl_f32 zpl_quat_pitch(zpl_quat q) {
-    return zpl_arctan2(2.0f * q.y * q.z + q.w * q.x, q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+    return zpl_arctan2(2.0f * (q.y * q.z + q.w * q.x), q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 }
 zpl_f32 zpl_quat_yaw(zpl_quat q) { return zpl_arcsin(-2.0f * (q.x * q.z - q.w * q.y)); }
 
-- 
2.43.0


From 4bff53c5572282ebf4ef1533ce5a614c97d79337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 075/117] fix: spherical interpolation between equal
 quaternions gave NaN

---
 code/source/math.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index ebee559..b445e06 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1640,9 +1640,10 @@ void zpl_quat_slerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t) {
         cos_theta = -cos_theta;
     }
 
-    if (cos_theta > 1.0f) {
+    if (cos_theta >= 1.0f) {
         /* NOTE: Use lerp not nlerp as it's not a real angle or they are not normalized */
-        zpl_quat_lerp(d, a, b, t);
+        zpl_quat_lerp(d, a, z, t);
+        return;
     }
 
     angle = zpl_arccos(cos_theta);
-- 
2.43.0


From 087f111130b2fe73de4c43e70391bf39cd3a62af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 076/117] fix: shrinking or growing a rectangle judged
 emptiness by the distance of its corners from the origin

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index b445e06..c061f95 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1852,7 +1852,7 @@ zpl_aabb2 zpl_aabb2_contract(const zpl_aabb2 *a, zpl_f32 b) {
     zpl_vec2_addeq(&r.min, vb);
     zpl_vec2_subeq(&r.max, vb);
 
-    if (zpl_vec2_mag2(r.min) > zpl_vec2_mag2(r.max)) {
+    if (r.min.x > r.max.x || r.min.y > r.max.y) {
         return zpl_aabb2f(0,0,0,0);
     }
     return r;
-- 
2.43.0


From 102e15ee8362e5d9b999ba5e1293c1aa7b8e8244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 077/117] fix: the planes of a frustum mixed rows and columns
 and multiplied projection and camera in the wrong order

---
 code/source/math.c | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index c061f95..6bdab93 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1390,16 +1390,16 @@ zpl_f32 zpl_plane_distance(zpl_plane* p, zpl_vec3 v) {
 void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
     zpl_mat4 pv;
 
-    zpl_mat4_mul(&pv, camera, proj);
+    zpl_mat4_mul(&pv, proj, camera);
 
     zpl_plane* fp = 0;
     zpl_f32 rmag;
 
     fp = &out->x1;
     fp->a = pv.x.w + pv.x.x;
-    fp->b = pv.y.w + pv.x.y;
-    fp->c = pv.z.w + pv.x.z;
-    fp->d = pv.w.w + pv.x.w;
+    fp->b = pv.y.w + pv.y.x;
+    fp->c = pv.z.w + pv.z.x;
+    fp->d = pv.w.w + pv.w.x;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1411,9 +1411,9 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
     fp = &out->x2;
 
     fp->a = pv.x.w - pv.x.x;
-    fp->b = pv.y.w - pv.x.y;
-    fp->c = pv.z.w - pv.x.z;
-    fp->d = pv.w.w - pv.x.w;
+    fp->b = pv.y.w - pv.y.x;
+    fp->c = pv.z.w - pv.z.x;
+    fp->d = pv.w.w - pv.w.x;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1424,10 +1424,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->y1;
 
-    fp->a = pv.x.w - pv.y.x;
+    fp->a = pv.x.w - pv.x.y;
     fp->b = pv.y.w - pv.y.y;
-    fp->c = pv.z.w - pv.y.w;
-    fp->d = pv.w.w - pv.y.z;
+    fp->c = pv.z.w - pv.z.y;
+    fp->d = pv.w.w - pv.w.y;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1438,10 +1438,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->y2;
 
-    fp->a = pv.x.w + pv.y.x;
+    fp->a = pv.x.w + pv.x.y;
     fp->b = pv.y.w + pv.y.y;
-    fp->c = pv.z.w + pv.y.z;
-    fp->d = pv.w.w + pv.y.w;
+    fp->c = pv.z.w + pv.z.y;
+    fp->d = pv.w.w + pv.w.y;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1452,10 +1452,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->z1;
 
-    fp->a = pv.x.w + pv.z.x;
-    fp->b = pv.y.w + pv.z.y;
+    fp->a = pv.x.w + pv.x.z;
+    fp->b = pv.y.w + pv.y.z;
     fp->c = pv.z.w + pv.z.z;
-    fp->d = pv.w.w + pv.z.w;
+    fp->d = pv.w.w + pv.w.z;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1466,10 +1466,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->z2;
 
-    fp->a = pv.x.w - pv.z.x;
-    fp->b = pv.y.w - pv.z.y;
+    fp->a = pv.x.w - pv.x.z;
+    fp->b = pv.y.w - pv.y.z;
     fp->c = pv.z.w - pv.z.z;
-    fp->d = pv.w.w - pv.z.w;
+    fp->d = pv.w.w - pv.w.z;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
-- 
2.43.0


From 95bc6419eda7784744c92bd260055fe4d33e2948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:40 +0000
Subject: [PATCH 078/117] fix: a thread that cannot be created is not reported
 as started

---
 code/source/threading/thread.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/threading/thread.c b/code/source/threading/thread.c
index da1d84c..4a21901 100644
--- a/code/source/threading/thread.c
+++ b/code/source/threading/thread.c
@@ -80,10 +80,11 @@ zpl_b32 zpl_thread_start_with_stack(zpl_thread *t, zpl_thread_proc proc, void *u
         if (stack_size != 0)
             pthread_attr_setstacksize(&attr, stack_size);
         zpl_b32 res = pthread_create(&t->posix_handle, &attr, zpl__thread_proc, t);
+        pthread_attr_destroy(&attr);
         if (res != 0) {
-            return res;
+            t->posix_handle = 0;
+            return 0;
         }
-        pthread_attr_destroy(&attr);
     }
 #    endif
     if (!t->nowait)
-- 
2.43.0


From 549cae70bd63e16e2cfd640ac154f80dd7221f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:41 +0000
Subject: [PATCH 079/117] fix: spin locks compared with 1 and stored 0, so they
 never locked

---
 code/source/threading/atomic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index 333b13e..e0f9367 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -400,11 +400,11 @@ ZPL_BEGIN_C_DECLS
 
 
 zpl_b32 zpl_atomic32_spin_lock(zpl_atomic32 *a, zpl_isize time_out) {
-    zpl_atomicarg(zpl_i32) old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+    zpl_atomicarg(zpl_i32) old_value = zpl_atomic32_compare_exchange(a, 0, 1);
     zpl_i32 counter = 0;
     while (old_value != 0 && (time_out < 0 || counter++ < time_out)) {
         zpl_yield_thread();
-        old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+        old_value = zpl_atomic32_compare_exchange(a, 0, 1);
         zpl_mfence();
     }
     return old_value == 0;
@@ -416,11 +416,11 @@ void zpl_atomic32_spin_unlock(zpl_atomic32 *a) {
 }
 
 zpl_b32 zpl_atomic64_spin_lock(zpl_atomic64 *a, zpl_isize time_out) {
-    zpl_atomicarg(zpl_i64) old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+    zpl_atomicarg(zpl_i64) old_value = zpl_atomic64_compare_exchange(a, 0, 1);
     zpl_atomicarg(zpl_i64) counter = 0;
     while (old_value != 0 && (time_out < 0 || counter++ < time_out)) {
         zpl_yield_thread();
-        old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+        old_value = zpl_atomic64_compare_exchange(a, 0, 1);
         zpl_mfence();
     }
     return old_value == 0;
@@ -434,7 +434,7 @@ void zpl_atomic64_spin_unlock(zpl_atomic64 *a) {
 zpl_b32 zpl_atomic32_try_acquire_lock(zpl_atomic32 *a) {
     zpl_atomicarg(zpl_i32) old_value;
     zpl_yield_thread();
-    old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+    old_value = zpl_atomic32_compare_exchange(a, 0, 1);
     zpl_mfence();
     return old_value == 0;
 }
@@ -442,7 +442,7 @@ zpl_b32 zpl_atomic32_try_acquire_lock(zpl_atomic32 *a) {
 zpl_b32 zpl_atomic64_try_acquire_lock(zpl_atomic64 *a) {
     zpl_atomicarg(zpl_i64) old_value;
     zpl_yield_thread();
-    old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+    old_value = zpl_atomic64_compare_exchange(a, 0, 1);
     zpl_mfence();
     return old_value == 0;
 }
-- 
2.43.0


From f16c728c50edd9eb3eb09bf0c2016e6474c97fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:35 +0000
Subject: [PATCH 080/117] fix: zpl_mutex_init, destroy and try_lock return true
 on success as on Windows

---
 code/source/threading/mutex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/source/threading/mutex.c b/code/source/threading/mutex.c
index f9cc14f..e3589c4 100644
--- a/code/source/threading/mutex.c
+++ b/code/source/threading/mutex.c
@@ -8,7 +8,7 @@ zpl_b32 zpl_mutex_init(zpl_mutex *m) {
         InitializeCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
         return 1;
 #    else
-        return pthread_mutex_init(&m->pthread_mutex, NULL);
+        return pthread_mutex_init(&m->pthread_mutex, NULL) == 0;
 #    endif
 }
 
@@ -17,7 +17,7 @@ zpl_b32 zpl_mutex_destroy(zpl_mutex *m) {
         DeleteCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
         return 1;
 #    else
-        return pthread_mutex_destroy(&m->pthread_mutex);
+        return pthread_mutex_destroy(&m->pthread_mutex) == 0;
 #    endif
 }
 
@@ -33,7 +33,7 @@ zpl_b32 zpl_mutex_try_lock(zpl_mutex *m) {
 #    if defined(ZPL_SYSTEM_WINDOWS)
         return TryEnterCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
 #    else
-        return pthread_mutex_trylock(&m->pthread_mutex);
+        return pthread_mutex_trylock(&m->pthread_mutex) == 0;
 #    endif
 }
 
-- 
2.43.0


From d2255d8a02e230a6c98e525006d0b12dcc3082c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 081/117] fix: a worker that picks up a job no longer
 overwrites the request to terminate, which made zpl_jobs_free hang

---
 code/source/jobs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/jobs.c b/code/source/jobs.c
index d402475..3d5813a 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -21,7 +21,9 @@ zpl_isize zpl__jobs_entry(struct zpl_thread *thread) {
 
         switch (status) {
             case ZPL_JOBS_STATUS_READY: {
-                zpl_atomic32_store(&tw->status, ZPL_JOBS_STATUS_BUSY);
+                // NOTE: The pool may have requested termination in the meantime
+                if (zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_READY, ZPL_JOBS_STATUS_BUSY) != ZPL_JOBS_STATUS_READY)
+                    break;
                 tw->job.proc(tw->job.data);
                 zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_BUSY, ZPL_JOBS_STATUS_WAITING);
 
-- 
2.43.0


From 15ccd70cbe48aa92ce18b222458c7a726ccf3890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 082/117] fix: a failed regular expression alternative, option
 or repetition counted as a match, and * and + did not try all repetitions

---
 code/source/regex.c | 70 ++++++++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 39 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 7ef20d9..1404259 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -111,35 +111,37 @@ static zpl_b32 zpl_re__match_escape(char c, int code) {
     return 0;
 }
 
-static zpl_re_ctx zpl_re__consume(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_b32 is_greedy)
+static zpl_b32 zpl_re__matched(zpl_re_ctx c, zpl_isize str_len) {
+    return c.offset >= 0 && c.offset <= str_len;
+}
+
+/* NOTE: Repeats the instruction at `op` at least `min_count` times and matches what follows it */
+static zpl_re_ctx zpl_re__consume(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_isize min_count, zpl_b32 is_greedy)
 {
     zpl_re_ctx c, best_c, next_c;
+    zpl_isize count, best_offset = offset;
 
-    c.op = op;
-    c.offset = offset;
-
-    best_c.op = ZPL_RE__NO_MATCH;
-    best_c.offset = offset;
-
-    for (;;) {
-        c = zpl_re__exec_single(re, op, str, str_len, c.offset, 0, 0);
-        if (c.offset > str_len || c.offset == -1) break;
-        if (c.op >= re->buf_len) return c;
+    best_c = zpl_re__ctx_no_match(op);
 
-        next_c = zpl_re__exec(re, c.op, str, str_len, c.offset, captures, max_capture_count);
-        if (next_c.offset <= str_len) {
-            if (captures)
-                zpl_re__exec(re, c.op, str, str_len, c.offset, captures, max_capture_count);
+    for (count = 0; ; count++) {
+        c = zpl_re__exec_single(re, op, str, str_len, offset, 0, 0);
 
-            best_c = next_c;
-            if (!is_greedy) break;
+        if (count >= min_count) {
+            next_c = zpl_re__exec(re, c.op, str, str_len, offset, 0, 0);
+            if (zpl_re__matched(next_c, str_len)) {
+                best_c = next_c;
+                best_offset = offset;
+                if (!is_greedy) break;
+            }
         }
 
-        if (best_c.op > re->buf_len)
-            best_c.op = c.op;
-
+        if (!zpl_re__matched(c, str_len)) break;
+        offset = c.offset;
     }
 
+    if (captures && zpl_re__matched(best_c, str_len))
+        zpl_re__exec(re, c.op, str, str_len, best_offset, captures, max_capture_count);
+
     return best_c;
 }
 
@@ -176,7 +178,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         case ZPL_RE_OP_BRANCH_START: {
             skip = re->buf[op++];
             ctx = zpl_re__exec(re, op, str, str_len, offset, captures, max_capture_count);
-            if (ctx.offset <= str_len) {
+            if (zpl_re__matched(ctx, str_len)) {
                 offset = ctx.offset;
                 op = ctx.op;
             } else {
@@ -273,35 +275,25 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_ZERO_OR_MORE: {
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0, 1);
             offset = ctx.offset;
             op = ctx.op;
         } break;
 
         case ZPL_RE_OP_ONE_OR_MORE: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
-
-            if (ctx.offset > str_len)
-                return ctx;
-
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1, 1);
             offset = ctx.offset;
             op = ctx.op;
         } break;
 
         case ZPL_RE_OP_ZERO_OR_MORE_SHORTEST: {
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0, 0);
             offset = ctx.offset;
             op = ctx.op;
         } break;
 
         case ZPL_RE_OP_ONE_OR_MORE_SHORTEST: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
-
-            if (ctx.offset > str_len)
-                return ctx;
-
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1, 0);
             offset = ctx.offset;
             op = ctx.op;
         } break;
@@ -309,10 +301,10 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         case ZPL_RE_OP_ZERO_OR_ONE: {
             ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
 
-            if (ctx.offset <= str_len) {
+            if (zpl_re__matched(ctx, str_len)) {
                 zpl_re_ctx possible_ctx = zpl_re__exec(re, ctx.op, str, str_len, ctx.offset, captures, max_capture_count);
 
-                if (possible_ctx.offset <= str_len) {
+                if (zpl_re__matched(possible_ctx, str_len)) {
                     op = possible_ctx.op;
                     offset = possible_ctx.offset;
                     break;
@@ -322,7 +314,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
             next_op = ctx.op;
             ctx = zpl_re__exec(re, next_op, str, str_len, offset, captures, max_capture_count);
 
-            if (ctx.offset <= str_len) {
+            if (zpl_re__matched(ctx, str_len)) {
                 op = ctx.op;
                 offset = ctx.offset;
                 break;
@@ -349,7 +341,7 @@ static zpl_re_ctx zpl_re__exec(zpl_re *re, zpl_isize op, char const *str, zpl_is
     while (c.op < re->buf_len) {
         c = zpl_re__exec_single(re, c.op, str, str_len, c.offset, captures, max_capture_count);
 
-        if (c.offset > str_len || c.offset == -1)
+        if (!zpl_re__matched(c, str_len))
             break;
     }
 
-- 
2.43.0


From 37974d593ec457e6e895bde06788cbcf94b9d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 083/117] fix: matching a set or an escape read past the end of
 the text

---
 code/source/regex.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 1404259..98c6f1c 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -203,12 +203,14 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
 
         case ZPL_RE_OP_ANY_OF: {
             zpl_isize i;
-            char cin = str[offset];
+            char cin;
             buffer_len = re->buf[op++];
 
             if (offset >= str_len)
                 return zpl_re__ctx_no_match(op + buffer_len);
 
+            cin = str[offset];
+
             for (i = 0; i < buffer_len; i++) {
                 char cmatch = (char)re->buf[op+i];
                 if (!cmatch) {
@@ -229,12 +231,14 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
 
         case ZPL_RE_OP_ANY_BUT: {
             zpl_isize i;
-            char cin = str[offset];
+            char cin;
             buffer_len = re->buf[op++];
 
             if (offset >= str_len)
                 return zpl_re__ctx_no_match(op + buffer_len);
 
+            cin = str[offset];
+
             for (i = 0; i < buffer_len; i++) {
                 char cmatch = (char)re->buf[op + i];
                 if (!cmatch) {
@@ -263,10 +267,16 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
 
         case ZPL_RE_OP_META_MATCH: {
             char cin = (char)re->buf[op++];
-            char cmatch = str[offset++];
+            char cmatch;
+            int code = cin ? 0 : re->buf[op++] << 8;
+
+            if (offset >= str_len)
+                return zpl_re__ctx_no_match(op);
+
+            cmatch = str[offset++];
 
             if (!cin) {
-                if (zpl_re__match_escape(cmatch, re->buf[op++] << 8))
+                if (zpl_re__match_escape(cmatch, code))
                     break;
             }
             else if (cin == cmatch) break;
-- 
2.43.0


From 8df6350f314a6faf9be52ba4680eb4ffcebc178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 084/117] fix: lengths and jumps over 127 in compiled regular
 expressions were read as negative, and those of 256 and more were cut off

---
 code/source/regex.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 98c6f1c..05069fa 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -176,7 +176,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_BRANCH_START: {
-            skip = re->buf[op++];
+            skip = (zpl_u8)re->buf[op++];
             ctx = zpl_re__exec(re, op, str, str_len, offset, captures, max_capture_count);
             if (zpl_re__matched(ctx, str_len)) {
                 offset = ctx.offset;
@@ -189,7 +189,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_BRANCH_END: {
-            skip = re->buf[op++];
+            skip = (zpl_u8)re->buf[op++];
             op += skip;
         } break;
 
@@ -204,7 +204,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         case ZPL_RE_OP_ANY_OF: {
             zpl_isize i;
             char cin;
-            buffer_len = re->buf[op++];
+            buffer_len = (zpl_u8)re->buf[op++];
 
             if (offset >= str_len)
                 return zpl_re__ctx_no_match(op + buffer_len);
@@ -232,7 +232,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         case ZPL_RE_OP_ANY_BUT: {
             zpl_isize i;
             char cin;
-            buffer_len = re->buf[op++];
+            buffer_len = (zpl_u8)re->buf[op++];
 
             if (offset >= str_len)
                 return zpl_re__ctx_no_match(op + buffer_len);
@@ -255,7 +255,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_EXACT_MATCH: {
-            match_len = re->buf[op++];
+            match_len = (zpl_u8)re->buf[op++];
 
             if ((match_len > (str_len - offset)) ||
                 zpl_strncmp(str+offset, (const char*)re->buf + op, match_len) != 0)
@@ -376,7 +376,7 @@ static zpl_regex_error zpl_re__emit_ops(zpl_re *re, zpl_isize op_count, ...) {
     for (zpl_isize i = 0; i < op_count; i++)
     {
         zpl_i32 v = va_arg(va, zpl_i32);
-        if (v > 256)
+        if (v > 255)
             return ZPL_RE_ERROR_TOO_LONG;
         re->buf[re->buf_len++] = (char)v;
     }
@@ -508,7 +508,7 @@ static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf
     zpl_isize move_size;
 
     if ((re->buf[last_buf_len] == ZPL_RE_OP_EXACT_MATCH) &&
-        (re->buf[last_buf_len+1] > 1))
+        ((zpl_u8)re->buf[last_buf_len+1] > 1))
     {
         unsigned char last_char = re->buf[re->buf_len-1];
 
@@ -564,8 +564,11 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
             } break;
 
             case ')': {
-                if (branch_op != -1)
+                if (branch_op != -1) {
+                    if (re->buf_len - (branch_op+2) > 255)
+                        return ZPL_RE_ERROR_TOO_LONG;
                     re->buf[branch_op + 1] = (unsigned char)(re->buf_len - (branch_op+2));
+                }
 
                 if (level == 0)
                     return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
@@ -587,6 +590,8 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     return ZPL_RE_ERROR_BRANCH_FAILURE;
                 } else {
                     zpl_isize size = re->buf_len - branch_begin;
+                    if (size + 2 > 255)
+                        return ZPL_RE_ERROR_TOO_LONG;
                     err = zpl_re__emit_ops(re, 4, 0, 0, ZPL_RE_OP_BRANCH_END, 0);
                     if (err) return err;
 
-- 
2.43.0


From ac0d6a23b5f9173155713c72a935b3045299912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 085/117] fix: alternatives outside a group, and more than two
 of them, ran on into the next alternative

---
 code/source/regex.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 05069fa..c2fd321 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -530,6 +530,16 @@ static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf
     return ZPL_RE_ERROR_NONE;
 }
 
+/* NOTE: Makes the end of an alternative skip the one that was parsed after it */
+static zpl_regex_error zpl_re__end_branch(zpl_re *re, zpl_isize branch_op) {
+    if (branch_op != -1) {
+        if (re->buf_len - (branch_op+2) > 255)
+            return ZPL_RE_ERROR_TOO_LONG;
+        re->buf[branch_op + 1] = (unsigned char)(re->buf_len - (branch_op+2));
+    }
+    return ZPL_RE_ERROR_NONE;
+}
+
 static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize len, zpl_isize offset, zpl_isize level, zpl_isize *new_offset) {
     zpl_regex_error err = ZPL_RE_ERROR_NONE;
     zpl_isize last_buf_len = re->buf_len;
@@ -564,11 +574,8 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
             } break;
 
             case ')': {
-                if (branch_op != -1) {
-                    if (re->buf_len - (branch_op+2) > 255)
-                        return ZPL_RE_ERROR_TOO_LONG;
-                    re->buf[branch_op + 1] = (unsigned char)(re->buf_len - (branch_op+2));
-                }
+                err = zpl_re__end_branch(re, branch_op);
+                if (err) return err;
 
                 if (level == 0)
                     return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
@@ -592,6 +599,8 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     zpl_isize size = re->buf_len - branch_begin;
                     if (size + 2 > 255)
                         return ZPL_RE_ERROR_TOO_LONG;
+                    err = zpl_re__end_branch(re, branch_op);
+                    if (err) return err;
                     err = zpl_re__emit_ops(re, 4, 0, 0, ZPL_RE_OP_BRANCH_END, 0);
                     if (err) return err;
 
@@ -681,6 +690,9 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
         }
     }
 
+    err = zpl_re__end_branch(re, branch_op);
+    if (err) return err;
+
     if (new_offset) *new_offset = offset;
     return ZPL_RE_ERROR_NONE;
 }
-- 
2.43.0


From 7e89304c1b30e1279dd3d3ce5436e7fba14e1540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 086/117] fix: a quantifier moved one byte too many, past the
 end of the compiled expression

---
 code/source/regex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index c2fd321..6cf4019 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -519,7 +519,7 @@ static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf
         return ZPL_RE_ERROR_NONE;
     }
 
-    move_size = re->buf_len - last_buf_len + 1;
+    move_size = re->buf_len - last_buf_len;
 
     err = zpl_re__emit_ops(re, 1, 0);
     if (err) return err;
-- 
2.43.0


From d81e00751e613fc78704ba49b1c632fe46723528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 087/117] fix: a quantifier after ^, $, | or another quantifier
 changed an earlier instruction instead of being rejected

---
 code/source/regex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/source/regex.c b/code/source/regex.c
index 6cf4019..dc81e92 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -551,11 +551,13 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
             case '^': {
                 err = zpl_re__emit_ops(re, 1, ZPL_RE_OP_BEGINNING_OF_LINE);
                 if (err) return err;
+                last_buf_len = re->buf_len;
             } break;
 
             case '$': {
                 err = zpl_re__emit_ops(re, 1, ZPL_RE_OP_END_OF_LINE);
                 if (err) return err;
+                last_buf_len = re->buf_len;
             } break;
 
             case '(': {
@@ -608,6 +610,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     re->buf[branch_begin] = ZPL_RE_OP_BRANCH_START;
                     re->buf[branch_begin+1] = (size+2) & 0xff;
                     branch_op = re->buf_len-2;
+                    last_buf_len = re->buf_len;
                 }
             } break;
 
@@ -637,6 +640,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
 
                 err = zpl_re__compile_quantifier(re, last_buf_len, quantifier);
                 if (err) return err;
+                last_buf_len = re->buf_len;
             } break;
 
             case '?': {
@@ -649,6 +653,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 err = zpl_re__compile_quantifier(re, last_buf_len,
                                                  (unsigned char)ZPL_RE_OP_ZERO_OR_ONE);
                 if (err) return err;
+                last_buf_len = re->buf_len;
             } break;
 
             case '\\': {
-- 
2.43.0


From 54baae8fc2b85c3339fdd459c18925873f0857dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 088/117] fix: *? matched at least once

---
 code/source/regex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index dc81e92..736885b 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -634,7 +634,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     return ZPL_RE_ERROR_INVALID_QUANTIFIER;
 
                 if ((offset < len) && (pattern[offset] == '?')) {
-                    quantifier = ZPL_RE_OP_ONE_OR_MORE_SHORTEST;
+                    quantifier = (quantifier == ZPL_RE_OP_ZERO_OR_MORE) ? ZPL_RE_OP_ZERO_OR_MORE_SHORTEST : ZPL_RE_OP_ONE_OR_MORE_SHORTEST;
                     offset++;
                 }
 
-- 
2.43.0


From 3c256a630400f4dc4ee55c761beb304670c00e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 089/117] fix: errors inside sets and groups of a regular
 expression were ignored, and a group ending in an escaped parenthesis counted
 as closed

---
 code/source/regex.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 736885b..e2c48a8 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -444,7 +444,7 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
     zpl_b32 closed = 0;
     zplreOp op = ZPL_RE_OP_ANY_OF;
 
-    if (pattern[offset] == '^') {
+    if (offset < len && pattern[offset] == '^') {
         offset++;
         op = ZPL_RE_OP_ANY_BUT;
     }
@@ -568,8 +568,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
 
                 err = zpl_re__parse(re, pattern, len, offset, level+1, &offset);
 
-                if ((offset > len) || (pattern[offset-1] != ')'))
-                    return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
+                if (err) return err;
 
                 err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_END_CAPTURE, (zpl_i32)capture);
                 if (err) return err;
@@ -589,8 +588,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
             case '[': {
                 last_buf_len = re->buf_len;
                 err = zpl_re__parse_group(re, pattern, len, offset, &offset);
-                if (offset > len)
-                    return err;
+                if (err) return err;
             } break;
 
             /* NOTE(bill): Branching magic! */
@@ -695,6 +693,9 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
         }
     }
 
+    if (level > 0)
+        return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
+
     err = zpl_re__end_branch(re, branch_op);
     if (err) return err;
 
-- 
2.43.0


From e7906f3e2a2a56bb6943d134ff3075b5a675e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 090/117] fix: escapes such as \\d followed by another
 character were taken for hexadecimal digits

---
 code/source/regex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index e2c48a8..92e7723 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -470,7 +470,7 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
         if (pattern[offset] == '\\') {
             offset++;
 
-            if ((offset + 1 < len) && zpl_char_is_hex_digit(*(pattern+offset))) {
+            if ((offset + 1 < len) && zpl_char_is_hex_digit(*(pattern+offset)) && zpl_char_is_hex_digit(*(pattern+offset+1))) {
                 buffer[buffer_len++] = zpl_re__hex((pattern+offset));
                 offset++;
             }
@@ -656,7 +656,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
 
             case '\\': {
                 last_buf_len = re->buf_len;
-                if ((offset+1 < len) && zpl_char_is_hex_digit(*(pattern+offset))) {
+                if ((offset+1 < len) && zpl_char_is_hex_digit(*(pattern+offset)) && zpl_char_is_hex_digit(*(pattern+offset+1))) {
                     unsigned char hex_value = zpl_re__hex((pattern+offset));
                     offset += 2;
                     err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_META_MATCH, (int)hex_value);
-- 
2.43.0


From c957d2f28b83281f71edbb9cb93eff788b6e5599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 091/117] fix: compiling a ] outside a set never ended

---
 code/source/regex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 92e7723..a13535d 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -679,10 +679,10 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 zpl_isize size = 0;
                 offset--;
                 match_start = pattern+offset;
-                while ((offset < len) &&
-                       (zpl_re__strfind(ZPL_RE__LITERAL(ZPL_RE__META_CHARS), pattern[offset], 0) < 0)) {
+                do {
                     size++, offset++;
-                }
+                } while ((offset < len) &&
+                         (zpl_re__strfind(ZPL_RE__LITERAL(ZPL_RE__META_CHARS), pattern[offset], 0) < 0));
 
                 last_buf_len = re->buf_len;
                 err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_EXACT_MATCH, (int)size);
-- 
2.43.0


From 0b1c9305380d35103346546cf9a154e6b3e06c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 092/117] fix: compiling a regular expression into a buffer
 ignored the size of the buffer and always failed

---
 code/source/regex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index a13535d..2b15abe 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -708,7 +708,7 @@ zpl_regex_error zpl_re_compile_from_buffer(zpl_re *re, char const *pattern, zpl_
     re->capture_count = 0;
     re->buf = (char *)buffer;
     re->buf_len = 0;
-    re->buf_cap = re->buf_len;
+    re->buf_cap = buffer_len;
     re->can_realloc = 0;
 
     err = zpl_re__parse(re, pattern, pattern_len, 0, 0, 0);
-- 
2.43.0


From 11938df96337124c0c981f98abeb97c47fecc75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 093/117] fix: zpl_re_destroy was declared but not defined

---
 code/source/regex.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 2b15abe..046a4d3 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -729,12 +729,19 @@ zpl_regex_error zpl_re_compile(zpl_re *re, zpl_allocator backing, char const *pa
 
     err = zpl_re__parse(re, pattern, pattern_len, 0, 0, &offset);
 
-    if (offset != pattern_len)
-        zpl_free(backing, re->buf);
+    if (err)
+        zpl_re_destroy(re);
 
     return err;
 }
 
+void zpl_re_destroy(zpl_re *re) {
+    if (re->can_realloc && re->buf)
+        zpl_free(re->backing, re->buf);
+    re->buf = NULL;
+    re->buf_len = re->buf_cap = 0;
+}
+
 zpl_isize zpl_re_capture_count(zpl_re *re) { return re->capture_count; }
 
 zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_isize *offset) {
-- 
2.43.0


From 9d969872d4e29687924ba34fe50f53f171cb32b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 094/117] fix: regular expressions that match the empty string
 did not match at the end of the text

---
 code/source/regex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 046a4d3..8439fe4 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -752,7 +752,7 @@ zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture
             if (c.offset == ZPL_RE__INTERNAL_FAILURE) return 0;
         } else {
             zpl_isize i;
-            for (i = 0; i < len; i++) {
+            for (i = 0; i <= len; i++) {
                 zpl_re_ctx c = zpl_re__exec(re, 0, str, len, i, captures, max_capture_count);
                 if (c.offset >= 0 && c.offset <= len) { if (offset) *offset = c.offset; return 1; };
                 if (c.offset == ZPL_RE__INTERNAL_FAILURE) return 0;
@@ -760,6 +760,7 @@ zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture
         }
         return 0;
     }
+    if (offset) *offset = 0;
     return 1;
 }
 
-- 
2.43.0


From cd64d35bc232efada9942712ca66fef16ddec3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 095/117] fix: zpl_re_match_all did not end on empty matches
 and returned uninitialised captures

---
 code/source/regex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 8439fe4..e197cc8 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -774,6 +774,7 @@ zpl_b32 zpl_re_match_all(zpl_re *re, char const *str, zpl_isize str_len, zpl_isi
     zpl_buffer_make(zpl_re_capture, cps, zpl_heap(), max_capture_count);
 
     zpl_isize offset = 0;
+    zpl_memset(cps, 0, max_capture_count * zpl_size_of(zpl_re_capture));
 
     while (p < end)
     {
@@ -783,7 +784,7 @@ zpl_b32 zpl_re_match_all(zpl_re *re, char const *str, zpl_isize str_len, zpl_isi
             return false;
         }
 
-        p += offset;
+        p += zpl_max(offset, 1);
 
         for (zpl_isize i = 0; i < max_capture_count; i++) {
             zpl_array_append(*out_captures, cps[i]);
-- 
2.43.0


From ca0c15b96eafdd94275a3e2acd8b52cc4e93a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:01 +0000
Subject: [PATCH 096/117] fix: a group that did not take part in a match could
 be reported past the end of the text

---
 code/source/regex.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/source/regex.c b/code/source/regex.c
index e197cc8..a4910db 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -156,7 +156,10 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         case ZPL_RE_OP_BEGIN_CAPTURE: {
             zpl_u8 capture = re->buf[op++];
             if (captures && (capture < max_capture_count))
+            {
                 captures[capture].str = str + offset;
+                captures[capture].len = 0;
+            }
         } break;
 
         case ZPL_RE_OP_END_CAPTURE: {
-- 
2.43.0


From 4c2fbc83a9957e08a8175dba6482e3749449e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:01 +0000
Subject: [PATCH 097/117] fix: NUL bytes in regular expressions were taken for
 the start of an escape or the end of a literal

---
 code/source/regex.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index a4910db..a8b65df 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -261,7 +261,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
             match_len = (zpl_u8)re->buf[op++];
 
             if ((match_len > (str_len - offset)) ||
-                zpl_strncmp(str+offset, (const char*)re->buf + op, match_len) != 0)
+                zpl_memcompare(str+offset, (const char*)re->buf + op, match_len) != 0)
                 return zpl_re__ctx_no_match(op + match_len);
 
             op += match_len;
@@ -470,11 +470,14 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
         if (buffer_len >= buffer_cap)
             return ZPL_RE_ERROR_TOO_LONG;
 
+        zpl_b32 is_nul = pattern[offset] == 0;
+
         if (pattern[offset] == '\\') {
             offset++;
 
             if ((offset + 1 < len) && zpl_char_is_hex_digit(*(pattern+offset)) && zpl_char_is_hex_digit(*(pattern+offset+1))) {
-                buffer[buffer_len++] = zpl_re__hex((pattern+offset));
+                buffer[buffer_len] = zpl_re__hex((pattern+offset));
+                is_nul = buffer[buffer_len++] == 0;
                 offset++;
             }
             else if (offset < len) {
@@ -497,6 +500,13 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
             buffer[buffer_len++] = (unsigned char)pattern[offset];
         }
 
+        if (is_nul) {
+            if (buffer_len >= buffer_cap)
+                return ZPL_RE_ERROR_TOO_LONG;
+
+            buffer[buffer_len++] = ZPL_RE_CODE_NULL;
+        }
+
         offset++;
     }
 
@@ -662,7 +672,10 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 if ((offset+1 < len) && zpl_char_is_hex_digit(*(pattern+offset)) && zpl_char_is_hex_digit(*(pattern+offset+1))) {
                     unsigned char hex_value = zpl_re__hex((pattern+offset));
                     offset += 2;
-                    err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_META_MATCH, (int)hex_value);
+                    if (hex_value)
+                        err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_META_MATCH, (int)hex_value);
+                    else
+                        err = zpl_re__emit_ops(re, 3, ZPL_RE_OP_META_MATCH, 0, ZPL_RE_CODE_NULL);
                     if (err) return err;
                 } else if (offset < len) {
                     int code = zpl_re__encode_escape(pattern[offset++]);
-- 
2.43.0


From e49acf8035d0aa88a891a02873744bbaeace7abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:47 +0000
Subject: [PATCH 098/117] fix: zpl_socket_get_address and
 zpl_socket_receive_from passed a size where the system expects a pointer to
 it and always failed

---
 code/source/socket.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/socket.c b/code/source/socket.c
index c40695f..8e6de2b 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -138,7 +138,8 @@ ZPL_DEF zpl_socket zpl_socket_accept(zpl_socket socket, zpl_socket_addr *addr) {
 }
 
 ZPL_DEF zpl_i32 zpl_socket_get_address(zpl_socket socket, zpl_socket_addr *addr) {
-    return getsockname(socket, (struct sockaddr *)addr, (socklen_t *)sizeof(*addr));
+    socklen_t len = sizeof(*addr);
+    return getsockname(socket, (struct sockaddr *)addr, &len);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_get_address_info(zpl_socket_addr *addr, char *host, zpl_i32 host_size, char *service, zpl_i32 service_size) {
@@ -158,7 +159,8 @@ ZPL_DEF zpl_i32 zpl_socket_send_to(zpl_socket socket, zpl_socket_addr *addr, con
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive_from(zpl_socket socket, zpl_socket_addr *addr, char *buffer, zpl_i32 size) {
-    return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, (socklen_t *)sizeof(*addr));
+    socklen_t len = sizeof(*addr);
+    return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, addr ? &len : NULL);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_select(zpl_socket socket, zpl_f64 time) {
-- 
2.43.0


From 9e4f5f3c9354a600a5be42411d66cba76e81048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:47 +0000
Subject: [PATCH 099/117] fix: zpl_socket_create left the socket open when
 binding, configuring or connecting it failed

---
 code/source/socket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/source/socket.c b/code/source/socket.c
index 8e6de2b..39d577d 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -67,6 +67,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 
     if (mode == ZPL_SOCKET_BIND) {
         if (bind(sock, result->ai_addr, (int)result->ai_addrlen) != 0) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
@@ -76,11 +77,13 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 #   if defined(ZPL_SYSTEM_WINDOWS)
         DWORD non_blocking = 1;
         if (ioctlsocket(sock, FIONBIO, &non_blocking)) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
 #   else
         if (fcntl(sock, F_SETFL, O_NONBLOCK) == -1) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
@@ -89,6 +92,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 
     if (mode == ZPL_SOCKET_CONNECT) {
         if (connect(sock, result->ai_addr, (int)result->ai_addrlen) != 0 && !(flags & ZPL_SOCKET_NON_BLOCKING)) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
-- 
2.43.0


From 7a3d98c0cff9d06da9499c2bf7329c9b2aca7724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:47 +0000
Subject: [PATCH 100/117] fix: waiting for sockets beyond FD_SETSIZE wrote past
 the end of the descriptor set

---
 code/source/socket.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/source/socket.c b/code/source/socket.c
index 39d577d..fafb4dd 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -171,6 +171,10 @@ ZPL_DEF zpl_i32 zpl_socket_select(zpl_socket socket, zpl_f64 time) {
     fd_set fds;
     struct timeval tv;
 
+#   if !defined(ZPL_SYSTEM_WINDOWS)
+    if (socket >= FD_SETSIZE) return -1;
+#   endif
+
     FD_ZERO(&fds);
     if (socket > -1) FD_SET(socket, &fds);
 
@@ -187,6 +191,9 @@ ZPL_DEF zpl_i32 zpl_socket_multi_select(zpl_socket *sockets, zpl_i32 count, zpl_
 
     FD_ZERO(&fds);
     for (i = 0; i < count; ++i) {
+#   if !defined(ZPL_SYSTEM_WINDOWS)
+        if (sockets[i] >= FD_SETSIZE) return -1;
+#   endif
         if (sockets[i] > max) max = sockets[i];
         if (sockets[i] > -1) FD_SET(sockets[i], &fds);
     }
-- 
2.43.0


From 00defd096456d2accf5e0550a1fbdf06ebcb32d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:47 +0000
Subject: [PATCH 101/117] fix: a non-blocking socket whose connection failed at
 once was returned as if it was being connected

---
 code/source/socket.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/code/source/socket.c b/code/source/socket.c
index fafb4dd..df6b4e6 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -8,6 +8,7 @@ ZPL_BEGIN_C_DECLS
 typedef int socklen_t;
 #else //unix
 #   include <sys/socket.h>
+#   include <errno.h>
 #   include <netdb.h>
 #   include <fcntl.h>
 #   include <unistd.h>
@@ -91,10 +92,17 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
     }
 
     if (mode == ZPL_SOCKET_CONNECT) {
-        if (connect(sock, result->ai_addr, (int)result->ai_addrlen) != 0 && !(flags & ZPL_SOCKET_NON_BLOCKING)) {
-            zpl_socket_close(sock);
-            freeaddrinfo(result);
-            return -1;
+        if (connect(sock, result->ai_addr, (int)result->ai_addrlen) != 0) {
+#   if defined(ZPL_SYSTEM_WINDOWS)
+            zpl_b32 in_progress = (WSAGetLastError() == WSAEWOULDBLOCK);
+#   else
+            zpl_b32 in_progress = (errno == EINPROGRESS);
+#   endif
+            if (!in_progress || !(flags & ZPL_SOCKET_NON_BLOCKING)) {
+                zpl_socket_close(sock);
+                freeaddrinfo(result);
+                return -1;
+            }
         }
     }
 
-- 
2.43.0


From 64faf3d42503add6629fa4e151a0c3d9b63f5016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:47 +0000
Subject: [PATCH 102/117] fix: zpl_system_command_str left out NUL bytes of the
 output

---
 code/source/core/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/misc.c b/code/source/core/misc.c
index 2fee10a..50ce05a 100644
--- a/code/source/core/misc.c
+++ b/code/source/core/misc.c
@@ -122,8 +122,8 @@ zpl_string zpl_system_command_str(const char *command, zpl_allocator backing) {
 
         int c;
         while ((c = getc(handle)) != EOF) {
-            char ins[2] = {(char)c,0};
-            output = zpl_string_appendc(output, ins);
+            char ins = (char)c;
+            output = zpl_string_append_length(output, &ins, 1);
         }
 
 #        if defined(ZPL_SYSTEM_WINDOWS)
-- 
2.43.0


From b92c95f9f12630092bb8d4f9ce7627ea7aa66268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:31 +0000
Subject: [PATCH 103/117] fix: bounded string length read up to seven bytes
 beyond the terminator's block (also in formatting with a precision)

---
 code/header/core/string.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index caff2e5..e658ef4 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -179,9 +179,12 @@ ZPL_IMPL_INLINE zpl_isize zpl_strlen(const char *str) {
 }
 
 ZPL_IMPL_INLINE zpl_isize zpl_strnlen(const char *str, zpl_isize max_len) {
-    const char *end = cast(const char *) zpl_memchr(str, 0, max_len);
-    if (end) return end - str;
-    return max_len;
+    const char *p = str;
+    while (max_len > 0 && *p) {
+        p++;
+        max_len--;
+    }
+    return p - str;
 }
 
 ZPL_IMPL_INLINE zpl_isize zpl_utf8_strlen(zpl_u8 const *str) {
-- 
2.43.0


From 367d6d6ffb7c1b91390daeecdc21866441427e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:04 +0000
Subject: [PATCH 104/117] fix: JSON, CSV and URI writers lost names and strings
 longer than the formatting buffer

---
 code/source/adt.c          |  2 +-
 code/source/parsers/csv.c  |  3 ++-
 code/source/parsers/json.c | 22 ++++++++++++++++++----
 code/source/parsers/uri.c  |  2 +-
 4 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 78b1fae..89086f8 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -615,7 +615,7 @@ zpl_adt_error zpl_adt_print_string(zpl_file *file, zpl_adt_node *node, char cons
 
     do {
         p = zpl_str_skip_any(p, escaped_chars);
-        zpl__adt_fprintf(file, "%.*s", zpl_ptr_diff(b, p), b);
+        if (p > b && !zpl_file_write(file, b, zpl_ptr_diff(b, p))) return ZPL_ADT_ERROR_OUT_OF_MEMORY;
         if (*p && !!zpl_strchr(escaped_chars, *p)) {
             zpl__adt_fprintf(file, "%s%c", escape_symbol, *p);
             p++;
diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 093a66f..1cc6bea 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -169,7 +169,8 @@ void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
 
                 case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
 #endif
-                    zpl_fprintf(file, "%s", node->string);
+                    char const *text = node->string ? node->string : "(null)";
+                    zpl_file_write(file, text, zpl_strlen(text)); // NOTE: formatted printing is limited to ZPL_PRINTF_MAXLEN
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
                 } break;
             }
diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 8782c02..e1c83e6 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -29,6 +29,13 @@ do {
     if (zpl_fprintf(s_, fmt_, ##__VA_ARGS__) < 0) return false;                                                    \
 } while (0)
 
+// NOTE: formatted printing is limited to ZPL_PRINTF_MAXLEN, names are not
+#define zpl__json_write_text(s_, text_)                                                                                \
+do {                                                                                                               \
+    char const *t_ = (text_) ? (text_) : "(null)";                                                                 \
+    if (!zpl_file_write(s_, t_, zpl_strlen(t_))) return false;                                                     \
+} while (0)
+
 #define zpl___ind(x) if (x > 0) zpl__json_fprintf(f, "%*r", x, ' ');
 
 zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
@@ -501,15 +508,19 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             switch (node->name_style) {
                 case ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE: {
-                    zpl__json_fprintf(f, "\"%s\"", node->name);
+                    zpl__json_fprintf(f, "\"");
+                    zpl__json_write_text(f, node->name);
+                    zpl__json_fprintf(f, "\"");
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_SINGLE_QUOTE: {
-                    zpl__json_fprintf(f, "\'%s\'", node->name);
+                    zpl__json_fprintf(f, "\'");
+                    zpl__json_write_text(f, node->name);
+                    zpl__json_fprintf(f, "\'");
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
-                    zpl__json_fprintf(f, "%s", node->name);
+                    zpl__json_write_text(f, node->name);
                 } break;
             }
 
@@ -526,7 +537,9 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
                 }
             }
 #else
-            zpl__json_fprintf(f, "\"%s\":%s", node->name, zpl__json_string_space(indent));
+            zpl__json_fprintf(f, "\"");
+            zpl__json_write_text(f, node->name);
+            zpl__json_fprintf(f, "\":%s", zpl__json_string_space(indent));
 #endif
         }
     }
@@ -596,6 +609,7 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
 }
 
 #undef zpl__json_fprintf
+#undef zpl__json_write_text
 #undef zpl___ind
 #undef zpl__json_append_node
 
diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index aa1f6fc..04e1139 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -149,7 +149,7 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
         origin = zpl_adt_query(obj, "__zpl_origin__");
         if (origin && origin->type != ZPL_ADT_TYPE_STRING) origin = NULL;
         if (origin && origin->string) {
-            zpl_fprintf(f, "%s", origin->string);
+            zpl_file_write(f, origin->string, zpl_strlen(origin->string));
         }
     }
     
-- 
2.43.0


From 3f0920cecd3da453ee1ca99148c21e3c2019c4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:08 +0000
Subject: [PATCH 105/117] fix: a ranged floating-point draw from a range wider
 than the largest number was infinite or NaN

---
 code/source/core/random.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index d18ef3b..3615f2d 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -149,6 +149,7 @@ zpl_f64 zpl_random_range_f64(zpl_random *r, zpl_f64 lower_inc, zpl_f64 higher_in
     zpl_f64 f = cast(zpl_f64)zpl_random_gen_u64(r) / cast(zpl_f64)ZPL_U64_MAX;
     zpl_f64 diff = higher_inc-lower_inc;
     
+    if (diff > ZPL_F64_MAX) return f * higher_inc + (1.0 - f) * lower_inc; // NOTE: the width is not representable
     f *= diff;
     f += lower_inc;
     if (f > higher_inc) f = higher_inc; // NOTE: rounding may step over the bound
-- 
2.43.0


From df3cae0b640b3527e78ce7fa30f4eb199ec700bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:23 +0000
Subject: [PATCH 106/117] fix: json: accept members whose comma starts the next
 line

---
 code/source/parsers/json.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index e1c83e6..2af7038 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -327,6 +327,12 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         char *end_p = p; zpl_unused(end_p);
         p = zpl__json_trim(p, true);
 
+        /* a line break before a comma is no delimiter of its own. */
+        if (*p == '\n') {
+            char *next_p = zpl__json_trim(p, false);
+            if (*next_p == ',') p = next_p;
+        }
+
         /* this code analyses the keyvalue pair delimiter used in the packet. */
         if (zpl__json_is_delim_char(*p)) {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-- 
2.43.0


From 84c994f35ac411f8349f275b11059d06db34676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:31 +0000
Subject: [PATCH 107/117] fix: zpl_str_control_skip read the character before
 its text

---
 code/header/core/string.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index e658ef4..f2b01fa 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -344,7 +344,9 @@ ZPL_IMPL_INLINE zpl_b32 zpl__is_delim_char(char c) { return !!zpl_strchr(",|\n",
 
 
 ZPL_IMPL_INLINE char const *zpl_str_control_skip(char const *str, char c) {
-    while ((*str && *str != c) || (*(str - 1) == '\\' && *str == c && zpl_char_is_control(c))) { ++str; }
+    char const *begin = str;
+
+    while ((*str && *str != c) || (str != begin && *(str - 1) == '\\' && *str == c && zpl_char_is_control(c))) { ++str; }
 
     return str;
 }
-- 
2.43.0


From 571c7bc46f4df766e0a9807461482dda43210751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:22 +0000
Subject: [PATCH 108/117] fix: copying into fresh memory wrote through NULL
 when the allocation failed

---
 code/header/essentials/memory_custom.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index a46e295..68bfec1 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -275,15 +275,18 @@ ZPL_IMPL_INLINE void *zpl_resize_align(zpl_allocator a, void *ptr, zpl_isize old
 }
 
 ZPL_IMPL_INLINE void *zpl_alloc_copy(zpl_allocator a, void const *src, zpl_isize size) {
-    return zpl_memcopy(zpl_alloc(a, size), src, size);
+    void *result = zpl_alloc(a, size);
+    return result ? zpl_memcopy(result, src, size) : NULL;
 }
 ZPL_IMPL_INLINE void *zpl_alloc_copy_align(zpl_allocator a, void const *src, zpl_isize size, zpl_isize alignment) {
-    return zpl_memcopy(zpl_alloc_align(a, size, alignment), src, size);
+    void *result = zpl_alloc_align(a, size, alignment);
+    return result ? zpl_memcopy(result, src, size) : NULL;
 }
 
 ZPL_IMPL_INLINE char *zpl_alloc_str_len(zpl_allocator a, char const *str, zpl_isize len) {
     char *result;
     result = cast(char *) zpl_alloc(a, len + 1);
+    if (!result) return NULL;
     zpl_memmove(result, str, len);
     result[len] = '\0';
     return result;
-- 
2.43.0


From be28c33c53ac5eff264ecd534115f62594167ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:22 +0000
Subject: [PATCH 109/117] fix: zpl_strdup wrote through NULL when the
 allocation failed

---
 code/header/core/string.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index f2b01fa..f402b14 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -433,6 +433,7 @@ ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len)
     ZPL_ASSERT_NOT_NULL(src);
     zpl_isize len = zpl_strlen(src);
     char *dest = cast(char *) zpl_alloc(a, max_len);
+    if (!dest) return NULL;
     if (len >= max_len) len = max_len > 0 ? max_len - 1 : 0;
     zpl_memcopy(dest, src, len);
     zpl_memset(dest + len, 0, max_len - len);
-- 
2.43.0


From db9083608337300f4678ec892a07117cd17496ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:22 +0000
Subject: [PATCH 110/117] fix: zpl_string_join used and leaked a string it
 could not grow

---
 code/source/core/stringlib.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index fe3eac3..875f555 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -83,17 +83,21 @@ ZPL_ALWAYS_INLINE zpl_string zpl_string_appendc(zpl_string str, const char *othe
 }
 
 ZPL_ALWAYS_INLINE zpl_string zpl_string_join(zpl_allocator a, const char **parts, zpl_isize count, const char *glue) {
-    zpl_string ret;
+    zpl_string ret, grown;
     zpl_isize i;
 
     ret = zpl_string_make(a, NULL);
 
-    for (i=0; i<count; ++i) {
-        ret = zpl_string_appendc(ret, parts[i]);
+    for (i=0; ret && i<count; ++i) {
+        grown = zpl_string_appendc(ret, parts[i]);
 
-        if ((i+1) < count) {
-            ret = zpl_string_appendc(ret, glue);
+        if (grown && (i+1) < count) {
+            ret = grown;
+            grown = zpl_string_appendc(ret, glue);
         }
+
+        if (!grown) zpl_string_free(ret);
+        ret = grown;
     }
 
     return ret;
-- 
2.43.0


From 9f52eb9ac27fecb7043b915f030269b99929c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:23 +0000
Subject: [PATCH 111/117] fix: initialising a pool wrote through NULL when its
 memory could not be allocated

---
 code/source/essentials/memory_custom.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index a3f9898..2dd8384 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -225,6 +225,7 @@ void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_bl
     pool_size = num_blocks * actual_block_size;
 
     data = zpl_alloc_align(backing, pool_size, block_align);
+    if (data == NULL) return;
 
     // NOTE: Init intrusive freelist
     curr = data;
-- 
2.43.0


From 4a23b3bf86a526d3ce250952d1803e9d0f3141e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:23 +0000
Subject: [PATCH 112/117] fix: zpl_system_command_str used and leaked a string
 it could not grow

---
 code/source/core/misc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/core/misc.c b/code/source/core/misc.c
index 50ce05a..eddf931 100644
--- a/code/source/core/misc.c
+++ b/code/source/core/misc.c
@@ -121,9 +121,11 @@ zpl_string zpl_system_command_str(const char *command, zpl_allocator backing) {
         zpl_string output = zpl_string_make_reserve(backing, 4);
 
         int c;
-        while ((c = getc(handle)) != EOF) {
+        while (output && (c = getc(handle)) != EOF) {
             char ins = (char)c;
-            output = zpl_string_append_length(output, &ins, 1);
+            zpl_string grown = zpl_string_append_length(output, &ins, 1);
+            if (!grown) zpl_string_free(output);
+            output = grown;
         }
 
 #        if defined(ZPL_SYSTEM_WINDOWS)
-- 
2.43.0


From 9a2402f6b21299326fe126984076553badfd16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:23 +0000
Subject: [PATCH 113/117] fix: zpl_str_split_lines used an array that could not
 be allocated

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index f402b14..b6794a2 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -443,7 +443,7 @@ ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len)
 
 ZPL_IMPL_INLINE char **zpl_str_split_lines(zpl_allocator alloc, char *source, zpl_b32 strip_whitespace) {
     char **lines = NULL, *p = source, *pd = p;
-    zpl_array_init(lines, alloc);
+    if (!zpl_array_init(lines, alloc)) return NULL;
 
     while (*p) {
         if (*pd == '\n' || *pd == '\0') {
-- 
2.43.0


From 170cc23fb2f71b2043bebabfc222fbc6c9f85619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:41 +0000
Subject: [PATCH 114/117] fix: shrinking an array dropped elements although the
 new memory was refused

---
 code/header/essentials/collections/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index f237874..f58ac0b 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -115,10 +115,10 @@ do {
 ZPL_IMPL_INLINE zpl_b8 zpl__array_set_capacity(void **array, zpl_isize capacity) {
     zpl_array_header *h = ZPL_ARRAY_HEADER(*array);
     if (capacity == h->capacity) return true;
-    if (capacity < h->count) h->count = capacity;
     zpl_isize size = zpl_size_of(zpl_array_header) + h->elem_size * capacity;
     zpl_array_header *nh = cast(zpl_array_header *) zpl_alloc(h->allocator, size);
     if (!nh) return false;
+    if (capacity < h->count) h->count = capacity;
     zpl_memmove(nh, h, zpl_size_of(zpl_array_header) + h->elem_size * h->count);
     nh->allocator = h->allocator;
     nh->elem_size = h->elem_size;
-- 
2.43.0


From ff9a677e2a2b09adbb0db20d9aaa6456eec1512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:41 +0000
Subject: [PATCH 115/117] fix: a hash table that could not grow lost its
 entries and wrote through NULL

---
 code/header/essentials/collections/hashtable.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/code/header/essentials/collections/hashtable.h b/code/header/essentials/collections/hashtable.h
index fc24cdf..1f6170c 100644
--- a/code/header/essentials/collections/hashtable.h
+++ b/code/header/essentials/collections/hashtable.h
@@ -111,7 +111,7 @@ typedef struct zpl_hash_table_find_result {
         e.key = key;                                                                                                \
         e.next = -1;                                                                                                \
         index = zpl_array_count(h->entries);                                                                        \
-        zpl_array_append(h->entries, e);                                                                            \
+        if (!zpl_array_append(h->entries, e)) return -1;                                                            \
         return index;                                                                                               \
     }                                                                                                               \
                                                                                                                     \
@@ -142,8 +142,11 @@ typedef struct zpl_hash_table_find_result {
         zpl_isize i, j;                                                                                             \
         NAME nh = { 0 };                                                                                            \
         ZPL_JOIN2(FUNC, init)(&nh, zpl_array_allocator(h->hashes));                                                 \
-        zpl_array_resize(nh.hashes, new_count);                                                                     \
-        zpl_array_reserve(nh.entries, zpl_array_count(h->entries));                                                 \
+        if (!nh.hashes || !nh.entries || !zpl_array_resize(nh.hashes, new_count) ||                                 \
+            !zpl_array_reserve(nh.entries, zpl_array_count(h->entries))) {                                          \
+            ZPL_JOIN2(FUNC, destroy)(&nh);                                                                          \
+            return;                                                                                                 \
+        }                                                                                                           \
         for (i = 0; i < new_count; i++) nh.hashes[i] = -1;                                                          \
         for (i = 0; i < zpl_array_count(h->entries); i++) {                                                         \
             ZPL_JOIN2(NAME, Entry) * e;                                                                             \
@@ -218,11 +221,13 @@ typedef struct zpl_hash_table_find_result {
         zpl_isize index;                                                                                            \
         zpl_hash_table_find_result fr;                                                                              \
         if (zpl_array_count(h->hashes) == 0) ZPL_JOIN2(FUNC, grow)(h);                                              \
+        if (zpl_array_count(h->hashes) == 0) return;                                                                \
         fr = ZPL_JOIN2(FUNC, _find)(h, key);                                                                        \
         if (fr.entry_index >= 0) {                                                                                  \
             index = fr.entry_index;                                                                                 \
         } else {                                                                                                    \
             index = ZPL_JOIN2(FUNC, _add_entry)(h, key);                                                            \
+            if (index < 0) return;                                                                                  \
             if (fr.entry_prev >= 0) {                                                                               \
                 h->entries[fr.entry_prev].next = index;                                                             \
             } else {                                                                                                \
-- 
2.43.0


From 8cd57efbdfad4d2c0b620e82eaec385a937019b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:19 +0000
Subject: [PATCH 116/117] fix: compiling a pattern wrote through NULL when
 memory was refused

---
 code/source/regex.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index a8b65df..2814c86 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -370,7 +370,9 @@ static zpl_regex_error zpl_re__emit_ops(zpl_re *re, zpl_isize op_count, ...) {
         }
         else {
             zpl_isize new_cap = (re->buf_cap*2) + op_count;
-            re->buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            char *new_buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            if (!new_buf) return ZPL_RE_ERROR_INTERNAL_FAILURE;
+            re->buf = new_buf;
             re->buf_cap = new_cap;
         }
     }
@@ -395,7 +397,9 @@ static zpl_regex_error zpl_re__emit_ops_buffer(zpl_re *re, zpl_isize op_count, c
         }
         else {
             zpl_isize new_cap = (re->buf_cap*2) + op_count;
-            re->buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            char *new_buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            if (!new_buf) return ZPL_RE_ERROR_INTERNAL_FAILURE;
+            re->buf = new_buf;
             re->buf_cap = new_cap;
         }
     }
@@ -740,9 +744,11 @@ zpl_regex_error zpl_re_compile(zpl_re *re, zpl_allocator backing, char const *pa
     re->capture_count = 0;
     re->buf = (char *)zpl_alloc(backing, cap);
     re->buf_len = 0;
-    re->buf_cap = cap;
+    re->buf_cap = re->buf ? cap : 0;
     re->can_realloc = 1;
 
+    if (!re->buf) return ZPL_RE_ERROR_INTERNAL_FAILURE;
+
     err = zpl_re__parse(re, pattern, pattern_len, 0, 0, &offset);
 
     if (err)
-- 
2.43.0


From fd3ce5d644ea0390f461d5dfbd25957c822af8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:19 +0000
Subject: [PATCH 117/117] fix: zpl_base64_encode wrote through NULL when memory
 was refused

---
 code/source/hashing.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/hashing.c b/code/source/hashing.c
index e10f336..da966ad 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -258,6 +258,7 @@ zpl_u8 *zpl_base64_encode(zpl_allocator a, void const *data, zpl_isize len) {
 
     enc_len = zpl__base64_encoded_size(len);
     ret = cast(zpl_u8 *)zpl_alloc(a, enc_len+1);
+    if (ret == NULL) return NULL;
     ret[enc_len] = 0;
 
     for (i=0, j=0; i < len; i+=3, j+=4) {
-- 
2.43.0

