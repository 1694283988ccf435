From cfc811cb160e28765bcd522cdfdadee58d2eb7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:45 +0000
Subject: [PATCH 01/38] fix: stop when source labels cannot be allocated

create_source_labels dereferenced an empty optional when the label section
was full.
---
 polytracker/include/taintdag/labels.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/labels.h b/polytracker/include/taintdag/labels.h
index 66fcb5b..d9a926e 100644
--- a/polytracker/include/taintdag/labels.h
+++ b/polytracker/include/taintdag/labels.h
@@ -41,7 +41,9 @@ struct Labels : public FixedSizeAlloc<storage_t> {
         construct_range(length, [src, &offset](uint8_t *p) mutable {
           new (p) storage_t{encode(SourceTaint{src, offset++})};
         });
-    // TODO(hbrodin): Check valid return
+    if (!maybe_range) {
+      error_exit("Failed to create ", length, " source labels.");
+    }
     auto first = index(*maybe_range->begin());
     auto last = first + length - 1;
     return {first, last};
-- 
2.43.0


From 6dbe0289bfd4877ccf688d97d56e9bc4a1d552be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:45 +0000
Subject: [PATCH 02/38] fix: refuse ranges whose byte size wraps

construct_range multiplied the number of entries with their size without
checking for overflow, so that a huge request was granted.
---
 polytracker/include/taintdag/section.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polytracker/include/taintdag/section.h b/polytracker/include/taintdag/section.h
index cc69900..ea5c2aa 100644
--- a/polytracker/include/taintdag/section.h
+++ b/polytracker/include/taintdag/section.h
@@ -153,6 +153,10 @@ template <typename T> struct FixedSizeAlloc : SectionBase {
       size_t n,
       F &&generator) /* TODO(hbrodin): require(generator(uint8_t *)*/ {
     // TODO(hbrodin): Check n > 0
+    // Larger than the section, would possibly wrap when computing mem_size.
+    if (n > mem_.size() / entry_size()) {
+      return {};
+    }
     auto mem_size = entry_size() * n;
     if (std::optional<SectionBase::WriteCtx> write_context =
             SectionBase::write(mem_size)) {
-- 
2.43.0


From 12776247511973e749bbec957f6106591908cfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:45 +0000
Subject: [PATCH 03/38] fix: an empty string is not a valid Length

Length is documented to be valid only if it is greater than zero.
---
 polytracker/src/taintdag/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/taintdag/util.cpp b/polytracker/src/taintdag/util.cpp
index 0ed8f97..5586dd3 100644
--- a/polytracker/src/taintdag/util.cpp
+++ b/polytracker/src/taintdag/util.cpp
@@ -46,7 +46,7 @@ Length Length::from_returned_size_count(size_t size, size_t nitems) {
 }
 
 Length Length::from_returned_string(char const *str) {
-  if (str) {
+  if (str && *str != '\0') {
     return Length{std::string_view{str}.length()};
   } else {
     return Length{};
-- 
2.43.0


From edc2c3afe2d46c09b8d43e3b18265e81f39c1ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:19 +0000
Subject: [PATCH 04/38] fix: align sections of the output file

do_allocation advanced by the misalignment instead of by what is missing to
the next aligned address.
---
 polytracker/include/taintdag/outputfile.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/outputfile.h b/polytracker/include/taintdag/outputfile.h
index 752bba1..a9b1c85 100644
--- a/polytracker/include/taintdag/outputfile.h
+++ b/polytracker/include/taintdag/outputfile.h
@@ -142,7 +142,8 @@ private:
   template <typename T> std::span<uint8_t> do_allocation() {
     constexpr auto idx = util::TypeIndex<T, std::tuple<Sections...>>::index;
     constexpr auto align = T::align_of;
-    auto begin = alloc_ptr_ + (reinterpret_cast<uintptr_t>(alloc_ptr_) % align);
+    auto rem = reinterpret_cast<uintptr_t>(alloc_ptr_) % align;
+    auto begin = rem == 0 ? alloc_ptr_ : alloc_ptr_ + (align - rem);
     auto end = alloc_ptr_ = begin + T::allocation_size;
     file_header_->sections[idx].offset = begin - mapped_memory_.begin;
     return {begin, end};
-- 
2.43.0


From 39c3a00370547f4017c434212f933c21c5d18223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:19 +0000
Subject: [PATCH 05/38] fix: bitmap range updates at the end of a bucket and of
 the section

A range ending at a bucket boundary counted one bucket too many, possibly
beyond the section, and a huge bit count wrapped past the capacity check.
---
 polytracker/include/taintdag/bitmap_section.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/include/taintdag/bitmap_section.h b/polytracker/include/taintdag/bitmap_section.h
index c024d89..3f38320 100644
--- a/polytracker/include/taintdag/bitmap_section.h
+++ b/polytracker/include/taintdag/bitmap_section.h
@@ -112,9 +112,10 @@ public:
       return;
     if (bit_begin >= BitCapacity)
       error_exit("Trying to set bit beyond capacity.");
-    if (bit_begin + n > BitCapacity)
+    if (n > BitCapacity - bit_begin)
       error_exit("Trying to set bit beyond capacity.");
 
+    const auto last_bucket = bucket_index(bit_begin + n - 1);
     auto current_bucket = bucket_index(bit_begin);
     const auto bucket_bit_start = bit_begin % bits_per_bucket;
 
@@ -154,7 +155,7 @@ public:
       set_bits(bucket(current_bucket), mask_post);
     }
     // NOTE(hbrodin): See the comment in set about potential inconsistency.
-    update_buckets_used(current_bucket);
+    update_buckets_used(last_bucket);
   }
 
   // Returns wheter the bit designated by bitno is set or not.
-- 
2.43.0


From ee41ac779a8e5b439d17aeea09c335681c4646f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:53 +0000
Subject: [PATCH 06/38] fix: do not keep views of caller-owned function names

---
 polytracker/src/taintdag/fnmapping.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taintdag/fnmapping.cpp b/polytracker/src/taintdag/fnmapping.cpp
index 8ce76a2..c5c84e3 100644
--- a/polytracker/src/taintdag/fnmapping.cpp
+++ b/polytracker/src/taintdag/fnmapping.cpp
@@ -38,8 +38,9 @@ std::optional<index_t> Functions::add_mapping(std::string_view name) {
   if (!maybe_ctx) {
     return {};
   }
-  // Return index of `Function` in `Functions`
-  return mappings[name] = index(maybe_ctx->t);
+  // Return index of `Function` in `Functions`. The key refers to the copy in the
+  // string table, because the memory of `name` belongs to the caller.
+  return mappings[string_table.from_offset(name_offset)] = index(maybe_ctx->t);
 }
 
 } // namespace taintdag
\ No newline at end of file
-- 
2.43.0


From 10b0bccdf77a93eeaa0f59e8f50b528edbea2dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 07/38] fix: sources without a descriptor are not found by
 descriptor -1

---
 polytracker/include/taintdag/taint_source.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polytracker/include/taintdag/taint_source.h b/polytracker/include/taintdag/taint_source.h
index c55eec0..e059713 100644
--- a/polytracker/include/taintdag/taint_source.h
+++ b/polytracker/include/taintdag/taint_source.h
@@ -84,6 +84,10 @@ struct Sources : public FixedSizeAlloc<SourceEntry> {
   }
 
   std::optional<index_t> mapping_idx(int fd) const {
+    // Sources that have no fd are not found by fd.
+    if (fd == SourceEntry::InvalidFD) {
+      return {};
+    }
     if (auto ptr = find_reverse_if(
             [fd](SourceEntry const &se) { return se.fd == fd; })) {
       return index(*ptr);
-- 
2.43.0


From d617ebdf5274cb5cbc207884f9346832a50c5b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:24 +0000
Subject: [PATCH 08/38] fix: pass conditions through before tracking has
 started

---
 polytracker/src/polytracker/polytracker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/polytracker/polytracker.cpp b/polytracker/src/polytracker/polytracker.cpp
index 56064e3..072c889 100644
--- a/polytracker/src/polytracker/polytracker.cpp
+++ b/polytracker/src/polytracker/polytracker.cpp
@@ -76,14 +76,14 @@ extern "C" void __polytracker_taint_argv(int argc, char *argv[]) {
 extern "C" uint64_t __dfsw___polytracker_log_tainted_control_flow(
     uint64_t conditional, uint32_t functionid, dfsan_label conditional_label,
     dfsan_label function_label, dfsan_label *ret_label) {
+  *ret_label = conditional_label;
   if (!polytracker_is_initialized()) {
-    return 0;
+    return conditional;
   }
   if (conditional_label > 0) {
     get_polytracker_tdag().log_tainted_control_flow(conditional_label,
                                                     functionid);
   }
-  *ret_label = conditional_label;
   return conditional;
 }
 
-- 
2.43.0


From 6947fa42a329799fe8b98521ae600d63b709d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:42 +0000
Subject: [PATCH 09/38] fix: keep labels of memory that could not be unmapped

---
 polytracker/src/taint_sources/taint_sources.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index fba8458..50cfcb5 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -372,7 +372,9 @@ EXT_C_FUNC int __dfsw_munmap(void *addr, size_t length, dfsan_label addr_label,
   fprintf(stderr, "### munmap, addr %p, length %zu \n", addr, length);
 #endif
   int ret = munmap(addr, length);
-  dfsan_set_label(0, addr, length);
+  // On failure the memory, and thereby its labels, is still there
+  if (ret == 0)
+    dfsan_set_label(0, addr, length);
   *ret_label = 0;
   return ret;
 }
-- 
2.43.0


From ea0a7e0810401aea380221be5b2b4feba601de43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:07 +0000
Subject: [PATCH 10/38] fix: record characters outside the unsigned char range
 written by putc

---
 polytracker/src/taint_sources/write_taints.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 575cdb9..fba3f90 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -81,7 +81,9 @@ EXT_C_FUNC int __dfsw_putc(int ch, FILE *stream, dfsan_label ch_label,
                            dfsan_label stream_label, dfsan_label *ret_label) {
   auto offset = util::Offset::from_file(stream);
   auto ret = fputc(ch, stream);
-  if (ret == ch) {
+  // The returned value is ch converted to unsigned char, which is not
+  // necessarily equal to ch.
+  if (ret != EOF) {
     get_polytracker_tdag().taint_sink(fileno(stream), offset, ch_label,
                                       sizeof(char));
   }
-- 
2.43.0


From f96eeb55c1e3a815ba8ce51861d8df1bad3f5ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:07 +0000
Subject: [PATCH 11/38] fix: stop when the sink log is full

---
 polytracker/include/taintdag/sink.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/sink.h b/polytracker/include/taintdag/sink.h
index 4f786bc..6de2f59 100644
--- a/polytracker/include/taintdag/sink.h
+++ b/polytracker/include/taintdag/sink.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "taintdag/error.h"
 #include "taintdag/section.h"
 #include "taintdag/taint.h"
 
@@ -33,7 +34,9 @@ struct TaintSinkBase : public FixedSizeAlloc<SinkLogEntry> {
   TaintSinkBase(SectionArg<OF> of) : FixedSizeAlloc{of.range} {}
 
   void log_single(sink_offset_t offset, label_t label, sink_index_t idx) {
-    construct(offset, label, idx);
+    if (!construct(offset, label, idx)) {
+      error_exit("Out of space in the taint sink log.");
+    }
   }
 };
 
-- 
2.43.0


From 3e96351382e5d757df9705a0fd7ce02b8661e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:23 +0000
Subject: [PATCH 12/38] fix: strchr converts the character it looks for

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index fb001ba..b3c601b 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -120,12 +120,13 @@ static char *dfsan_strchr_with_label(const char *s, int c, size_t *bytes_read,
                                      dfsan_label s_label, dfsan_label c_label,
                                      dfsan_label *ret_label) {
   char *match_pos = nullptr;
+  const char ch = (char)c; // strchr converts c to a char
   for (size_t i = 0;; ++i) {
-    if (s[i] == c || s[i] == 0) {
+    if (s[i] == ch || s[i] == 0) {
       // If s[i] is the \0 at the end of the string, and \0 is not the
       // character we are searching for, then return null.
       *bytes_read = i + 1;
-      match_pos = s[i] == 0 && c != 0 ? nullptr : const_cast<char *>(s + i);
+      match_pos = s[i] == 0 && ch != 0 ? nullptr : const_cast<char *>(s + i);
       break;
     }
   }
-- 
2.43.0


From e568192caf1ab3149594ce840cbca0b52dd22b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:23 +0000
Subject: [PATCH 13/38] fix: compare bytes and characters as unsigned

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index b3c601b..df82f39 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -206,7 +206,8 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfso_strpbrk(
 
 static int dfsan_memcmp_bcmp(const void *s1, const void *s2, size_t n,
                              size_t *bytes_read) {
-  const char *cs1 = (const char *) s1, *cs2 = (const char *) s2;
+  const unsigned char *cs1 = (const unsigned char *) s1,
+                      *cs2 = (const unsigned char *) s2;
   for (size_t i = 0; i != n; ++i) {
     if (cs1[i] != cs2[i]) {
       *bytes_read = i + 1;
@@ -306,7 +307,7 @@ static int dfsan_strncmp(const char *s1, const char *s2, size_t n,
   for (size_t i = 0;; ++i) {
     if (s1[i] != s2[i] || s1[i] == 0 || s2[i] == 0 || (n > 0 && i == n - 1)) {
       *bytes_read = i + 1;
-      return s1[i] - s2[i];
+      return (unsigned char)s1[i] - (unsigned char)s2[i];
     }
   }
 }
@@ -349,8 +350,8 @@ SANITIZER_INTERFACE_ATTRIBUTE int __dfso_strcmp(
 static int dfsan_strncasecmp(const char *s1, const char *s2, size_t n,
                              size_t *bytes_read) {
   for (size_t i = 0;; ++i) {
-    char s1_lower = tolower(s1[i]);
-    char s2_lower = tolower(s2[i]);
+    int s1_lower = tolower((unsigned char)s1[i]);
+    int s2_lower = tolower((unsigned char)s2[i]);
 
     if (s1_lower != s2_lower || s1[i] == 0 || s2[i] == 0 ||
         (n > 0 && i == n - 1)) {
-- 
2.43.0


From 42315337da981ec4e5c4dcb23b2b6f02cca02685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:23 +0000
Subject: [PATCH 14/38] fix: strcat labels the appended bytes as their source

---
 polytracker/src/taint_sources/string_taints.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/string_taints.cpp b/polytracker/src/taint_sources/string_taints.cpp
index 7965a84..f0b031d 100644
--- a/polytracker/src/taint_sources/string_taints.cpp
+++ b/polytracker/src/taint_sources/string_taints.cpp
@@ -3,9 +3,14 @@
 // __dfsw_strcat
 EXT_C_FUNC char *__dfsw_strcat(char *dest, char *src, dfsan_label dest_label,
                                dfsan_label src_label, dfsan_label *ret_label) {
-  int curr_offset = strlen(dest) - 1;
+  size_t const dest_len = strlen(dest);
+  size_t const src_len = strlen(src);
   char *ret_val = strcat(dest, src);
-  dfsan_set_label(src_label, dest + curr_offset, strlen(dest) - curr_offset);
+  // Every appended byte, including the terminator, keeps its label
+  for (size_t i = 0; i <= src_len; i++) {
+    dfsan_set_label(dfsan_read_label(src + i, sizeof(char)),
+                    dest + dest_len + i, sizeof(char));
+  }
   *ret_label = dest_label;
   return ret_val;
 }
-- 
2.43.0


From 188b10ef9d532a4854580a2650db5e363ca731f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:23 +0000
Subject: [PATCH 15/38] fix: survive failed allocations in calloc and strdup

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index df82f39..1b08d6f 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -467,7 +467,8 @@ SANITIZER_INTERFACE_ATTRIBUTE void *__dfsw_calloc(size_t nmemb, size_t size,
                                                   dfsan_label size_label,
                                                   dfsan_label *ret_label) {
   void *p = calloc(nmemb, size);
-  dfsan_set_label(0, p, nmemb * size);
+  if (p)
+    dfsan_set_label(0, p, nmemb * size);
   *ret_label = 0;
   return p;
 }
@@ -632,7 +633,8 @@ SANITIZER_INTERFACE_ATTRIBUTE char *
 __dfsw_strdup(const char *s, dfsan_label s_label, dfsan_label *ret_label) {
   size_t len = strlen(s);
   void *p = malloc(len+1);
-  dfsan_memcpy(p, s, len+1);
+  if (p)
+    dfsan_memcpy(p, s, len+1);
   *ret_label = 0;
   return static_cast<char *>(p);
 }
@@ -644,7 +646,8 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfso_strdup(const char *s,
                                                   dfsan_origin *ret_origin) {
   size_t len = strlen(s);
   void *p = malloc(len + 1);
-  dfsan_memcpy_with_origin(p, s, len + 1);
+  if (p)
+    dfsan_memcpy_with_origin(p, s, len + 1);
   *ret_label = 0;
   return static_cast<char *>(p);
 }
-- 
2.43.0


From 9debf8c4e961e0de4df5ffc9380928dbc42c6e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:23 +0000
Subject: [PATCH 16/38] fix: realloc only preserves labels of the old
 allocation

---
 polytracker/src/taint_sources/memory_taints.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/polytracker/src/taint_sources/memory_taints.cpp b/polytracker/src/taint_sources/memory_taints.cpp
index 5372eef..74d2ba4 100644
--- a/polytracker/src/taint_sources/memory_taints.cpp
+++ b/polytracker/src/taint_sources/memory_taints.cpp
@@ -1,4 +1,6 @@
 #include "polytracker/taint_sources.h"
+#include <algorithm>
+#include <malloc.h>
 #include <vector>
 
 EXT_C_FUNC void *__dfsw_malloc(size_t size, dfsan_label size_label,
@@ -12,25 +14,21 @@ EXT_C_FUNC void *__dfsw_realloc(void *ptr, size_t new_size,
                                 dfsan_label ptr_label, dfsan_label size_label,
                                 dfsan_label *ret_label) {
 
-  // TODO (hbrodin): This is incorrect. There is not new_size bytes available
-  // (typically) but for now, lets just hope that the user of returned memory
-  // clears it (no undefined read). This might actually cause a read oob if at
-  // the end of shadow memory... Need to track all allocation sizes to only copy
-  // the amount of memory avail in the old allocation.
-  //
   // Make a copy of shadow memory/labels, in case we do actually move it
   // This could be a lot faster if we used the shadow_for function and did a
   // straight copy...
   std::vector<dfsan_label> shadow;
   auto oldptr = reinterpret_cast<char *>(ptr);
   if (oldptr != nullptr && new_size > 0) {
-    shadow.reserve(new_size);
-    std::transform(oldptr, oldptr + new_size, std::back_inserter(shadow),
+    // Only the memory available in the old allocation is preserved
+    size_t const preserved = std::min(malloc_usable_size(ptr), new_size);
+    shadow.reserve(preserved);
+    std::transform(oldptr, oldptr + preserved, std::back_inserter(shadow),
                    [](char &v) { return dfsan_read_label(&v, sizeof(v)); });
   }
 
   void *new_mem = realloc(ptr, new_size);
-  if (new_mem != oldptr) {
+  if (new_mem != nullptr && new_mem != oldptr) {
     for (size_t i = 0; i < shadow.size(); i++) {
       dfsan_set_label(shadow[i], reinterpret_cast<char *>(new_mem) + i,
                       sizeof(char));
-- 
2.43.0


From d82c6aff899d459497ef947ae209bf63db0d251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:23 +0000
Subject: [PATCH 17/38] fix: strncpy does not read past its bound

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 1b08d6f..4318b46 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -656,7 +656,7 @@ SANITIZER_INTERFACE_ATTRIBUTE char *
 __dfsw_strncpy(char *s1, const char *s2, size_t n, dfsan_label s1_label,
                dfsan_label s2_label, dfsan_label n_label,
                dfsan_label *ret_label) {
-  size_t len = strlen(s2);
+  size_t len = strnlen(s2, n); // s2 need not be terminated within n bytes
   if (len < n) {
     dfsan_memcpy(s1, s2, len+1);
     dfsan_memset(s1+len+1, 0, 0, n-len-1);
@@ -673,7 +673,7 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfso_strncpy(
     dfsan_label s2_label, dfsan_label n_label, dfsan_label *ret_label,
     dfsan_origin s1_origin, dfsan_origin s2_origin, dfsan_origin n_origin,
     dfsan_origin *ret_origin) {
-  size_t len = strlen(s2);
+  size_t len = strnlen(s2, n);
   if (len < n) {
     dfsan_memcpy_with_origin(s1, s2, len + 1);
     dfsan_memset_with_origin(s1 + len + 1, 0, 0, 0, n - len - 1);
-- 
2.43.0


From e17565345ec98568fbe8fa4934ab14efed889d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:06 +0000
Subject: [PATCH 18/38] fix: storing a key in LRUCache makes it the most
 recently used

---
 polytracker/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/cache.py b/polytracker/cache.py
index 4667f27..dbd9de8 100644
--- a/polytracker/cache.py
+++ b/polytracker/cache.py
@@ -74,6 +74,7 @@ class LRUCache(Generic[R, V], MutableMapping):
 
     def __setitem__(self, k: R, v: V) -> None:
         self._items[k] = v
+        self._items.move_to_end(k, last=True)
         while self.max_size is not None and len(self._items) > self.max_size:
             self._items.popitem(last=False)
 
-- 
2.43.0


From bac8ef01d34461b28938ae637a3206cb1fefed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:06 +0000
Subject: [PATCH 19/38] fix: set operations on OrderedSet

---
 polytracker/cache.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/polytracker/cache.py b/polytracker/cache.py
index dbd9de8..76389b0 100644
--- a/polytracker/cache.py
+++ b/polytracker/cache.py
@@ -30,6 +30,11 @@ class OrderedSet(Generic[R], AbstractMutableSet):  # type: ignore
         for i in items:
             self._items[i] = i
 
+    @classmethod
+    def _from_iterable(cls, it):
+        # used by the set operations inherited from MutableSet
+        return cls(*it)
+
     def add(self, item: R):
         self._items[item] = item
 
-- 
2.43.0


From bcb1f08ffb83c3e458384689d5230ece1c754657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:48 +0000
Subject: [PATCH 20/38] fix: names that are not UTF-8 no longer make a trace
 unreadable

---
 polytracker/taint_dag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polytracker/taint_dag.py b/polytracker/taint_dag.py
index 744e576..c7e2b40 100644
--- a/polytracker/taint_dag.py
+++ b/polytracker/taint_dag.py
@@ -110,6 +110,8 @@ class TDStringSection:
         return str(
             self.section[offset + sizeof(c_uint16) : offset + sizeof(c_uint16) + n],
             "utf-8",
+            # names are arbitrary bytes; keep them, as os.fsdecode does
+            errors="surrogateescape",
         )
 
 
-- 
2.43.0


From 3e6b19d5dfc01094ad26f3904499636434a13e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:32 +0000
Subject: [PATCH 21/38] fix: cavities of a file opened more than once

---
 polytracker/mapping.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polytracker/mapping.py b/polytracker/mapping.py
index 845015b..dbad404 100644
--- a/polytracker/mapping.py
+++ b/polytracker/mapping.py
@@ -3,6 +3,7 @@ This module maps input byte offsets to output byte offsets
 """
 
 from collections import defaultdict
+from itertools import zip_longest
 from pathlib import Path
 from typing import Dict, Iterator, List, Optional, Set, Tuple
 from tqdm import tqdm
@@ -143,7 +144,10 @@ class InputOutputMapping:
         for k, v in markers.items():
             fname = self.tdfile.fd_headers[k][0]
             if fname in merged:
-                merged[fname] = bytes(a | b for (a, b) in zip(merged[fname], v))
+                # The markers may differ in length, missing bytes are not marked
+                merged[fname] = bytes(
+                    a | b for (a, b) in zip_longest(merged[fname], v, fillvalue=0)
+                )
             else:
                 merged[fname] = bytes(v)
 
-- 
2.43.0


From 1a8640cfc28aab8313c478b89ab9e3925f74ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:26 +0000
Subject: [PATCH 22/38] fix: ProgramTrace.taints gives the taints of the nodes

---
 polytracker/tracing.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index a1eb6f6..21a9758 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -1141,9 +1141,6 @@ class ProgramTrace(ABC):
         while stack:
             node = stack.pop()
 
-            if node in seen:
-                continue
-
             p1 = node.parent_one
             p2 = node.parent_two
 
-- 
2.43.0


From adc6fcaa36ba139698558d417254bebb7e5ac952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:46 +0000
Subject: [PATCH 23/38] fix: adjacent tainted bytes of a second source form one
 region

---
 polytracker/tracing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 21a9758..b2579b3 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -273,6 +273,7 @@ class Taints:
                 if region is not None:
                     yield region
                 region = None
+            last_input = offset.source
             last_offset = offset
             if region is None:
                 region = TaintedRegion(
-- 
2.43.0


From 99edcc27d8d3e1a481ef35c2178c42dc67bdacda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:46 +0000
Subject: [PATCH 24/38] fix: Taints.find ends after the last match

---
 polytracker/tracing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index b2579b3..43b34d5 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -305,6 +305,7 @@ class Taints:
                 offset = content.find(byte_sequence, offset)
                 if offset >= 0:
                     yield region[offset : offset + len(byte_sequence)]
+                    offset += 1
                 else:
                     break
 
-- 
2.43.0


From aeafd2c4d86768e715fa6c0da0897bc7c91907c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:46 +0000
Subject: [PATCH 25/38] fix: slices of a TaintedRegion stay inside the region

---
 polytracker/tracing.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 43b34d5..96b1449 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -104,13 +104,8 @@ class TaintedRegion:
         if isinstance(index_or_slice, slice):
             if index_or_slice.step is not None and index_or_slice.step != 1:
                 raise ValueError("TaintedRegion only supports slices with step == 1")
-            start = index_or_slice.start
-            if start < 0:
-                start = max(self.length + start, 0)
-            stop = index_or_slice.stop
-            if stop < 0:
-                stop = self.length + stop
-            if start >= stop or start >= self.length or stop <= 0:
+            start, stop, _ = index_or_slice.indices(self.length)
+            if start >= stop:
                 return TaintedRegion(source=self.source, offset=self.offset, length=0)
             return TaintedRegion(
                 source=self.source, offset=self.offset + start, length=stop - start
-- 
2.43.0


From ca15b2006163bff6637eaf41dfb1f13b9b170815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:46 +0000
Subject: [PATCH 26/38] fix: TaintOutput can be hashed

---
 polytracker/tracing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 96b1449..c913670 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -753,7 +753,7 @@ class TaintOutput:
         return hasattr(other, "offset") and self.offset < other.offset
 
     def __hash__(self):
-        return {self.offset, self.label}
+        return hash(self.offset)
 
     def __eq__(self, other):
         return isinstance(other, TaintOutput) and self.offset == other.offset
-- 
2.43.0


From 367c539e6e643b22c2509a08558e47c0d7b2e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:23 +0000
Subject: [PATCH 27/38] fix: labels of truncated formatted output stay within
 what was written

num_written_bytes subtracted the space available from the length of the
whole text, so a truncated piece left written bytes with stale labels or
set labels beyond the end of the buffer.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 4318b46..84b20c8 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2222,7 +2222,7 @@ struct Formatter {
     // A return value of {v,}snprintf of size or more means that the output was
     // truncated.
     if (num_written >= num_avail) {
-      num_written -= num_avail;
+      num_written = num_avail - 1;
     }
 
     return num_written;
-- 
2.43.0


From ca68fce13cca7d46554609ba7d6cafc152b3a8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:23 +0000
Subject: [PATCH 28/38] fix: %n clears the labels of the int it writes only

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 84b20c8..3b18d92 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2386,7 +2386,7 @@ static int format_buffer(char *str, size_t size, const char *fmt,
           va_labels++;
           if (va_origins)
             va_origins++;
-          dfsan_set_label(0, ptr, sizeof(ptr));
+          dfsan_set_label(0, ptr, sizeof(*ptr));
           end_fmt = true;
           break;
         }
-- 
2.43.0


From 9bae75b0a06beee0002e1d47e2471f7da8014237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:23 +0000
Subject: [PATCH 29/38] fix: formatted output ends with an untainted zero byte

An empty format wrote nothing at all, and the terminator kept the label
of whatever the buffer held before.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 3b18d92..d34163b 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2419,6 +2419,13 @@ static int format_buffer(char *str, size_t size, const char *fmt,
     formatter.str_off += retval;
   }
 
+  // Terminate the output, also when no piece of the format did.
+  if (size > 0) {
+    char *end = str + (formatter.str_off < size ? formatter.str_off : size - 1);
+    *end = '\0';
+    dfsan_set_label(0, end, 1);
+  }
+
   *ret_label = 0;
   if (ret_origin)
     *ret_origin = 0;
-- 
2.43.0


From 30afbd2aac57f49b2c29671eb8bbf809deee46b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:23 +0000
Subject: [PATCH 30/38] fix: formatted output passes on both '*' arguments,
 also negative ones

Only the last '*' argument was handed to snprintf, and none if it was
negative, so the arguments that followed were misread.
---
 .../compiler-rt/lib/dfsan/dfsan_custom.cpp    | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index d34163b..06d0960 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2172,7 +2172,7 @@ typedef int dfsan_label_va;
 struct Formatter {
   Formatter(char *str_, const char *fmt_, size_t size_)
       : str(str_), str_off(0), size(size_), fmt_start(fmt_), fmt_cur(fmt_),
-        width(-1) {}
+        num_stars(0) {}
 
   int format() {
     char *tmp_fmt = build_format_string();
@@ -2185,13 +2185,15 @@ struct Formatter {
 
   template <typename T> int format(T arg) {
     char *tmp_fmt = build_format_string();
+    size_t num_avail = str_off < size ? size - str_off : 0;
     int retval;
-    if (width >= 0) {
-      retval = snprintf(str + str_off, str_off < size ? size - str_off : 0,
-                        tmp_fmt, width, arg);
+    if (num_stars == 2) {
+      retval = snprintf(str + str_off, num_avail, tmp_fmt, stars[0], stars[1],
+                        arg);
+    } else if (num_stars == 1) {
+      retval = snprintf(str + str_off, num_avail, tmp_fmt, stars[0], arg);
     } else {
-      retval = snprintf(str + str_off, str_off < size ? size - str_off : 0,
-                        tmp_fmt, arg);
+      retval = snprintf(str + str_off, num_avail, tmp_fmt, arg);
     }
     free(tmp_fmt);
     return retval;
@@ -2233,7 +2235,9 @@ struct Formatter {
   size_t size;
   const char *fmt_start;
   const char *fmt_cur;
-  int width;
+  // The arguments for the '*'s (width and precision) of the current directive.
+  int stars[2];
+  int num_stars;
 };
 
 // Formats the input and propagates the input labels to the output. The output
@@ -2257,7 +2261,7 @@ static int format_buffer(char *str, size_t size, const char *fmt,
 
   while (*formatter.fmt_cur) {
     formatter.fmt_start = formatter.fmt_cur;
-    formatter.width = -1;
+    formatter.num_stars = 0;
     int retval = 0;
 
     if (*formatter.fmt_cur != '%') {
@@ -2399,7 +2403,8 @@ static int format_buffer(char *str, size_t size, const char *fmt,
           break;
 
         case '*':
-          formatter.width = va_arg(ap, int);
+          if (formatter.num_stars < 2)
+            formatter.stars[formatter.num_stars++] = va_arg(ap, int);
           va_labels++;
           if (va_origins)
             va_origins++;
-- 
2.43.0


From 10560c0afa13da9b143e8e24cbf25ed5c48bef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:23 +0000
Subject: [PATCH 31/38] fix: a padded string keeps its labels in formatted
 output

The labels of the argument were copied to the start of the output even
when padding came first, and those of the memory behind a short argument
were copied too.
---
 .../compiler-rt/lib/dfsan/dfsan_custom.cpp    | 52 ++++++++++++++++---
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 06d0960..52a0267 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2210,6 +2210,35 @@ struct Formatter {
 
   char *str_cur() { return str + str_off; }
 
+  // Where among the 'retval' characters that the current (string) directive
+  // produced for 'arg' those of 'arg' start, and how many they are. The others
+  // are padding.
+  void string_extent(const char *arg, size_t retval, size_t *start,
+                     size_t *len) {
+    bool left = false;
+    size_t max_len = retval;
+    int star = 0;
+    const char *p = fmt_start + 1;
+    for (; p < fmt_cur && *p != '.'; ++p) {
+      left |= *p == '-';
+      if (*p == '*')
+        left |= stars[star++] < 0;
+    }
+    if (p < fmt_cur) {
+      int precision = 0;
+      if (*++p == '*') {
+        precision = stars[star];
+      } else {
+        for (; *p >= '0' && *p <= '9'; ++p)
+          precision = precision * 10 + (*p - '0');
+      }
+      if (precision >= 0 && static_cast<size_t>(precision) < max_len)
+        max_len = precision;
+    }
+    *len = arg ? internal_strnlen(arg, max_len) : 0;
+    *start = left ? 0 : retval - *len;
+  }
+
   size_t num_written_bytes(int retval) {
     if (retval < 0) {
       return 0;
@@ -2359,15 +2388,24 @@ static int format_buffer(char *str, size_t size, const char *fmt,
         case 's': {
           char *arg = va_arg(ap, char *);
           retval = formatter.format(arg);
-          if (va_origins) {
+          va_labels++;
+          if (va_origins)
             va_origins++;
-            dfsan_mem_origin_transfer(formatter.str_cur(), arg,
-                                      formatter.num_written_bytes(retval));
+          size_t num_written = formatter.num_written_bytes(retval);
+          if (num_written > 0) {
+            size_t start, len;
+            formatter.string_extent(arg, retval, &start, &len);
+            dfsan_set_label(0, formatter.str_cur(), num_written);
+            if (start < num_written) {
+              if (len > num_written - start)
+                len = num_written - start;
+              if (va_origins)
+                dfsan_mem_origin_transfer(formatter.str_cur() + start, arg,
+                                          len);
+              internal_memcpy(shadow_for(formatter.str_cur() + start),
+                              shadow_for(arg), sizeof(dfsan_label) * len);
+            }
           }
-          va_labels++;
-          internal_memcpy(shadow_for(formatter.str_cur()), shadow_for(arg),
-                          sizeof(dfsan_label) *
-                              formatter.num_written_bytes(retval));
           end_fmt = true;
           break;
         }
-- 
2.43.0


From 462627adb54d14f10eb10402fdf657af392fd56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:31 +0000
Subject: [PATCH 32/38] fix: open, open64 and openat pass on the mode of a new
 file

The va_list itself was passed in the place of the mode, so files created
by an instrumented program got arbitrary permissions.
---
 .../src/taint_sources/taint_sources.cpp       | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 50cfcb5..3ecda7e 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -47,13 +47,19 @@ extern void polytracker_end();
 // Following the libc custom functions from custom.cc
 namespace {
 
-static int impl_open(const char *path, int oflags, dfsan_label path_label,
-                     dfsan_label flag_label, dfsan_label *va_labels,
-                     dfsan_label *ret_label, ...) {
-  va_list args;
-  va_start(args, ret_label);
-  int fd = open(path, oflags, args);
-  va_end(args);
+// Reads the mode of the file that is created, which is only passed to the
+// open-style functions if `oflags` asks for creation.
+static mode_t creation_mode(int oflags, va_list args) {
+  bool creates = (oflags & O_CREAT) != 0;
+#ifdef O_TMPFILE
+  creates |= (oflags & O_TMPFILE) == O_TMPFILE;
+#endif
+  return creates ? va_arg(args, mode_t) : 0;
+}
+
+static int impl_open(const char *path, int oflags, mode_t mode,
+                     dfsan_label *ret_label) {
+  int fd = open(path, oflags, mode);
 
   if (fd >= 0) {
     get_polytracker_tdag().open_file(fd, path);
@@ -159,14 +165,22 @@ static size_t impl_fread(F &&fread_function, FILE *fd, void *buff, size_t size,
 EXT_C_FUNC int __dfsw_open(const char *path, int oflags, dfsan_label path_label,
                            dfsan_label flag_label, dfsan_label *va_labels,
                            dfsan_label *ret_label, ...) {
-  return impl_open(path, oflags, path_label, flag_label, va_labels, ret_label);
+  va_list args;
+  va_start(args, ret_label);
+  mode_t mode = creation_mode(oflags, args);
+  va_end(args);
+  return impl_open(path, oflags, mode, ret_label);
 }
 
 EXT_C_FUNC int __dfsw_open64(const char *path, int oflags,
                              dfsan_label path_label, dfsan_label flag_label,
                              dfsan_label *va_labels, dfsan_label *ret_label,
                              ...) {
-  return impl_open(path, oflags, path_label, flag_label, va_labels, ret_label);
+  va_list args;
+  va_start(args, ret_label);
+  mode_t mode = creation_mode(oflags, args);
+  va_end(args);
+  return impl_open(path, oflags, mode, ret_label);
 }
 
 EXT_C_FUNC int __dfsw_openat(int dirfd, const char *path, int oflags,
@@ -175,8 +189,9 @@ EXT_C_FUNC int __dfsw_openat(int dirfd, const char *path, int oflags,
                              ...) {
   va_list args;
   va_start(args, ret_label);
-  int fd = openat(dirfd, path, oflags, args);
+  mode_t mode = creation_mode(oflags, args);
   va_end(args);
+  int fd = openat(dirfd, path, oflags, mode);
 
   if (fd >= 0) {
     get_polytracker_tdag().open_file(fd, path);
-- 
2.43.0


From 26e59fedf4f85fe1ff541b6119545b00bd10e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:07 +0000
Subject: [PATCH 33/38] fix: select without a timeout does not touch labels of
 the null address

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 52a0267..7f3ce2d 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1528,7 +1528,9 @@ int __dfsw_select(int nfds, fd_set *readfds, fd_set *writefds,
   if (exceptfds) {
     dfsan_set_label(0, exceptfds, sizeof(fd_set));
   }
-  dfsan_set_label(0, timeout, sizeof(struct timeval));
+  if (timeout) {
+    dfsan_set_label(0, timeout, sizeof(struct timeval));
+  }
   *ret_label = 0;
   return ret;
 }
-- 
2.43.0


From a6d7e37f9cead8cccf1d55efe0a13b9fba277c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:07 +0000
Subject: [PATCH 34/38] fix: an interrupted nanosleep without rem does not
 touch labels of the null address

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 7f3ce2d..9246e1a 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1918,7 +1918,7 @@ SANITIZER_INTERFACE_ATTRIBUTE int __dfsw_nanosleep(const struct timespec *req,
                                                    dfsan_label *ret_label) {
   int ret = nanosleep(req, rem);
   *ret_label = 0;
-  if (ret == -1) {
+  if (ret == -1 && rem) {
     // Interrupted by a signal, rem is filled with the remaining time.
     dfsan_set_label(0, rem, sizeof(struct timespec));
   }
-- 
2.43.0


From 4174c8f78eb20b936492a59c88bd24d36b8168bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:07 +0000
Subject: [PATCH 35/38] fix: a truncated message clears the labels of the
 buffers given only

With MSG_TRUNC recvmsg returns the length of the whole message; the walk
over the buffers then ran past the end of msg_iov.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 9246e1a..8ca5ff5 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1936,8 +1936,8 @@ static void clear_msghdr_labels(size_t bytes_written, struct msghdr *msg) {
   dfsan_set_label(0, msg, sizeof(*msg));
   dfsan_set_label(0, msg->msg_name, msg->msg_namelen);
   dfsan_set_label(0, msg->msg_control, msg->msg_controllen);
-  for (size_t i = 0; bytes_written > 0; ++i) {
-    assert(i < msg->msg_iovlen);
+  // With MSG_TRUNC the size returned may exceed the space there is.
+  for (size_t i = 0; i < msg->msg_iovlen && bytes_written > 0; ++i) {
     struct iovec *iov = &msg->msg_iov[i];
     size_t iov_written =
         bytes_written < iov->iov_len ? bytes_written : iov->iov_len;
-- 
2.43.0


From 701c1a94b3aadbba194bf06a2b3b068a970766b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:07 +0000
Subject: [PATCH 36/38] fix: getpwuid_r clears the labels of all the strings it
 stores

Only the first string in buf was cleared, and when no entry was found
the length was taken from a buffer that was not filled.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 8ca5ff5..1151da9 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1439,9 +1439,10 @@ int __dfsw_getpwuid_r(id_t uid, struct passwd *pwd,
   // Store the data in pwd, the strings referenced from pwd in buf, and the
   // address of pwd in *result.  On failure, NULL is stored in *result.
   int ret = getpwuid_r(uid, pwd, buf, buflen, result);
-  if (ret == 0) {
+  if (ret == 0 && *result) {
     dfsan_set_label(0, pwd, sizeof(struct passwd));
-    dfsan_set_label(0, buf, strlen(buf) + 1);
+    // All the strings are in buf, in an order that is not specified.
+    dfsan_set_label(0, buf, buflen);
   }
   *ret_label = 0;
   dfsan_set_label(0, result, sizeof(struct passwd*));
-- 
2.43.0


From 69473fdcb1915e57a9eafa914c573c5af5e08f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:17 +0000
Subject: [PATCH 37/38] fix: order tainted regions by source, also when a
 descriptor stood for two files

The identifier of an input is its descriptor, so two inputs can share it.
Sorting by identifier and offset interleaved the bytes of such inputs, and
contiguous bytes came out as several regions.
---
 polytracker/tracing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index c913670..4d05684 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -133,10 +133,12 @@ class TaintedRegion:
     def __lt__(self, other):
         return isinstance(other, TaintedRegion) and (
             self.source.uid,
+            self.source.path,
             self.offset,
             self.length,
         ) < (
             other.source.uid,
+            other.source.path,
             other.offset,
             other.length,
         )
-- 
2.43.0


From 037fc34faf3f3f09fc3b33fce2b1301334f81d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:11 +0000
Subject: [PATCH 38/38] fix: signal() reports a handler that sigaction()
 installed with SA_SIGINFO

The previous handler was compared with SignalHandler only, so the program was
given the runtime's own SignalAction. Restoring it made the handler call itself.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 1151da9..9310f53 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1730,7 +1730,8 @@ static sighandler_t dfsan_signal(int signum, sighandler_t handler,
 
   sighandler_t ret = signal(signum, handler);
 
-  if (ret == SignalHandler)
+  // The previous handler may have been installed by sigaction() with SA_SIGINFO
+  if (ret == SignalHandler || ret == (sighandler_t)SignalAction)
     ret = (sighandler_t)old_cb;
 
   *ret_label = 0;
-- 
2.43.0

