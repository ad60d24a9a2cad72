From 00feca5c85ff7c9f53ded053015aa6e9db7709ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 01/61] fix: give the sph memory error a non-zero status id

---
 source/c/foreign/sph-sc-lib/sph-sp/helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.h b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
index c10b6c2..25dcb7f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
@@ -4,7 +4,7 @@
 
 /* depends on status.h */
 #include <inttypes.h>
-enum { sph_helper_status_id_memory };
+enum { sph_helper_status_id_memory = 1 };
 #define sph_helper_status_group ((uint8_t*)("sph"))
 
 /** add explicit type cast to prevent compiler warning */
-- 
2.43.0


From 4057d62253f8f8e972ac8ad12b64225f701631ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 02/61] fix: return the string from
 sph_helper_status_description and sph_helper_status_name

---
 source/c/foreign/sph-sc-lib/sph-sp/helper.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.c b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
index f44fab7..000fed4 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
@@ -9,6 +9,7 @@ uint8_t* sph_helper_status_description(status_t a) {
   } else {
     b = "";
   };
+  return (b);
 }
 uint8_t* sph_helper_status_name(status_t a) {
   uint8_t* b;
@@ -17,6 +18,7 @@ uint8_t* sph_helper_status_name(status_t a) {
   } else {
     b = "unknown";
   };
+  return (b);
 }
 
 /** allocation helpers use status-t and have the same interface */
-- 
2.43.0


From 0b9194032121126df2543f9af6744eb79b3af94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 03/61] fix: return the status from the fixed-arity path
 functions

---
 source/c-precompiled/sph-sp/path.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index fb60807..6b9761c 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -44,14 +44,14 @@ exit:
     sp_sample_t y[2]; \
     y[0] = y1; \
     y[1] = y2; \
-    sp_path_##type_name(out, length, 2, 0, y, 0); \
+    return ((sp_path_##type_name(out, length, 2, 0, y, 0))); \
   } \
   status_t sp_path_##type_name##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3) { \
     sp_sample_t y[3]; \
     y[0] = y1; \
     y[1] = y2; \
     y[2] = y3; \
-    sp_path_##type_name(out, length, 3, (&x1), y, 0); \
+    return ((sp_path_##type_name(out, length, 3, (&x1), y, 0))); \
   } \
   status_t sp_path_##type_name##4(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4) { \
     sp_sample_t x[2]; \
@@ -62,7 +62,7 @@ exit:
     y[1] = y2; \
     y[2] = y3; \
     y[3] = y4; \
-    sp_path_##type_name(out, length, 4, x, y, 0); \
+    return ((sp_path_##type_name(out, length, 4, x, y, 0))); \
   } \
   status_t sp_path_##type_name##5(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5) { \
     sp_sample_t x[3]; \
@@ -75,13 +75,13 @@ exit:
     y[2] = y3; \
     y[3] = y4; \
     y[4] = y5; \
-    sp_path_##type_name(out, length, 5, x, y, 0); \
+    return ((sp_path_##type_name(out, length, 5, x, y, 0))); \
   } \
   status_t sp_path_##type_name##_c##2(type * *out, sp_time_t length, sp_sample_t y1, sp_sample_t y2, sp_sample_t c1) { \
     sp_sample_t y[2]; \
     y[0] = y1; \
     y[1] = y2; \
-    sp_path_##type_name(out, length, 2, 0, y, (&c1)); \
+    return ((sp_path_##type_name(out, length, 2, 0, y, (&c1)))); \
   } \
   status_t sp_path_##type_name##_c##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t c1, sp_sample_t c2) { \
     sp_sample_t y[3]; \
@@ -91,7 +91,7 @@ exit:
     y[2] = y3; \
     c[0] = c1; \
     c[1] = c2; \
-    sp_path_##type_name(out, length, 3, (&x1), y, c); \
+    return ((sp_path_##type_name(out, length, 3, (&x1), y, c))); \
   } \
   status_t sp_path_##type_name##_c##4(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3) { \
     sp_sample_t x[2]; \
@@ -106,7 +106,7 @@ exit:
     c[0] = c1; \
     c[1] = c2; \
     c[2] = c3; \
-    sp_path_##type_name(out, length, 4, x, y, c); \
+    return ((sp_path_##type_name(out, length, 4, x, y, c))); \
   } \
   status_t sp_path_##type_name##_c##5(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3, sp_sample_t c4) { \
     sp_sample_t x[3]; \
@@ -124,7 +124,7 @@ exit:
     c[1] = c2; \
     c[2] = c3; \
     c[3] = c4; \
-    sp_path_##type_name(out, length, 5, x, y, c); \
+    return ((sp_path_##type_name(out, length, 5, x, y, c))); \
   }
 sp_define_path_n(samples, sp_sample_t)
   sp_define_path_n(times, sp_time_t)
-- 
2.43.0


From c0a0c39846fdcd1ebbab752e6529d09623311aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 04/61] fix: return the status from sp_file_read

---
 source/c-precompiled/sph-sp/file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index ea0912c..9d715e6 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -115,5 +115,6 @@ status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samp
   };
 exit:
   free(file_data);
+  status_return;
 }
 void sp_file_close_read(sp_file_t file) { fclose((file.file)); }
-- 
2.43.0


From 0abdb8d528c70a742b9de9b9152379966e920a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 05/61] fix: return a value on all paths of
 sp_event_list_find_duplicate and sp_u64_from_array

---
 source/c-precompiled/sph-sp/arrays.c    | 1 +
 source/c-precompiled/sph-sp/sequencer.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 84d7d77..3b83e77 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -619,4 +619,5 @@ uint64_t sp_u64_from_array(uint8_t* a, sp_time_t count) {
   } else if (8 == count) {
     return ((*((uint64_t*)(a))));
   };
+  return (0);
 }
diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 9131451..6a7c0f7 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -39,6 +39,7 @@ uint8_t sp_event_list_find_duplicate(sp_event_list_t* a, sp_event_list_t* b) {
     i += 1;
     a = a->next;
   };
+  return (0);
 }
 void sp_event_list_validate(sp_event_list_t* a) {
   sp_time_t i = 0;
-- 
2.43.0


From b4c861f8388fda0c006762af7a3384292f38bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 06/61] fix: report missing files, set the channel count and
 close the file on error in sp_file_open_read

---
 source/c-precompiled/sph-sp/file.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 9d715e6..6199bc3 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -70,12 +70,19 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
   uint32_t subchunk_id;
   uint32_t subchunk_size;
   file->file = fopen(path, "r");
+  if (!file->file) {
+    status_set_goto(sp_s_group_libc, errno);
+  };
   if (!(fread(header, 44, 1, (file->file)) && (*((uint32_t*)(header)) == wav_string_riff) && (*((uint32_t*)((8 + header))) == wav_string_wav) && (*((uint32_t*)((12 + header))) == wav_string_fmt))) {
     sp_status_set_goto(sp_s_id_file_read);
   };
   if (!((3 == *((uint16_t*)((20 + header)))) && (32 == *((uint16_t*)((34 + header)))))) {
     sp_status_set_goto(sp_s_id_file_not_implemented);
   };
+  if (!*((uint16_t*)((22 + header))) || (((sp_channel_count_t)(-1)) < *((uint16_t*)((22 + header))))) {
+    sp_status_set_goto(sp_s_id_file_not_implemented);
+  };
+  file->channel_count = *((uint16_t*)((22 + header)));
   subchunk_id = *((uint32_t*)((36 + header)));
   subchunk_size = *((uint32_t*)((40 + header)));
   while (!(wav_string_data == subchunk_id)) {
@@ -88,6 +95,10 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
     };
   };
 exit:
+  if (status_is_failure && file->file) {
+    fclose((file->file));
+    file->file = 0;
+  };
   status_return;
 }
 status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samples) {
-- 
2.43.0


From bef3c2e2676ec85af32d30adb37d420635e68089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 07/61] fix: do not leave a closed file handle behind when the
 file header can not be written

---
 source/c-precompiled/sph-sp/file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 6199bc3..2072116 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -27,6 +27,7 @@ status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_
   };
   if (!fwrite(header, 40, 1, (file->file))) {
     fclose((file->file));
+    file->file = 0;
     sp_status_set_goto(sp_s_id_file_write);
   };
   fseek((file->file), 4, SEEK_CUR);
-- 
2.43.0


From fc01fa4c6c0367c6f02126286c821295211b380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 08/61] fix: report failed writes when closing a written file

---
 source/c-precompiled/sph-sp/file.c | 16 ++++++++++------
 source/c-precompiled/sph-sp/main.h |  2 +-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 2072116..5a4983a 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -34,14 +34,18 @@ status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_
 exit:
   status_return;
 }
-void sp_file_close_write(sp_file_t* file) {
+status_t sp_file_close_write(sp_file_t* file) {
+  status_declare;
   uint32_t chunk_size;
   chunk_size = (36 + file->data_size);
-  fseek((file->file), 4, SEEK_SET);
-  fwrite((&chunk_size), 4, 1, (file->file));
-  fseek((file->file), 40, SEEK_SET);
-  fwrite((&(file->data_size)), 4, 1, (file->file));
-  fclose((file->file));
+  if (fseek((file->file), 4, SEEK_SET) || !fwrite((&chunk_size), 4, 1, (file->file)) || fseek((file->file), 40, SEEK_SET) || !fwrite((&(file->data_size)), 4, 1, (file->file))) {
+    sp_status_set(sp_s_id_file_write);
+  };
+  if (fclose((file->file))) {
+    sp_status_set(sp_s_id_file_write);
+  };
+  file->file = 0;
+  status_return;
 }
 status_t sp_file_write(sp_file_t* file, sp_sample_t** samples, sp_time_t sample_count) {
   status_declare;
diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 5b54b2c..69ac748 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -135,7 +135,7 @@ void sp_deinitialize();
 int sp_ffti(sp_time_t input_len, double* input_or_output_real, double* input_or_output_imag);
 int sp_fft(sp_time_t input_len, double* input_or_output_real, double* input_or_output_imag);
 void sp_file_close_read(sp_file_t file);
-void sp_file_close_write(sp_file_t* file);
+status_t sp_file_close_write(sp_file_t* file);
 status_t sp_file_open_read(uint8_t* path, sp_file_t* file);
 status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_time_t sample_rate, sp_file_t* file);
 status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samples);
-- 
2.43.0


From 639311cb662b43a8d3372b3157d9097c2fcce6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 09/61] fix: report a failed seek after writing the file header

---
 source/c-precompiled/sph-sp/file.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 5a4983a..a1ba143 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -25,12 +25,11 @@ status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_
   if (!file->file) {
     status_set_goto(sp_s_group_libc, errno);
   };
-  if (!fwrite(header, 40, 1, (file->file))) {
+  if (!fwrite(header, 40, 1, (file->file)) || fseek((file->file), 4, SEEK_CUR)) {
     fclose((file->file));
     file->file = 0;
     sp_status_set_goto(sp_s_id_file_write);
   };
-  fseek((file->file), 4, SEEK_CUR);
 exit:
   status_return;
 }
-- 
2.43.0


From 0564cb491397ecaecaa448ae14c5c8bac2ac397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 10/61] fix: free the channels of zero-size blocks

---
 source/c-precompiled/sph-sp/main.c | 6 ++----
 source/c-precompiled/sph-sp/main.h | 3 ++-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 2e62223..6b5c400 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -145,10 +145,8 @@ exit:
   status_return;
 }
 void sp_block_free(sp_block_t* a) {
-  if (a->size) {
-    for (sp_size_t i = 0; (i < a->channel_count); i += 1) {
-      free(((a->samples)[i]));
-    };
+  for (sp_size_t i = 0; (i < a->channel_count); i += 1) {
+    free(((a->samples)[i]));
   };
 }
 
diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 69ac748..2e25270 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -28,7 +28,8 @@
 #define sp_subtract(a, b) (a - b)
 #define sp_block_declare(a) \
   sp_block_t a; \
-  a.size = 0
+  a.size = 0; \
+  a.channel_count = 0
 #define sp_cheap_round_positive(a) ((sp_time_t)((0.5 + a)))
 
 /** only works for non-negative values */
-- 
2.43.0


From ce5214c15ed3350995b33a56fd7e45c33240577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 11/61] fix: close the file only if it was opened and free
 events on error in sp_render_range_file

---
 source/c-precompiled/sph-sp/main.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 6b5c400..70116ed 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -335,6 +335,7 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
   sp_time_t remainder;
   sp_time_t i;
   sp_file_t file;
+  file.file = 0;
   sp_block_declare(block);
   sp_declare_event_list(events);
   status_require((sp_event_list_add((&events), event)));
@@ -354,10 +355,15 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
     status_require((sp_seq(i, (i + remainder), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), remainder)));
   };
-  sp_event_list_free((&events));
 exit:
+  sp_event_list_free((&events));
   sp_block_free((&block));
-  sp_file_close_write((&file));
+  if (file.file) {
+    status_t close_status = sp_file_close_write((&file));
+    if (status_is_success) {
+      status = close_status;
+    };
+  };
   status_return;
 }
 
-- 
2.43.0


From 29af3e381ff1bd69ad42edc7a0ba30717f216cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 12/61] fix: free the block and events on error in
 sp_render_range_block

---
 source/c-precompiled/sph-sp/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 70116ed..3c76936 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -372,14 +372,17 @@ exit:
    block will be allocated */
 status_t sp_render_range_block(sp_event_t event, sp_time_t start, sp_time_t end, sp_render_config_t config, sp_block_t* out) {
   status_declare;
-  sp_block_t block;
+  sp_block_declare(block);
   sp_declare_event_list(events);
   status_require((sp_event_list_add((&events), event)));
   status_require((sp_block_new((config.channel_count), (end - start), (&block))));
   status_require((sp_seq(start, end, block, (&events))));
-  sp_event_list_free((&events));
   *out = block;
 exit:
+  sp_event_list_free((&events));
+  if (status_is_failure) {
+    sp_block_free((&block));
+  };
   status_return;
 }
 
-- 
2.43.0


From 30efd387caa2ac77366012d2972afe30a1f2f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 13/61] fix: free the plotted block in sp_render_plot

---
 source/c-precompiled/sph-sp/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 3c76936..9d098de 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -414,6 +414,7 @@ status_t sp_render_plot(sp_event_t event) {
   };
   status_require((sp_render_range_block(event, 0, (event.end), (sp_render_config(sp_channel_count, sp_rate, (sp_render_block_seconds * sp_rate), 1)), (&block))));
   sp_plot_samples(((block.samples)[0]), (event.end));
+  sp_block_free((&block));
 exit:
   status_return;
 }
-- 
2.43.0


From 93db7823b14cb415569c27eb375283fcfb71b4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 14/61] fix: support reversing an empty event list

---
 source/c-precompiled/sph-sp/sequencer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 6a7c0f7..af3612f 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -15,6 +15,7 @@ void sp_event_list_display(sp_event_list_t* a) {
 void sp_event_list_reverse(sp_event_list_t** a) {
   sp_event_list_t* current;
   sp_event_list_t* next;
+  current = 0;
   next = *a;
   while (next) {
     current = next;
-- 
2.43.0


From 66d0c0dd03c16cd1c3c5366c6674da4414a43c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 15/61] fix: keep the convolution filter state consistent when
 it is updated or an allocation fails

---
 source/c-precompiled/sph-sp/filter.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index e59b0fc..3b9a77f 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -22,6 +22,7 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
   sp_time_t ir_len;
   sp_convolution_filter_state_t* state;
   memreg_init(2);
+  ir = 0;
   /* create state if not exists. re-use if exists and return early if ir needs not be updated */
   if (*out_state) {
     /* existing */
@@ -34,22 +35,17 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
       if (ir_f_arguments_len > state->ir_f_arguments_len) {
         status_require((sph_helper_realloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
       };
-      if (state->ir) {
-        free((state->ir));
-      };
     };
   } else {
     /* new */
     status_require((sph_helper_malloc((sizeof(sp_convolution_filter_state_t)), (&state))));
-    status_require((sph_helper_malloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
     memreg_add(state);
+    status_require((sph_helper_malloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
     memreg_add((state->ir_f_arguments));
     state->carryover_alloc_len = 0;
     state->carryover = 0;
-    state->ir_f = ir_f;
-    state->ir_f_arguments_len = ir_f_arguments_len;
+    state->ir = 0;
   };
-  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
   /* assumes that ir-len is always greater zero */
   status_require((ir_f(ir_f_arguments, (&ir), (&ir_len))));
   /* eventually extend carryover array. the array is never shrunk.
@@ -62,6 +58,7 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
     if (ir_len > state->ir_len) {
       if (carryover_alloc_len > state->carryover_alloc_len) {
         status_require((sph_helper_realloc((carryover_alloc_len * sizeof(sp_sample_t)), (&carryover))));
+        state->carryover = carryover;
         state->carryover_alloc_len = carryover_alloc_len;
       };
       /* in any case reset the extended area */
@@ -77,11 +74,16 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
   };
   state->carryover = carryover;
   state->carryover_len = (ir_len - 1);
+  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
+  state->ir_f_arguments_len = ir_f_arguments_len;
+  state->ir_f = ir_f;
+  free((state->ir));
   state->ir = ir;
   state->ir_len = ir_len;
   *out_state = state;
 exit:
   if (status_is_failure) {
+    free(ir);
     memreg_free;
   };
   status_return;
-- 
2.43.0


From c4625938495bef7e97efd27f8fdf408488cdbba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 16/61] fix: free the intermediate impulse responses of
 band-pass and band-reject filters

---
 source/c-precompiled/sph-sp/filter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 3b9a77f..606a1ce 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -176,6 +176,8 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
   sp_time_t end;
   sp_sample_t* out;
   sp_sample_t* over;
+  hp_ir = 0;
+  lp_ir = 0;
   if (is_reject) {
     if (0.0 >= cutoff_l) {
       if (0.5 <= cutoff_h) {
@@ -210,6 +212,8 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
     };
     free(over);
     *out_ir = out;
+    hp_ir = 0;
+    lp_ir = 0;
   } else {
     /* meaning of cutoff low/high is switched. cutoff-l leaves higher frequencies */
     if (0.0 >= cutoff_l) {
@@ -231,6 +235,8 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
     sp_convolve_one(lp_ir, lp_len, hp_ir, hp_len, (*out_ir));
   };
 exit:
+  free(hp_ir);
+  free(lp_ir);
   status_return;
 }
 
-- 
2.43.0


From f0de705a6a81881fe4f78c427c15f8953f811b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 17/61] fix: free temporary memory and use the middle element
 for odd sizes in the median functions

---
 source/c-precompiled/sph-sp/statistics.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 190ce7d..92b7a3e 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -86,7 +86,8 @@
     }; \
     memcpy(temp, a, (size * sizeof(value_t))); \
     quicksort(sort_less, sort_swap, temp, 0, (size - 1)); \
-    *out = ((size & 1) ? temp[((size / 2) - 1)] : ((temp[(size / 2)] + temp[((size / 2) - 1)]) / 2.0)); \
+    *out = ((size & 1) ? temp[(size / 2)] : ((temp[(size / 2)] + temp[((size / 2) - 1)]) / 2.0)); \
+    free(temp); \
     return (0); \
   }
 #define define_sp_stat_inharmonicity(name, value_t) \
-- 
2.43.0


From 0bd38e5280520a197ce5da51791678fc5e0d65ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 18/61] fix: free the temporary samples on error in
 sp_path_times

---
 source/c-precompiled/sph-sp/path.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 6b9761c..cc8fd28 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -34,9 +34,13 @@ exit:
 status_t sp_path_times(sp_time_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
   status_declare;
   sp_sample_t* temp;
+  temp = 0;
   status_require((sp_path_samples((&temp), length, point_count, x, y, c)));
   status_require((sp_samples_to_times_replace(temp, length, out)));
 exit:
+  if (status_is_failure) {
+    free(temp);
+  };
   status_return;
 }
 #define sp_define_path_n(type_name, type) \
-- 
2.43.0


From 7d8a81d71cb542533502e1c4b87c6ccb62aa7a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 19/61] fix: free memory on error and skip unopenable files in
 the plot functions

---
 source/c-precompiled/sph-sp/plot.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/plot.c b/source/c-precompiled/sph-sp/plot.c
index ca4bfce..8e0d4a5 100644
--- a/source/c-precompiled/sph-sp/plot.c
+++ b/source/c-precompiled/sph-sp/plot.c
@@ -9,6 +9,9 @@ void sp_plot_samples_to_file(sp_sample_t* a, sp_time_t a_size, uint8_t* path) {
   FILE* file;
   sp_time_t i;
   file = fopen(path, "w");
+  if (!file) {
+    return;
+  };
   for (i = 0; (i < a_size); i = (1 + i)) {
     fprintf(file, ("%.3f\n"), (a[i]));
   };
@@ -18,6 +21,9 @@ void sp_plot_times_to_file(sp_time_t* a, sp_time_t a_size, uint8_t* path) {
   FILE* file;
   sp_time_t i;
   file = fopen(path, "w");
+  if (!file) {
+    return;
+  };
   for (i = 0; (i < a_size); i += 1) {
     fprintf(file, "%lu\n", (a[i]));
   };
@@ -88,17 +94,22 @@ void sp_plot_spectrum_to_file(sp_sample_t* a, sp_time_t a_size, uint8_t* path) {
   };
   real = malloc((sizeof(sp_sample_t) * a_size));
   if (!real) {
+    free(imag);
     return;
   };
   memcpy(real, a, (sizeof(sp_sample_t) * a_size));
   if (sp_fft(a_size, real, imag)) {
-    return;
+    goto exit;
   };
   file = fopen(path, "w");
+  if (!file) {
+    goto exit;
+  };
   for (i = 0; (i < a_size); i = (1 + i)) {
     fprintf(file, ("%.3f\n"), (2 * (sqrt(((real[i] * real[i]) + (imag[i] * imag[i]))) / a_size)));
   };
   fclose(file);
+exit:
   free(imag);
   free(real);
 }
-- 
2.43.0


From 59dafd34a0052c9595db9ac963525d982d7a055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 20/61] fix: copy from the input set in sp_times_permutations
 and initialize the used size before allocations can fail

---
 source/c-precompiled/sph-sp/arrays.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 3b83e77..93f3eb6 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -77,6 +77,7 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   b = 0;
   s = 0;
   temp_out = 0;
+  temp_out_used_size = 0;
   i = 0;
   temp_out_size = sp_time_factorial(size);
   srq((sp_times_new(size, (&a))));
@@ -85,8 +86,8 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   srq((sp_times_new(size, (&b))));
   temp_out[0] = b;
   temp_out_used_size = 1;
-  sp_times_copy(a, size, set);
-  sp_times_copy(b, size, a);
+  sp_times_copy(set, size, a);
+  sp_times_copy(a, size, b);
   while ((i < size)) {
     if (s[i] < i) {
       if (i & 1) {
-- 
2.43.0


From 259ea4fc4019a2d943ceccc09bb1ed4a12c4090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 21/61] fix: initialize o_sizes in sp_times_compositions before
 allocations can fail

---
 source/c-precompiled/sph-sp/arrays.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 93f3eb6..ae11eae 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -155,6 +155,7 @@ status_t sp_times_compositions(sp_time_t sum, sp_time_t*** out, sp_time_t* out_s
   sp_time_t y;
   sigma = 1;
   o = 0;
+  o_sizes = 0;
   o_used = 0;
   a = 0;
   k = 1;
-- 
2.43.0


From 178ee2a4655e52f043444fe86bc591ab5dd31c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 22/61] fix: install the free function in
 sp_noise_event_prepare

---
 source/c-precompiled/sph-sp/sequencer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index af3612f..19d824f 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -696,6 +696,7 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
       };
     };
   };
+  event->free = sp_noise_event_free;
 exit:
   if (status_is_failure) {
     error_memory_free;
-- 
2.43.0


From c1d67c06c8fbbb4af43cf32dc6be799f83b8379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 23/61] fix: allocate noise event buffers large enough for the
 impulse response and the update resolution

---
 source/c-precompiled/sph-sp/sequencer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 19d824f..25e60a6 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -672,9 +672,9 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
   if (!filter_mod) {
     c->resolution = duration;
   };
-  /* this limits the largest block that can be safely requested */
+  /* generate processes blocks in segments of at most this size */
+  c->resolution = sp_inline_min((c->resolution), (sp_render_block_seconds * sp_rate));
   temp_length = sp_inline_max(temp_length, (c->resolution));
-  temp_length = sp_inline_min(temp_length, (sp_render_block_seconds * sp_rate));
   /* three buffers: one for the white noise, one for the first channel filter result that may be shared with other channels,
        and one for other channel filter results */
   status_require((sp_malloc_type(temp_length, sp_sample_t, (c->temp))));
-- 
2.43.0


From 4cd65050a9c1ff07da8f3ebb7a1c2cc170c14860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 24/61] fix: wait for all started futures before freeing their
 data in sp_seq_parallel

---
 source/c-precompiled/sph-sp/sequencer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 25e60a6..545f077 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -354,7 +354,7 @@ status_t sp_seq_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_even
     current = current->next;
   };
   /* merge */
-  for (sp_size_t sf_i = 0; (sf_i < active); sf_i += 1) {
+  for (sp_size_t sf_i = 0; (sf_i < allocated); sf_i += 1) {
     sf = (sf_array + sf_i);
     sph_future_touch((&(sf->future)));
     status_require((sf->status));
@@ -367,6 +367,7 @@ status_t sp_seq_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_even
 exit:
   if (sf_array) {
     for (sp_size_t i = 0; (i < allocated); i += 1) {
+      sph_future_touch((&((sf_array[i]).future)));
       sp_block_free((&((sf_array[i]).out)));
     };
     free(sf_array);
-- 
2.43.0


From 4006441b9abfe3b8cf8228e42b83841de0899f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 25/61] fix: prepare events in place in sp_seq so that a failed
 prepare does not lose event resources

---
 source/c-precompiled/sph-sp/sequencer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 545f077..1011e3c 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -264,8 +264,8 @@ status_t sp_seq(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_list_t*
     } else if (end <= e.start) {
       break;
     } else if (e.end > start) {
-      sp_event_prepare_optional_srq(e);
-      *ep = e;
+      sp_event_prepare_optional_srq((*ep));
+      e = *ep;
       status_require(((e.generate)(((start > e.start) ? (start - e.start) : 0), (sp_inline_min(end, (e.end)) - e.start), ((e.start > start) ? sp_block_with_offset(out, (e.start - start)) : out), ep)));
     };
     current = current->next;
-- 
2.43.0


From 5837d299c9cb1fb2fa63c1aab1f4b509c899f246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 26/61] fix: use acquire and release semantics for the finished
 flag of futures

---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 425613d..2139a32 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -27,7 +27,7 @@ void sph_future_eval(sph_thread_pool_task_t* task) {
   sph_future_t* a;
   a = ((sph_future_t*)((((uint8_t*)(task)) - offsetof(sph_future_t, task))));
   task->data = (a->f)((task->data));
-  a->finished = 1;
+  __atomic_store_n((&(a->finished)), 1, __ATOMIC_RELEASE);
 }
 
 /** prepare a future in out and possibly start evaluation in parallel.
@@ -52,7 +52,7 @@ void sph_future_deinit() {
 /** blocks until future is finished and returns its result */
 void* sph_future_touch(sph_future_t* a) {
   const struct timespec poll_interval = sph_future_default_poll_interval;
-  while (!a->finished) {
+  while (!__atomic_load_n((&(a->finished)), __ATOMIC_ACQUIRE)) {
     nanosleep((&poll_interval), 0);
   };
   return ((a->task.data));
-- 
2.43.0


From 1ea96f0525b3f282a5793fac1605f3c802a1136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 27/61] fix: do not destroy the future thread pool twice and
 allow reinitialization after sph_future_deinit

---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 2139a32..e5b217f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -44,8 +44,9 @@ void sph_future_new(sph_future_f_t f, void* data, sph_future_t* out) {
    waits till all active futures are finished */
 void sph_future_deinit() {
   if (sph_futures_pool_is_initialized) {
-    sph_thread_pool_finish((&sph_futures_pool), 0, 0);
-    sph_thread_pool_destroy((&sph_futures_pool));
+    if (0 == sph_thread_pool_finish((&sph_futures_pool), 0, 0)) {
+      sph_futures_pool_is_initialized = 0;
+    };
   };
 }
 
-- 
2.43.0


From bff65edaa2284a765c05035c58696eb85ef56f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 28/61] fix: reject thread counts above the limit

---
 source/c-precompiled/sph-sp/main.c               | 4 ++++
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 3 +++
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h | 1 +
 3 files changed, 8 insertions(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 9d098de..7916efa 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -432,6 +432,10 @@ sp_random_state_t sp_random_state_new(sp_time_t seed) {
 status_t sp_initialize(uint16_t cpu_count, sp_channel_count_t channel_count, sp_time_t rate) {
   status_declare;
   if (cpu_count) {
+    if (sph_thread_pool_thread_limit < cpu_count) {
+      sp_status_set(sp_s_id_invalid_argument);
+      status_return;
+    };
     status.id = sph_future_init(cpu_count);
     if (status.id) {
       status_return;
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index 08f19e5..2bec419 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -80,6 +80,9 @@ int sph_thread_pool_new(sph_thread_pool_size_t size, sph_thread_pool_t* a) {
   pthread_attr_t attr;
   int error;
   error = 0;
+  if (sph_thread_pool_thread_limit < size) {
+    return (EINVAL);
+  };
   sph_queue_init((&(a->queue)));
   pthread_mutex_init((&(a->queue_mutex)), 0);
   pthread_cond_init((&(a->queue_not_empty)), 0);
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
index f9a855a..94696f7 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
@@ -3,6 +3,7 @@
 #define sph_thread_pool_h
 
 #include <pthread.h>
+#include <errno.h>
 /* thread-pool that uses pthread condition variables to pause unused threads.
    based on the design of thread-pool.scm from sph-lib which has been stress tested in servers and digital signal processing.
    depends on queue.h */
-- 
2.43.0


From f3de009a2c53875d9e3f00c6f72b30a43534f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 29/61] fix: reset the lookup tables in sp_deinitialize

---
 source/c-precompiled/sph-sp/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 7916efa..b392a4b 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -464,6 +464,8 @@ void sp_deinitialize() {
   };
   free(sp_sine_table);
   free(sp_sine_table_lfo);
+  sp_sine_table = 0;
+  sp_sine_table_lfo = 0;
 }
 #include <sph-sp/path.c>
 
-- 
2.43.0


From 681d0cac0d46d91e2f98240a50260296b0dcaef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 30/61] fix: use the element type in the absolute maximum and
 swap functions

---
 source/c-precompiled/sph-sp/arrays-template.c | 10 +++++-----
 source/c-precompiled/sph-sp/arrays-template.h |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index edd31bb..aa02cf3 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -36,11 +36,11 @@
 \
   /** get the maximum value in samples array, disregarding sign */ \
   value_t sp_##type_name##_absolute_max(value_t* in, sp_size_t count) { \
-    sp_time_t temp; \
-    sp_time_t max; \
+    value_t temp; \
+    value_t max; \
     max = 0; \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      temp = sp_inline_abs((in[i])); \
+      temp = abs((in[i])); \
       if (temp > max) { \
         max = temp; \
       }; \
@@ -107,8 +107,8 @@
       out[i] = sum; \
     }; \
   } \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
-    sp_time_t temp = in_out[index_1]; \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
+    value_t temp = in_out[index_1]; \
     in_out[index_1] = in_out[index_2]; \
     in_out[index_2] = temp; \
   } \
diff --git a/source/c-precompiled/sph-sp/arrays-template.h b/source/c-precompiled/sph-sp/arrays-template.h
index 6c30c35..a48cf30 100644
--- a/source/c-precompiled/sph-sp/arrays-template.h
+++ b/source/c-precompiled/sph-sp/arrays-template.h
@@ -17,7 +17,7 @@
   status_t sp_##type_name##_new(sp_size_t count, value_t** out); \
   void sp_##type_name##_copy(value_t* in, sp_size_t count, value_t* out); \
   void sp_##type_name##_cusum(value_t* in, value_t count, value_t* out); \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
   void sp_##type_name##_shuffle(value_t* in, sp_size_t count); \
   void sp_##type_name##_array_free(value_t** in, sp_size_t count); \
   void sp_##type_name##_additions(value_t start, value_t summand, value_t count, value_t* out); \
-- 
2.43.0


From d8421a0f5b889e4a421eedf556ca81d082cd1323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 31/61] fix: do not write past the end in the reverse functions

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index aa02cf3..f34613b 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -49,7 +49,7 @@
   } \
   void sp_##type_name##_reverse(value_t* in, sp_size_t count, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      out[(count - i)] = in[i]; \
+      out[(count - (1 + i))] = in[i]; \
     }; \
   } \
   sp_bool_t sp_##type_name##_equal(value_t* in, sp_size_t count, value_t value) { \
-- 
2.43.0


From 16794bc12ca0d2fbc85934251a38dc1275f5519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 32/61] fix: compare both arrays in the and functions

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index f34613b..5f3ad76 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -150,7 +150,7 @@
   /** if a[i] and b[i] greater than limit, take b[i] else 0 */ \
   void sp_##type_name##_and_##type_name(value_t* a, value_t* b, sp_size_t count, value_t limit, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      if ((a[i] >= limit) && (a[i] >= limit)) { \
+      if ((a[i] >= limit) && (b[i] >= limit)) { \
         out[i] = b[i]; \
       } else { \
         out[i] = 0; \
-- 
2.43.0


From f50e2f79976146e9646abc69062ec64d6e2f4f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 33/61] fix: extract only values in range and write them
 consecutively in sp_times_extract_in_range

---
 source/c-precompiled/sph-sp/arrays.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index ae11eae..d8905d6 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -376,8 +376,8 @@ void sp_times_mask(sp_time_t* a, sp_time_t* b, sp_sample_t* coefficients, sp_tim
 void sp_times_extract_in_range(sp_time_t* a, sp_time_t size, sp_time_t min, sp_time_t max, sp_time_t* out, sp_time_t* out_size) {
   *out_size = 0;
   for (sp_size_t i = 0; (i < size); i += 1) {
-    if ((a[i] <= max) || (a[i] >= min)) {
-      out[i] = a[i];
+    if ((a[i] <= max) && (a[i] >= min)) {
+      out[*out_size] = a[i];
       *out_size += 1;
     };
   };
-- 
2.43.0


From c5f87a8e18136110f5a8cc6b6d6ae01af08893d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 34/61] fix: use the input array in sp_times_scale_sum

---
 source/c-precompiled/sph-sp/arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index d8905d6..bad52a6 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -310,7 +310,7 @@ void sp_times_shuffle_swap(void* a, sp_size_t i1, sp_size_t i2) {
 void sp_times_scale_sum(sp_time_t* in, sp_size_t count, sp_time_t sum, sp_time_t* out) {
   sp_sample_t factor = (((sp_sample_t)(sum)) / sp_times_sum(in, count));
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[i] = sp_cheap_round_positive((out[i] * factor));
+    out[i] = sp_cheap_round_positive((in[i] * factor));
   };
 }
 
-- 
2.43.0


From 97f8963aaad3b712ecb1765962403c838be61de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 35/61] fix: write the result to out in sp_times_scale_y and
 sp_samples_scale_sum and scale to the target in sp_times_scale_y and
 sp_samples_scale_y

---
 source/c-precompiled/sph-sp/arrays.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index bad52a6..713b8ac 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -423,8 +423,10 @@ void sp_times_limit(sp_time_t* a, sp_time_t count, sp_time_t n, sp_time_t* out)
 /** adjust all values, keeping relative sizes, so that the maximum value is target_y.
    a/out can be the same pointer */
 void sp_times_scale_y(sp_time_t* in, sp_size_t count, sp_time_t target_y, sp_time_t* out) {
-  sp_time_t max = sp_times_absolute_max(in, count);
-  sp_times_multiply(in, count, (target_y / max));
+  sp_sample_t factor = (((sp_sample_t)(target_y)) / sp_times_absolute_max(in, count));
+  for (sp_size_t i = 0; (i < count); i += 1) {
+    out[i] = sp_cheap_round_positive((in[i] * factor));
+  };
 }
 
 /** remove count subsequent elements at index from in and write the result to out */
@@ -552,14 +554,16 @@ void sp_samples_divisions(sp_sample_t start, sp_sample_t divisor, sp_time_t coun
    a/out can be the same pointer */
 void sp_samples_scale_y(sp_sample_t* in, sp_time_t count, sp_sample_t target_y) {
   sp_sample_t max = sp_samples_absolute_max(in, count);
-  sp_samples_multiply(in, count, (count / max));
+  sp_samples_multiply(in, count, (target_y / max));
 }
 
 /** adjust all values, keeping relative sizes, so that the sum is n.
    a/out can be the same pointer */
 void sp_samples_scale_sum(sp_sample_t* in, sp_size_t count, sp_sample_t target_y, sp_sample_t* out) {
   sp_sample_t sum = sp_samples_sum(in, count);
-  sp_samples_multiply(in, count, (target_y / sum));
+  for (sp_size_t i = 0; (i < count); i += 1) {
+    out[i] = (in[i] * (target_y / sum));
+  };
 }
 
 /** interpolate values pointwise between $a and $b with fraction as a fixed interpolation distance 0..1 */
-- 
2.43.0


From 2635af58d2666f8c6350c5ab62e23ec8dda9c700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 36/61] fix: use correct indices and a fractional distance in
 the make_seamless functions

---
 source/c-precompiled/sph-sp/arrays.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 713b8ac..26f18c6 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -394,7 +394,7 @@ void sp_times_make_seamless_right(sp_time_t* a, sp_time_t a_count, sp_time_t* b,
     out[i] = a[i];
   };
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[(i + start)] = sp_time_interpolate_linear((a[(i + start)]), (b[(count - (1 + i))]), ((1 + i) / count));
+    out[(i + start)] = sp_time_interpolate_linear((a[(i + start)]), (b[(count - (1 + i))]), ((1 + i) / ((sp_sample_t)(count))));
   };
 }
 
@@ -406,9 +406,9 @@ void sp_times_make_seamless_left(sp_time_t* a, sp_time_t a_count, sp_time_t* b,
   count = sp_inline_min(b_count, (a_count / 2));
   start = (a_count - count);
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[i] = sp_time_interpolate_linear((b[i]), (a[(a_count - i)]), ((1 + i) / count));
+    out[i] = sp_time_interpolate_linear((b[i]), (a[(a_count - (1 + i))]), ((count - i) / ((sp_sample_t)(count))));
   };
-  for (i = (count - 1); (i < b_count); i += 1) {
+  for (i = count; (i < b_count); i += 1) {
     out[i] = b[i];
   };
 }
-- 
2.43.0


From 11401910facc25a09ea5f503ae435fdcc2e7d3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 37/61] fix: reject unsupported point counts and report path
 errors in sp_path_samples

---
 source/c-precompiled/sph-sp/path.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index cc8fd28..1e521af 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -11,6 +11,9 @@ status_t sp_path_samples(sp_sample_t** out, sp_time_t length, sp_path_point_coun
   status_declare;
   spline_path_t path;
   spline_path_segment_t segments[sp_path_point_count_limit];
+  if ((2 > point_count) || (sp_path_point_count_limit < point_count)) {
+    sp_status_set_goto(sp_s_id_invalid_argument);
+  };
   sp_path_point_count_t last_point_index = (point_count - 1);
   sp_sample_t xn = length;
   sp_sample_t yn = y[last_point_index];
@@ -23,7 +26,9 @@ status_t sp_path_samples(sp_sample_t** out, sp_time_t length, sp_path_point_coun
     cn = (c ? c[(i - 1)] : 0);
     segments[i] = ((cn < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
   };
-  spline_path_set((&path), segments, point_count);
+  if (spline_path_set((&path), segments, point_count)) {
+    sp_status_set_goto(sp_s_id_undefined);
+  };
   status_require((sp_samples_new(length, out)));
   spline_path_get((&path), 0, length, (*out));
 exit:
-- 
2.43.0


From 70470d51a75626284ca9da5d3acc31e9c83c372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 38/61] fix: do not modify the input or access values outside
 of the input in sp_envelope_zero and sp_envelope_scaled

---
 source/c-precompiled/sph-sp/path.c | 34 ++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 1e521af..7af6379 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -142,15 +142,23 @@ sp_define_path_n(samples, sp_sample_t)
      x values will be multiplied by length.
      x values will be cumulative (0.1, 0.2) -> 0.3 */
   status_t sp_envelope_zero(sp_sample_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
+  status_declare;
+  sp_sample_t path_x[sp_path_point_count_limit];
   sp_sample_t path_y[sp_path_point_count_limit];
-  x[1] *= length;
+  sp_sample_t x_sum = 0;
+  if ((2 > point_count) || (sp_path_point_count_limit < point_count)) {
+    sp_status_set_goto(sp_s_id_invalid_argument);
+  };
   path_y[0] = 0;
   path_y[(point_count - 1)] = 0;
-  for (sp_path_point_count_t i = 2; (i < (point_count - 1)); i += 1) {
-    x[i] = (x[(i - 1)] + (x[i] * length));
-    path_y[i] = y[i];
+  for (sp_path_point_count_t i = 1; (i < (point_count - 1)); i += 1) {
+    x_sum += (x[(i - 1)] * length);
+    path_x[(i - 1)] = x_sum;
+    path_y[i] = y[(i - 1)];
   };
-  return ((sp_path_samples(out, length, point_count, x, path_y, c)));
+  status_require((sp_path_samples(out, length, point_count, path_x, path_y, c)));
+exit:
+  status_return;
 }
 #define sp_define_envelope_zero_n(prefix, type_name, type) \
   status_t prefix##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1) { return ((sp_path_##type_name##3(out, length, (x1 * length), 0, y1, 0))); } \
@@ -176,15 +184,23 @@ sp_define_envelope_zero_n(sp_envelope_zero, samples, sp_sample_t)
      x values will be cumulative (0.1, 0.2) -> 0.3.
      x values will be multiplied by length */
   status_t sp_envelope_scaled(sp_time_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t y_scalar, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
+  status_declare;
+  sp_sample_t path_x[sp_path_point_count_limit];
   sp_sample_t path_y[sp_path_point_count_limit];
-  x[1] *= length;
+  sp_sample_t x_sum = 0;
+  if ((2 > point_count) || (sp_path_point_count_limit < point_count)) {
+    sp_status_set_goto(sp_s_id_invalid_argument);
+  };
   path_y[0] = (y_scalar * y[0]);
   path_y[(point_count - 1)] = (y_scalar * y[(point_count - 1)]);
-  for (sp_path_point_count_t i = 2; (i < (point_count - 1)); i += 1) {
-    x[i] = (x[(i - 1)] + (x[i] * length));
+  for (sp_path_point_count_t i = 1; (i < (point_count - 1)); i += 1) {
+    x_sum += (x[(i - 1)] * length);
+    path_x[(i - 1)] = x_sum;
     path_y[i] = (y_scalar * y[i]);
   };
-  return ((sp_path_times(out, length, point_count, x, path_y, c)));
+  status_require((sp_path_times(out, length, point_count, path_x, path_y, c)));
+exit:
+  status_return;
 }
 #define sp_define_envelope_scaled_n(prefix, type_name, type) \
   status_t prefix##3(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3) { return ((sp_path_##type_name##3(out, length, (x1 * length), (y1 * y_scalar), (y2 * y_scalar), (y3 * y_scalar)))); } \
-- 
2.43.0


From d45c3d0564de42f49bcb4c86233c4bca701fe942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 39/61] fix: name the end of file status and statuses of the
 sph group in sp_status_name

---
 source/c-precompiled/sph-sp/main.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index b392a4b..ef7fdea 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -101,7 +101,9 @@ uint8_t* sp_status_description(status_t a) {
 uint8_t* sp_status_name(status_t a) {
   uint8_t* b;
   if (0 == strcmp(sp_s_group_sp, (a.group))) {
-    if (sp_s_id_input_type == a.id) {
+    if (sp_s_id_eof == a.id) {
+      b = "eof";
+    } else if (sp_s_id_input_type == a.id) {
       b = "input-type";
     } else if (sp_s_id_not_implemented == a.id) {
       b = "not-implemented";
@@ -120,6 +122,8 @@ uint8_t* sp_status_name(status_t a) {
     } else {
       b = "unknown";
     };
+  } else if (0 == strcmp(sp_s_group_sph, (a.group))) {
+    b = sph_helper_status_name(a);
   } else {
     b = "unknown";
   };
-- 
2.43.0


From 09c348e45617621aa7b28f0f502ec3ab38aff318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 40/61] fix: use the number of unselected elements factorial in
 sp_permutations_max

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index ef7fdea..e3371f5 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -570,5 +570,5 @@ sp_time_t sp_time_factorial(sp_time_t n) {
 
 /** return the maximum number of possible distinct selections from a set of length "set-size" */
 sp_size_t sp_set_sequence_max(sp_size_t set_size, sp_size_t selection_size) { return (((0 == set_size) ? 0 : sp_time_expt(set_size, selection_size))); }
-sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / (set_size - selection_size))); }
+sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / sp_time_factorial((set_size - selection_size)))); }
 sp_size_t sp_compositions_max(sp_size_t sum) { return ((sp_time_expt(2, (sum - 1)))); }
-- 
2.43.0


From c2242c68853bbd8785fb3b6cce13bf570f39d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 41/61] fix: report failed allocations in
 sp_times_select_random

---
 source/c-precompiled/sph-sp/arrays.c | 7 +++++--
 source/c-precompiled/sph-sp/arrays.h | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 26f18c6..cb30fa5 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -261,10 +261,13 @@ void sp_times_gt_indices(sp_time_t* a, sp_time_t size, sp_time_t n, sp_time_t* o
 /** a/out can not be the same pointer.
    out-size will be less or equal than size.
    memory is allocated and owned by caller */
-void sp_times_select_random(sp_time_t* a, sp_time_t size, sp_time_t* out, sp_time_t* out_size) {
-  sp_times_random_binary(size, out);
+status_t sp_times_select_random(sp_time_t* a, sp_time_t size, sp_time_t* out, sp_time_t* out_size) {
+  status_declare;
+  status_require((sp_times_random_binary(size, out)));
   sp_times_gt_indices(out, size, 0, out, out_size);
   sp_times_select(a, out, (*out_size), out);
+exit:
+  status_return;
 }
 
 /** allocate memory for out and set all elements to value */
diff --git a/source/c-precompiled/sph-sp/arrays.h b/source/c-precompiled/sph-sp/arrays.h
index 2dc6702..80e7c9f 100644
--- a/source/c-precompiled/sph-sp/arrays.h
+++ b/source/c-precompiled/sph-sp/arrays.h
@@ -30,7 +30,7 @@ void sp_times_select(sp_time_t* in, sp_time_t* indices, sp_time_t count, sp_time
 void sp_times_bits_to_times(sp_time_t* a, sp_time_t size, sp_time_t* out);
 status_t sp_times_random_binary(sp_time_t size, sp_time_t* out);
 void sp_times_gt_indices(sp_time_t* a, sp_time_t size, sp_time_t n, sp_time_t* out, sp_time_t* out_size);
-void sp_times_select_random(sp_time_t* a, sp_time_t size, sp_time_t* out, sp_time_t* out_size);
+status_t sp_times_select_random(sp_time_t* a, sp_time_t size, sp_time_t* out, sp_time_t* out_size);
 status_t sp_times_constant(sp_size_t count, sp_time_t value, sp_time_t** out);
 status_t sp_times_scale(sp_time_t* in, sp_size_t count, sp_time_t factor, sp_time_t* out);
 void sp_times_shuffle_swap(void* a, sp_size_t i1, sp_size_t i2);
-- 
2.43.0


From 082dea1253b155d5bde512c7d01301bac0a77eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 42/61] fix: always grow full event memory registers

---
 source/c-precompiled/sph-sp/sequencer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 1011e3c..87fb37d 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -140,7 +140,7 @@ void sp_event_list_free(sp_event_list_t** events) {
 status_t sp_event_memory_add_with_handler(sp_event_t* a, void* address, sp_memory_free_t handler) {
   status_declare;
   if (a->memory.data) {
-    if (!array3_unused_size((a->memory)) && sp_memory_resize((&(a->memory)), (sp_event_memory_growth_factor * array3_max_size((a->memory))))) {
+    if (!array3_unused_size((a->memory)) && sp_memory_resize((&(a->memory)), (1 + (sp_event_memory_growth_factor * array3_max_size((a->memory)))))) {
       sp_memory_error;
     };
   } else {
-- 
2.43.0


From f5e828f2f3ed145f345732cbd9d34d12ce905142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 43/61] fix: free the copied segments if spline_path_set_copy
 fails

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 2ccec1c..2561093 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -101,7 +101,11 @@ uint8_t spline_path_set_copy(spline_path_t* path, spline_path_segment_t* segment
     return (1);
   };
   memcpy(s, segments, (segments_count * sizeof(spline_path_segment_t)));
-  return ((spline_path_set(path, s, segments_count)));
+  if (spline_path_set(path, s, segments_count)) {
+    free(s);
+    return (1);
+  };
+  return (0);
 }
 
 /** create a sampled array directly from segments */
-- 
2.43.0


From cae07042c16fab70b2d0edb2ef3ec7f389d6ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 44/61] fix: write only inside the requested range when
 generating part of a bezier segment

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 2561093..d4475f7 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -179,15 +179,16 @@ void spline_path_beziern_generate(spline_path_value_t (*interpolator)(spline_pat
   p_end = (s->points)[(s->points_count - 1)];
   b_size = (spline_path_bezier_resolution * (end - start));
   s_size = (spline_path_bezier_resolution * (p_end.x - p_start.x));
+  x = start;
   for (i = (start - p_start.x), x_previous = start; ((i < b_size) || (x < end)); i += 1, x_previous = x) {
     t = (i / s_size);
     mt = (1.0 - t);
     x = round((interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, x)))));
     y = interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, y)));
-    if (x < end) {
+    if ((start <= x) && (x < end)) {
       out[(x - start)] = y;
     };
-    if (2 > (x - x_previous)) {
+    if ((x <= x_previous) || (end <= x_previous) || (2 > (x - x_previous))) {
       continue;
     };
     if (start < x_previous) {
@@ -211,7 +212,9 @@ void spline_path_beziern_generate(spline_path_value_t (*interpolator)(spline_pat
     };
     for (j = 1; (j < (x - x_previous)); j += 1) {
       t = (j / ((spline_path_value_t)((x - x_previous))));
-      out[((x_previous + j) - start)] = linearly_interpolate(y_previous, y, t);
+      if ((start <= (x_previous + j)) && ((x_previous + j) < end)) {
+        out[((x_previous + j) - start)] = linearly_interpolate(y_previous, y, t);
+      };
     };
   };
 }
-- 
2.43.0


From 29049e1c5cdc0a4b0d5f310023f6e0a2ac9d54a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 45/61] fix: render the requested range in sp_render_range_file

---
 source/c-precompiled/sph-sp/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index e3371f5..8e03c10 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -351,12 +351,12 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
     if (config.display_progress) {
       printf(("%.1f%\n"), (100 * (i / ((sp_sample_t)(block_end)))));
     };
-    status_require((sp_seq(i, (i + config.block_size), block, (&events))));
+    status_require((sp_seq((start + i), (start + i + config.block_size), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), (config.block_size))));
     sp_block_zero(block);
   };
   if (remainder) {
-    status_require((sp_seq(i, (i + remainder), block, (&events))));
+    status_require((sp_seq((start + i), (start + i + remainder), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), remainder)));
   };
 exit:
-- 
2.43.0


From 7b9e2d32b7b2008a1886fcfa947ee8f2e043f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 46/61] fix: reflect the end of the input over its last value
 in sp_moving_average

---
 source/c-precompiled/sph-sp/filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 606a1ce..e15a8bb 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -347,7 +347,7 @@ void sp_moving_average(sp_sample_t* in, sp_time_t in_size, sp_sample_t* prev, sp
     out[i] = (sum / width);
   };
   for (i = (in_size - radius); (i < in_size); i += 1) {
-    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((i + radius + 1) - in_size)] * -1))) - in[(i - radius - 1)]);
+    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((in_size - 1) - ((i + radius + 1) - in_size))] * -1))) - in[(i - radius - 1)]);
     out[i] = (sum / width);
   };
 }
-- 
2.43.0


From 8d345f6c32c7f075e1be3f624382fd23363436f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 47/61] fix: start at the first overlapping segment when
 getting a part of a path again

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index d4475f7..8e7a03d 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -21,7 +21,7 @@ void spline_path_get(spline_path_t* path, size_t start, size_t end, spline_path_
   size_t s_start;
   size_t s_end;
   size_t out_start;
-  for (spline_path_segment_count_t i = ((start < path->previous_start) ? 0 : path->current_segment_index); (i < path->segments_count); path->current_segment_index = i, i += 1) {
+  for (spline_path_segment_count_t i = ((start < path->previous_start) ? 0 : path->current_segment_index); (i < path->segments_count); i += 1) {
     s = (path->segments + i);
     s_start = ((s->points)[0]).x;
     s_end = ((s->points)[(s->points_count - 1)]).x;
@@ -30,6 +30,7 @@ void spline_path_get(spline_path_t* path, size_t start, size_t end, spline_path_
       break;
     };
     if (s_end < start) {
+      path->current_segment_index = i;
       continue;
     };
     out_start = ((s_start > start) ? (s_start - start) : 0);
-- 
2.43.0


From 744d35839143abc394b09dea410f9ffa87c7e6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 48/61] fix: keep the perpendicular point of falling lines
 inside of the rectangle

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 8e7a03d..b88ebf7 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -322,14 +322,9 @@ spline_path_point_t spline_path_perpendicular_point(spline_path_point_t p1, spli
     i2.x = p2.x;
     i2.y = c.y;
   } else {
-    /* border points */
-    if (d.x > 0) {
-      b1.x = p2.x;
-      b2.x = p1.x;
-    } else {
-      b1.x = p1.x;
-      b2.x = p2.x;
-    };
+    /* border points. b1 and b2 are on opposite sides of the center for both coordinates */
+    b1.x = p1.x;
+    b2.x = p2.x;
     if (d.y > 0) {
       b1.y = p2.y;
       b2.y = p1.y;
@@ -341,14 +336,14 @@ spline_path_point_t spline_path_perpendicular_point(spline_path_point_t p1, spli
     t1.y = ((b1.y - c.y) / d.y);
     t2.x = ((b2.x - c.x) / d.x);
     t2.y = ((b2.y - c.y) / d.y);
-    if (t1.x <= t1.y) {
+    if (fabs((t1.x)) <= fabs((t1.y))) {
       i1.x = b1.x;
       i1.y = (c.y + (t1.x * d.y));
     } else {
       i1.y = b1.y;
       i1.x = (c.x + (t1.y * d.x));
     };
-    if (t2.x >= t2.y) {
+    if (fabs((t2.x)) <= fabs((t2.y))) {
       i2.x = b2.x;
       i2.y = (c.y + (t2.x * d.y));
     } else {
-- 
2.43.0


From e5f31edb100af54e7c6bfc033d881f7eef63f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:55 +0000
Subject: [PATCH 49/61] fix: apply negative curvature in sp_path_samples

---
 source/c-precompiled/sph-sp/path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 7af6379..3741c21 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -19,12 +19,12 @@ status_t sp_path_samples(sp_sample_t** out, sp_time_t length, sp_path_point_coun
   sp_sample_t yn = y[last_point_index];
   sp_sample_t cn = (c ? c[(last_point_index - 1)] : 0);
   segments[0] = spline_path_move(0, (y[0]));
-  segments[last_point_index] = ((cn < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
+  segments[last_point_index] = ((fabs(cn) < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
   for (sp_path_point_count_t i = 1; (i < last_point_index); i += 1) {
     xn = x[(i - 1)];
     yn = y[i];
     cn = (c ? c[(i - 1)] : 0);
-    segments[i] = ((cn < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
+    segments[i] = ((fabs(cn) < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
   };
   if (spline_path_set((&path), segments, point_count)) {
     sp_status_set_goto(sp_s_id_undefined);
-- 
2.43.0


From 0da6ebf0c3af8cc47cf634212cbdcec7b3a6ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 50/61] fix: define the declared scaled envelopes with
 curvature

---
 source/c-precompiled/sph-sp/path.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 3741c21..665f92a 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -210,5 +210,13 @@ exit:
     x2 = (x1 + (x2 * length)); \
     x3 = (x2 + (x3 * length)); \
     return ((sp_path_##type_name##5(out, length, x1, x2, x3, (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), (y_scalar * y4), (y_scalar * y5)))); \
+  } \
+  status_t prefix##_c##3(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t c1, sp_sample_t c2) { return ((sp_path_##type_name##_c##3(out, length, (x1 * length), (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), c1, c2))); } \
+  status_t prefix##_c##4(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3) { return ((sp_path_##type_name##_c##4(out, length, (x1 * length), ((x1 * length) + (x2 * length)), (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), (y_scalar * y4), c1, c2, c3))); } \
+  status_t prefix##_c##5(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3, sp_sample_t c4) { \
+    x1 *= length; \
+    x2 = (x1 + (x2 * length)); \
+    x3 = (x2 + (x3 * length)); \
+    return ((sp_path_##type_name##_c##5(out, length, x1, x2, x3, (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), (y_scalar * y4), (y_scalar * y5), c1, c2, c3, c4))); \
   }
 sp_define_envelope_scaled_n(sp_envelope_scaled, times, sp_time_t)
-- 
2.43.0


From 397cc33f01c28e00a418349a4677928cd692a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:55 +0000
Subject: [PATCH 51/61] fix: remove declarations of functions that do not exist

---
 source/c-precompiled/sph-sp/filter.h     | 1 -
 source/c-precompiled/sph-sp/main.h       | 1 -
 source/c-precompiled/sph-sp/sequencer.h  | 4 ----
 source/c-precompiled/sph-sp/statistics.h | 1 -
 4 files changed, 7 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.h b/source/c-precompiled/sph-sp/filter.h
index a66b929..4a71f42 100644
--- a/source/c-precompiled/sph-sp/filter.h
+++ b/source/c-precompiled/sph-sp/filter.h
@@ -15,7 +15,6 @@ typedef struct {
 typedef void (*sp_state_variable_filter_t)(sp_sample_t*, sp_sample_t*, sp_sample_t, sp_sample_t, sp_time_t, sp_sample_t*);
 void sp_moving_average(sp_sample_t* in, sp_time_t in_size, sp_sample_t* prev, sp_sample_t* next, sp_time_t radius, sp_sample_t* out);
 sp_time_t sp_windowed_sinc_lp_hp_ir_length(sp_sample_t transition);
-status_t sp_windowed_sinc_ir(sp_sample_t cutoff, sp_sample_t transition, sp_time_t* result_len, sp_sample_t** result_ir);
 void sp_convolution_filter_state_free(sp_convolution_filter_state_t* state);
 status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void* ir_f_arguments, uint8_t ir_f_arguments_len, sp_convolution_filter_state_t** out_state);
 status_t sp_convolution_filter(sp_sample_t* in, sp_time_t in_len, sp_convolution_filter_ir_f_t ir_f, void* ir_f_arguments, uint8_t ir_f_arguments_len, sp_convolution_filter_state_t** out_state, sp_sample_t* out_samples);
diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 2e25270..bff423a 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -125,7 +125,6 @@ sp_time_t sp_sine_lfo_factor;
 sp_sample_t* sp_sine_table_lfo;
 sp_sample_t* sp_sine_table;
 void sp_block_copy(sp_block_t a, sp_block_t b);
-status_t sp_block_to_file(sp_block_t block, uint8_t* path, sp_time_t rate);
 void sp_block_free(sp_block_t* a);
 status_t sp_block_new(sp_channel_count_t channel_count, sp_time_t sample_count, sp_block_t* out_block);
 sp_block_t sp_block_with_offset(sp_block_t a, sp_time_t offset);
diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index d498bd5..d9fe82e 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -213,7 +213,6 @@ sp_event_t sp_null_event = { 0 };
 status_t sp_event_list_add(sp_event_list_t** a, sp_event_t event);
 void sp_event_list_display(sp_event_list_t* a);
 void sp_event_list_free(sp_event_list_t** events);
-void sp_event_list_remove_element(sp_event_list_t** a, sp_event_list_t* element);
 void sp_event_list_reverse(sp_event_list_t** a);
 void sp_event_list_validate(sp_event_list_t* a);
 status_t sp_event_memory_add_with_handler(sp_event_t* event, void* address, sp_memory_free_t handler);
@@ -222,9 +221,6 @@ void sp_event_memory_fixed_add_with_handler(sp_event_t* event, void* address, sp
 void sp_event_memory_free(sp_event_t* event);
 status_t sp_group_add(sp_event_t* a, sp_event_t event);
 status_t sp_group_append(sp_event_t* a, sp_event_t event);
-void sp_group_event_free(sp_event_t* a);
-void sp_group_event_f(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* event);
-void sp_group_event_parallel_f(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* event);
 void sp_group_free();
 status_t sp_group_generate_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* a);
 status_t sp_group_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* a);
diff --git a/source/c-precompiled/sph-sp/statistics.h b/source/c-precompiled/sph-sp/statistics.h
index 90da95d..2c2a14f 100644
--- a/source/c-precompiled/sph-sp/statistics.h
+++ b/source/c-precompiled/sph-sp/statistics.h
@@ -1,4 +1,3 @@
-sp_time_t sp_sequence_max(sp_time_t size, sp_time_t min_size);
 sp_time_t sp_set_sequence_max(sp_time_t set_size, sp_time_t selection_size);
 sp_time_t sp_permutations_max(sp_time_t set_size, sp_time_t selection_size);
 sp_time_t sp_compositions_max(sp_time_t sum);
-- 
2.43.0


From 1990f64641fdc008cf9489c09b6ac3a676fb24c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 52/61] fix: draw path segments over the length of their path

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index b88ebf7..5e797ba 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -58,6 +58,7 @@ size_t spline_path_size(spline_path_t path) {
 }
 uint8_t spline_path_path_prepare(spline_path_segment_t* s) {
   (s->points)[1] = spline_path_end((*((spline_path_t*)(s->data))));
+  ((s->points)[1]).x += ((s->points)[0]).x;
   return (0);
 }
 uint8_t spline_path_constant_prepare(spline_path_segment_t* s) {
@@ -261,7 +262,7 @@ spline_path_segment_t spline_path_path(spline_path_t path) {
   };
   s.free = free;
   s.generate = spline_path_path_generate;
-  s.points_count = 1;
+  s.points_count = 2;
   s.prepare = spline_path_path_prepare;
   return (s);
 }
-- 
2.43.0


From a2dfd212852c83018b77562ec48eb29cd1548c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 53/61] fix: restart the segment search for good when
 spline_path_get goes back

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 5e797ba..fe33b00 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -21,7 +21,10 @@ void spline_path_get(spline_path_t* path, size_t start, size_t end, spline_path_
   size_t s_start;
   size_t s_end;
   size_t out_start;
-  for (spline_path_segment_count_t i = ((start < path->previous_start) ? 0 : path->current_segment_index); (i < path->segments_count); i += 1) {
+  if (start < path->previous_start) {
+    path->current_segment_index = 0;
+  };
+  for (spline_path_segment_count_t i = path->current_segment_index; (i < path->segments_count); i += 1) {
     s = (path->segments + i);
     s_start = ((s->points)[0]).x;
     s_end = ((s->points)[(s->points_count - 1)]).x;
-- 
2.43.0


From f1e088a687ceeb89425e3ec5e516275e264ca4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 54/61] fix: keep the values of sp_samples_scale_to_times below
 max when all are positive

---
 source/c-precompiled/sph-sp/statistics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 92b7a3e..389b5ad 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -197,7 +197,7 @@ define_sp_stat_range(sp_stat_samples_range, sp_sample_t)
   sp_stat_samples_range(a, size, range);
   addition = ((0 > range[0]) ? fabs((range[0])) : 0);
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] = sp_cheap_round_positive(((a[i] + addition) * (max / range[2])));
+    out[i] = sp_cheap_round_positive(((a[i] + addition) * (max / (range[1] + addition))));
   };
 }
 uint8_t sp_stat_samples_mean(sp_sample_t* a, sp_time_t size, sp_sample_t* out) {
-- 
2.43.0


From cbbc55781e23244ef0a94e895e348f9d9db3f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 55/61] fix: round to the nearest multiple in sp_time_harmonize
 and sp_time_deharmonize

---
 source/c-precompiled/sph-sp/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 8e03c10..37ad368 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -507,7 +507,7 @@ sp_time_t sp_normal_random(sp_time_t min, sp_time_t max) {
    for example, amount 1.0 rounds fully, amount 0.0 does not round at all, amount 0.5 rounds half-way */
 sp_time_t sp_time_harmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
   sp_time_t nearest;
-  nearest = ((((a + base) - 1) / base) * base);
+  nearest = (((a + (base / 2)) / base) * base);
   return (((a > nearest) ? (a - (amount * (a - nearest))) : (a + (amount * (nearest - a)))));
 }
 
@@ -515,7 +515,7 @@ sp_time_t sp_time_harmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
 sp_time_t sp_time_deharmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
   sp_time_t nearest;
   sp_sample_t distance_ratio;
-  nearest = ((((a + base) - 1) / base) * base);
+  nearest = (((a + (base / 2)) / base) * base);
   distance_ratio = ((base - sp_inline_absolute_difference(a, nearest)) / ((sp_sample_t)(base)));
   amount = (amount * distance_ratio * (1 + sp_time_random_bounded((base / 2))));
   if ((a > nearest) || (a < amount)) {
-- 
2.43.0


From 91490cf34e09980aefad57f16ecf2fb863380930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 56/61] fix: round to a multiple of base in
 sp_time_round_to_multiple and sp_sample_round_to_multiple

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 5f3ad76..26cd356 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -10,7 +10,7 @@
   uint8_t sp_##value_type_name##_sort_less(void* a, ssize_t b, ssize_t c) { return ((((value_t*)(a))[b] < ((value_t*)(a))[c])); } \
 \
   /** round to the next integer multiple of base  */ \
-  value_t sp_##value_type_name##_round_to_multiple(value_t a, value_t base) { return (((0 == a) ? base : sp_cheap_round_positive(((a / ((sp_sample_t)(base))) * base)))); } \
+  value_t sp_##value_type_name##_round_to_multiple(value_t a, value_t base) { return (((0 == a) ? base : (sp_cheap_round_positive((a / ((sp_sample_t)(base)))) * base))); } \
 \
   /** count must be greater than zero */ \
   value_t sp_##type_name##_min(value_t* in, sp_size_t count) { \
-- 
2.43.0


From 7de73f0869d26af9b45731b23478a52e06d9544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 57/61] fix: report progress and milliseconds correctly when
 rendering

---
 source/c-precompiled/sph-sp/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 37ad368..5a551b4 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -349,7 +349,7 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
   block_end = (config.block_size * ((end - start) / config.block_size));
   for (i = 0; (i < block_end); i += config.block_size) {
     if (config.display_progress) {
-      printf(("%.1f%\n"), (100 * (i / ((sp_sample_t)(block_end)))));
+      printf(("%.1f%%\n"), (100 * (i / ((sp_sample_t)(block_end)))));
     };
     status_require((sp_seq((start + i), (start + i + config.block_size), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), (config.block_size))));
@@ -412,7 +412,7 @@ status_t sp_render_plot(sp_event_t event) {
     sp_event_prepare_optional_srq(event);
   };
   if (event.end && (event.end < sp_rate)) {
-    printf("rendering %lu milliseconds to plot\n", (event.end / sp_rate / 1000));
+    printf("rendering %lu milliseconds to plot\n", ((1000 * ((uint64_t)(event.end))) / sp_rate));
   } else {
     printf("rendering %lu seconds to plot\n", (event.end / sp_rate));
   };
-- 
2.43.0


From 1dd5b2c0926bdf7bb288ad84999c938cdac7ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 58/61] fix: do not compare elements outside of the array in
 quicksort

---
 source/c/foreign/sph-sc-lib/sph-sp/quicksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
index f6438c8..d81c385 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
@@ -12,7 +12,7 @@ void quicksort(uint8_t (*less_p)(void*, ssize_t, ssize_t), void (*swap)(void*, s
   ssize_t pivot = (left + ((right - left) / 2));
   ssize_t l = left;
   ssize_t r = right;
-  while (1) {
+  while (l <= r) {
     while (less_p(array, l, pivot)) {
       l = (1 + l);
     };
-- 
2.43.0


From 054bdf853ec497038002595c849ace707ac1d182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:03 +0000
Subject: [PATCH 59/61] fix: keep the input intact while it is needed when in
 and out are the same in sp_times_bits_to_times

---
 source/c-precompiled/sph-sp/arrays.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index cb30fa5..53e4b06 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -213,21 +213,11 @@ void sp_times_select(sp_time_t* in, sp_time_t* indices, sp_time_t count, sp_time
    a/out can be the same pointer */
 void sp_times_bits_to_times(sp_time_t* a, sp_time_t size, sp_time_t* out) {
   sp_time_t i;
-  sp_time_t a_i;
-  sp_time_t bits_i;
-  sp_time_t mask;
-  i = 0;
-  a_i = 0;
-  while ((i < size)) {
-    mask = 1;
-    bits_i = 0;
-    while (((bits_i < (sizeof(sp_time_t) * 8)) && (i < size))) {
-      out[i] = ((a[a_i] & mask) ? 1 : 0);
-      mask = (mask << 1);
-      i += 1;
-      bits_i += 1;
-    };
-    a_i += 1;
+  sp_time_t bits;
+  bits = (sizeof(sp_time_t) * 8);
+  /* from the end, because out can be a and would otherwise overwrite words that are still to be read */
+  for (i = size; i; i -= 1) {
+    out[(i - 1)] = ((a[((i - 1) / bits)] >> ((i - 1) % bits)) & 1);
   };
 }
 
-- 
2.43.0


From f761b960b5ff3e78abed13652a996e0cd3e8669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:53 +0000
Subject: [PATCH 60/61] fix: write from the beginning of out and read only what
 was written in sp_times_random_discrete_unique if more numbers are requested
 than exist

---
 source/c-precompiled/sph-sp/arrays.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 53e4b06..3980f24 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -329,7 +329,8 @@ uint8_t sp_times_contains(sp_time_t* in, sp_size_t count, sp_time_t value) {
 void sp_times_random_discrete_unique(sp_time_t* cudist, sp_time_t cudist_size, sp_time_t size, sp_time_t* out) {
   sp_time_t a;
   sp_time_t remaining;
-  remaining = sp_inline_min(size, cudist_size);
+  size = sp_inline_min(size, cudist_size);
+  remaining = size;
   while (remaining) {
     a = sp_time_random_discrete(cudist, cudist_size);
     if (sp_times_contains(out, (size - remaining), a)) {
-- 
2.43.0


From 19e1f7153aaf17d0e830be6ee295d86e718335e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:00 +0000
Subject: [PATCH 61/61] fix: keep the memory that event macros allocate from
 leaking when an event's memory register can not be extended: the register is
 extended before the memory is allocated

---
 source/c-precompiled/sph-sp/sequencer.h | 90 ++++++++++++++++---------
 1 file changed, 60 insertions(+), 30 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index d9fe82e..e8891fc 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -50,95 +50,125 @@
   event_pointer->generate = sp_group_generate_parallel; \
   event_pointer->config = 0
 #define sp_event_path_samples_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_samples(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_samples3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_samples3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_samples4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_samples4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_samples5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_samples5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_samples_c3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_samples_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_samples_c4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_samples_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_samples_c5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_samples_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_times_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_times(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_times3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_times3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_times4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_times4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_times5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_times5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_times_c3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_times_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_times_c4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_times_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_times_c5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_times_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_zero_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_zero(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_zero3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_zero3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_zero4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_zero4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_zero5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_zero5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_zero_c3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_zero_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_zero_c4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_zero_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_zero_c5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_zero_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_scaled_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_scaled(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_scaled3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_scaled3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_scaled4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_scaled4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_scaled5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_scaled5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_scaled_c3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_scaled_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_scaled_c4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_scaled_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_scaled_c5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_scaled_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_alloc_srq(event_pointer, allocator, size, pointer_address) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((allocator(size, pointer_address))); \
-  status_require((sp_event_memory_add(event_pointer, (*pointer_address))))
+  sp_event_memory_fixed_add(event_pointer, (*pointer_address))
 #define sp_event_malloc_srq(event_pointer, size, pointer_address) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sph_helper_malloc(size, pointer_address))); \
-  status_require((sp_event_memory_add(event_pointer, (*pointer_address))))
+  sp_event_memory_fixed_add(event_pointer, (*pointer_address))
 #define sp_event_malloc_type_n_srq(event_pointer, count, type, pointer_address) sp_event_malloc_srq(event_pointer, (count * sizeof(type)), pointer_address)
 #define sp_event_malloc_type_srq(event_pointer, type, pointer_address) sp_event_malloc_type_n_srq(event_pointer, 1, type, pointer_address)
 #define sp_event_samples_srq(event_pointer, size, pointer_address) sp_event_alloc_srq(event_pointer, sp_samples_new, size, pointer_address)
-- 
2.43.0

