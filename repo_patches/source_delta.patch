From 68327d6b4b93f99139d1d0ccd5e9c91889210f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:55 +0000
Subject: [PATCH 1/9] fix: size cleaner output for the default translation and
 fixed replacements

The output buffer only took the longest table row in to account, so a longer
default translation, the replacement for an encoded NULL, or a table without
any non-empty rows overflowed the heap.
---
 src/clean_string.c |  4 ++--
 src/clean_utf_8.c  |  8 +++++++-
 src/table.c        | 27 +++++++++++++++++++++++++++
 src/table.h        |  1 +
 4 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index b3cbeea..3b3da83 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -40,7 +40,7 @@ char *clean_iso8859_1(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_output(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
@@ -100,7 +100,7 @@ char *clean_safe(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_output(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/clean_utf_8.c b/src/clean_utf_8.c
index 56d9051..b1d90bf 100644
--- a/src/clean_utf_8.c
+++ b/src/clean_utf_8.c
@@ -65,6 +65,7 @@ char *clean_utf_8(char *filename, table_t *table)
     int characters_eaten;
     int utf_8_width;
     int failed;
+    size_t max_output;
 
     if (filename == NULL) {
         return NULL;
@@ -75,7 +76,12 @@ char *clean_utf_8(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    max_output = table_max_output(table);
+    if (max_output < strlen(null_replacement)) {
+        max_output = strlen(null_replacement);
+    }
+
+    output = wrapped_malloc((strlen(filename) * max_output) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/table.c b/src/table.c
index fefeac5..31d2db3 100644
--- a/src/table.c
+++ b/src/table.c
@@ -219,3 +219,30 @@ char *table_get(table_t *table, unsigned int key)
 
     return table->rows[offset].data;
 }
+
+/**
+ * Determines the longest output that a single input character can produce,
+ * whether it's looked up, replaced with the default, or left alone.
+ *
+ * @param table The table to use.
+ *
+ * @return The length, always at least 1.
+ */
+size_t table_max_output(const table_t *table)
+{
+    size_t ret = 1;
+
+    if (table == NULL) {
+        return ret;
+    }
+
+    if (table->max_data_length > 0 && (size_t) table->max_data_length > ret) {
+        ret = table->max_data_length;
+    }
+
+    if (table->default_translation != NULL && strlen(table->default_translation) > ret) {
+        ret = strlen(table->default_translation);
+    }
+
+    return ret;
+}
diff --git a/src/table.h b/src/table.h
index d2999ae..305462e 100644
--- a/src/table.h
+++ b/src/table.h
@@ -18,6 +18,7 @@ extern table_t *table_init(int max_rows);
 extern table_t *table_resize(table_t *table, int rows, int use_hash);
 extern void table_free(table_t *table);
 extern int table_put(table_t *table, unsigned int key, char *data);
+extern size_t table_max_output(const table_t *table);
 extern char *table_get(table_t *table, unsigned int key);
 
 #endif /* __TABLE_H */
-- 
2.43.0


From 16b41007761c2852c6efb48b250dde87e105549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:55 +0000
Subject: [PATCH 2/9] fix: rewind the ignore list before every lookup

A match left the list's internal pointer in the middle, so the next file was
only compared against the remaining entries.
---
 src/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/file.c b/src/file.c
index 00a03cc..0b5cc54 100644
--- a/src/file.c
+++ b/src/file.c
@@ -38,6 +38,8 @@ static int ignore_file(const char *filename, const options_t *options)
         return 1;
     }
 
+    filelist_reset(options->files_to_ignore);
+
     while ((file_walk = filelist_get(options->files_to_ignore))) {
         if (strcmp(filename, file_walk) == 0) {
             return 1;
-- 
2.43.0


From c69444d48fed0a3bc6cb6d49ebb48032960666be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:55 +0000
Subject: [PATCH 3/9] fix: refuse to rename a file when its new name contains a
 slash

Sequences that end up with a slash in their output (i.e. uncgi on its own, or
an overlong UTF-8 encoding) moved the file to another directory.
---
 src/file.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/file.c b/src/file.c
index 0b5cc54..6e56ddc 100644
--- a/src/file.c
+++ b/src/file.c
@@ -115,6 +115,13 @@ char *parse_file(char *filename, options_t *options)
         return old_filename;
     }
 
+    /* a rename must never move a file to another directory */
+    if (strchr(work, '/') != NULL) {
+        fprintf(stderr, "Cannot rename %s: new name \"%s\" contains a path separator\n", old_filename, work);
+        free(work);
+        return old_filename;
+    }
+
     len = (old_filename_ptr - old_filename);
     new_filename = wrapped_malloc(len + strlen(work) + 1);
 
-- 
2.43.0


From 2f81d73ccd56a2ab187213a03db3e2a50588951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:55 +0000
Subject: [PATCH 4/9] fix: stay within the buffer when looking for the start of
 a UTF-8 character

Inline mode read before the start of its buffer when a line began with a NULL,
or consisted solely of continuation bytes.
---
 src/file.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 6e56ddc..f89b03f 100644
--- a/src/file.c
+++ b/src/file.c
@@ -300,7 +300,9 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
             //
 
             hold = seek = strchr(base, '\0');
-            seek--;
+            if (seek > base) {
+                seek--;
+            }
 
 #ifdef DEBUG
             if (is_utf_8_cont(*seek)) {
@@ -308,7 +310,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
             }
 #endif
 
-            while (is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
+            while (seek > base && is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
 #ifdef DEBUG
                 fprintf(stderr, "detox: debug: at %02x, moving back one\n", (unsigned char) *seek);
 #endif
-- 
2.43.0


From c65ad2f2e597be27196e4f33b690664ec3c80b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:55 +0000
Subject: [PATCH 5/9] fix: treat an empty quoted default in a table as no
 default

sscanf() doesn't match an empty string, which left the keyword itself in the
buffer, and every unmatched character was replaced with "default".
---
 src/parse_table.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse_table.c b/src/parse_table.c
index e86851a..dbd15c8 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -133,6 +133,8 @@ table_t *parse_table(char *filename)
                     continue;
                 }
 
+                parsed[0] = '\0';
+
                 if (work[offset] == '"') {
                     sscanf(work + offset + 1, "%[^\"]", parsed);
                 } else if (work[offset] == '\'') {
@@ -141,6 +143,12 @@ table_t *parse_table(char *filename)
                     sscanf(work + offset, "%s", parsed);
                 }
 
+                // an empty default is the same as no default
+                if (parsed[0] == '\0') {
+                    table->default_translation = NULL;
+                    continue;
+                }
+
                 table->default_translation = wrapped_strdup(parsed);
 
                 continue;
-- 
2.43.0


From 7e854369cc09406e657b90e74e6d99be0aa2084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:55 +0000
Subject: [PATCH 6/9] fix: don't count a replaced row as a new one

Replacing rows used up the table, which was then reported as full even though
there was space left, or the key was already present.
---
 src/table.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/table.c b/src/table.c
index 31d2db3..d20f1ce 100644
--- a/src/table.c
+++ b/src/table.c
@@ -123,10 +123,6 @@ int table_put(table_t *table, unsigned int key, char *data)
         return -1;
     }
 
-    if (table->length == table->used) {
-        return -1;
-    }
-
     offset = -1;
 
     if (table->use_hash) {
@@ -152,11 +148,12 @@ int table_put(table_t *table, unsigned int key, char *data)
 
     if (table->rows[offset].key == key) {
         table->overwrites++;
+    } else {
+        table->used++;
     }
 
     table->rows[offset].key = key;
     table->rows[offset].data = wrapped_strdup(data);
-    table->used++;
 
     if (table->max_key < key) {
         table->max_key = key;
-- 
2.43.0


From a510718d2c3070f5466defff4562a9435f30a933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:55 +0000
Subject: [PATCH 7/9] fix: leave %00 alone when decoding CGI escapes

Decoding it cut the filename off at that point, losing the rest of the name and
its extension.
---
 src/clean_string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index 3b3da83..42e208a 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -155,7 +155,8 @@ char *clean_uncgi(char *filename)
     output_walk = output;
 
     while (*input_walk != '\0') {
-        if (input_walk[0] == '%' && isxdigit((int) input_walk[1]) && isxdigit((int) input_walk[2])) {
+        if (input_walk[0] == '%' && isxdigit((int) input_walk[1]) && isxdigit((int) input_walk[2])
+                && !(input_walk[1] == '0' && input_walk[2] == '0')) { // %00 would end the filename
             conv[0] = input_walk[1];
             conv[1] = input_walk[2];
             conv[2] = 0;
-- 
2.43.0


From 79791f6137ad212a46d7a7866ee3cabc3b2982da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:43 +0000
Subject: [PATCH 8/9] fix: size a table for the shortest lines a table file can
 have

---
 src/check_table.c | 2 +-
 src/parse_table.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/check_table.c b/src/check_table.c
index d837081..696a8cc 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -24,7 +24,7 @@
 #include "table.h"
 #include "wrapped.h"
 
-#define LINE_LENGTH 6
+#define LINE_LENGTH 4
 
 enum {
     BASE_STATE,
diff --git a/src/parse_table.c b/src/parse_table.c
index dbd15c8..b2c86e0 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -17,7 +17,7 @@
 #include "table.h"
 #include "wrapped.h"
 
-#define LINE_LENGTH 6
+#define LINE_LENGTH 4
 
 enum {
     BASE_STATE,
-- 
2.43.0


From 60b24e8060082ffe04046c5b19bd7a86b6e171c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:04 +0000
Subject: [PATCH 9/9] hook: let a checker choose the inline buffer's size
 (VF_INLINE_BUF_SIZE)

---
 src/file.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file.h b/src/file.h
index ee866de..15e838b 100644
--- a/src/file.h
+++ b/src/file.h
@@ -12,7 +12,11 @@
 
 #include "detox_struct.h"
 
+#ifdef VF_INLINE_BUF_SIZE
+#define INLINE_BUF_SIZE VF_INLINE_BUF_SIZE
+#else
 #define INLINE_BUF_SIZE 1024
+#endif
 #define INLINE_BUF_PADDING 16
 
 extern char *parse_file(char *filename, options_t *options);
-- 
2.43.0

