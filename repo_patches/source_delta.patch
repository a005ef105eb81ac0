From 35e877d4e3be8a3b6acfa061df783f7f77e99669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 01/23] Add guarded loop-contract hooks to the hex codecs

---
 src/drpm_private.h |  9 +++++++++
 src/drpm_utils.c   | 13 +++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/drpm_private.h b/src/drpm_private.h
index c06a6d1..3bdbb42 100644
--- a/src/drpm_private.h
+++ b/src/drpm_private.h
@@ -32,6 +32,15 @@
 #include <unistd.h>
 #include <openssl/md5.h>
 
+/* Loop contracts and ghost statements for the deductive verifier;
+ * they expand to nothing unless DRPM_VERIFY is defined. */
+#ifdef DRPM_VERIFY
+#include <drpm_verify.h>
+#else
+#define DRPM_LOOP(...)
+#define DRPM_GHOST(...)
+#endif
+
 #define CHUNK_SIZE 1024
 
 #define CREAT_MODE (S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH)
diff --git a/src/drpm_utils.c b/src/drpm_utils.c
index 6ef0f2f..997ab13 100644
--- a/src/drpm_utils.c
+++ b/src/drpm_utils.c
@@ -101,6 +101,12 @@ void dump_hex(char *dest, const unsigned char *source, size_t count)
 
     dest[count * 2] = '\0';
 
+    DRPM_LOOP(ASSIGNS(count, WHOLE(dest))
+              INV(count <= ENTRY(count) && dest[2 * ENTRY(count)] == '\0')
+              INV(IMPLIES(g_k >= count && g_k < ENTRY(count),
+                          dest[2 * g_k] == digits[source[g_k] >> 4] &&
+                          dest[2 * g_k + 1] == digits[source[g_k] & 0x0F]))
+              DECREASES(count))
     while (count--) {
         dest[count * 2] = digits[source[count] >> 4 & 0x0F];
         dest[count * 2 + 1] = digits[source[count] & 0x0F];
@@ -118,6 +124,13 @@ ssize_t parse_hex(unsigned char *dest, const char *source)
 
     count = strlen(source) / 2;
 
+    DRPM_LOOP(ASSIGNS(i, source, byte, WHOLE(dest))
+              INV(i <= count && source == ENTRY(source) + 2 * i)
+              INV(IMPLIES(g_k < i, HEXVAL(ENTRY(source)[2 * g_k]) >= 0 &&
+                                   HEXVAL(ENTRY(source)[2 * g_k + 1]) >= 0 &&
+                                   dest[g_k] == 16 * HEXVAL(ENTRY(source)[2 * g_k]) +
+                                                HEXVAL(ENTRY(source)[2 * g_k + 1])))
+              DECREASES(count - i))
     for (size_t i = 0; i < count; i++, source += 2) {
         if ((byte = parse_hexnum(source, 2)) < 0)
             return -1;
-- 
2.43.0


From e888c8e66e34e9e2d54aea84bbd4c32444cfa649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 02/23] fix: drpm_make_options_copy reports allocation failure
 and survives copying onto itself

---
 src/drpm_options.c | 51 ++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index 7df5af4..ae430dc 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -83,9 +83,31 @@ int drpm_make_options_defaults(struct drpm_make_options *opts)
 
 int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm_make_options *opts_src)
 {
+    char *seqfile = NULL;
+    char *oldrpmprint = NULL;
+    char *oldpatchrpm = NULL;
+
     if (opts_dst == NULL || opts_src == NULL)
         return DRPM_ERR_ARGS;
 
+    if (opts_src->seqfile != NULL) {
+        if ((seqfile = malloc(strlen(opts_src->seqfile) + 1)) == NULL)
+            goto cleanup_fail;
+        strcpy(seqfile, opts_src->seqfile);
+    }
+
+    if (opts_src->oldrpmprint != NULL) {
+        if ((oldrpmprint = malloc(strlen(opts_src->oldrpmprint) + 1)) == NULL)
+            goto cleanup_fail;
+        strcpy(oldrpmprint, opts_src->oldrpmprint);
+    }
+
+    if (opts_src->oldpatchrpm != NULL) {
+        if ((oldpatchrpm = malloc(strlen(opts_src->oldpatchrpm) + 1)) == NULL)
+            goto cleanup_fail;
+        strcpy(oldpatchrpm, opts_src->oldpatchrpm);
+    }
+
     opts_dst->rpm_only = opts_src->rpm_only;
     opts_dst->version = opts_src->version;
     opts_dst->comp_from_rpm = opts_src->comp_from_rpm;
@@ -99,29 +121,18 @@ int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm
     free(opts_dst->seqfile);
     free(opts_dst->oldrpmprint);
     free(opts_dst->oldpatchrpm);
-    opts_dst->seqfile = NULL;
-    opts_dst->oldrpmprint = NULL;
-    opts_dst->oldpatchrpm = NULL;
+    opts_dst->seqfile = seqfile;
+    opts_dst->oldrpmprint = oldrpmprint;
+    opts_dst->oldpatchrpm = oldpatchrpm;
 
-    if (opts_src->seqfile != NULL) {
-        if ((opts_dst->seqfile = malloc(strlen(opts_src->seqfile) + 1)) == NULL)
-            return DRPM_ERR_OK;
-        strcpy(opts_dst->seqfile, opts_src->seqfile);
-    }
-
-    if (opts_src->oldrpmprint != NULL) {
-        if ((opts_dst->oldrpmprint = malloc(strlen(opts_src->oldrpmprint) + 1)) == NULL)
-            return DRPM_ERR_OK;
-        strcpy(opts_dst->oldrpmprint, opts_src->oldrpmprint);
-    }
+    return DRPM_ERR_OK;
 
-    if (opts_src->oldpatchrpm != NULL) {
-        if ((opts_dst->oldpatchrpm = malloc(strlen(opts_src->oldpatchrpm) + 1)) == NULL)
-            return DRPM_ERR_OK;
-        strcpy(opts_dst->oldpatchrpm, opts_src->oldpatchrpm);
-    }
+cleanup_fail:
+    free(seqfile);
+    free(oldrpmprint);
+    free(oldpatchrpm);
 
-    return DRPM_ERR_OK;
+    return DRPM_ERR_MEMORY;
 }
 
 int drpm_make_options_set_type(struct drpm_make_options *opts, unsigned short type)
-- 
2.43.0


From cb554d4e3bc2595cfa5ad972c337e02cd053b811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 03/23] fix: drpm_make_options_destroy rejects an already
 destroyed options pointer

---
 src/drpm_options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index ae430dc..d10df0a 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -44,7 +44,7 @@ int drpm_make_options_init(struct drpm_make_options **opts)
 
 int drpm_make_options_destroy(struct drpm_make_options **opts)
 {
-    if (opts == NULL)
+    if (opts == NULL || *opts == NULL)
         return DRPM_ERR_ARGS;
 
     free((*opts)->seqfile);
-- 
2.43.0


From 4df223e6a4e286499068706e237b399d23a7b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 04/23] fix: drpm_make checks the options copy and does not
 leak it when refusing the version

---
 src/drpm.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 204ab79..1031399 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -326,13 +326,13 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
     if (alone)
         solo_rpm_name = (old_rpm_name == NULL) ? new_rpm_name : old_rpm_name;
 
+    if (rpm_only && user_opts->version < 3)
+        return DRPM_ERR_ARGS;
+
     if (user_opts == NULL)
         drpm_make_options_defaults(&opts);
-    else
-        drpm_make_options_copy(&opts, user_opts);
-
-    if (rpm_only && opts.version < 3)
-        return DRPM_ERR_ARGS;
+    else if ((error = drpm_make_options_copy(&opts, user_opts)) != DRPM_ERR_OK)
+        return error;
 
     delta.filename = deltarpm_name;
     delta.type = rpm_only ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
-- 
2.43.0


From 840a3ad42a84ee514a0eed685697eb1d8a57e453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 05/23] fix: drpm_make_options_add_patches leaves the options
 untouched when it runs out of memory

A failed allocation of the second name left the first one allocated but
never written (an unterminated string that later calls read past the end of).
---
 src/drpm_options.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index d10df0a..2f6e206 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -262,24 +262,28 @@ int drpm_make_options_set_seqfile(struct drpm_make_options *opts, const char *se
 
 int drpm_make_options_add_patches(struct drpm_make_options *opts, const char *oldrpmprint, const char *oldpatchrpm)
 {
-    char *tmp;
+    char *rpmprint_copy;
+    char *patchrpm_copy;
 
     if (opts == NULL || oldrpmprint == NULL || oldpatchrpm == NULL)
         return DRPM_ERR_ARGS;
 
-    if (opts->oldrpmprint == NULL || strlen(opts->oldrpmprint) < strlen(oldrpmprint)) {
-        if ((tmp = realloc(opts->oldrpmprint, strlen(oldrpmprint) + 1)) == NULL)
-            return DRPM_ERR_MEMORY;
-        opts->oldrpmprint = tmp;
-    }
-    if (opts->oldpatchrpm == NULL || strlen(opts->oldpatchrpm) < strlen(oldpatchrpm)) {
-        if ((tmp = realloc(opts->oldpatchrpm, strlen(oldpatchrpm) + 1)) == NULL)
-            return DRPM_ERR_MEMORY;
-        opts->oldpatchrpm = tmp;
+    rpmprint_copy = malloc(strlen(oldrpmprint) + 1);
+    patchrpm_copy = malloc(strlen(oldpatchrpm) + 1);
+
+    if (rpmprint_copy == NULL || patchrpm_copy == NULL) {
+        free(rpmprint_copy);
+        free(patchrpm_copy);
+        return DRPM_ERR_MEMORY;
     }
 
-    strcpy(opts->oldrpmprint, oldrpmprint);
-    strcpy(opts->oldpatchrpm, oldpatchrpm);
+    strcpy(rpmprint_copy, oldrpmprint);
+    strcpy(patchrpm_copy, oldpatchrpm);
+
+    free(opts->oldrpmprint);
+    free(opts->oldpatchrpm);
+    opts->oldrpmprint = rpmprint_copy;
+    opts->oldpatchrpm = patchrpm_copy;
 
     return DRPM_ERR_OK;
 }
-- 
2.43.0


From 1d4aff0d0e5d5018131560894fd3b906366a8f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 06/23] fix: reader rejects delta versions other than 1, 2 and
 3

Any last byte of the DLT magic used to be accepted as a version number.
---
 src/drpm_read.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 6e2ffea..54729d8 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -103,7 +103,7 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     if ((error = decompstrm_read_be32(stream, &version)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if (!MAGIC_DLT(version)) {
+    if (!MAGIC_DLT(version) || version % 256 < '1' || version % 256 > '3') {
         error = DRPM_ERR_FORMAT;
         goto cleanup;
     }
-- 
2.43.0


From 3907206a2d0aa2ce525552b88af50a3c2afac834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 07/23] fix: reading a delta computes buffer sizes without
 32-bit wrap-around

Lengths and element counts come from the file; their products used to wrap,
so that too small buffers were allocated and then overrun.
---
 src/drpm_read.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 54729d8..36a3188 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -121,7 +121,7 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     if ((error = decompstrm_read_be32(stream, &src_nevr_len)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if ((delta->src_nevr = malloc(src_nevr_len + 1)) == NULL) {
+    if ((delta->src_nevr = malloc((size_t)src_nevr_len + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
@@ -190,9 +190,14 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
                 (error = decompstrm_read_be32(stream, &delta->offadj_elems_count)) != DRPM_ERR_OK)
                 goto cleanup;
 
+            if (delta->offadj_elems_count > UINT32_MAX / 2) {
+                error = DRPM_ERR_FORMAT;
+                goto cleanup;
+            }
+
             if (delta->offadj_elems_count > 0) {
                 offadj_elems_size = delta->offadj_elems_count * 2;
-                if ((delta->offadj_elems = malloc(offadj_elems_size * 4)) == NULL) {
+                if ((delta->offadj_elems = malloc((size_t)offadj_elems_size * 4)) == NULL) {
                     error = DRPM_ERR_MEMORY;
                     goto cleanup;
                 }
@@ -240,11 +245,17 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
         (error = decompstrm_read_be32(stream, &delta->ext_copies_count)) != DRPM_ERR_OK)
         goto cleanup;
 
+    if (delta->int_copies_count > UINT32_MAX / 2 ||
+        delta->ext_copies_count > UINT32_MAX / 2) {
+        error = DRPM_ERR_FORMAT;
+        goto cleanup;
+    }
+
     int_copies_size = delta->int_copies_count * 2;
     ext_copies_size = delta->ext_copies_count * 2;
 
     if (int_copies_size > 0) {
-        if ((delta->int_copies = malloc(int_copies_size * 4)) == NULL) {
+        if ((delta->int_copies = malloc((size_t)int_copies_size * 4)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
@@ -257,7 +268,7 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     }
 
     if (ext_copies_size > 0) {
-        if ((delta->ext_copies = malloc(ext_copies_size * 4)) == NULL) {
+        if ((delta->ext_copies = malloc((size_t)ext_copies_size * 4)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
@@ -379,7 +390,7 @@ int readdelta_rpmonly(int filedesc, struct deltarpm *delta)
 
     /* reading target NEVR */
 
-    if ((delta->head.tgt_nevr = malloc(tgt_nevr_len + 1)) == NULL)
+    if ((delta->head.tgt_nevr = malloc((size_t)tgt_nevr_len + 1)) == NULL)
         return DRPM_ERR_MEMORY;
 
     if ((bytes_read = read(filedesc, delta->head.tgt_nevr, tgt_nevr_len)) < 0)
@@ -506,17 +517,17 @@ int deltarpm_to_drpm(const struct deltarpm *src, struct drpm *dst)
     dst->ext_copies_size = src->ext_copies_count * 2;
 
     if ((dst->filename = malloc(strlen(src->filename) + 1)) == NULL ||
-        (dst->sequence = malloc(src->sequence_len * 2 + 1)) == NULL ||
+        (dst->sequence = malloc((size_t)src->sequence_len * 2 + 1)) == NULL ||
         (dst->src_nevr = malloc(strlen(src->src_nevr) + 1)) == NULL ||
         (src->tgt_comp_param_len > 0 &&
-         (dst->tgt_comp_param = malloc(src->tgt_comp_param_len * 2 + 1)) == NULL) ||
-        (dst->tgt_leadsig = malloc(src->tgt_leadsig_len * 2 + 1)) == NULL ||
+         (dst->tgt_comp_param = malloc((size_t)src->tgt_comp_param_len * 2 + 1)) == NULL) ||
+        (dst->tgt_leadsig = malloc((size_t)src->tgt_leadsig_len * 2 + 1)) == NULL ||
         (dst->offadj_elems_size > 0 &&
-         (dst->offadj_elems = malloc(dst->offadj_elems_size * 4)) == NULL) ||
+         (dst->offadj_elems = malloc((size_t)dst->offadj_elems_size * 4)) == NULL) ||
         (dst->int_copies_size > 0 &&
-         (dst->int_copies = malloc(dst->int_copies_size * 4)) == NULL) ||
+         (dst->int_copies = malloc((size_t)dst->int_copies_size * 4)) == NULL) ||
         (dst->ext_copies_size > 0 &&
-         (dst->ext_copies = malloc(dst->ext_copies_size * 4)) == NULL)) {
+         (dst->ext_copies = malloc((size_t)dst->ext_copies_size * 4)) == NULL)) {
         error = DRPM_ERR_MEMORY;
         goto cleanup_fail;
     }
@@ -531,11 +542,11 @@ int deltarpm_to_drpm(const struct deltarpm *src, struct drpm *dst)
         dump_hex(dst->tgt_comp_param, src->tgt_comp_param, src->tgt_comp_param_len);
 
     if (dst->offadj_elems_size > 0)
-        memcpy(dst->offadj_elems, src->offadj_elems, dst->offadj_elems_size * 4);
+        memcpy(dst->offadj_elems, src->offadj_elems, (size_t)dst->offadj_elems_size * 4);
     if (dst->int_copies_size > 0)
-        memcpy(dst->int_copies, src->int_copies, dst->int_copies_size * 4);
+        memcpy(dst->int_copies, src->int_copies, (size_t)dst->int_copies_size * 4);
     if (dst->ext_copies_size > 0)
-        memcpy(dst->ext_copies, src->ext_copies, dst->ext_copies_size * 4);
+        memcpy(dst->ext_copies, src->ext_copies, (size_t)dst->ext_copies_size * 4);
 
     if (src->type == DRPM_TYPE_STANDARD) {
         if ((error = rpm_get_nevr(src->head.tgt_rpm, &dst->tgt_nevr)) != DRPM_ERR_OK)
-- 
2.43.0


From fe3f06b3dd0c267de09565d54f0c35f67e3e4e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 08/23] fix: release everything when reading or applying a
 delta is refused

drpm_read, readdelta_standard and two argument checks in drpm_apply
returned without releasing what they had already read or opened.
---
 src/drpm.c      | 16 +++++++++++-----
 src/drpm_read.c |  8 ++++++--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 1031399..ff0c472 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -79,8 +79,10 @@ int drpm_read(struct drpm **delta_ret, const char *filename)
         goto cleanup;
     }
 
-    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK)
+    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK) {
+        free(*delta_ret);
         goto cleanup;
+    }
 
 cleanup:
     free_deltarpm(&delta);
@@ -570,11 +572,15 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
         }
     } else {
         // rpm-only deltarpms do not work from filesystem
-        if (rpm_only)
-            return DRPM_ERR_ARGS;
+        if (rpm_only) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         // cannot reconstruct source RPMs from filesystem
-        if (rpm_is_sourcerpm(delta.head.tgt_rpm))
-            return DRPM_ERR_ARGS;
+        if (rpm_is_sourcerpm(delta.head.tgt_rpm)) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         /* reading old RPM header from database */
         if ((error = rpm_read_header(&old_rpm, delta.src_nevr, NULL)) != DRPM_ERR_OK)
             goto cleanup;
diff --git a/src/drpm_read.c b/src/drpm_read.c
index 36a3188..8d29ed3 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -429,11 +429,15 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
         return error;
 
     /* reading target compression from header (used for older delta versions) */
-    if ((error = rpm_get_comp(rpmst, &delta->tgt_comp)) != DRPM_ERR_OK)
+    if ((error = rpm_get_comp(rpmst, &delta->tgt_comp)) != DRPM_ERR_OK) {
+        rpm_destroy(&rpmst);
         return error;
+    }
 
-    if (lseek(filedesc, rpm_size_full(rpmst), SEEK_SET) == (off_t)-1)
+    if (lseek(filedesc, rpm_size_full(rpmst), SEEK_SET) == (off_t)-1) {
+        rpm_destroy(&rpmst);
         return DRPM_ERR_IO;
+    }
 
     delta->head.tgt_rpm = rpmst;
 
-- 
2.43.0


From 853d3c225be1a83d08532505b68c5646b11170fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 09/23] Add guarded loop-contract hook to drpm_get_ulong_array

---
 src/drpm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drpm.c b/src/drpm.c
index ff0c472..5aac8e2 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -282,6 +282,10 @@ int drpm_get_ulong_array(struct drpm *delta, int tag, unsigned long **ret_array,
         if ((*ret_array = malloc(*ret_size * sizeof(unsigned long))) == NULL)
             return DRPM_ERR_MEMORY;
 
+        DRPM_LOOP(ASSIGNS(i, WHOLE(*ret_array))
+                  INV(i <= *ret_size)
+                  INV(IMPLIES(g_k < i, (*ret_array)[g_k] == array[g_k]))
+                  DECREASES(*ret_size - i))
         for (unsigned long i = 0; i < *ret_size; i++)
             (*ret_array)[i] = (unsigned long)array[i];
     }
-- 
2.43.0


From d025bd44eeafdbdc8bd56eaf7462e150de4ed129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 10/23] fix: expanding a sequence stays inside the file list
 and refuses oversized numbers

The bounds test let one position too many be written past the positions
array (and one file past the list be read), and a long enough run of
continuation nibbles shifted by more than the width of the number.
---
 src/drpm_apply.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index fc6e032..f69f6b0 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -24,6 +24,7 @@
 
 #include <stdlib.h>
 #include <stdint.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <string.h>
 #include <fcntl.h>
@@ -121,6 +122,10 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
                 num_buf <<= shift;
             num |= num_buf;
             shift += 3;
+            if (shift >= CHAR_BIT * sizeof(size_t) - 3) {
+                error = DRPM_ERR_FORMAT;
+                goto cleanup_fail;
+            }
             continue;
         }
         if (shift)
@@ -146,7 +151,7 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
         }
 
         while (number-- > 0) {
-            if (positions_len > file_count || pos > file_count) {
+            if (positions_len >= file_count || pos >= file_count) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup_fail;
             }
-- 
2.43.0


From 259c6a33bcc1f7bd4e54a3eedb8c812159248b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 11/23] fix: prelink detection frees only its own buffers and
 reads large ELF words correctly

The error paths after locating the section name table freed a pointer into
the section headers, and little-endian words with the top bit set were
sign-extended.
---
 src/drpm_apply.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index f69f6b0..f1f4e2f 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -500,7 +500,7 @@ uint16_t elf16(const unsigned char *buf, bool little_endian)
 uint32_t elf32(const unsigned char *buf, bool little_endian)
 {
     if (little_endian)
-        return buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+        return buf[0] | buf[1] << 8 | buf[2] << 16 | (uint32_t)buf[3] << 24;
     return parse_be32(buf);
 }
 
@@ -514,7 +514,7 @@ uint64_t elf64(const unsigned char *buf, bool little_endian, bool is64)
     }
 
     if (little_endian)
-        return buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+        return buf[0] | buf[1] << 8 | buf[2] << 16 | (uint32_t)buf[3] << 24;
     return parse_be32(buf);
 }
 
@@ -532,6 +532,7 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
     int stridx;
     unsigned char *sects = NULL;
     unsigned char *strsect = NULL;
+    const unsigned char *strhdr;
     unsigned slen;
     unsigned o;
 
@@ -584,14 +585,14 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
-    strsect = sects + stridx * ssiz;
-    if (elf32(strsect + 4, le) != 3) {
+    strhdr = sects + stridx * ssiz;
+    if (elf32(strhdr + 4, le) != 3) {
         is_prelinked = false;
         goto cleanup;
     }
 
-    soff = elf64(is64 ? strsect + 24 : strsect + 16, le, is64);
-    slen = elf64(is64 ? strsect + 32 : strsect + 20, le, is64);
+    soff = elf64(is64 ? strhdr + 24 : strhdr + 16, le, is64);
+    slen = elf64(is64 ? strhdr + 32 : strhdr + 20, le, is64);
     if (soff == (off_t)~0 || slen == (unsigned)~0 || (int)slen < 0) {
         is_prelinked = false;
         goto cleanup;
-- 
2.43.0


From 1f723e24b4d429c5d2b0b593d69bf4152014b041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 12/23] fix: file checks close the file when prelink detection
 fails

---
 src/drpm_apply.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index f1f4e2f..c9ce344 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -307,8 +307,10 @@ int check_filesize(const char *filename, unsigned short digest_algo,
         if ((filedesc = open(filename, O_RDONLY)) < 0)
             return DRPM_ERR_IO;
         if ((read_len = read(filedesc, buf, 128)) > 0) {
-            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
+            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK) {
+                close(filedesc);
                 return error;
+            }
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
@@ -349,8 +351,10 @@ int check_full(const char *filename, unsigned short digest_algo,
 
     if (stats.st_size > (off_t)filesize) {
         if ((read_len = read(filedesc, buf, BUFFER_SIZE)) > 0) {
-            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
+            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK) {
+                close(filedesc);
                 return error;
+            }
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
-- 
2.43.0


From 58d1cb727d1ada3c108f293de59a8525ea43a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 13/23] fix: CPIO entry length of files just below 4 GiB does
 not wrap around

---
 src/drpm_apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index c9ce344..84b9680 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -243,7 +243,7 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
             header_len = CPIO_HEADER_SIZE + strlen(filename) + 3; // "./" prefix
             seqfiles[pos].header_len = header_len + CPIO_PADDING(header_len);
 
-            seqfiles[pos].content_len = filesize + CPIO_PADDING(filesize);
+            seqfiles[pos].content_len = (size_t)filesize + CPIO_PADDING(filesize);
 
             seqfiles[pos].offset = off;
             off += seqfiles[pos].header_len + seqfiles[pos].content_len;
-- 
2.43.0


From 727f787154326fc658edd443cbb5a71a7a2ea48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 14/23] Add guarded loop-contract hooks to expand_sequence

---
 src/drpm_apply.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 84b9680..5f3749b 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -108,7 +108,17 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
         return DRPM_ERR_MEMORY;
 
     /* decompressing the file order */
+    DRPM_LOOP(ASSIGNS(i, even, jump, toggle, shift, number, num, num_buf, pos, positions_len, error, g_dec, WHOLE(positions))
+              INV(i >= MD5_DIGEST_LENGTH && i <= sequence_len)
+              INV(g_dec.nib == 2 * (size_t)(i - MD5_DIGEST_LENGTH) + !even && (even || i < sequence_len))
+              INV(num == g_dec.num && shift == g_dec.shift && shift <= 60 && num >> shift == 0)
+              INV(pos == g_dec.pos && !jump == !g_dec.jump && !toggle == !g_dec.toggle)
+              INV(positions_len == g_dec.len && positions_len <= file_count)
+              INV(IMPLIES(g_k < positions_len, positions[g_k] == g_dec.val && g_dec.val < file_count))
+              INV(!g_dec.bad && error == DRPM_ERR_OK)
+              DECREASES(2 * (size_t)(sequence_len - i) + even))
     for (uint32_t i = MD5_DIGEST_LENGTH; i < sequence_len; ) {
+        DRPM_GHOST(vp_dec_nibble(sequence, file_count);)
         if (even) {
             num_buf = sequence[i] >> 4;
         } else {
@@ -150,6 +160,16 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
             continue;
         }
 
+        DRPM_LOOP(ASSIGNS(number, pos, positions_len, error, WHOLE(positions))
+                  INV(number <= ENTRY(number))
+                  INV(pos == ENTRY(pos) + (ENTRY(number) - number))
+                  INV(positions_len == ENTRY(positions_len) + (ENTRY(number) - number))
+                  INV(positions_len <= file_count && (number == ENTRY(number) || pos <= file_count))
+                  INV(IMPLIES(!g_dec.bad && g_k >= ENTRY(positions_len) && g_k < ENTRY(positions_len) + ENTRY(number),
+                              g_dec.val == ENTRY(pos) + (g_k - ENTRY(positions_len))))
+                  INV(IMPLIES(!g_dec.bad && g_k < positions_len, positions[g_k] == g_dec.val && g_dec.val < file_count))
+                  INV(error == DRPM_ERR_OK)
+                  DECREASES(number))
         while (number-- > 0) {
             if (positions_len >= file_count || pos >= file_count) {
                 error = DRPM_ERR_FORMAT;
@@ -165,6 +185,8 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
         goto cleanup_fail;
     }
 
+    DRPM_GHOST(vp_dec_end(positions, positions_len);)
+
     if (want_seq && (seqfiles = malloc((positions_len + 1) * sizeof(struct cpio_file))) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup_fail;
@@ -178,8 +200,15 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
     /* constructing an MD5 to match against the DeltaRPM sequence
      * checking that files have not changed,
      * and constructing an index of CPIO entries. */
+    DRPM_GHOST(g_target = want_seq ? (void *)seqfiles : (void *)digest;)
+    DRPM_LOOP(ASSIGNS(i, pos, filesize, rdev, filename, header_len, off, error, g_fs, WHOLE(digest), WHOLE(&seq_md5), WHOLE(g_target))
+              INV(pos <= positions_len && g_fs.n == pos && g_fs.need == 0)
+              INV(off == g_fs.off && error == DRPM_ERR_OK)
+              INV(vp_files_inv(seqfiles, want_seq, pos))
+              DECREASES(positions_len - pos))
     for (size_t i, pos = 0; pos < positions_len; pos++) {
         i = positions[pos];
+        DRPM_GHOST(vp_file_next(files, file_count, positions, i, check != NULL);)
 
         if (S_ISREG(files[i].mode))
             filesize = files[i].size;
-- 
2.43.0


From 7a891c8c033791d8e975f386f79cf551857dd76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 15/23] fix: expanding a sequence releases the index when a
 file check fails

---
 src/drpm_apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 5f3749b..58dceba 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -263,7 +263,7 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
                 break;
             }
             if (check != NULL && (error = check(files[i].name, digest_algo, digest, filesize)) != DRPM_ERR_OK)
-                goto cleanup;
+                goto cleanup_fail;
         }
 
         if (want_seq) {
-- 
2.43.0


From 80391dc4587f0ef5ce77c55ab9ab9a5b0343a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 16/23] Add guarded loop-contract hooks to the file checks

---
 src/drpm_apply.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 58dceba..3034223 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -396,6 +396,12 @@ int check_full(const char *filename, unsigned short digest_algo,
         }
     }
 
+    DRPM_LOOP(ASSIGNS(filesize, read_len, error, g_file, WHOLE(buf), chsm.ctx)
+              INV(filesize <= ENTRY(filesize) && filesize + g_file.hashed == g_file.want)
+              INV(g_file.pos == g_file.hashed || filesize == 0)
+              INV(!g_file.fail == !ENTRY(g_file.fail) && !g_file.eof == !ENTRY(g_file.eof))
+              INV(error == DRPM_ERR_OK)
+              DECREASES(filesize))
     while (filesize > 0 && (read_len = read(filedesc, buf, BUFFER_SIZE)) > 0) {
         if ((size_t)read_len > filesize)
             read_len = filesize;
@@ -434,6 +440,12 @@ int check_prelink(const char *filename, unsigned short digest_algo,
     if ((error = checksum_init(&chsm, digest_algo)) != DRPM_ERR_OK)
         goto cleanup;
 
+    DRPM_LOOP(ASSIGNS(filesize, read_len, error, g_file, WHOLE(buf), chsm.ctx)
+              INV(filesize <= ENTRY(filesize) && filesize + g_file.hashed == g_file.want)
+              INV(g_file.pos == g_file.hashed || filesize == 0)
+              INV(!g_file.fail == !ENTRY(g_file.fail) && !g_file.eof == !ENTRY(g_file.eof))
+              INV(error == DRPM_ERR_OK)
+              DECREASES(filesize))
     while (filesize > 0 && (read_len = read(filedesc, buf, BUFFER_SIZE)) > 0) {
         if ((size_t)read_len > filesize)
             read_len = filesize;
@@ -641,6 +653,9 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
+    DRPM_LOOP(ASSIGNS(i, o)
+              INV(i >= 0 && i <= snum)
+              DECREASES(snum - i))
     for (i = 0; i < snum; i++) {
         o = elf32(sects + i * ssiz, le);
         if (o > slen)
-- 
2.43.0


From ac172005a57da17b68d99c3b08ebd7358fb5d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 17/23] fix: writing a delta releases its buffers and
 descriptor when it fails

---
 src/drpm_write.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 87da972..b0dab63 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -209,28 +209,34 @@ int write_deltarpm(struct deltarpm *delta)
     switch (delta->type) {
     case DRPM_TYPE_STANDARD:
         if ((error = rpm_fetch_header(delta->head.tgt_rpm, &header, &header_size)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
         if (MD5_Init(&md5) != 1 ||
             MD5_Update(&md5, header, header_size) != 1 ||
             MD5_Update(&md5, strm_data, strm_data_len) != 1 ||
-            MD5_Final(md5_digest, &md5) != 1)
-            return DRPM_ERR_OTHER;
+            MD5_Final(md5_digest, &md5) != 1) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
 
         if ((error = rpm_signature_empty(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_size(delta->head.tgt_rpm, header_size + strm_data_len)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_md5(delta->head.tgt_rpm, md5_digest)) != DRPM_ERR_OK ||
             (error = rpm_signature_reload(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_write(delta->head.tgt_rpm, delta->filename, false, NULL, false)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
-        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
         break;
 
     case DRPM_TYPE_RPMONLY:
-        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
 
         if (write(filedesc, "drpm", 4) != 4 ||
             write(filedesc, version, 4) != 4) {
@@ -266,7 +272,8 @@ cleanup:
 
     free(header);
     free(strm_data);
-    close(filedesc);
+    if (filedesc >= 0)
+        close(filedesc);
 
     return error;
 }
-- 
2.43.0


From 5bbcb0d5197464994c95cc86a99363f17c11e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 18/23] fix: reading a delta refuses external copies before the
 start of the external data

---
 src/drpm_read.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 8d29ed3..1d498b5 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -354,7 +354,7 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     off = 0;
     for (uint32_t i = 0; i < ext_copies_size; i += 2) {
         off += (int32_t)delta->ext_copies[i];
-        if (off > delta->ext_data_len) {
+        if (off > delta->ext_data_len || off > INT64_MAX) {
             error = DRPM_ERR_FORMAT;
             goto cleanup;
         }
-- 
2.43.0


From e955fbab57d848513fffcc378b21e089f2e13ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 19/23] Add guarded hooks to the delta reader and writer

---
 src/drpm_read.c  | 35 +++++++++++++++++++++++++++++++++++
 src/drpm_write.c | 21 +++++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 1d498b5..605cc15 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -195,15 +195,20 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
                 goto cleanup;
             }
 
+            DRPM_GHOST(vp_section(delta, S_HEAD);)
+
             if (delta->offadj_elems_count > 0) {
                 offadj_elems_size = delta->offadj_elems_count * 2;
                 if ((delta->offadj_elems = malloc((size_t)offadj_elems_size * 4)) == NULL) {
                     error = DRPM_ERR_MEMORY;
                     goto cleanup;
                 }
+                DRPM_LOOP(PAIRS_READ(i, S_ADJ0, 0, offadj_elems_size, delta->offadj_elems, 0, 1))
                 for (uint32_t i = 0; i < offadj_elems_size; i += 2)
                     if ((error = decompstrm_read_be32(stream, delta->offadj_elems + i)) != DRPM_ERR_OK)
                         goto cleanup;
+                DRPM_GHOST(vp_section(delta, S_ADJ0);)
+                DRPM_LOOP(PAIRS_READ(j, S_ADJ1, 1, offadj_elems_size, delta->offadj_elems, 0, 1))
                 for (uint32_t j = 1; j < offadj_elems_size; j += 2) {
                     if ((error = decompstrm_read_be32(stream, delta->offadj_elems + j)) != DRPM_ERR_OK)
                         goto cleanup;
@@ -220,6 +225,8 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
         goto cleanup;
     }
 
+    DRPM_GHOST(vp_section(delta, S_ADJ1);)
+
     /* reading target lead and signature */
 
     if ((error = decompstrm_read_be32(stream, &delta->tgt_leadsig_len)) != DRPM_ERR_OK)
@@ -254,35 +261,47 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     int_copies_size = delta->int_copies_count * 2;
     ext_copies_size = delta->ext_copies_count * 2;
 
+    DRPM_GHOST(vp_section(delta, S_MID);)
+
     if (int_copies_size > 0) {
         if ((delta->int_copies = malloc((size_t)int_copies_size * 4)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
+        DRPM_LOOP(PAIRS_READ(i, S_INT0, 0, int_copies_size, delta->int_copies, 0, 0))
         for (uint32_t i = 0; i < int_copies_size; i += 2)
             if ((error = decompstrm_read_be32(stream, delta->int_copies + i)) != DRPM_ERR_OK)
                 goto cleanup;
+        DRPM_GHOST(vp_section(delta, S_INT0);)
+        DRPM_LOOP(PAIRS_READ(j, S_INT1, 1, int_copies_size, delta->int_copies, 0, 0))
         for (uint32_t j = 1; j < int_copies_size; j += 2)
             if ((error = decompstrm_read_be32(stream, delta->int_copies + j)) != DRPM_ERR_OK)
                 goto cleanup;
     }
 
+    DRPM_GHOST(vp_section(delta, S_INT1);)
+
     if (ext_copies_size > 0) {
         if ((delta->ext_copies = malloc((size_t)ext_copies_size * 4)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
+        DRPM_LOOP(PAIRS_READ(i, S_EXT0, 0, ext_copies_size, delta->ext_copies, 1, 0))
         for (uint32_t i = 0; i < ext_copies_size; i += 2) {
             if ((error = decompstrm_read_be32(stream, delta->ext_copies + i)) != DRPM_ERR_OK)
                 goto cleanup;
             if ((delta->ext_copies[i] & INT32_MIN) != 0)
                 delta->ext_copies[i] = TWOS_COMPLEMENT(delta->ext_copies[i] ^ INT32_MIN);
         }
+        DRPM_GHOST(vp_section(delta, S_EXT0);)
+        DRPM_LOOP(PAIRS_READ(j, S_EXT1, 1, ext_copies_size, delta->ext_copies, 1, 0))
         for (uint32_t j = 1; j < ext_copies_size; j += 2)
             if ((error = decompstrm_read_be32(stream, delta->ext_copies + j)) != DRPM_ERR_OK)
                 goto cleanup;
     }
 
+    DRPM_GHOST(vp_section(delta, S_EXT1);)
+
     /* reading length of external data */
     if (delta->version == 3) {
         if ((error = decompstrm_read_be64(stream, &delta->ext_data_len)) != DRPM_ERR_OK)
@@ -324,6 +343,8 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
         delta->int_data_len = int_data_32;
     }
 
+    DRPM_GHOST(vp_section(delta, S_LENS);)
+
     if (delta->int_data_len > SIZE_MAX) {
         error = DRPM_ERR_OVERFLOW;
         goto cleanup;
@@ -338,11 +359,19 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
             goto cleanup;
     }
 
+    DRPM_GHOST(vp_section(delta, S_DATA);)
+
     delta->int_data_as_ptrs = false;
 
     /* checking internal copies against internal data length */
     off = 0;
+    DRPM_LOOP(ASSIGNS(i, off, error, g_int)
+              INV(i % 2 == 1 && i <= int_copies_size + 1 && error == DRPM_ERR_OK)
+              INV(off == g_int.sum && off <= delta->int_data_len && off <= (uint64_t)(i / 2) * 0x100000000u)
+              INV(IMPLIES(g_i < i / 2, g_int.start <= g_int.end && g_int.end <= delta->int_data_len))
+              DECREASES((size_t)int_copies_size + 1 - i))
     for (uint32_t i = 1; i < int_copies_size; i += 2) {
+        DRPM_GHOST(vp_int_range(delta, i / 2);)
         off += delta->int_copies[i];
         if (off > delta->int_data_len) {
             error = DRPM_ERR_FORMAT;
@@ -352,7 +381,13 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
 
     /* checking external copies against external data length */
     off = 0;
+    DRPM_LOOP(ASSIGNS(i, off, error, g_ext)
+              INV(i % 2 == 0 && i <= ext_copies_size && error == DRPM_ERR_OK)
+              INV(off <= delta->ext_data_len && off <= (uint64_t)INT64_MAX + UINT32_MAX && g_ext.off == (__int128)off)
+              INV(IMPLIES(g_i < i / 2, g_ext.start >= 0 && g_ext.start <= g_ext.end && g_ext.end <= (__int128)delta->ext_data_len))
+              DECREASES((size_t)ext_copies_size - i))
     for (uint32_t i = 0; i < ext_copies_size; i += 2) {
+        DRPM_GHOST(vp_ext_range(delta, i / 2);)
         off += (int32_t)delta->ext_copies[i];
         if (off > delta->ext_data_len || off > INT64_MAX) {
             error = DRPM_ERR_FORMAT;
diff --git a/src/drpm_write.c b/src/drpm_write.c
index b0dab63..0f2786b 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -124,10 +124,14 @@ int write_deltarpm(struct deltarpm *delta)
              * We start with only even elements to store just the first numbers from pairs together
              * and then come all the second numbers together.*/
             uint32_t offadj_elems_size = delta->offadj_elems_count * 2;
+            DRPM_GHOST(vp_section(delta, S_HEAD);)
+            DRPM_LOOP(PAIRS_WRITTEN(i, S_ADJ0, 0, offadj_elems_size, delta->offadj_elems, 0))
             for (uint32_t i = 0; i < offadj_elems_size; i += 2) {
                 if ((error = compstrm_write_be32(stream, delta->offadj_elems[i])) != DRPM_ERR_OK)
                     goto cleanup;
             }
+            DRPM_GHOST(vp_section(delta, S_ADJ0);)
+            DRPM_LOOP(PAIRS_WRITTEN(j, S_ADJ1, 1, offadj_elems_size, delta->offadj_elems, 1))
             for (uint32_t j = 1; j < offadj_elems_size; j += 2) {
                 if ((error = compstrm_write_be32(stream, (int32_t)delta->offadj_elems[j] < 0 ?
                                                          TWOS_COMPLEMENT(delta->offadj_elems[j]) | INT32_MIN :
@@ -137,6 +141,7 @@ int write_deltarpm(struct deltarpm *delta)
         }
     }
 
+    DRPM_GHOST(vp_section(delta, S_ADJ1);)
     if ((error = compstrm_write_be32(stream, delta->tgt_leadsig_len)) != DRPM_ERR_OK ||
         (error = compstrm_write(stream, delta->tgt_leadsig_len, delta->tgt_leadsig)) != DRPM_ERR_OK ||
         (error = compstrm_write_be32(stream, delta->payload_fmt_off)) != DRPM_ERR_OK ||
@@ -147,26 +152,36 @@ int write_deltarpm(struct deltarpm *delta)
     int_copies_size = delta->int_copies_count * 2;
     ext_copies_size = delta->ext_copies_count * 2;
 
+    DRPM_GHOST(vp_section(delta, S_MID);)
+    DRPM_LOOP(PAIRS_WRITTEN(i, S_INT0, 0, int_copies_size, delta->int_copies, 0))
     for (uint32_t i = 0; i < int_copies_size; i += 2) {
         if ((error = compstrm_write_be32(stream, delta->int_copies[i])) != DRPM_ERR_OK)
             goto cleanup;
     }
+    DRPM_GHOST(vp_section(delta, S_INT0);)
+    DRPM_LOOP(PAIRS_WRITTEN(j, S_INT1, 1, int_copies_size, delta->int_copies, 0))
     for (uint32_t j = 1; j < int_copies_size; j += 2) {
         if ((error = compstrm_write_be32(stream, delta->int_copies[j])) != DRPM_ERR_OK)
             goto cleanup;
     }
 
+    DRPM_GHOST(vp_section(delta, S_INT1);)
+    DRPM_LOOP(PAIRS_WRITTEN(i, S_EXT0, 0, ext_copies_size, delta->ext_copies, 1))
     for (uint32_t i = 0; i < ext_copies_size; i += 2) {
         if ((error = compstrm_write_be32(stream, (int32_t)delta->ext_copies[i] < 0 ?
                                                  TWOS_COMPLEMENT(delta->ext_copies[i]) | INT32_MIN :
                                                  delta->ext_copies[i])) != DRPM_ERR_OK)
             goto cleanup;
     }
+    DRPM_GHOST(vp_section(delta, S_EXT0);)
+    DRPM_LOOP(PAIRS_WRITTEN(j, S_EXT1, 1, ext_copies_size, delta->ext_copies, 0))
     for (uint32_t j = 1; j < ext_copies_size; j += 2) {
         if ((error = compstrm_write_be32(stream, delta->ext_copies[j])) != DRPM_ERR_OK)
             goto cleanup;
     }
 
+    DRPM_GHOST(vp_section(delta, S_EXT1);)
+
     if (delta->version >= 3) {
         if ((error = compstrm_write_be64(stream, delta->ext_data_len)) != DRPM_ERR_OK)
             goto cleanup;
@@ -192,8 +207,14 @@ int write_deltarpm(struct deltarpm *delta)
             goto cleanup;
     }
 
+    DRPM_GHOST(vp_section(delta, S_LENS);)
+
     if (delta->int_data_as_ptrs) {
+        DRPM_LOOP(ASSIGNS(i, error, g_strm, g_int, g_now, g_now_len)
+                  INV(i <= delta->int_copies_count && error == DRPM_ERR_OK && INT_DATA_WRITTEN(i))
+                  DECREASES(delta->int_copies_count - i))
         for (uint32_t i = 0; i < delta->int_copies_count; i++) {
+            DRPM_GHOST(vp_int_next(delta, i);)
             if ((error = compstrm_write(stream, delta->int_copies[i * 2 + 1],
                                                 delta->int_data.ptrs[i])) != DRPM_ERR_OK)
                 goto cleanup;
-- 
2.43.0


From 84bb9eb29e17c072b4e42fb7e07b3459b9fdcae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 20/23] fix: match search does not read past new data shorter
 than 16 bytes

---
 src/drpm_search.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/drpm_search.c b/src/drpm_search.c
index 008b7f8..c5c4510 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -231,9 +231,16 @@ size_t hash_search(struct hash *hsh,
 
     uint32_t key;
     uint32_t key2;
-    uint32_t prekey = (scan <= new_len - HSIZE) ? buzhash(new + scan) : 0;
+    uint32_t prekey;
     uint32_t xprekey;
 
+    // too short for any match
+    if (new_len < HSIZE) {
+        *pos_ret = 0;
+        *len_ret = 0;
+        return new_len;
+    }
+
     hash_table = hsh->hash_table;
     ht_len = hsh->ht_len;
     scan_start = scan;
-- 
2.43.0


From 5dce3c5b0b37de92978876e73504ea4a1f774685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 21/23] fix: external copies of 2 GiB or more continue where
 they left off

---
 src/drpm_diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index 8de8bf8..c71cc2a 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -329,7 +329,7 @@ int create_diff_copies(const struct diff_copy *diff_copies, size_t diff_copies_l
                 if (old_len >= (uint32_t)INT32_MIN) {
                     ext_copies[ext_copies_count++ * 2 + 1] = INT32_MAX;
                     old_len -= INT32_MAX;
-                    old_off = offset += INT32_MAX;
+                    offset = old_off += INT32_MAX;
                     continue;
                 }
 
-- 
2.43.0


From a08c23e0d96f30b0594de0fa143f5804d05f438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:46 +0000
Subject: [PATCH 22/23] fix: make_diff releases only what it created when it
 fails early

---
 src/drpm_diff.c   | 9 +++++----
 src/drpm_search.c | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index c71cc2a..d482e83 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -86,13 +86,13 @@ int make_diff(const unsigned char *old, size_t old_len,
 
     const bool addblk = (add_block_ret != NULL && add_block_len_ret != NULL);
     size_t add_block_len;
-    struct compstrm *stream;
+    struct compstrm *stream = NULL;
 
     struct diff_copy *diff_copies = NULL;
     size_t diff_copies_len = 0;
 
     //struct sfxsrt *suffix;
-    struct hash *hashtab;
+    struct hash *hashtab = NULL;
 
     size_t old_pos = 0;
     size_t new_pos = 0;
@@ -267,9 +267,10 @@ cleanup_fail:
 cleanup:
     free(diff_copies);
     //sfxsrt_free(&suffix);
-    hash_free(&hashtab);
+    if (hashtab != NULL)
+        hash_free(&hashtab);
 
-    if (addblk) {
+    if (stream != NULL) {
         if (error == DRPM_ERR_OK)
             error = compstrm_destroy(&stream);
         else
diff --git a/src/drpm_search.c b/src/drpm_search.c
index c5c4510..f53211d 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -178,6 +178,7 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
 
     if ((hash_table = calloc(ht_len, sizeof(size_t))) == NULL) {
         free(*hsh);
+        *hsh = NULL;
         return DRPM_ERR_MEMORY;
     }
 
-- 
2.43.0


From 7266faa2fbf5058d1e1d83a6cee64432ee943723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:13 +0000
Subject: [PATCH 23/23] verification hooks: contracts of the diff and the match
 search (DRPM_VERIFY only)

---
 src/drpm_diff.c   | 72 +++++++++++++++++++++++++++++++++++++++++++++++
 src/drpm_search.c | 32 +++++++++++++++++++++
 2 files changed, 104 insertions(+)

diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index d482e83..c76c97f 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -131,6 +131,15 @@ int make_diff(const unsigned char *old, size_t old_len,
     if (addblk && (error = compstrm_init(&stream, -1, add_block_comp, add_block_comp_level)) != DRPM_ERR_OK)
         goto cleanup_fail;
 
+    DRPM_LOOP(ASSIGNS(new_pos, new_pos_prev, old_pos, old_pos_prev, len, len_forward, len_back, len_overlap, len_split,
+                      max_len, i, count, best_count, count_back, count_forward, write_len, WHOLE(buffer),
+                      diff_copies, diff_copies_len, error, g_diff, WHOLE(g_diff_buf))
+              INV(error == DRPM_ERR_OK && old_pos_prev <= old_len && new_pos_prev <= new_pos && new_pos <= new_len && len <= new_len - new_pos)
+              INV(g_diff.pos == new_pos_prev && g_diff.total <= g_diff.pos && g_diff.n == diff_copies_len && g_diff.written == g_diff.total)
+              INV((diff_copies == NULL) == (diff_copies_len == 0) && (diff_copies == NULL || diff_copies == g_diff_buf))
+              INV(diff_copies_len <= g_diff_max && g_diff.cap == (diff_copies_len + 31) / 32 * 32 && g_diff.cap <= g_diff_max)
+              INV(DIFF_KEPT(diff_copies_len) && DIFF_ADDED)
+              DECREASES((new_len - (new_pos + len)) + (new_pos_prev < new_len)))
     while (new_pos_prev < new_len) {
         /* find new match */
         //new_pos = sfxsrt_search(suffix, old, old_len, new, new_len,
@@ -142,6 +151,9 @@ int make_diff(const unsigned char *old, size_t old_len,
         max_len = MIN(old_len - old_pos_prev, new_pos - new_pos_prev);
         if (addblk) {
             len_forward = best_count = count = 0;
+            DRPM_LOOP(ASSIGNS(i, count, best_count, len_forward)
+                      INV(i <= max_len && count <= i && len_forward <= i && best_count <= i)
+                      DECREASES(max_len - i))
             for (i = 0; i < max_len; ) {
                 if (old[old_pos_prev + i] == new[new_pos_prev + i]) {
                     count++;
@@ -156,6 +168,9 @@ int make_diff(const unsigned char *old, size_t old_len,
             }
         } else {
             // no add block => no mismatches
+            DRPM_LOOP(ASSIGNS(i)
+                      INV(i <= max_len && MATCHES(old_pos_prev, new_pos_prev, i))
+                      DECREASES(max_len - i))
             for (i = 0; i < max_len; i++)
                 if (old[old_pos_prev + i] != new[new_pos_prev + i])
                     break;
@@ -166,6 +181,9 @@ int make_diff(const unsigned char *old, size_t old_len,
         if (addblk && new_pos < new_len) {
             len_back = best_count = count = 0;
             max_len = MIN(old_pos, new_pos - new_pos_prev);
+            DRPM_LOOP(ASSIGNS(i, count, best_count, len_back)
+                      INV(i >= 1 && i <= max_len + 1 && count < i && len_back < i && best_count < i)
+                      DECREASES(max_len + 1 - i))
             for (i = 1; i <= max_len; i++) {
                 if (old[old_pos - i] == new[new_pos - i]) {
                     count++;
@@ -181,9 +199,14 @@ int make_diff(const unsigned char *old, size_t old_len,
         }
 
         /* if extensions overlap, find a good place to split */
+        DRPM_GHOST(vp_cut(len_forward <= old_len - old_pos_prev && len_forward <= new_pos - new_pos_prev && len_back <= old_pos && len_back <= new_pos - new_pos_prev);)
         if (new_pos_prev + len_forward > new_pos - len_back) {
             len_split = best_count = count_back = count_forward = 0;
             len_overlap = (new_pos_prev + len_forward) - (new_pos - len_back);
+            DRPM_GHOST(vp_cut(len_overlap <= len_forward && len_overlap <= len_back && new_pos_prev + (len_forward - len_overlap) == new_pos - len_back);)
+            DRPM_LOOP(ASSIGNS(i, count_forward, count_back, best_count, len_split)
+                      INV(i <= len_overlap && len_split <= i)
+                      DECREASES(len_overlap - i))
             for (i = 0; i < len_overlap; i++) {
                 if (old[old_pos_prev + len_forward - len_overlap + i] ==
                     new[new_pos_prev + len_forward - len_overlap + i])
@@ -197,6 +220,7 @@ int make_diff(const unsigned char *old, size_t old_len,
             }
             len_forward -= len_overlap - len_split;
             len_back -= len_split;
+            DRPM_GHOST(vp_cut(new_pos_prev + len_forward == new_pos - len_back);)
         }
 
         /*
@@ -219,6 +243,8 @@ int make_diff(const unsigned char *old, size_t old_len,
 
          */
 
+        DRPM_GHOST(vp_cut(len_forward <= old_len - old_pos_prev && len_back <= old_pos && len_back <= new_pos && new_pos_prev + len_forward <= new_pos - len_back);)
+        DRPM_GHOST(diff_copies = vp_same(diff_copies, g_diff_buf);)
         if (!resize32((void **)&diff_copies, diff_copies_len, sizeof(struct diff_copy))) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
@@ -229,10 +255,21 @@ int make_diff(const unsigned char *old, size_t old_len,
         diff_copies[diff_copies_len].old_off = old_pos_prev;
         diff_copies[diff_copies_len].old_len = len_forward;
         diff_copies_len++;
+        DRPM_GHOST(vp_diff_copy(diff_copies + diff_copies_len - 1);)
 
         if (addblk) {
+            DRPM_LOOP(ASSIGNS(len_forward, write_len, i, old_pos_prev, new_pos_prev, error, WHOLE(buffer), g_diff.t, g_diff.failed, g_diff.written, g_diff.got, g_diff.byte)
+                      INV(error == DRPM_ERR_OK && len_forward <= ENTRY(len_forward))
+                      INV(old_pos_prev - ENTRY(old_pos_prev) == ENTRY(len_forward) - len_forward)
+                      INV(new_pos_prev - ENTRY(new_pos_prev) == ENTRY(len_forward) - len_forward)
+                      INV(g_diff.written == g_diff.total - len_forward && DIFF_ADDED && ADD_PLACE)
+                      DECREASES(len_forward))
             while (len_forward > 0) {
                 write_len = MIN(len_forward, BUFFER_SIZE);
+                DRPM_GHOST(g_diff.t = g_n - new_pos_prev;)
+                DRPM_LOOP(ASSIGNS(i, WHOLE(buffer))
+                          INV(i <= write_len && ADD_BYTES(i))
+                          DECREASES(write_len - i))
                 for (i = 0; i < write_len; i++)
                     buffer[i] = new[new_pos_prev + i] - old[old_pos_prev + i];
                 if ((error = compstrm_write(stream, write_len, buffer)) != DRPM_ERR_OK)
@@ -241,6 +278,7 @@ int make_diff(const unsigned char *old, size_t old_len,
                 new_pos_prev += write_len;
                 len_forward -= write_len;
             }
+            DRPM_GHOST(g_diff.cur = false;)
         }
 
         old_pos_prev = old_pos - len_back;
@@ -265,6 +303,7 @@ cleanup_fail:
         free(*add_block_ret);
 
 cleanup:
+    DRPM_GHOST(diff_copies = vp_same(diff_copies, g_diff_buf);)
     free(diff_copies);
     //sfxsrt_free(&suffix);
     if (hashtab != NULL)
@@ -299,13 +338,25 @@ int create_diff_copies(const struct diff_copy *diff_copies, size_t diff_copies_l
     uint32_t last_ext_copies_count = 0;
     size_t offset = 0;
 
+    DRPM_GHOST(vp_lists(&ext_copies, &int_copies);)
+    DRPM_LOOP(ASSIGNS(i, new_len, old_len, old_off, offset, error, ext_copies, ext_copies_count, int_copies, int_copies_count,
+                      last_ext_copies_count, g_out.i, g_out.no, g_out.nl, g_ox, g_oi, WHOLE(g_ext_buf), WHOLE(g_int_buf))
+              INV(i <= diff_copies_len && g_out.i == i && g_ox.left == 0 && g_oi.left == 0)
+              INV(EXT_OK && INT_OK && PENDING_OK)
+              DECREASES(diff_copies_len - i))
     for (size_t i = 0; i < diff_copies_len; i++) {
+        DRPM_GHOST(vp_out_entry(diff_copies, i);)
         new_len = diff_copies[i].new_len;
         old_len = diff_copies[i].old_len;
         old_off = diff_copies[i].old_off;
 
         if (old_len) {
+            DRPM_LOOP(ASSIGNS(old_len, old_off, offset, error, ext_copies, ext_copies_count, g_ox, WHOLE(g_ext_buf))
+                      INV(EXT_OK && PENDING_OK && old_len > 0)
+                      INV(g_ox.left == old_len && g_ox.src == old_off && old_off <= g_out.oldlen && old_len <= g_out.oldlen - old_off)
+                      DECREASES(DISTANCE(old_off, offset) + old_len))
             while (true) {
+                DRPM_GHOST(ext_copies = vp_same(ext_copies, g_ext_buf);)
                 if (!resize16((void **)&ext_copies, ext_copies_count * 2, 4)) {
                     error = DRPM_ERR_MEMORY;
                     goto cleanup_fail;
@@ -315,12 +366,14 @@ int create_diff_copies(const struct diff_copy *diff_copies, size_t diff_copies_l
                     ext_copies[ext_copies_count * 2] = INT32_MAX;
                     ext_copies[ext_copies_count * 2 + 1] = 0;
                     ext_copies_count++;
+                    DRPM_GHOST(vp_ext_emit(ext_copies_count - 1);)
                     offset += INT32_MAX;
                     continue;
                 } else if (old_off < offset && offset - old_off >= (uint32_t)INT32_MIN) {
                     ext_copies[ext_copies_count * 2] = TWOS_COMPLEMENT(INT32_MAX);
                     ext_copies[ext_copies_count * 2 + 1] = 0;
                     ext_copies_count++;
+                    DRPM_GHOST(vp_ext_emit(ext_copies_count - 1);)
                     offset -= INT32_MAX;
                     continue;
                 }
@@ -329,19 +382,25 @@ int create_diff_copies(const struct diff_copy *diff_copies, size_t diff_copies_l
 
                 if (old_len >= (uint32_t)INT32_MIN) {
                     ext_copies[ext_copies_count++ * 2 + 1] = INT32_MAX;
+                    DRPM_GHOST(vp_ext_emit(ext_copies_count - 1);)
                     old_len -= INT32_MAX;
                     offset = old_off += INT32_MAX;
                     continue;
                 }
 
                 ext_copies[ext_copies_count++ * 2 + 1] = old_len;
+                DRPM_GHOST(vp_ext_emit(ext_copies_count - 1);)
                 offset = old_off + old_len;
                 break;
             }
         }
 
         if (new_len) {
+            DRPM_LOOP(ASSIGNS(new_len, error, int_copies, int_copies_count, last_ext_copies_count, g_oi, g_ox.pend, WHOLE(g_int_buf))
+                      INV(INT_OK && PENDING_OK && new_len > 0 && g_oi.left == new_len)
+                      DECREASES(new_len))
             while (true) {
+                DRPM_GHOST(int_copies = vp_same(int_copies, g_int_buf);)
                 if (!resize16((void **)&int_copies, int_copies_count * 2, 4)) {
                     error = DRPM_ERR_MEMORY;
                     goto cleanup_fail;
@@ -352,16 +411,19 @@ int create_diff_copies(const struct diff_copy *diff_copies, size_t diff_copies_l
 
                 if (new_len >= (uint32_t)INT32_MIN) {
                     int_copies[int_copies_count++ * 2 + 1] = INT32_MAX;
+                    DRPM_GHOST(vp_int_emit(int_copies_count - 1);)
                     new_len -= INT32_MAX;
                     continue;
                 }
 
                 int_copies[int_copies_count++ * 2 + 1] = new_len;
+                DRPM_GHOST(vp_int_emit(int_copies_count - 1);)
                 break;
             }
         }
     }
 
+    DRPM_GHOST(int_copies = vp_same(int_copies, g_int_buf);)
     if (ext_copies_count - last_ext_copies_count > 0) {
         if (!resize16((void **)&int_copies, int_copies_count * 2, 4)) {
             error = DRPM_ERR_MEMORY;
@@ -370,6 +432,7 @@ int create_diff_copies(const struct diff_copy *diff_copies, size_t diff_copies_l
         int_copies[int_copies_count * 2] = ext_copies_count - last_ext_copies_count;
         int_copies[int_copies_count * 2 + 1] = 0;
         int_copies_count++;
+        DRPM_GHOST(vp_int_emit(int_copies_count - 1);)
     }
 
     *ext_copies_ret = ext_copies;
@@ -401,10 +464,19 @@ int create_int_data_array(const struct diff_copy *diff_copies, //size_t diff_cop
     if ((int_data_array = malloc(int_copies_count * sizeof(unsigned char *))) == NULL)
         return DRPM_ERR_MEMORY;
 
+    DRPM_LOOP(ASSIGNS(i, j, todo, left, offset, int_data_len, g_lit, WHOLE(int_data_array))
+              INV(i <= int_copies_count && g_lit.i == i && int_data_len == g_lit.sum && LIT_STATE(diff_copies))
+              INV(IMPLIES(g_j < i && !g_lit.kzero, int_data_array[g_j] == g_lit.ptr))
+              DECREASES(int_copies_count - i))
     for (size_t i = 0, j = 0; i < int_copies_count; i++) {
+        DRPM_GHOST(vp_lit_next(diff_copies, new, int_copies, i);)
         todo = int_copies[i * 2 + 1];
         if (todo > 0) {
+            DRPM_LOOP(ASSIGNS(j, left, offset)
+                      INV(LIT_SEEK(diff_copies))
+                      DECREASES(g_lit.J + 1 - j))
             while (left == 0) {
+                DRPM_GHOST(vp_lit_entry(diff_copies, j);)
                 left = diff_copies[j].new_len;
                 offset = diff_copies[j].new_off;
                 j++;
diff --git a/src/drpm_search.c b/src/drpm_search.c
index f53211d..0a6bc51 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -63,6 +63,9 @@ size_t match_len(const unsigned char *old, size_t old_len,
     size_t i;
     size_t len = MIN(old_len, new_len);
 
+    DRPM_LOOP(ASSIGNS(i)
+              INV(i <= len && MATCHES(old - g_old, new - g_new, i))
+              DECREASES(len - i))
     for (i = 0; i < len; i++)
         if (old[i] != new[i])
             break;
@@ -182,8 +185,13 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
         return DRPM_ERR_MEMORY;
     }
 
+    DRPM_LOOP(ASSIGNS(off, old, old_len, key, WHOLE(hash_table))
+              INV(off <= ENTRY(old_len) && old_len == ENTRY(old_len) - off && old == old_ptr + off)
+              INV(IMPLIES(g_k < ht_len, HASH_ENTRY(hash_table[g_k], off)))
+              DECREASES(old_len))
     for (size_t off = 0; old_len >= HSIZE; off += HSIZE, old += HSIZE, old_len -= HSIZE) {
         key = buzhash(old) % ht_len;
+        DRPM_GHOST(vp_hash_entry(hash_table[key], off);)
         if (hash_table[key]) {
             if (hash_table[(key == ht_len - 1) ? 0 : key + 1])
                 continue;
@@ -251,6 +259,15 @@ size_t hash_search(struct hash *hsh,
     len = 0;
     last_pos = last_scan = last_len = 0;
 
+    DRPM_LOOP(ASSIGNS(scan, scan_start, last_scan, last_pos, last_len, miniscan, old_score, old_score_num, old_score_start,
+                      pos, len, pos2, len2, key, key2, prekey, xprekey)
+              INV(scan_start >= ENTRY(scan) && scan_start <= scan && scan <= new_len)
+              INV(last_len == 0 || (last_len <= old_len && last_pos <= old_len - last_len &&
+                                    last_len <= new_len && last_scan <= new_len - last_len &&
+                                    last_scan >= scan_start && last_scan < scan && last_len >= HSIZE))
+              INV(MATCHES(last_pos, last_scan, last_len))
+              INV(old_score_num == 0 || old_score_start < new_len)
+              DECREASES(new_len - scan_start, new_len - scan))
     while (true) {
         if (scan >= new_len - HSIZE) {
             if (last_len >= 32)
@@ -260,6 +277,7 @@ size_t hash_search(struct hash *hsh,
 
         key = prekey % ht_len;
         pos = hash_table[key];
+        DRPM_GHOST(vp_hash_entry(pos, old_len);)
 
         if (pos == 0) {
 scannext:
@@ -278,6 +296,7 @@ scannext:
         pos--;
         if (memcmp(old + pos, new + scan, HSIZE) != 0) {
             pos = hash_table[key + 1 == ht_len ? 0 : key + 1];
+            DRPM_GHOST(vp_hash_entry(pos, old_len);)
             if (pos == 0)
                 goto scannext;
             pos--;
@@ -288,10 +307,12 @@ scannext:
         if (scan + HSIZE * 4 <= new_len) {
             key2 = buzhash(new + scan + 3 * HSIZE) % ht_len;
             pos2 = hash_table[key2];
+            DRPM_GHOST(vp_hash_entry(pos2, old_len);)
             if (pos2) {
                 if (memcmp(new + scan + 3 * HSIZE, old + pos2 - 1, HSIZE) != 0) {
                     key2 = (key2 == ht_len - 1) ? 0 : key2 + 1;
                     pos2 = hash_table[key2];
+                    DRPM_GHOST(vp_hash_entry(pos2, old_len);)
                 }
             }
             if (pos2 > 1 + 3 * HSIZE) {
@@ -324,6 +345,11 @@ gotit:
             last_len = 0;
             continue;
         }
+        DRPM_LOOP(ASSIGNS(i, len, pos, scan)
+                  INV(scan <= ENTRY(scan) && i == scan - scan_start && scan >= scan_start)
+                  INV(len == ENTRY(len) + (ENTRY(scan) - scan) && pos <= ENTRY(pos) && ENTRY(pos) - pos == ENTRY(scan) - scan)
+                  INV(MATCHES(pos, scan, len))
+                  DECREASES(i))
         for (size_t i = scan - scan_start; i > 0 && pos > 0 && scan > 0 && old[pos - 1] == new[scan - 1]; i--) {
             len++;
             pos--;
@@ -331,6 +357,9 @@ gotit:
         }
         if (old_score_start + 1 != scan || old_score_num == 0 || old_score_num - 1 > len) {
             old_score = 0;
+            DRPM_LOOP(ASSIGNS(miniscan, old_score)
+                      INV(miniscan >= scan && miniscan <= scan + len)
+                      DECREASES(scan + len - miniscan))
             for (miniscan = scan; miniscan < scan + len; miniscan++)
                 if ((miniscan + last_offset < old_len) && (old[miniscan + last_offset] == new[miniscan]))
                     old_score++;
@@ -341,6 +370,9 @@ gotit:
                 old_score--;
             old_score_start++;
             old_score_num--;
+            DRPM_LOOP(ASSIGNS(miniscan, old_score, old_score_num)
+                      INV(old_score_num <= len && miniscan == scan + old_score_num)
+                      DECREASES(len - old_score_num))
             for (miniscan = old_score_start + old_score_num; old_score_num < len; miniscan++) {
                 if ((miniscan + last_offset < old_len) && (old[miniscan + last_offset] == new[miniscan]))
                     old_score++;
-- 
2.43.0

