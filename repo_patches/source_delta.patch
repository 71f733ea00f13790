From 615adb7296b91b40f98fc3731e9f9ff8b479254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 01/23] fix: rs_format_stats() wrote past the buffer when
 output was truncated

snprintf() returns the length it wanted to write, so after the first
truncated append, buf + len was outside the buffer and size - len wrapped.
---
 src/stats.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/stats.c b/src/stats.c
index 5fabb8d..eaf6183 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -47,6 +47,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
         op = "noop";
 
     len = snprintf(buf, size, "%s statistics: ", op);
+    if ((size_t)len >= size)
+        return buf;             /* truncated */
 
     if (stats->lit_cmds) {
         len +=
@@ -55,6 +57,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      " cmdbytes] ", stats->lit_cmds, stats->lit_bytes,
                      stats->lit_cmdbytes);
     }
+    if ((size_t)len >= size)
+        return buf;             /* truncated */
 
     if (stats->sig_cmds) {
         len +=
@@ -62,6 +66,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      "in-place-signature[" FMT_LONG " cmds, " FMT_LONG
                      " bytes] ", stats->sig_cmds, stats->sig_bytes);
     }
+    if ((size_t)len >= size)
+        return buf;             /* truncated */
 
     if (stats->copy_cmds || stats->false_matches) {
         len +=
@@ -71,6 +77,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      stats->copy_bytes, stats->copy_cmdbytes,
                      stats->false_matches);
     }
+    if ((size_t)len >= size)
+        return buf;             /* truncated */
 
     if (stats->sig_blocks) {
         len +=
@@ -78,6 +86,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      "signature[" FMT_LONG " blocks, " FMT_SIZE
                      " bytes per block]", stats->sig_blocks, stats->block_len);
     }
+    if ((size_t)len >= size)
+        return buf;             /* truncated */
 
     sec = (int)(stats->end - stats->start);
     if (sec == 0)
-- 
2.43.0


From b5c0051feac695cae4932fa731f1a5e6b10c83af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 02/23] fix: rdiff exited 0 when its output could not be
 written

Data still in the stdio buffer is only written when the output is closed
(or flushed, for stdout), and that result was ignored.
---
 src/fileutil.c |  4 +++-
 src/rdiff.c    | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/fileutil.c b/src/fileutil.c
index 676d2d0..cd31910 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -119,8 +119,10 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
 
 int rs_file_close(FILE *f)
 {
-    if ((f == stdin) || (f == stdout))
+    if (f == stdin)
         return 0;
+    if (f == stdout)
+        return fflush(f);
     return fclose(f);
 }
 
diff --git a/src/rdiff.c b/src/rdiff.c
index 29ca892..35eaa92 100644
--- a/src/rdiff.c
+++ b/src/rdiff.c
@@ -190,6 +190,16 @@ static void rdiff_options(poptContext opcon)
     }
 }
 
+/** Close an output file, turning a failure to write it into an error. */
+static rs_result rdiff_close_output(FILE *f, rs_result result)
+{
+    if (rs_file_close(f) && result == RS_DONE) {
+        fprintf(stderr, "rdiff: Error writing output file.\n");
+        result = RS_IO_ERROR;
+    }
+    return result;
+}
+
 /** Generate signature from remaining command line arguments. */
 static rs_result rdiff_sig(poptContext opcon)
 {
@@ -223,7 +233,7 @@ static rs_result rdiff_sig(poptContext opcon)
         rs_sig_file(basis_file, sig_file, block_len, strong_len, sig_magic,
                     &stats);
 
-    rs_file_close(sig_file);
+    result = rdiff_close_output(sig_file, result);
     rs_file_close(basis_file);
     if (result != RS_DONE)
         return result;
@@ -266,7 +276,7 @@ static rs_result rdiff_delta(poptContext opcon)
 
     result = rs_delta_file(sumset, new_file, delta_file, &stats);
 
-    rs_file_close(delta_file);
+    result = rdiff_close_output(delta_file, result);
     rs_file_close(new_file);
     rs_file_close(sig_file);
 
@@ -302,7 +312,7 @@ static rs_result rdiff_patch(poptContext opcon)
 
     result = rs_patch_file(basis_file, delta_file, new_file, &stats);
 
-    rs_file_close(new_file);
+    result = rdiff_close_output(new_file, result);
     rs_file_close(delta_file);
     rs_file_close(basis_file);
 
-- 
2.43.0


From 24c07d9d89a84a74f1427d3f3d5dad79c68426a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:29 +0000
Subject: [PATCH 03/23] fix: huge block lengths overflowed int and aborted or
 failed bogusly

The whole-file functions sized their buffers as 4 * block_len in an int, so
a block length over 2^29, given or read from a signature, aborted. Block
lengths that can't be represented in the signature are now rejected.
---
 src/sumset.c |  5 +++++
 src/whole.c  | 12 ++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/sumset.c b/src/sumset.c
index 5a87261..73f2358 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -21,6 +21,7 @@
  */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include "librsync.h"
@@ -146,6 +147,10 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
     }
     if (*block_len == 0)
         *block_len = rec_block_len;
+    if (*block_len > INT_MAX) {
+        rs_error("invalid block_len=" FMT_SIZE, *block_len);
+        return RS_PARAM_ERROR;
+    }
     /* The recommended strong_len assumes the worst case new_fsize = old_fsize
        + 16MB with no matches. This results in comparing a block at every byte
        offset against all the blocks in the signature, or new_fsize*block_num
diff --git a/src/whole.c b/src/whole.c
index ebce253..5d43819 100644
--- a/src/whole.c
+++ b/src/whole.c
@@ -28,6 +28,7 @@
                                */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include "librsync.h"
@@ -64,6 +65,12 @@ rs_result rs_whole_run(rs_job_t *job, FILE *in_file, FILE *out_file,
     return result;
 }
 
+/** Get an IO buffer size of four times len, without overflowing an int. */
+static int rs_whole_bufsize(size_t len)
+{
+    return len > INT_MAX / 4 ? INT_MAX : 4 * (int)len;
+}
+
 rs_result rs_sig_file(FILE *old_file, FILE *sig_file, size_t block_len,
                       size_t strong_len, rs_magic_number sig_magic,
                       rs_stats_t *stats)
@@ -78,7 +85,7 @@ rs_result rs_sig_file(FILE *old_file, FILE *sig_file, size_t block_len,
         return r;
     job = rs_sig_begin(block_len, strong_len, sig_magic);
     /* Size inbuf for 4 blocks, outbuf for header + 4 blocksums. */
-    r = rs_whole_run(job, old_file, sig_file, 4 * (int)block_len,
+    r = rs_whole_run(job, old_file, sig_file, rs_whole_bufsize(block_len),
                      12 + 4 * (4 + (int)strong_len));
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
@@ -114,7 +121,8 @@ rs_result rs_delta_file(rs_signature_t *sig, FILE *new_file, FILE *delta_file,
     job = rs_delta_begin(sig);
     /* Size inbuf for 4*(CMD + 1 block), outbuf for 4*CMD. */
     r = rs_whole_run(job, new_file, delta_file,
-                     4 * (MAX_DELTA_CMD + sig->block_len), 4 * MAX_DELTA_CMD);
+                     rs_whole_bufsize(MAX_DELTA_CMD + (size_t)sig->block_len),
+                     4 * MAX_DELTA_CMD);
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
     rs_job_free(job);
-- 
2.43.0


From 55111087f8029958887e970482159a9a62e69549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:29 +0000
Subject: [PATCH 04/23] fix: rs_sig_args() could choose or accept a strong_len
 above the maximum

The recommended minimum for a huge file with tiny blocks exceeds the length
of an MD4 sum, and an explicit strong_len below it was not range checked.
---
 src/sumset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sumset.c b/src/sumset.c
index 73f2358..f6904a3 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -167,6 +167,8 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
         min_strong_len =
             2 + (rs_long_ln2(old_fsize + ((rs_long_t)1 << 24)) +
                  rs_long_ln2(old_fsize / *block_len + 1) + 7) / 8;
+        if (min_strong_len > max_strong_len)
+            min_strong_len = max_strong_len;
     }
     if (*strong_len == 0)
         *strong_len = max_strong_len;
-- 
2.43.0


From ac5ef7e52dd374eae96f3b34a928743271736067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:29 +0000
Subject: [PATCH 05/23] fix: rs_unbase64() returned one byte too many

Unless the length was a multiple of 3, the leftover padding bits of the last
character were counted as another byte.
---
 src/base64.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index 873746e..c2c453a 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -31,11 +31,11 @@ size_t rs_unbase64(char *s)
 {
     char const *b64 =
         "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-    int bit_offset, byte_offset, idx, i, n;
+    int bit_offset, byte_offset, idx, i;
     unsigned char *d = (unsigned char *)s;
     char *p;
 
-    n = i = 0;
+    i = 0;
 
     while (*s && (p = strchr(b64, *s))) {
         idx = (int)(p - b64);
@@ -44,16 +44,14 @@ size_t rs_unbase64(char *s)
         d[byte_offset] &= (unsigned char)~((1 << (8 - bit_offset)) - 1);
         if (bit_offset < 3) {
             d[byte_offset] |= (unsigned char)(idx << (2 - bit_offset));
-            n = byte_offset + 1;
         } else {
             d[byte_offset] |= (unsigned char)(idx >> (bit_offset - 2));
             d[byte_offset + 1] = (unsigned char)(idx << (8 - (bit_offset - 2)));
-            n = byte_offset + 2;
         }
         s++;
         i++;
     }
-    return n;
+    return (size_t)i * 6 / 8;
 }
 
 /** Encode a buffer as base64 - simple and slow algorithm. */
-- 
2.43.0


From b15fd5918507a47b57a10a937c00e07dda804188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:29 +0000
Subject: [PATCH 06/23] fix: undefined signed shift decoding 8 byte integers
 with the top bit set

---
 src/netint.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/netint.c b/src/netint.c
index ce3f8e3..13699a6 100644
--- a/src/netint.c
+++ b/src/netint.c
@@ -79,9 +79,10 @@ rs_result rs_suck_netint(rs_job_t *job, rs_long_t *val, int len)
 
     assert(len <= RS_MAX_INT_BYTES);
     if ((result = rs_scoop_read(job, len, (void **)&buf)) == RS_DONE) {
-        *val = 0;
+        uintmax_t v = 0;
         for (i = 0; i < len; i++)
-            *val = (*val << 8) | (rs_long_t)buf[i];
+            v = (v << 8) | buf[i];
+        *val = (rs_long_t)v;
     }
     return result;
 }
-- 
2.43.0


From 392933863bd4b75950cc46359f9f52ce8762b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:29 +0000
Subject: [PATCH 07/23] fix: signed overflow applying a delta with unbelievable
 lengths or offsets

A command whose length overflows the running totals, or a COPY that ends
beyond the largest offset, can't be part of a valid delta.
---
 src/patch.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/patch.c b/src/patch.c
index 7e353d9..ef2bd28 100644
--- a/src/patch.c
+++ b/src/patch.c
@@ -117,7 +117,7 @@ static rs_result rs_patch_s_literal(rs_job_t *job)
     rs_stats_t *stats = &job->stats;
 
     rs_trace("LITERAL(length=" FMT_LONG ")", len);
-    if (len <= 0 || len > SIZE_MAX) {
+    if (len <= 0 || len > SIZE_MAX || len > INTMAX_MAX - stats->lit_bytes) {
         rs_error("invalid length=" FMT_LONG " on LITERAL command", len);
         return RS_CORRUPT;
     }
@@ -136,11 +136,11 @@ static rs_result rs_patch_s_copy(rs_job_t *job)
     rs_stats_t *stats = &job->stats;
 
     rs_trace("COPY(position=" FMT_LONG ", length=" FMT_LONG ")", pos, len);
-    if (len <= 0) {
+    if (len <= 0 || len > INTMAX_MAX - stats->copy_bytes) {
         rs_error("invalid length=" FMT_LONG " on COPY command", len);
         return RS_CORRUPT;
     }
-    if (pos < 0) {
+    if (pos < 0 || pos > INTMAX_MAX - len) {
         rs_error("invalid position=" FMT_LONG " on COPY command", pos);
         return RS_CORRUPT;
     }
-- 
2.43.0


From 0d62369bd562e91834f0c699c3d71b72a2d2e4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:29 +0000
Subject: [PATCH 08/23] fix: an existing but unreadable file was overwritten
 without --force

---
 src/fileutil.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fileutil.c b/src/fileutil.c
index cd31910..0891a7f 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -105,6 +105,11 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
             rs_error("File exists \"%s\", aborting!", filename);
             fclose(f);
             exit(RS_IO_ERROR);
+        } else if (errno != ENOENT) {
+            // File exists but can't be read, or we can't tell.
+            rs_error("Error checking for \"%s\": %s", filename,
+                     strerror(errno));
+            exit(RS_IO_ERROR);
         }
     }
 
-- 
2.43.0


From c682b2ddab5e96d226d22f278c58205b8096fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:29 +0000
Subject: [PATCH 09/23] fix: rdiff aborted when given a negative buffer size

---
 src/rdiff.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rdiff.c b/src/rdiff.c
index 35eaa92..e5e1142 100644
--- a/src/rdiff.c
+++ b/src/rdiff.c
@@ -367,6 +367,10 @@ int main(const int argc, const char *argv[])
 
     opcon = poptGetContext("rdiff", argc, argv, opts, 0);
     rdiff_options(opcon);
+    if (block_len < 0 || strong_len < -1 || rs_inbuflen < 0 || rs_outbuflen < 0) {
+        rdiff_usage("Sizes must not be negative.");
+        exit(RS_SYNTAX_ERROR);
+    }
     result = rdiff_action(opcon);
 
     if (result != RS_DONE)
-- 
2.43.0


From 3642083659ca00d1feddcb3c069a92409dedbcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 10/23] fix: rs_strerror() had no description for
 RS_PARAM_ERROR

---
 src/msg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/msg.c b/src/msg.c
index 1d9e1f5..0fc239b 100644
--- a/src/msg.c
+++ b/src/msg.c
@@ -68,6 +68,8 @@ char const *rs_strerror(rs_result r)
         return "bad command line syntax";
     case RS_INTERNAL_ERROR:
         return "library internal error";
+    case RS_PARAM_ERROR:
+        return "bad parameter value";
 
     default:
         return "unexplained problem";
-- 
2.43.0


From 55f7d2334894b3233681a54c8530dd0799aa7cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:17 +0000
Subject: [PATCH 11/23] fix: a signature truncated inside a weak sum was loaded
 without error

---
 src/readsums.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/readsums.c b/src/readsums.c
index 61ba84a..2c33e24 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -57,8 +57,8 @@ static rs_result rs_loadsig_s_weak(rs_job_t *job)
     rs_result result;
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE) {
-        if (result == RS_INPUT_ENDED)   /* ending here is OK */
-            return RS_DONE;
+        if (result == RS_INPUT_ENDED && !rs_scoop_avail(job))
+            return RS_DONE;     /* ending here is OK */
         return result;
     }
     job->weak_sig = l;
-- 
2.43.0


From efd1af21b36080f8bf92e1eb3741ca5cb5c728f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:17 +0000
Subject: [PATCH 12/23] fix: zeros in a signature header were taken as requests
 for defaults

rs_sig_args() replaces a zero magic or strong_len by the recommended value,
so a damaged header with zeros there was loaded as a different signature.
---
 src/readsums.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/readsums.c b/src/readsums.c
index 2c33e24..11d4d9d 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -86,7 +86,7 @@ static rs_result rs_loadsig_s_stronglen(rs_job_t *job)
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
-    if (l < 0 || l > RS_MAX_STRONG_SUM_LENGTH) {
+    if (l < 1 || l > RS_MAX_STRONG_SUM_LENGTH) {
         rs_error("strong sum length %d is implausible", l);
         return RS_CORRUPT;
     }
@@ -127,6 +127,10 @@ static rs_result rs_loadsig_s_magic(rs_job_t *job)
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
     rs_trace("got signature magic %#x", l);
+    if (!l) {
+        rs_error("invalid magic %#x", l);
+        return RS_BAD_MAGIC;
+    }
     job->sig_magic = l;
     job->statefn = rs_loadsig_s_blocklen;
     return RS_RUNNING;
-- 
2.43.0


From 3cdf3f98fcdb1b81fc9b72821902a00e1f895328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:42 +0000
Subject: [PATCH 13/23] fix: patch failed with an internal error if the copy
 callback stayed blocked

A copy callback may return RS_BLOCKED, but if it did so again on the next
call, with input and output space available, the check for jobs that make no
progress turned that into RS_INTERNAL_ERROR.
---
 src/job.c   | 2 +-
 src/job.h   | 2 ++
 src/patch.c | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/job.c b/src/job.c
index 462e772..677a010 100644
--- a/src/job.c
+++ b/src/job.c
@@ -95,7 +95,7 @@ rs_result rs_job_iter(rs_job_t *job, rs_buffers_t *buffers)
     result = rs_job_work(job, buffers);
     if (result == RS_BLOCKED || result == RS_DONE)
         if ((orig_in == buffers->avail_in) && (orig_out == buffers->avail_out)
-            && orig_in && orig_out) {
+            && orig_in && orig_out && !job->copy_blocked) {
             rs_error("internal error: job made no progress " "[orig_in="
                      FMT_SIZE ", orig_out=" FMT_SIZE ", final_in=" FMT_SIZE
                      ", final_out=" FMT_SIZE "]", orig_in, orig_out,
diff --git a/src/job.h b/src/job.h
index fb22461..962e87c 100644
--- a/src/job.h
+++ b/src/job.h
@@ -119,6 +119,8 @@ struct rs_job {
     /** Callback used to copy data from the basis into the output. */
     rs_copy_cb *copy_cb;
     void *copy_arg;
+    /** True if the last copy_cb() call returned ::RS_BLOCKED. */
+    int copy_blocked;
 };
 
 rs_job_t *rs_job_new(const char *, rs_result (*statefn)(rs_job_t *));
diff --git a/src/patch.c b/src/patch.c
index ef2bd28..766b1d2 100644
--- a/src/patch.c
+++ b/src/patch.c
@@ -173,6 +173,7 @@ static rs_result rs_patch_s_copying(rs_job_t *job)
              job->basis_pos);
     len = (size_t)req;
     result = (job->copy_cb) (job->copy_arg, job->basis_pos, &len, &ptr);
+    job->copy_blocked = result == RS_BLOCKED;
     if (result != RS_DONE) {
         rs_trace("copy callback returned %s", rs_strerror(result));
         return result;
-- 
2.43.0


From e4ea63b1f00a19dc1ecdcecbc360e8d39f9dd5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:52 +0000
Subject: [PATCH 14/23] fix: a read error that was followed by end of file
 passed for a complete input

---
 src/buf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buf.c b/src/buf.c
index 4dcfb72..c83ef58 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -84,6 +84,12 @@ rs_result rs_infilebuf_fill(rs_job_t *job, rs_buffers_t *buf, void *opaque)
     }
     buf->next_in = fb->buf;
     len = fread(fb->buf + buf->avail_in, 1, fb->buf_len - buf->avail_in, f);
+    /* Check for errors even if some data was read, because the next read could
+       find the end of file instead and make the input look complete. */
+    if (ferror(f)) {
+        rs_error("error filling buf from file: %s", strerror(errno));
+        return RS_IO_ERROR;
+    }
     if (len == 0) {
         if ((buf->eof_in = feof(f))) {
             rs_trace("seen end of file on input");
-- 
2.43.0


From 61916f53f44f0b24cf56d02750e8fdc5371b963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:18 +0000
Subject: [PATCH 15/23] fix: delta generation memory grows when output is
 slower than input

---
 src/delta.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/delta.c b/src/delta.c
index de65a8c..2edcff6 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -149,6 +149,9 @@ static rs_result rs_delta_s_scan(rs_job_t *job)
     }
     /* if we completed OK */
     if (result == RS_DONE) {
+        /* if there is input we have not looked at yet, go on with it */
+        if (job->scan_len < rs_scoop_avail(job))
+            return RS_RUNNING;
         /* if we reached eof, we can flush the last fragment */
         if (job->stream->eof_in) {
             job->statefn = rs_delta_s_flush;
@@ -211,7 +214,12 @@ static inline rs_result rs_getinput(rs_job_t *job, size_t block_len)
 {
     size_t min_len = block_len + MAX_DELTA_CMD;
 
-    job->scan_len = rs_scoop_avail(job);
+    /* Don't take more input while the scoop has enough to work on, or it keeps
+       growing when input arrives faster than output can be written. */
+    if (job->scoop_avail >= min_len)
+        job->scan_len = job->scoop_avail;
+    else
+        job->scan_len = rs_scoop_avail(job);
     if (job->scan_len < min_len && !job->stream->eof_in)
         job->scan_len = min_len;
     return rs_scoop_readahead(job, job->scan_len, (void **)&job->scan_buf);
-- 
2.43.0


From 5fa6dddf779e5afb23fe78281ed55dd41fec719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:41 +0000
Subject: [PATCH 16/23] fix: hash table size overflows for signatures of over
 214 million blocks

---
 src/hashtable.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hashtable.c b/src/hashtable.c
index ff3f29c..feae2c2 100644
--- a/src/hashtable.c
+++ b/src/hashtable.c
@@ -19,6 +19,7 @@
  * Foundation, Inc., 675 Mass Ave, Cambridge, MA 02139, USA.
  */
 #include <assert.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include "hashtable.h"
 
@@ -37,11 +38,16 @@ hashtable_t *_hashtable_new(int size)
 {
     hashtable_t *t;
     unsigned size2, bits2;
+    uint64_t need;
 
     /* Adjust requested size to account for max load factor. */
-    size = 1 + size * HASHTABLE_LOADFACTOR_DEN / HASHTABLE_LOADFACTOR_NUM;
+    need = 1 + (uint64_t)size * HASHTABLE_LOADFACTOR_DEN
+        / HASHTABLE_LOADFACTOR_NUM;
+    /* The table size must fit in an int. */
+    if (need > 1u << 30)
+        return NULL;
     /* Use next power of 2 larger than the requested size and get mask bits. */
-    for (size2 = 2, bits2 = 1; (int)size2 < size; size2 <<= 1, bits2++) ;
+    for (size2 = 2, bits2 = 1; size2 < need; size2 <<= 1, bits2++) ;
     if (!(t = calloc(1, sizeof(hashtable_t)+ size2 * sizeof(unsigned))))
         return NULL;
     if (!(t->etable = calloc(size2, sizeof(void *)))) {
-- 
2.43.0


From 2ad51afec2c736923097ca7a08b28b9c77032010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:41 +0000
Subject: [PATCH 17/23] fix: building the hash table again leaks the previous
 one

---
 src/sumset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sumset.c b/src/sumset.c
index f6904a3..6caae35 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -285,6 +285,8 @@ rs_result rs_build_hash_table(rs_signature_t *sig)
     int i;
 
     rs_signature_check(sig);
+    /* Replace any previously built table. */
+    hashtable_free(sig->hashtable);
     sig->hashtable = hashtable_new(sig->count);
     if (!sig->hashtable)
         return RS_MEM_ERROR;
-- 
2.43.0


From 2031e712406c2d6cf817e4b715729e810b349032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:49 +0000
Subject: [PATCH 18/23] fix: literal lengths of 2GB and more wrap in deltas
 without a signature

---
 src/delta.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/delta.c b/src/delta.c
index 2edcff6..88ff2a2 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -90,6 +90,7 @@
 
 #include "config.h"             /* IWYU pragma: keep */
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "librsync.h"
 #include "job.h"
@@ -376,6 +377,9 @@ static rs_result rs_delta_s_slack(rs_job_t *job)
 {
     size_t avail = rs_scoop_avail(job);
 
+    /* A literal's length is an int, the rest goes into another literal. */
+    if (avail > INT_MAX)
+        avail = INT_MAX;
     if (avail) {
         rs_trace("emit slack delta for " FMT_SIZE " available bytes", avail);
         rs_emit_literal_cmd(job, (int)avail);
-- 
2.43.0


From 7b155c614b9a41546dd98001c37bd4665ade3c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:24 +0000
Subject: [PATCH 19/23] fix: delta could loop for ever with blocks longer than
 the largest miss

---
 src/delta.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/delta.c b/src/delta.c
index 88ff2a2..e7f8e53 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -217,7 +217,8 @@ static inline rs_result rs_getinput(rs_job_t *job, size_t block_len)
 
     /* Don't take more input while the scoop has enough to work on, or it keeps
        growing when input arrives faster than output can be written. */
-    if (job->scoop_avail >= min_len)
+    if (job->scoop_avail >= min_len
+        && job->scoop_avail > job->scan_pos + block_len)
         job->scan_len = job->scoop_avail;
     else
         job->scan_len = rs_scoop_avail(job);
-- 
2.43.0


From ccaecca25c4692bd230e640af2a1cb11a08f96b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:36 +0000
Subject: [PATCH 20/23] fix: recommended signature parameters for files of 4
 EiB and more

The square root overflowed, and the logarithms hung on a negative value.
---
 src/sumset.c | 8 +++++---
 src/util.c   | 2 +-
 src/util.h   | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sumset.c b/src/sumset.c
index 6caae35..9e68f97 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -143,7 +143,9 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
         rec_block_len = RS_DEFAULT_BLOCK_LEN;
     } else {
         rec_block_len =
-            old_fsize <= 256 * 256 ? 256 : rs_long_sqrt(old_fsize) & ~127;
+            old_fsize <= 256 * 256 ? 256 :
+            old_fsize >= (rs_long_t)1 << 62 ? INT_MAX & ~127 :
+            rs_long_sqrt(old_fsize) & ~127;
     }
     if (*block_len == 0)
         *block_len = rec_block_len;
@@ -165,8 +167,8 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
         min_strong_len = RS_DEFAULT_MIN_STRONG_LEN;
     } else {
         min_strong_len =
-            2 + (rs_long_ln2(old_fsize + ((rs_long_t)1 << 24)) +
-                 rs_long_ln2(old_fsize / *block_len + 1) + 7) / 8;
+            2 + (rs_long_ln2((uintmax_t)old_fsize + (1 << 24)) +
+                 rs_long_ln2((uintmax_t)old_fsize / *block_len + 1) + 7) / 8;
         if (min_strong_len > max_strong_len)
             min_strong_len = max_strong_len;
     }
diff --git a/src/util.c b/src/util.c
index f1e5550..8d855df 100644
--- a/src/util.c
+++ b/src/util.c
@@ -67,7 +67,7 @@ void *rs_realloc(void *ptr, size_t size, char const *name)
     return p;
 }
 
-int rs_long_ln2(rs_long_t v)
+int rs_long_ln2(uintmax_t v)
 {
     int n;
 
diff --git a/src/util.h b/src/util.h
index 704458b..77efebb 100644
--- a/src/util.h
+++ b/src/util.h
@@ -34,7 +34,7 @@ void *rs_alloc_struct0(size_t size, char const *name);
 
 void rs_bzero(void *buf, size_t size);
 
-int rs_long_ln2(rs_long_t v);
+int rs_long_ln2(uintmax_t v);
 int rs_long_sqrt(rs_long_t v);
 
 /** Allocate and zero-fill an instance of TYPE. */
-- 
2.43.0


From 1a271fc1b8e321b3f15a974e5f6616709bbd6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:11 +0000
Subject: [PATCH 21/23] fix: base64 of 256 MiB and more

The number of characters and the positions were computed in an int, which
overflowed: rs_base64() gave an empty string and rs_unbase64() wrote before
the buffer.
---
 src/base64.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index c2c453a..6cd5a3d 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -31,7 +31,8 @@ size_t rs_unbase64(char *s)
 {
     char const *b64 =
         "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-    int bit_offset, byte_offset, idx, i;
+    int bit_offset, idx;
+    rs_long_t byte_offset, i;
     unsigned char *d = (unsigned char *)s;
     char *p;
 
@@ -40,7 +41,7 @@ size_t rs_unbase64(char *s)
     while (*s && (p = strchr(b64, *s))) {
         idx = (int)(p - b64);
         byte_offset = (i * 6) / 8;
-        bit_offset = (i * 6) % 8;
+        bit_offset = (int)((i * 6) % 8);
         d[byte_offset] &= (unsigned char)~((1 << (8 - bit_offset)) - 1);
         if (bit_offset < 3) {
             d[byte_offset] |= (unsigned char)(idx << (2 - bit_offset));
@@ -51,7 +52,7 @@ size_t rs_unbase64(char *s)
         s++;
         i++;
     }
-    return (size_t)i * 6 / 8;
+    return (size_t)(i * 6 / 8);
 }
 
 /** Encode a buffer as base64 - simple and slow algorithm. */
@@ -59,14 +60,14 @@ void rs_base64(unsigned char const *buf, int n, char *out)
 {
     char const *b64 =
         "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-    int bytes, i;
+    rs_long_t bytes, i;
 
     /* work out how many bytes of output there are */
-    bytes = ((n * 8) + 5) / 6;
+    bytes = (((rs_long_t)n * 8) + 5) / 6;
 
     for (i = 0; i < bytes; i++) {
-        int byte = (i * 6) / 8;
-        int bit = (i * 6) % 8;
+        int byte = (int)((i * 6) / 8);
+        int bit = (int)((i * 6) % 8);
 
         if (bit < 3) {
             if (byte >= n)
-- 
2.43.0


From b792ff52017b087978b742417a0a39e532fef54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 22/23] fix: don't abort on signature sizes beyond INT_MAX
 blocks

The preallocation for a signature took the input file's size, truncated to
int, so a signature read from the front of a huge (e.g. sparse) file made
the allocation size negative and aborted the process. Also refuse blocks
beyond INT_MAX instead of overflowing the doubled size.
---
 src/readsums.c |  5 ++++-
 src/sumset.c   | 12 ++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/readsums.c b/src/readsums.c
index 11d4d9d..83aeba0 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -46,7 +46,10 @@ static rs_result rs_loadsig_add_sum(rs_job_t *job, rs_strong_sum_t *strong)
         rs_trace("got block: weak=" FMT_WEAKSUM ", strong=%s", job->weak_sig,
                  hexbuf);
     }
-    rs_signature_add_block(job->signature, job->weak_sig, strong);
+    if (!rs_signature_add_block(job->signature, job->weak_sig, strong)) {
+        rs_error("too many blocks in signature");
+        return RS_MEM_ERROR;
+    }
     job->stats.sig_blocks++;
     return RS_RUNNING;
 }
diff --git a/src/sumset.c b/src/sumset.c
index 9e68f97..8a75904 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -194,6 +194,7 @@ rs_result rs_signature_init(rs_signature_t *sig, rs_magic_number magic,
                             rs_long_t sig_fsize)
 {
     rs_result result;
+    rs_long_t sig_blocks;
 
     /* Check and set default arguments, using old_fsize=-1 for unknown. */
     if ((result = rs_sig_args(-1, &magic, &block_len, &strong_len)) != RS_DONE)
@@ -206,7 +207,10 @@ rs_result rs_signature_init(rs_signature_t *sig, rs_magic_number magic,
     /* Calculate the number of blocks if we have the signature file size. */
     /* Magic+header is 12 bytes, each block thereafter is 4 bytes
        weak_sum+strong_sum_len bytes */
-    sig->size = (int)(sig_fsize < 12 ? 0 : (sig_fsize - 12) / (4 + strong_len));
+    sig_blocks =
+        sig_fsize < 12 ? 0 : (sig_fsize - 12) / (rs_long_t)(4 + strong_len);
+    /* Ignore a size that can't be right, it's only used to preallocate. */
+    sig->size = sig_blocks > INT_MAX ? 0 : (int)sig_blocks;
     if (sig->size)
         sig->block_sigs =
             rs_alloc(sig->size * rs_block_sig_size(sig),
@@ -238,7 +242,11 @@ rs_block_sig_t *rs_signature_add_block(rs_signature_t *sig,
         weak_sum = mix32(weak_sum);
     /* If block_sigs is full, allocate more space. */
     if (sig->count == sig->size) {
-        sig->size = sig->size ? sig->size * 2 : 16;
+        /* There can't be more than INT_MAX blocks. */
+        if (sig->size == INT_MAX)
+            return NULL;
+        sig->size = sig->size > INT_MAX / 2 ? INT_MAX :
+            sig->size ? sig->size * 2 : 16;
         sig->block_sigs =
             rs_realloc(sig->block_sigs, sig->size * rs_block_sig_size(sig),
                        "signature->block_sigs");
-- 
2.43.0


From 80c20799b50d61e616e875e4045bd550a9bf87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:55 +0000
Subject: [PATCH 23/23] fix: count strong sums since the signature was last
 indexed

rs_build_hash_table() resets the other search statistics, but the count of
strong sums calculated went on from before, so that it exceeded the searches.
---
 src/sumset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sumset.c b/src/sumset.c
index 8a75904..ca305fa 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -307,6 +307,9 @@ rs_result rs_build_hash_table(rs_signature_t *sig)
             hashtable_add(sig->hashtable, b);
     }
     hashtable_stats_init(sig->hashtable);
+#ifndef HASHTABLE_NSTATS
+    sig->calc_strong_count = 0;
+#endif
     return RS_DONE;
 }
 
-- 
2.43.0

