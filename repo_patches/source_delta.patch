From 6c7894784a33c63b3bbfa1fcd7ce28ff9999f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:22 +0000
Subject: [PATCH 01/73] fix: u_list_clear resets the element count

---
 srcs/toolbox/list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/list.c b/srcs/toolbox/list.c
index 16f2c00..fec6cd5 100644
--- a/srcs/toolbox/list.c
+++ b/srcs/toolbox/list.c
@@ -363,6 +363,8 @@ int u_list_clear (u_list_t *list)
         u_free(item);
     }
 
+    list->count = 0;
+
     return 0;
 err:
     return ~0;
-- 
2.43.0


From 9667acd9fb0536ae93f27d3cda9896489101481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 02/73] fix: u_b64_decode reads *out_sz only after checking
 out_sz

---
 srcs/toolbox/b64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/b64.c b/srcs/toolbox/b64.c
index fb4246f..4f602d3 100644
--- a/srcs/toolbox/b64.c
+++ b/srcs/toolbox/b64.c
@@ -124,7 +124,7 @@ int u_b64_encode (const uint8_t *in, size_t in_sz, char *out, size_t out_sz)
 int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 {
     char buf[4];
-    size_t i, len, pad, tot_sz = *out_sz;
+    size_t i, len, pad, tot_sz;
     uint8_t *pout;
 
     dbg_return_if (in == NULL, ~0);
@@ -132,6 +132,8 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
     dbg_return_if (out == NULL, ~0);
     dbg_return_if (out_sz == NULL, ~0);
 
+    tot_sz = *out_sz;
+
     for (pout = out; in_sz; )
     {
         for (pad = 0, len = 0, i = 0; i < 4; ++i)
-- 
2.43.0


From 9a513e80d731d31e779cca1d462b49da7bacf871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 03/73] fix: Base64 decoding does not index its table with
 negative chars

---
 srcs/toolbox/b64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/b64.c b/srcs/toolbox/b64.c
index 4f602d3..b6ff8ae 100644
--- a/srcs/toolbox/b64.c
+++ b/srcs/toolbox/b64.c
@@ -179,12 +179,12 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 
 static inline int is_base64 (int c) 
 {
-    return D[c];
+    return D[(unsigned char) c];
 }
 
 static inline size_t val (int c) 
 {
-    return (D[c] - 1);
+    return (D[(unsigned char) c] - 1);
 }
 
 static inline void chunk_encode (uint8_t in[3], char out[4], int len)
-- 
2.43.0


From c1681700b682d3aa49a92fa4c4271a00a25562b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:30 +0000
Subject: [PATCH 04/73] fix: u_b64_decode does not write the padding bytes of
 the last group

---
 srcs/toolbox/b64.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/b64.c b/srcs/toolbox/b64.c
index b6ff8ae..7765280 100644
--- a/srcs/toolbox/b64.c
+++ b/srcs/toolbox/b64.c
@@ -125,7 +125,7 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 {
     char buf[4];
     size_t i, len, pad, tot_sz;
-    uint8_t *pout;
+    uint8_t *pout, chunk[3];
 
     dbg_return_if (in == NULL, ~0);
     dbg_return_if (in_sz == 0, ~0);
@@ -155,11 +155,17 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 
         if (len)
         {
-            size_t nlen = 3 - pad;
+            size_t nlen;
+
+            if (pad > 3)
+                return ~0;
+
+            nlen = 3 - pad;
 
             if (tot_sz >= nlen)
             {
-                chunk_decode(buf, pout);
+                chunk_decode(buf, chunk);
+                memcpy(pout, chunk, nlen);
                 tot_sz -= nlen; /* Take care of subtracting pad bytes. */
                 pout += nlen;
             } 
-- 
2.43.0


From 96919f6d47290f31ee80c9b3998ac582a855a28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:06 +0000
Subject: [PATCH 05/73] fix: u_copy reports read errors and short writes

---
 srcs/toolbox/fs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index fa37772..c2082ec 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -49,9 +49,11 @@ int u_copy (const char *src, const char *dst)
 
     while((c = fread(buf, 1, sizeof(buf), sfp)) > 0)
     {
-        dbg_err_sifm(fwrite(buf, 1, c, dfp) == 0, "error writing to %s", dst);
+        dbg_err_sifm(fwrite(buf, 1, c, dfp) != c, "error writing to %s", dst);
     }
 
+    dbg_err_sifm(ferror(sfp), "error reading from %s", src);
+
     dbg_err_sif(fclose(sfp)); sfp = NULL;
 
     dbg_err_sifm(fclose(dfp), "error flushing %s", dst); dfp = NULL;
-- 
2.43.0


From f3228606517cf0260cd78b587ab25fa3de55523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:17 +0000
Subject: [PATCH 06/73] fix: u_copy does not close a stream again after a
 failed fclose

---
 srcs/toolbox/fs.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index c2082ec..29d4498 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -36,6 +36,7 @@ int u_copy (const char *src, const char *dst)
 {
     FILE *sfp = NULL, *dfp = NULL;
     size_t c;
+    int rc;
     char buf[4096];
 
     dbg_return_if (src == NULL, ~0);
@@ -54,9 +55,11 @@ int u_copy (const char *src, const char *dst)
 
     dbg_err_sifm(ferror(sfp), "error reading from %s", src);
 
-    dbg_err_sif(fclose(sfp)); sfp = NULL;
+    rc = fclose(sfp); sfp = NULL;
+    dbg_err_sif(rc);
 
-    dbg_err_sifm(fclose(dfp), "error flushing %s", dst); dfp = NULL;
+    rc = fclose(dfp); dfp = NULL;
+    dbg_err_sifm(rc, "error flushing %s", dst);
 
     return 0;
 err:
-- 
2.43.0


From 1d77d33d64723a973487bf08d28c69149cff222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:28 +0000
Subject: [PATCH 07/73] fix: u_move reports that the source could not be
 removed

---
 srcs/toolbox/fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index 29d4498..02b38ea 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -99,7 +99,7 @@ int u_move(const char *src, const char *dst)
     dbg_err_if(u_copy(src, dst));
 #endif
 
-    dbg_if(u_remove(src) < 0);
+    dbg_err_if(u_remove(src));
 
     return 0;
 err:
-- 
2.43.0


From 801f3384223833593da05bef671d5a533f6d4adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:12 +0000
Subject: [PATCH 08/73] fix: wrapped ring buffer reads are split at the
 physical end

---
 srcs/toolbox/rb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 7b42a8f..bd3d246 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -496,7 +496,7 @@ static ssize_t read_wrapped (u_rb_t *rb, void *b, size_t b_sz)
     /* if there is nothing ready to be read go out immediately */
     nop_goto_if (!(to_be_read = U_MIN(u_rb_ready(rb), b_sz)), end);
 
-    if (!is_wrapped(rb) || (rspace = (rb->sz - rb->rd_off)) <= to_be_read)
+    if ((rspace = (rb->sz - rb->rd_off)) >= to_be_read)
     {
         memcpy(b, read_addr(rb), to_be_read);
         read_incr_wrapped(rb, to_be_read);
-- 
2.43.0


From b22fb2c4d34411cb371e4055540b85d258d16621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:24 +0000
Subject: [PATCH 09/73] fix: u_rb_fast_read checks the callback it calls

---
 srcs/toolbox/rb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index bd3d246..6e3292f 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -278,7 +278,7 @@ ssize_t u_rb_read (u_rb_t *rb, void *b, size_t b_sz)
 void *u_rb_fast_read (u_rb_t *rb, size_t *pb_sz)
 {
     dbg_return_if (rb == NULL, NULL);
-    dbg_return_if (rb->cb_write == NULL, NULL);
+    dbg_return_if (rb->cb_fast_read == NULL, NULL);
 
     return rb->cb_fast_read(rb, pb_sz);
 }
-- 
2.43.0


From a8ea1cae85ebeb61b72276cff8b0c4c243df414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:55 +0000
Subject: [PATCH 10/73] fix: create_mmap releases everything once when one of
 its steps fails

---
 srcs/toolbox/rb.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 6e3292f..77caa31 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -537,7 +537,7 @@ end:
 
 static int create_mmap (size_t hint_sz, int opts, u_rb_t **prb)
 {
-    int fd = -1;
+    int fd = -1, rc;
     u_rb_t *rb = NULL;
     char path[] = "/tmp/rb-XXXXXX";
 
@@ -567,7 +567,9 @@ static int create_mmap (size_t hint_sz, int opts, u_rb_t **prb)
      * pretending to MAP_FIXED */
     rb->base = mmap(NULL, rb->sz << 1, PROT_NONE, 
             MAP_ANON | MAP_PRIVATE, -1, 0);
-    dbg_err_sif (rb->base == MAP_FAILED);
+    if (rb->base == MAP_FAILED)
+        rb->base = NULL;    /* nothing to be unmapped by free_mmap() */
+    dbg_err_sif (rb->base == NULL);
 
     /* POSIX: "The mapping established by mmap() shall replace any previous 
      * mappings for those whole pages containing any part of the address space 
@@ -587,17 +589,20 @@ static int create_mmap (size_t hint_sz, int opts, u_rb_t **prb)
             MAP_FIXED | MAP_SHARED, fd, 0) != rb->base + rb->sz);
  
     /* dispose the file descriptor */
-    dbg_err_sif (close(fd) == -1);
+    rc = close(fd);
+    fd = -1;
+    dbg_err_sif (rc == -1);
 
     *prb = rb;
 
     return 0;
 err:
-    u_rb_free(rb);
+    free_mmap(rb);
     U_CLOSE(fd);
     return -1;
 }
 
+
 static void free_mmap (u_rb_t *rb)
 {
     nop_return_if (rb == NULL, );
@@ -605,7 +610,7 @@ static void free_mmap (u_rb_t *rb)
     /* "All pages containing a part of the indicated range are unmapped",
      * hence the following single munmap with a double length should be ok for 
      * both previous (contiguous) mmap's */
-    dbg_return_sif (rb->base && (munmap(rb->base, rb->sz << 1) == -1), );
+    dbg_if (rb->base && (munmap(rb->base, rb->sz << 1) == -1));
     u_free(rb);
 
     return;
-- 
2.43.0


From 724e89c7e766c0c9af59b39c63fcdba7c264bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:44 +0000
Subject: [PATCH 11/73] fix: formatted appends to a string fail when vsnprintf
 fails

---
 srcs/toolbox/str.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 7642944..2fae8a2 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -460,6 +460,7 @@ int u_string_aprintf (u_string_t *s, const char *fmt, ...)
 static int u_string_do_vprintf (u_string_t *s, int clear, const char *fmt, 
         va_list ap)
 {
+    int rc;
     size_t sz, avail;
     va_list apcpy;
 
@@ -479,10 +480,13 @@ again:
      * if the return value is greater than or equal to the size argument, 
      * the string was too short and some of the printed characters were 
      * discarded; in that case realloc a bigger buffer and retry */
-    sz = vsnprintf(s->data + s->data_len, avail, fmt, apcpy);
+    rc = vsnprintf(s->data + s->data_len, avail, fmt, apcpy);
 
     va_end(apcpy);
 
+    dbg_err_if (rc < 0);
+    sz = (size_t) rc;
+
     if (sz >= avail)
     {
         dbg_err_if (u_string_reserve(s, s->data_sz + s->data_len + 2 * sz + 1));
-- 
2.43.0


From ed0b9d39c9afed197e124ce73f77d3f2867c4a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 12/73] fix: strings stay NUL-terminated after u_string_reserve
 and failed appends

---
 srcs/toolbox/str.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 2fae8a2..81c63d6 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -328,6 +328,7 @@ int u_string_reserve (u_string_t *s, size_t size)
     dbg_err_sif (nbuf == NULL);
 
     /* zero terminate it */
+    nbuf[s->data_len] = '\0';
     nbuf[size] = '\0';
 
     s->data = (void *) nbuf;
@@ -502,5 +503,8 @@ again:
 
     return 0;
 err:
+    /* vsnprintf could have overwritten the terminator */
+    if (s->data_sz > s->data_len)
+        s->data[s->data_len] = '\0';
     return ~0;
 }
-- 
2.43.0


From ebe38b75a91e1d5ac7f311dbd125c0cadb34818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:24 +0000
Subject: [PATCH 13/73] fix: u_buf_printf always enlarges the buffer enough and
 fails when vsnprintf fails

---
 srcs/toolbox/buf.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index 38819ed..efa5652 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -348,6 +348,7 @@ int u_buf_free (u_buf_t *ubuf)
  */
 int u_buf_printf (u_buf_t *ubuf, const char *fmt, ...)
 {
+    int rc;
     va_list ap;
     size_t sz, avail;
 
@@ -360,12 +361,14 @@ again:
     avail = ubuf->size - ubuf->len; /* avail may be zero */
 
     /* write to the internal buffer of ubuf */
-    dbg_err_if ((sz = vsnprintf(ubuf->data + ubuf->len, avail, fmt, ap)) <= 0);
+    rc = vsnprintf(ubuf->data + ubuf->len, avail, fmt, ap);
+    dbg_err_if (rc <= 0);
+    sz = (size_t) rc;
 
     if (sz >= avail)
     {
         /* enlarge the buffer (make it at least 128 bytes bigger) */
-        dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MIN(128, sz + 1)));
+        dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MAX(128, sz + 1)));
 
         /* zero-term the buffer (vsnprintf has removed the last \0!) */
         ubuf->data[ubuf->len] = '\0';
-- 
2.43.0


From c5d831b86bf3fbb4366673380939d8207f29db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:39 +0000
Subject: [PATCH 14/73] fix: buffers stay NUL-terminated after u_buf_load and
 failed u_buf_printf

---
 srcs/toolbox/buf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index efa5652..e847b1f 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -129,6 +129,7 @@ int u_buf_load (u_buf_t *ubuf, const char *filename)
     /* fill the buffer with the whole file content */
     dbg_err_if (fread(ubuf->data, st.st_size, 1, fp) != 1);
     ubuf->len = st.st_size;
+    ubuf->data[ubuf->len] = '\0';
 
     (void) fclose(fp);
 
@@ -386,6 +387,9 @@ again:
 
     return 0;
 err:
+    /* vsnprintf could have overwritten the terminator */
+    if (ubuf->data)
+        ubuf->data[ubuf->len] = '\0';
     va_end(ap);
     return ~0;
 }
-- 
2.43.0


From 7ded0556499aa102976541cf79c175b03a939cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:17 +0000
Subject: [PATCH 15/73] fix: u_savepid and u_data_dump report write errors seen
 on close

---
 srcs/toolbox/misc.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 0f0a3b6..fd29cc3 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -429,13 +429,17 @@ err:
  */
 int u_savepid (const char *pf)
 {
+    int rc;
     FILE *pfp = NULL;
 
     dbg_return_if (pf == NULL, ~0);
 
     dbg_err_sif ((pfp = fopen(pf, "w")) == NULL);
-    dbg_err_sif (fprintf(pfp, "%ld\n", (long) getpid()) == 0);
-    fclose(pfp);
+    dbg_err_sif (fprintf(pfp, "%ld\n", (long) getpid()) <= 0);
+
+    rc = fclose(pfp);
+    pfp = NULL;
+    dbg_err_sif (rc);
 
     return 0;
 err:
@@ -499,11 +503,15 @@ inline void u_use_unused_args (char *dummy, ...)
  */
 int u_data_dump (char *data, size_t sz, const char *file)
 {
+    int rc;
     FILE *fp = NULL;
 
     dbg_err_sif ((fp = fopen(file, "w")) == NULL); 
     dbg_err_sif (fwrite(data, sz, 1, fp) < 1);
-    fclose(fp);
+
+    rc = fclose(fp);
+    fp = NULL;
+    dbg_err_sif (rc);
 
     return 0;
 err:
-- 
2.43.0


From c9ccc18779ac86cf054a6724e58db1540647ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:28 +0000
Subject: [PATCH 16/73] fix: u_atol and u_atoumax do not depend on a stale
 errno

---
 srcs/toolbox/misc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index fd29cc3..f87bc05 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -729,6 +729,7 @@ int u_atol (const char *nptr, long *pl)
     dbg_return_if (nptr == NULL, ~0);
     dbg_return_if (pl == NULL, ~0);
  
+    errno = 0;
     tmp = strtol(nptr, &endptr, 10);
     
     dbg_err_sif (tmp == 0 && errno == EINVAL);
@@ -808,6 +809,7 @@ int u_atoumax (const char *nptr, uintmax_t *pumax)
     dbg_return_if (nptr == NULL, ~0);
     dbg_return_if (pumax == NULL, ~0);
  
+    errno = 0;
     tmp = strtoumax(nptr, (char **) NULL, 10);
     
     dbg_err_if (tmp == 0 && errno == EINVAL);
-- 
2.43.0


From eed725e17a44fbde5700bfec0842fc1c337ebedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:00 +0000
Subject: [PATCH 17/73] fix: u_env_init strips nothing but the newline

---
 srcs/toolbox/env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/env.c b/srcs/toolbox/env.c
index d95236b..62d40e9 100644
--- a/srcs/toolbox/env.c
+++ b/srcs/toolbox/env.c
@@ -104,7 +104,7 @@ int u_env_init (const char *prefix, const char *cfile)
     {
         if(strncmp(line, prefix, strlen(prefix)) == 0)
         {
-            line[strlen(line)-1] = 0;
+            line[strcspn(line, "\n")] = 0;
             val = strchr(line, '=');
             if(!val)
                 continue; /* should never happen... */
-- 
2.43.0


From 1edf3777a1c7f00d6e89f01b3cb0f4efe8515aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 18/73] fix: log messages that cannot be formatted completely
 are refused

---
 srcs/toolbox/log.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/log.c b/srcs/toolbox/log.c
index d7877c7..9af8185 100644
--- a/srcs/toolbox/log.c
+++ b/srcs/toolbox/log.c
@@ -98,6 +98,7 @@ static inline const char* u_log_label(int lev)
 
 static int u_log(int fac, int level, const char *fmt, ...)
 {
+    int rc;
     va_list ap;
     char buf[U_MAX_LOG_LENGTH];
 
@@ -107,7 +108,8 @@ static int u_log(int fac, int level, const char *fmt, ...)
 
     if(hook)
     {
-        if(vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap) > U_MAX_LOG_LENGTH)
+        rc = vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap);
+        if(rc < 0 || rc >= U_MAX_LOG_LENGTH)
         {
             va_end(ap);
             u_log_unlock();
@@ -157,7 +159,7 @@ int u_log_write_ex(int fac, int lev, int flags, int err, const char* file,
     rc = vsnprintf(msg, U_MAX_LOG_LENGTH, fmt, ap);
     va_end(ap);
 
-    if(rc >= U_MAX_LOG_LENGTH)
+    if(rc < 0 || rc >= U_MAX_LOG_LENGTH)
         goto err; /* message too long */
 
     /* init empty strings */
-- 
2.43.0


From b8610c371cdf2cd671fbe0721765f05a1f663b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:21 +0000
Subject: [PATCH 19/73] fix: u_bst_new leaves no member unset

---
 srcs/toolbox/bst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index b30a8c4..511209f 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -139,7 +139,7 @@ int u_bst_new (int opts, u_bst_t **pbst)
 
     dbg_return_if (pbst == NULL, ~0);
 
-    warn_return_sif ((bst = u_malloc(sizeof *bst)) == NULL, ~0);
+    warn_return_sif ((bst = u_zalloc(sizeof *bst)) == NULL, ~0);
 
     bst->keytype = U_BST_TYPE_STRING;
     bst->keyfree = u_bst_genfree;
-- 
2.43.0


From cc7fb758b32745db7bd00409c47ed894948f5b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:32 +0000
Subject: [PATCH 20/73] fix: u_bst_rotate on a node without the child to
 promote

---
 srcs/toolbox/bst.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index 511209f..4b18375 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -354,7 +354,7 @@ int u_bst_balance (u_bst_t *bst)
  */
 u_bst_node_t *u_bst_rotate (u_bst_node_t *pivot, u_bst_rot_t dir)
 {
-    u_bst_node_t *newroot;    /* It will become the new parent node. */
+    u_bst_node_t *newroot = NULL;   /* It will become the new parent node. */
 
     dbg_return_if (pivot == NULL, NULL);
 
@@ -362,7 +362,8 @@ u_bst_node_t *u_bst_rotate (u_bst_node_t *pivot, u_bst_rot_t dir)
     {
         /* Promote the right child. */
         case U_BST_ROT_LEFT:
-            newroot = pivot->right;
+            if ((newroot = pivot->right) == NULL)
+                return pivot;   /* Nothing to promote. */
             pivot->right = newroot->left;
             newroot->left = pivot;
             /* Update child nodes' counters. */
@@ -372,7 +373,8 @@ u_bst_node_t *u_bst_rotate (u_bst_node_t *pivot, u_bst_rot_t dir)
 
         /* Promote the left child. */
         case U_BST_ROT_RIGHT:
-            newroot = pivot->left;
+            if ((newroot = pivot->left) == NULL)
+                return pivot;   /* Nothing to promote. */
             pivot->left = newroot->right;
             newroot->right = pivot;
             /* Update child nodes' counters. */
-- 
2.43.0


From bf2ba7a5f0cc899761e216268f981a760f4f1444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:44 +0000
Subject: [PATCH 21/73] fix: u_bst_delete keeps the node counters right

---
 srcs/toolbox/bst.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index 4b18375..ea72a51 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -857,6 +857,7 @@ static u_bst_node_t *u_bst_node_join_lr (u_bst_node_t *l, u_bst_node_t *r)
 
     /* Let the left subtree become the left child of the new root. */
     r->left = l;
+    r->nelem += l ? l->nelem : 0;
 
     return r;
 }
@@ -887,8 +888,8 @@ static u_bst_node_t *u_bst_node_delete (u_bst_t *bst, u_bst_node_t *node,
         *pfound = 1;
     }
 
-    /* Update child nodes' counter. */
-    if (node && *pfound)
+    /* Update child nodes' counter (the joined subtrees already are right). */
+    if (rc != 0 && *pfound)
         node->nelem -= 1;
 
     return node;
-- 
2.43.0


From 83516867862abf801eac93aa3f20623fd6bdff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:25 +0000
Subject: [PATCH 22/73] fix: u_bst_push leaves the tree as it was when it runs
 out of memory

---
 srcs/toolbox/bst.c | 102 ++++++++++++++++++---------------------------
 1 file changed, 41 insertions(+), 61 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index ea72a51..561a560 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -39,13 +39,13 @@ static u_bst_node_t *u_bst_node_search (u_bst_node_t *node, const void *key,
 static void u_bst_node_foreach (u_bst_node_t *node, 
         void (*cb)(u_bst_node_t *, void *), void *cb_args);
 static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val);
-static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key, 
-        const void *val);
+        u_bst_node_t *newnode);
+static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, 
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_push_rand (u_bst_t *bst, u_bst_node_t *node,
-        const void *key, const void *val);
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_push (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val);
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_find_nth (u_bst_node_t *node, size_t n);
 static u_bst_node_t *u_bst_node_promote_nth (u_bst_node_t *node, size_t n);
 static u_bst_node_t *u_bst_node_join_lr (u_bst_node_t *l, u_bst_node_t *r);
@@ -200,17 +200,22 @@ void u_bst_free (u_bst_t *bst)
  */
 int u_bst_push (u_bst_t *bst, const void *key, const void *val)
 {
+    u_bst_node_t *newnode = NULL;
+
     dbg_return_if (bst == NULL, ~0);
     dbg_return_if (key == NULL, ~0);
 
+    /* Create the node first, so that a failure leaves the tree untouched. */
+    dbg_return_if (u_bst_node_new(bst, key, val, &newnode), ~0);
+
     if (bst->opts & U_BST_OPT_RANDOMIZED)
-        bst->root = u_bst_node_push_rand(bst, bst->root, key, val);
+        bst->root = u_bst_node_push_rand(bst, bst->root, newnode);
     else if (bst->opts & U_BST_OPT_PUSH_TOP)
-        bst->root = u_bst_node_push_top(bst, bst->root, key, val);
+        bst->root = u_bst_node_push_top(bst, bst->root, newnode);
     else /* The default is bottom insertion. */
-        bst->root = u_bst_node_push_bottom(bst, key, val);
+        bst->root = u_bst_node_push_bottom(bst, newnode);
 
-    return bst->root ? 0 : ~0;
+    return 0;
 }
 
 /**
@@ -696,76 +701,63 @@ static void u_bst_node_foreach (u_bst_node_t *node,
 }
 
 static u_bst_node_t *u_bst_node_push_rand (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &node));
-        return node;
-    }
+        return newnode;
 
     /* The new node is inserted on the top with 1/nelem+1 probability. */
     if ((size_t) rand() < RAND_MAX / (node->nelem + 1))
-        return u_bst_node_push_top(bst, node, key, val);
+        return u_bst_node_push_top(bst, node, newnode);
 
-    if (bst->cmp(key, node->key) < 0)
-        node->left = u_bst_node_push(bst, node->left, key, val);
+    if (bst->cmp(newnode->key, node->key) < 0)
+        node->left = u_bst_node_push(bst, node->left, newnode);
     else
-        node->right = u_bst_node_push(bst, node->right, key, val);
+        node->right = u_bst_node_push(bst, node->right, newnode);
 
     node->nelem += 1;
 
     return node;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_push (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &node));
-        return node;
-    }
+        return newnode;
 
-    if (bst->cmp(key, node->key) < 0)
-        node->left = u_bst_node_push(bst, node->left, key, val);
+    if (bst->cmp(newnode->key, node->key) < 0)
+        node->left = u_bst_node_push(bst, node->left, newnode);
     else
-        node->right = u_bst_node_push(bst, node->right, key, val);
+        node->right = u_bst_node_push(bst, node->right, newnode);
 
     node->nelem += 1;
 
     return node;
-err:
-    return NULL;
 }
  
-static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key, 
-        const void *val)
+static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, 
+        u_bst_node_t *newnode)
 {
     u_bst_node_t *parent, *node;
 
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
     /* Empty BST, handle special case. */
     if (u_bst_empty(bst))
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &bst->root));
-        return bst->root;
-    }
+        return newnode;
 
     /* Find a way through the non-empty BST until we reach an external node. */
     for (node = bst->root;
             node != NULL;
-            node = (bst->cmp(key, node->key) < 0) ? node->left : node->right)
+            node = (bst->cmp(newnode->key, node->key) < 0) ? node->left : node->right)
     {
         /* Save parent reference.  It is needed later, on loop exhaustion, to 
          * fix left/child links of the node to which we attach. */
@@ -775,53 +767,41 @@ static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key,
         node->nelem += 1;
     }
 
-    /* Create a new node with the supplied (key, val). */
-    warn_err_if (u_bst_node_new(bst, key, val, &node));
-
     /* Choose the subtree to which it belongs. */
-    if (bst->cmp(key, parent->key) < 0)
-        parent->left = node;
+    if (bst->cmp(newnode->key, parent->key) < 0)
+        parent->left = newnode;
     else
-        parent->right = node;
+        parent->right = newnode;
 
     return bst->root;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
-    u_bst_node_t *newnode = NULL;
-
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
-    /* External node reached: create the node. */
+    /* External node reached: put the node here. */
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &newnode));
         return newnode;
-    }
 
     /* Update child counter of the traversed node. */
     node->nelem += 1;
 
     /* Let the created node bubble up through subsequent rotations. */
-    if (bst->cmp(key, node->key) < 0)
+    if (bst->cmp(newnode->key, node->key) < 0)
     {
-        node->left = u_bst_node_push_top(bst, node->left, key, val);
+        node->left = u_bst_node_push_top(bst, node->left, newnode);
         node = u_bst_rotate(node, U_BST_ROT_RIGHT);
     }
     else
     {
-        node->right = u_bst_node_push_top(bst, node->right, key, val);
+        node->right = u_bst_node_push_top(bst, node->right, newnode);
         node = u_bst_rotate(node, U_BST_ROT_LEFT);
     }
     
     return node;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_promote_nth (u_bst_node_t *node, size_t n)
-- 
2.43.0


From 7b0f2a053e7f9a543a495241ff249f809757dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:35 +0000
Subject: [PATCH 23/73] fix: u_hmap_opts_new refuses a NULL result pointer
 without touching it

---
 srcs/toolbox/hmap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 71eeef6..f964f86 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -1099,7 +1099,8 @@ int u_hmap_opts_new (u_hmap_opts_t **opts)
 
     return U_HMAP_ERR_NONE;
 err:
-    *opts = NULL;
+    if (opts)
+        *opts = NULL;
     return U_HMAP_ERR_FAIL;
 }
 
-- 
2.43.0


From 026c474c385e6911fabb342c769c0ab272424012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:47 +0000
Subject: [PATCH 24/73] fix: u_hmap_new releases its options when it fails

---
 srcs/toolbox/hmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index f964f86..bf61868 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -595,6 +595,7 @@ int u_hmap_new (u_hmap_opts_t *opts, u_hmap_t **phmap)
     return U_HMAP_ERR_NONE;
 
 err:
+    u_hmap_opts_free(c->opts);
     u_free(c);
     *phmap = NULL;
     return U_HMAP_ERR_FAIL;
-- 
2.43.0


From bc4c009e95b6b49d5002f813c9eba2cfef4c409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:59 +0000
Subject: [PATCH 25/73] fix: u_hmap_o_new releases the key and value copies
 when it fails

---
 srcs/toolbox/hmap.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index bf61868..8acb1dc 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -934,7 +934,18 @@ u_hmap_o_t *u_hmap_o_new (u_hmap_t *hmap, const void *key, const void *val)
     return obj;
 
 err:
-    U_FREEF(obj, u_hmap_o_free);
+    if (obj)
+    {
+        /* dispose the internalised copies only */
+        if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
+        {
+            if (hmap->opts->key_type != U_HMAP_OPTS_DATATYPE_POINTER)
+                u_free(obj->key);
+            if (hmap->opts->val_type != U_HMAP_OPTS_DATATYPE_POINTER)
+                u_free(obj->val);
+        }
+        u_hmap_o_free(obj);
+    }
 
     return NULL;
 }
-- 
2.43.0


From 219524028aacbd036e0d468ef79afc7843f1282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:09 +0000
Subject: [PATCH 26/73] fix: deleting a hash map element removes it from the
 eviction queue

---
 srcs/toolbox/hmap.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 8acb1dc..092908f 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -853,6 +853,10 @@ int u_hmap_del (u_hmap_t *hmap, const void *key, u_hmap_o_t **obj)
     dbg_err_if (o == NULL);
     LIST_REMOVE(o, next);
 
+    /* no reference to the element must survive in the policy queue */
+    if (o->pqe)
+        dbg_err_if (__queue_del(hmap, o));
+
     if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
         __o_free(hmap, o);
     else
@@ -1630,8 +1634,6 @@ static int __queue_pop_front (u_hmap_t *hmap, u_hmap_o_t **obj)
 
     dbg_err_if ((first = TAILQ_FIRST(&hmap->pcy.queue)) == NULL);
     dbg_err_if (u_hmap_del(hmap, first->ho->key, obj));
-    TAILQ_REMOVE(&hmap->pcy.queue, first, next);
-    __q_o_free(first);
 
     return U_HMAP_ERR_NONE;
 err:
@@ -1648,8 +1650,6 @@ static int __queue_pop_back (u_hmap_t *hmap, u_hmap_o_t **obj)
     dbg_err_if ((last = TAILQ_LAST(&hmap->pcy.queue, u_hmap_q_h_s))
             == NULL);
     dbg_err_if (u_hmap_del(hmap, last->ho->key, obj));
-    TAILQ_REMOVE(&hmap->pcy.queue, last, next);
-    __q_o_free(last);
 
     return U_HMAP_ERR_NONE;
 
-- 
2.43.0


From b8b569c9bc0a5fbd2cad70efb178d87a3450c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:20 +0000
Subject: [PATCH 27/73] fix: u_hmap_clear resets the element count and the
 queue links

---
 srcs/toolbox/hmap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 092908f..1fea15b 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -623,11 +623,14 @@ void u_hmap_clear (u_hmap_t *hmap)
         while ((obj = LIST_FIRST(&hmap->hmap[i])) != NULL)
         {
             LIST_REMOVE(obj, next);
+            obj->pqe = NULL;    /* queue entries are released hereafter */
             if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
                 __o_free(hmap, obj);
         }
     }
 
+    hmap->sz = 0;
+
     /* free the policy queue */
     while ((data = TAILQ_FIRST(&hmap->pcy.queue)) != NULL)
     {
-- 
2.43.0


From 53576b0548ab118e90103503ef66049ccddd183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:02 +0000
Subject: [PATCH 28/73] fix: u_hmap_copy keeps counters and eviction queue of
 the source map true

---
 srcs/toolbox/hmap.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 1fea15b..35803be 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -1538,6 +1538,7 @@ int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
 {
     u_hmap_o_t *obj;
     size_t i;
+    int rc;
 
     dbg_err_if (to == NULL);
     dbg_err_if (from == NULL);
@@ -1547,7 +1548,17 @@ int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
         while ((obj = LIST_FIRST(&from->hmap[i])) != NULL)
         {
             LIST_REMOVE(obj, next);
-            dbg_err_if (u_hmap_put(to, obj, NULL));
+            if (obj->pqe)
+                dbg_err_if (__queue_del(from, obj));
+            from->sz--;
+
+            if ((rc = u_hmap_put(to, obj, NULL)) == U_HMAP_ERR_FAIL)
+            {
+                /* not taken: give it back to the source map */
+                LIST_INSERT_HEAD(&from->hmap[i], obj, next);
+                from->sz++;
+            }
+            dbg_err_if (rc);
         }
     }
 
-- 
2.43.0


From 69319cc567a3d1040cf2454076dd4e4ca6f4574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:15 +0000
Subject: [PATCH 29/73] fix: hash map resize that fails releases its temporary
 objects

---
 srcs/toolbox/hmap.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 35803be..c135579 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -2114,9 +2114,7 @@ static int __resize(u_hmap_t *hmap)
             &hmap->px));
     dbg_err_if (u_hmap_new(newopts, &newmap));
     u_hmap_opts_free(newopts);
-
-    /* remove any ownership from old map to copy elements */
-    hmap->opts->options &= !U_HMAP_OPTS_OWNSDATA;
+    newopts = NULL;
 
     /* copy old elements to new map policy */
     dbg_err_if (u_hmap_copy(newmap, hmap));
@@ -2133,6 +2131,10 @@ static int __resize(u_hmap_t *hmap)
 
     return 0;
 err:
+    if (newopts)
+        u_hmap_opts_free(newopts);
+    if (newmap)
+        u_hmap_free(newmap);
     return ~0;
 }
 
-- 
2.43.0


From 0fa573cb8722033504c1386ce73e5d245ff90e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:28 +0000
Subject: [PATCH 30/73] fix: a failed u_hmap_put keeps no reference to the
 element

---
 srcs/toolbox/hmap.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index c135579..08aa61c 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -681,6 +681,7 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
     u_hmap_e_t *x;
     int comp;
     int rc;
+    int linked = 0;
     size_t hash;
     size_t last;
 
@@ -772,9 +773,12 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
     }
 
 err:
+    if (linked)
+        LIST_REMOVE(obj, next);
     return U_HMAP_ERR_FAIL;
 
 end:
+    linked = 1;
 
     if (hmap->sz >= hmap->opts->max &&
             hmap->opts->policy != U_HMAP_PCY_NONE)
@@ -1035,9 +1039,9 @@ static int __o_overwrite (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t *obj,
     {
         if (hmap->pcy.ops & U_HMAP_PCY_OP_PUT)
         {
-            /* delete old object and enqueue new one */
-            dbg_err_if (__queue_del(hmap, o));
+            /* enqueue new object and delete old one */
             dbg_err_if (hmap->pcy.push(hmap, obj, &obj->pqe));
+            dbg_err_if (__queue_del(hmap, o));
         }
 
         /* replace object in hmap list */
@@ -1714,9 +1718,12 @@ static int __queue_push_count (u_hmap_t *hmap, u_hmap_o_t *obj,
     {
         /* no reference to queue entry -> count == 0 */
         dbg_err_if ((new = __q_o_new(obj)) == NULL);
+        if ((new->data = u_zalloc(sizeof(int))) == NULL)
+        {
+            __q_o_free(new);
+            goto err;
+        }
         TAILQ_INSERT_HEAD(&hmap->pcy.queue, new, next);
-        dbg_err_sif ((count = (int *) u_zalloc(sizeof(int))) == NULL);
-        new->data = (void *) count;
         *counts = new;
         /*
         u_dbg(">k: %s, p: %d", new->ho->key, *((int *)new->data));
-- 
2.43.0


From ee1590c2db08d37f789e001289e3e2d67f764e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:40 +0000
Subject: [PATCH 31/73] fix: u_hmap_easy_put disposes the element which the map
 refused

---
 srcs/toolbox/hmap.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 08aa61c..0e9147e 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -360,7 +360,17 @@ int u_hmap_easy_put (u_hmap_t *hmap, const char *key, const void *val)
 
     return rc;
 err:
-    /* don't free 'obj' because hmap owns it and will free it */
+    /* free 'obj' only if hmap has not already disposed it */
+    if (obj && (rc == U_HMAP_ERR_FAIL))
+    {
+        if (hmap->opts->key_type != U_HMAP_OPTS_DATATYPE_POINTER &&
+                hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
+            u_free(obj->key);
+        if (hmap->opts->val_type != U_HMAP_OPTS_DATATYPE_POINTER &&
+                hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
+            u_free(obj->val);
+        u_hmap_o_free(obj);
+    }
     return (rc ? rc : U_HMAP_ERR_FAIL);
 }
 
-- 
2.43.0


From 4f75bcaeeaf5e45eab7210c107c02ffeebab9e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 32/73] fix: u_hmap_dbg and u_hmap_pcy_dbg dispose each string
 once and check f_str

---
 srcs/toolbox/hmap.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 0e9147e..89b376a 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -1953,10 +1953,11 @@ void u_hmap_dbg (u_hmap_t *hmap)
             }
             else
             {
-                st = hmap->opts->f_str(obj);
+                dbg_err_if ((st = hmap->opts->f_str(obj)) == NULL);
                 dbg_err_if (u_string_append(s, u_string_c(st),
                             u_string_len(st)-1));
                 u_string_free(st);
+                st = NULL;
             }
         }
         u_dbg(u_string_c(s));
@@ -1983,6 +1984,7 @@ void u_hmap_pcy_dbg (u_hmap_t *hmap)
     u_string_t *s = NULL, *s2 = NULL;
 
     dbg_ifb (hmap == NULL) return;
+    dbg_ifb (hmap->opts->f_str == NULL) return;
 
     dbg_ifb (u_string_create("", 1, &s)) return;
     dbg_err_if (u_string_clear(s));
@@ -1990,11 +1992,12 @@ void u_hmap_pcy_dbg (u_hmap_t *hmap)
 
     TAILQ_FOREACH(q, &hmap->pcy.queue, next)
     {
-        s2 = hmap->opts->f_str(q->ho);
+        dbg_err_if ((s2 = hmap->opts->f_str(q->ho)) == NULL);
         dbg_err_if (u_string_cat(s, u_string_c(s2)));
         if (hmap->opts->policy == U_HMAP_PCY_LFU)  /* print count */
             dbg_err_if (u_string_aprintf(s, "-%d", *((int *)q->data)));
         u_string_free(s2);
+        s2 = NULL;
     }
 
     u_dbg(u_string_c(s));
-- 
2.43.0


From fb0612a797323d0dabc5fb146be2532c5dd2f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 33/73] fix: JSON parsing refuses tokens which do not fit
 instead of using an unset buffer

---
 srcs/toolbox/json.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index b77059d..db97945 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1297,7 +1297,7 @@ static int u_json_match_number (u_lexer_t *jl, u_json_t *jo)
 
     /* Take care of the fact that the match includes the first non-number char
      * (see u_json_match_{int,exp,frac} for details). */
-    (void) u_lexer_get_match(jl, match);
+    dbg_err_if (u_lexer_get_match(jl, match) == NULL);
     match[strlen(match) - 1] = '\0';
 
     /* Push the matched number into the supplied json object. */
@@ -1610,7 +1610,7 @@ static int u_json_match_pair (u_lexer_t *jl, u_json_t *jo)
         dbg_err_if (u_json_set_depth(pair, jo->depth + 1));
     }
 
-    (void) u_lexer_get_match(jl, match);
+    dbg_err_if (u_lexer_get_match(jl, match) == NULL);
 
     /* Trim trailing '"'. */
     if ((mlen = strlen(match)) >= 1)
@@ -1712,7 +1712,7 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
         dbg_err_if (u_json_set_type(jo, U_JSON_TYPE_STRING));
 
         /* Remove trailing '"' from match. */
-        (void) u_lexer_get_match(jl, match);
+        dbg_err_if (u_lexer_get_match(jl, match) == NULL);
 
         /* Trim trailing '"'. */
         if ((mlen = strlen(match)) >= 1)
-- 
2.43.0


From 895fc3c51f568187b8101a49ca19d7e20ffff8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:52 +0000
Subject: [PATCH 34/73] fix: u_json_set_val_ex disposes its lexer when the
 value is too long

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index db97945..7c20976 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -417,7 +417,7 @@ int u_json_set_val_ex (u_json_t *jo, const char *val, char check)
             goto end;
     }
 
-    dbg_return_if (u_strlcpy(jo->val, val, sizeof jo->val), ~0);
+    dbg_err_if (u_strlcpy(jo->val, val, sizeof jo->val));
 
     /* Fall through. */       
 end:
-- 
2.43.0


From 9534241e7ad8ed1925bc72cd047dd74bf0a9c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:04 +0000
Subject: [PATCH 35/73] fix: u_json_cache_set_tv checks the object before
 looking into it

---
 srcs/toolbox/json.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 7c20976..8a64b64 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -783,6 +783,7 @@ int u_json_cache_set_tv (u_json_t *jo, const char *name,
 {
     u_json_t *res;
 
+    dbg_return_if (jo == NULL, ~0);
     dbg_return_if (U_JSON_OBJ_IS_CONTAINER(jo), ~0);
     dbg_return_if (type == U_JSON_TYPE_OBJECT || type == U_JSON_TYPE_ARRAY, ~0);
     /* 'jo' and 'name' will be checked by u_json_cache_get(); 
-- 
2.43.0


From 3fd20ec076eed8166ba87f22ce6ff06f1cfdcaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:16 +0000
Subject: [PATCH 36/73] fix: u_json_remove does not dispose the siblings of the
 removed node

---
 srcs/toolbox/json.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 8a64b64..24cdd9a 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1004,6 +1004,9 @@ int u_json_remove (u_json_t *jo)
 
         /* Evict from the parent container. */
         TAILQ_REMOVE(&p->children, jo, siblings);
+
+        /* No more related: don't let u_json_free() reach its old siblings. */
+        TAILQ_NEXT(jo, siblings) = NULL;
     }
 
     /* Give back the resources allocated to the node (and its children). */
-- 
2.43.0


From 524c12994ccab48ee8ef13be29090ab9a5854674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:30 +0000
Subject: [PATCH 37/73] fix: u_json_index does not hand out an unset variable

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 24cdd9a..6d33f70 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -669,7 +669,7 @@ void u_json_print (u_json_t *jo)
  */
 int u_json_index (u_json_t *jo)
 {
-    size_t u;   /* Unused. */
+    size_t u = 0;   /* Unused. */
     u_hmap_opts_t *opts = NULL;
     u_hmap_t *hmap = NULL;
 
-- 
2.43.0


From 6701e117905de8092e04ecf62ad47b4ff327034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:43 +0000
Subject: [PATCH 38/73] fix: JSON parser status without a lexer

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 6d33f70..97a2a3e 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1942,7 +1942,7 @@ static int u_json_do_parse (const char *json, u_json_t **pjo,
 err:
     /* Copy out the lexer error string (if requested). */
     if (status)
-        (void) u_strlcpy(status, u_lexer_geterr(jl), U_LEXER_ERR_SZ);
+        (void) u_strlcpy(status, jl ? u_lexer_geterr(jl) : "", U_LEXER_ERR_SZ);
 
     u_lexer_free(jl);
     u_json_free(jo);
-- 
2.43.0


From 416818f6af463efd2e2246f727df549eadc99517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 39/73] fix: u_json_unindex removes the links to the disposed
 map

---
 srcs/toolbox/json.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 97a2a3e..ce2dafe 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -82,6 +82,7 @@ static const char *u_json_type_str (int type);
 static void u_json_do_print (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_free (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_index (u_json_t *jo, size_t l, void *map);
+static void u_json_do_unindex (u_json_t *jo, size_t l, void *map);
 
 /* Encode/Decode/Validate. */
 static int u_json_do_encode (u_json_t *jo, u_string_t *s);
@@ -718,8 +719,12 @@ int u_json_unindex (u_json_t *jo)
     dbg_return_if (jo == NULL, ~0);
     nop_return_if (jo->map == NULL, 0);
 
+    dbg_return_if (jo->parent, ~0); /* Cache is owned by top-objs only. */
+
     u_hmap_easy_free(jo->map);
-    jo->map = NULL;
+
+    /* Each node in the tree holds a reference to the map. */
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_unindex, NULL);
 
     return 0;
 }
@@ -1843,6 +1848,15 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
     return;
 }
 
+static void u_json_do_unindex (u_json_t *jo, size_t l, void *opaque)
+{
+    u_unused_args(l, opaque);
+
+    jo->map = NULL;
+
+    return;
+}
+
 static int u_json_new_container (u_json_type_t type, const char *key, 
         u_json_t **pjo)
 {
-- 
2.43.0


From 450a306aee802b2cd327bb0411f9976c1dc637d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:27 +0000
Subject: [PATCH 40/73] fix: JSON tree walk and encode do not recur over
 siblings

---
 srcs/toolbox/json.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index ce2dafe..e8d7690 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -614,23 +614,27 @@ err:
 void u_json_walk (u_json_t *jo, int strategy, size_t l, 
         void (*cb)(u_json_t *, size_t, void *), void *cb_args)
 {
+    u_json_t *next;
+
     dbg_return_if (strategy != U_JSON_WALK_PREORDER && 
             strategy != U_JSON_WALK_POSTORDER, );
 
-    if (jo == NULL)
-        return;
-
-    if (strategy == U_JSON_WALK_PREORDER && cb)
-        cb(jo, l, cb_args);
+    /* Siblings are at the same depth as the current node: don't recur over
+     * them, since they can be as many as the supplied input wants. */
+    for (; jo != NULL; jo = next)
+    {
+        if (strategy == U_JSON_WALK_PREORDER && cb)
+            cb(jo, l, cb_args);
 
-    /* When recurring into the children branch, increment depth by one. */
-    u_json_walk(TAILQ_FIRST(&jo->children), strategy, l + 1, cb, cb_args);
+        /* When recurring into the children branch, increment depth by one. */
+        u_json_walk(TAILQ_FIRST(&jo->children), strategy, l + 1, cb, cb_args);
 
-    /* Siblings are at the same depth as the current node. */
-    u_json_walk(TAILQ_NEXT(jo, siblings), strategy, l, cb, cb_args);
+        /* In post-order 'cb' is allowed to dispose the node. */
+        next = TAILQ_NEXT(jo, siblings);
 
-    if (strategy == U_JSON_WALK_POSTORDER && cb)
-        cb(jo, l, cb_args);
+        if (strategy == U_JSON_WALK_POSTORDER && cb)
+            cb(jo, l, cb_args);
+    }
 
     return;
 }
@@ -1145,6 +1149,7 @@ u_json_t *u_json_it_prev (u_json_it_t *it)
 
 static int u_json_do_encode (u_json_t *jo, u_string_t *s)
 {
+again:
     if (jo == NULL)
         return 0;
 
@@ -1201,9 +1206,8 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
         dbg_err_if (u_string_aprintf(s, ", "));
 
     /* Explore horizontally. */
-    dbg_err_if (u_json_do_encode(TAILQ_NEXT(jo, siblings), s));
-
-    return 0;
+    jo = TAILQ_NEXT(jo, siblings);
+    goto again;
 err:
     return ~0;
 }
-- 
2.43.0


From aeb73e2d5e1cc3e63c0e4234bd73cc022a739eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:22 +0000
Subject: [PATCH 41/73] fix: config children are not leaked when adding them
 fails

---
 srcs/toolbox/config.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index bf84372..f53d8da 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -324,6 +324,8 @@ int u_config_add_child (u_config_t *c, const char *key, u_config_t **pc)
 
     return 0;
 err:
+    if (child)
+        (void) u_config_free(child);
     return ~0;
 }
 
@@ -1047,7 +1049,7 @@ static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild)
 {
     u_config_t *child = NULL;
-    char *p, *child_key;
+    char *p, *child_key = NULL;
 
     if((p = strchr(key, '.')) == NULL)
     {
@@ -1067,10 +1069,11 @@ static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         if((child = u_config_get_child(c, child_key)) == NULL)
             dbg_err_if(u_config_add_child(c, child_key, &child));
         U_FREE(child_key);
-        return u_config_do_set_key(child, ++p, val, overwrite, NULL);
+        return u_config_do_set_key(child, ++p, val, overwrite, pchild);
     }
     return 0;
 err:
+    U_FREE(child_key);
     return ~0;
 }
 
-- 
2.43.0


From cc459d07736f2f65ad7e86c91b923a094575e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:35 +0000
Subject: [PATCH 42/73] fix: u_config_load does not leak the duplicated
 descriptor

---
 srcs/toolbox/config.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index f53d8da..dac2095 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -596,11 +596,18 @@ err:
  */
 int u_config_load (u_config_t *c, int fd, int overwrite)
 {
+    int dfd;
     FILE *file = NULL;
 
     /* must dup because fclose() calls close(2) on fd */
-    file = fdopen(dup(fd), "r");
-    dbg_err_if(file == NULL);
+    dfd = dup(fd);
+    dbg_err_sif(dfd == -1);
+
+    if ((file = fdopen(dfd, "r")) == NULL)
+    {
+        (void) close(dfd);
+        dbg_err("fdopen failed");
+    }
 
     dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite));
 
-- 
2.43.0


From db90c0fba9c73c50fdb3a6451499e00950e5a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:48 +0000
Subject: [PATCH 43/73] fix: config drivers are not closed twice when close
 fails

---
 srcs/toolbox/config.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index dac2095..6132d95 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -895,6 +895,7 @@ int u_config_get_subkey_value_b (u_config_t *c, const char *subkey, int def,
 int u_config_load_from_drv (const char *uri, u_config_driver_t *drv, 
         int overwrite, u_config_t **pc)
 {
+    int rc;
     u_config_t *c = NULL;
     void *arg = NULL;
 
@@ -912,7 +913,11 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
     dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
 
     if(drv->close)
-        dbg_err_if (drv->close(arg));
+    {
+        rc = drv->close(arg);
+        arg = NULL;
+        dbg_err_if (rc);
+    }
 
     *pc = c;
 
@@ -1240,7 +1245,7 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
         u_config_t *inckey, int overwrite)
 {
     u_config_t *subkey;
-    int i;
+    int i, rc;
     const char *p, *path;
     void *arg = NULL;
     char uri[U_FILENAME_MAX + 1];
@@ -1278,8 +1283,11 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
     dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
 
     if(drv->close)
-        crit_err_ifm (drv->close(arg),
-            "unable to close input file: %s", p);
+    {
+        rc = drv->close(arg);
+        arg = NULL;
+        crit_err_ifm (rc, "unable to close input file: %s", p);
+    }
     else
         u_warn("the 'close' driver callback is not defined, not closing...");
 
-- 
2.43.0


From 43e18668292a9c90ae3131b4bb3da7c7e60b24fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:01 +0000
Subject: [PATCH 44/73] fix: config variables in parentless or valueless keys

---
 srcs/toolbox/config.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 6132d95..76f61df 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -485,7 +485,8 @@ int u_config_set_value (u_config_t *c, const char *val)
             /* first see if the variable can be resolved in the local scope
                otherwise resolve it from the root */
             root = c->parent;
-            if(u_config_get_subkey(root, u_string_c(var), &ignore))
+            if(root == NULL || 
+               u_config_get_subkey(root, u_string_c(var), &ignore))
                 root = u_config_get_root(c);
             dbg_err_if(root == NULL);
 
@@ -1246,7 +1247,7 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
 {
     u_config_t *subkey;
     int i, rc;
-    const char *p, *path;
+    const char *p, *path, *other;
     void *arg = NULL;
     char uri[U_FILENAME_MAX + 1];
 
@@ -1257,7 +1258,8 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
 
     for(i = 0; u_config_get_subkey_nth(c, "include", i, &subkey) == 0; ++i)
     {
-        if(subkey != inckey && !strcmp(path, u_config_get_value(subkey)))
+        other = u_config_get_value(subkey);
+        if(subkey != inckey && other != NULL && !strcmp(path, other))
             crit_err("circular dependency error loading %s", path);
     }
 
-- 
2.43.0


From b0bd94fc25a0c82dbbe0d87555bf709c1803be5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:13 +0000
Subject: [PATCH 45/73] fix: u_config_to_str reports failures

---
 srcs/toolbox/config.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 76f61df..bd639fd 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1314,18 +1314,19 @@ static int u_config_to_str (u_config_t *c, u_string_t *s)
     dbg_err_if(s == NULL);
 
     if(c->key && strcmp(c->key, "include"))
-        u_string_aprintf(s, "%s %s\n", c->key, (c->value ? c->value : ""));
+        dbg_err_if(u_string_aprintf(s, "%s %s\n", c->key, 
+                    (c->value ? c->value : "")));
     
     if(u_config_has_children(c))
     {
         if(c->parent)
-            u_string_aprintf(s, "%s", "{\n");
+            dbg_err_if(u_string_aprintf(s, "%s", "{\n"));
 
         TAILQ_FOREACH(item, &c->children, np)
-            u_config_to_str(item, s);
+            dbg_err_if(u_config_to_str(item, s));
 
         if(c->parent)
-            u_string_aprintf(s, "%s", "}\n");
+            dbg_err_if(u_string_aprintf(s, "%s", "}\n"));
     }
 
     return 0;
-- 
2.43.0


From 84e3ca8cf3c9ea4501ec7dad40a57eec015ab8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:43 +0000
Subject: [PATCH 46/73] fix: bound the nesting of config groups and includes

---
 srcs/toolbox/config.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index bd639fd..2257c5f 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -46,9 +46,9 @@ static int u_config_do_set_key (u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild);
 static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln);
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite);
+        void *arg, int overwrite, int lev);
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
-        u_config_t *inckey, int overwrite);
+        u_config_t *inckey, int overwrite, int lev);
 static void u_config_del_key (u_config_t *c, u_config_t *child);
 static int u_config_to_str (u_config_t *c, u_string_t *s);
 static char *u_config_buf_gets (void *arg, char *buf, size_t size);
@@ -572,7 +572,7 @@ int u_config_load_from (u_config_t *c, u_config_gets_t cb, void *arg,
 {
     u_config_driver_t drv = { NULL, NULL, cb, NULL };
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite));
+    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite, 0));
 
     return 0;
 err:
@@ -610,7 +610,7 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
         dbg_err("fdopen failed");
     }
 
-    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite));
+    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite, 0));
 
     fclose(file);
 
@@ -911,7 +911,7 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
     if(drv->open)
         dbg_err_if (drv->open(uri, &arg));
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
 
     if(drv->close)
     {
@@ -1004,7 +1004,7 @@ int u_config_load_from_buf (char *buf, size_t len, u_config_t **pc)
 
     dbg_err_if(u_config_create(&c));
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0));
+    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0, 0));
 
     *pc = c;
 
@@ -1118,7 +1118,7 @@ err:
 }
 
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite)
+        void *arg, int overwrite, int lev)
 {
     enum { MAX_NEST_LEV = 20 };
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
@@ -1128,6 +1128,9 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
     u_config_t *child = NULL;
     u_config_t *subkey;
 
+    /* groups and included files can't be nested too deeply */
+    crit_err_ifm(lev >= MAX_NEST_LEV, "config error: too many nesting levels");
+
     dbg_err_if(u_string_create(NULL, 0, &line));
     dbg_err_if(u_string_create(NULL, 0, &key));
     dbg_err_if(u_string_create(NULL, 0, &value));
@@ -1171,7 +1174,7 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                 dbg_err_if(u_config_add_child(c, u_string_c(lastkey), &child));
             }
 
-            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite));
+            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite, lev + 1));
 
             dbg_err_if(u_string_clear(lastkey));
 
@@ -1205,9 +1208,9 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
 
             /* load the included file */
             if (u_string_c(key)[0] == '-')  /* failure is not critical */
-                dbg_if(u_config_include(c, drv, subkey, overwrite));
+                dbg_if(u_config_include(c, drv, subkey, overwrite, lev));
             else                            /* failure is critical */
-                dbg_err_if(u_config_include(c, drv, subkey, overwrite));
+                dbg_err_if(u_config_include(c, drv, subkey, overwrite, lev));
         } 
 
         /* if the valus is empty an open bracket will follow, save the key */
@@ -1243,7 +1246,7 @@ err:
 }
 
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
-        u_config_t *inckey, int overwrite)
+        u_config_t *inckey, int overwrite, int lev)
 {
     u_config_t *subkey;
     int i, rc;
@@ -1282,7 +1285,7 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
     crit_err_ifm (drv->open(p, &arg),
         "unable to access input file: %s", p);
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, lev + 1));
 
     if(drv->close)
     {
-- 
2.43.0


From b058e46a3ac3c57c383e90d4f45667d073a12b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:54 +0000
Subject: [PATCH 47/73] fix: AF_UNIX address is not freed twice when out of
 memory

---
 srcs/toolbox/net.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index ee1f962..33cdedb 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1159,13 +1159,14 @@ static int resolv_sun (const char *dummy1, const char *dummy2,
     dbg_err_ifm (u_strlcpy(sunix->sun_path, path, sizeof sunix->sun_path), 
             "%s too long", path);
 
+    /* set cname to what was provided as 'path' by the caller */
+    dbg_err_sif ((cname = u_strdup(path)) == NULL);
+
+    /* the caller disposes 'ai' and anything it owns on error */
     ai->ai_protocol = 0;    /* override previous setting if any */
     ai->ai_addr = (struct sockaddr *) sunix;
     ai->ai_addrlen = sizeof *sunix;
     ai->ai_next = NULL;
-
-    /* set cname to what was provided as 'path' by the caller */
-    dbg_err_sif ((cname = u_strdup(path)) == NULL);
     ai->ai_canonname = cname;
 
     return 0;
-- 
2.43.0


From beaa9912813caa3df9e238fa2a5c5418a7e93ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:05 +0000
Subject: [PATCH 48/73] fix: u_connect_ex does not write past the descriptor
 set

---
 srcs/toolbox/net.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 33cdedb..ce6707d 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -526,6 +526,7 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
     /* "When the connection has been established asynchronously, select() and 
      *  poll() shall indicate that the file descriptor for the socket is ready 
      *  for writing." */
+    dbg_err_ifm (sd >= FD_SETSIZE, "socket %d can't be select'ed", sd);
     FD_ZERO(&writefds);
     FD_SET(sd, &writefds);
 
-- 
2.43.0


From 2d93733abab362d1583ca747a768df0674f125a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:17 +0000
Subject: [PATCH 49/73] fix: u_net_sd_by_addr returns -1 on a NULL address

---
 srcs/toolbox/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index ce6707d..34be010 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -277,7 +277,7 @@ err:
  */ 
 int u_net_sd_by_addr_ex (u_net_addr_t *a, struct timeval *timeout)
 {
-    dbg_return_if (a == NULL, ~1);
+    dbg_return_if (a == NULL, -1);
 
     switch (a->mode)
     {
-- 
2.43.0


From 99b2404a9a91cb0c714907f3667c43a8afc457da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:29 +0000
Subject: [PATCH 50/73] fix: u_pwd_db_new does not leak the hmap options

---
 srcs/toolbox/pwd.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index c756bd1..54db2fd 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -622,6 +622,7 @@ static int u_pwd_need_reload (u_pwd_t *pwd)
 
 static int u_pwd_db_new (u_pwd_t *pwd)
 {
+    int rc;
     u_hmap_opts_t *hopts = NULL;
 
     dbg_err_if (pwd == NULL);
@@ -629,7 +630,11 @@ static int u_pwd_db_new (u_pwd_t *pwd)
     dbg_err_if (u_hmap_opts_new(&hopts));
     dbg_err_if (u_hmap_opts_set_val_freefunc(hopts, &__hmap_pwd_rec_free));
             
-    return u_hmap_easy_new(hopts, &pwd->db);
+    /* the hmap gets its own copy of the options */
+    rc = u_hmap_easy_new(hopts, &pwd->db);
+    u_hmap_opts_free(hopts);
+
+    return rc;
 err:
     if (hopts)
         u_hmap_opts_free(hopts);
-- 
2.43.0


From 2a989ffc1fb830272b23668ac9d664e28ad774fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 51/73] fix: pwd does not read before an empty line

---
 srcs/toolbox/pwd.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 54db2fd..e872ece 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -481,8 +481,7 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     dbg_err_ifm (!got_it, "user %s not found", user);
 
     /* remove terminating \n if needed */
-    if (ln[strlen(ln) - 1] == '\n')
-        ln[strlen(ln) - 1] = '\0';
+    ln[strcspn(ln, "\n")] = '\0';
 
     /* tokenize line: expect at least 2 fields: user and password */
     dbg_err_ifm (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2,
@@ -681,8 +680,7 @@ static int u_pwd_db_load (u_pwd_t *pwd)
             continue;
 
         /* remove trailing \n */
-        if (ln[strlen(ln) - 1] == '\n')
-            ln[strlen(ln) - 1] = '\0';
+        ln[strcspn(ln, "\n")] = '\0';
 
         /* tokenize line */
         dbg_ifb (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2)
-- 
2.43.0


From 7affb28911f52e07db4a95b37c42f4ba2c8d76e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 52/73] fix: pwd authentication does not compare truncated or
 missing values

---
 srcs/toolbox/pwd.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index e872ece..48bb49d 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -258,12 +258,12 @@ int u_pwd_auth_user (u_pwd_t *pwd, const char *user, const char *password)
     if (pwd->cb_hash)
     {
         /* create a buffer that fits the specific hash function */
-        dbg_err_if ((__p = u_zalloc(pwd->hash_len)) == NULL);
+        dbg_err_if ((__p = u_zalloc(pwd->hash_len + 1)) == NULL);
         (void) pwd->cb_hash(password, strlen(password), __p);
     }
     else
     {
-        (void) u_strlcpy(__pstack, password, sizeof __pstack);
+        dbg_err_if (u_strlcpy(__pstack, password, sizeof __pstack));
         __p = __pstack;
     }
 
@@ -457,7 +457,7 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     dbg_err_if (u_pwd_res_open(pwd));
 
     /* do suitable search string for strstr(3) */
-    u_snprintf(uu, sizeof uu, "%s:", user);
+    dbg_err_if (u_snprintf(uu, sizeof uu, "%s:", user));
     
     /* read line by line */
     for (lc = 1; pwd->cb_load(ln, sizeof ln, pwd->res_handler) != NULL; lc++)
-- 
2.43.0


From ce4b74b11e0219a0cb6d1dbcc0063b6574efab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:04 +0000
Subject: [PATCH 53/73] fix: u_pwd_in_memory tolerates a NULL instance

---
 srcs/toolbox/pwd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 48bb49d..74533ed 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -416,6 +416,7 @@ const char *u_pwd_rec_get_opaque (u_pwd_rec_t *rec)
  */ 
 int u_pwd_in_memory (u_pwd_t *pwd)
 {
+    dbg_return_if (pwd == NULL, 0);
     return pwd->in_memory;
 }
 
-- 
2.43.0


From 607822159621525d05a733604eaf11e61d41228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:31 +0000
Subject: [PATCH 54/73] fix: u_pwd_auth_user rejects a NULL instance

---
 srcs/toolbox/pwd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 74533ed..28469a2 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -282,7 +282,7 @@ err:
     if (__p && (__p != __pstack))
         u_free(__p);
 
-    if (!pwd->in_memory && rec)
+    if (rec && !pwd->in_memory)
         u_pwd_rec_free(pwd, rec);
 
     return ~0;
-- 
2.43.0


From d61caeeadbb69272f48fa687a5f31fd643bffb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:42 +0000
Subject: [PATCH 55/73] fix: pwd keeps the old in-memory db when it can't be
 reloaded

---
 srcs/toolbox/pwd.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 28469a2..b3196ec 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -426,19 +426,27 @@ int u_pwd_in_memory (u_pwd_t *pwd)
 
 static int u_pwd_load (u_pwd_t *pwd)
 {
+    u_hmap_t *old;
+
     dbg_return_if (pwd == NULL, ~0);
     dbg_return_if (!pwd->in_memory, ~0);
 
-    /* wipe away old snapshot */
-    if (pwd->db)
-        (void) u_pwd_db_term(pwd);
+    /* put the old snapshot aside */
+    old = pwd->db;
+    pwd->db = NULL;
     
     /* create new hash map and load master db contents into it */
     dbg_err_if (u_pwd_db_new(pwd));
     dbg_err_if (u_pwd_db_load(pwd));
 
+    /* wipe away old snapshot */
+    if (old)
+        u_hmap_easy_free(old);
+
     return 0;
 err:
+    (void) u_pwd_db_term(pwd);
+    pwd->db = old;
     return ~0;
 }
 
@@ -613,11 +621,13 @@ static int u_pwd_need_reload (u_pwd_t *pwd)
     if (!pwd->cb_notify(pwd->res_uri, pwd->last_mod, &update_timestamp))
         return 0;
 
-    /* update notified: set .last_mod */
+    /* update notified: reload db to memory */
+    nop_return_if (u_pwd_load(pwd), ~0);
+
+    /* set .last_mod */
     pwd->last_mod = update_timestamp;
-    
-    /* reload db to memory */
-    return u_pwd_load(pwd);
+
+    return 0;
 }
 
 static int u_pwd_db_new (u_pwd_t *pwd)
-- 
2.43.0


From 7060b60e742cbb6fe23f64de6b7d641290a2dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:22 +0000
Subject: [PATCH 56/73] fix: URI components that do not fit are rejected

---
 srcs/toolbox/uri.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index beb22c7..1817c28 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -426,7 +426,7 @@ static int u_uri_parse_scheme (u_lexer_t *l, u_uri_t *u)
     u_lexer_record_rmatch(l);
 
     /* The match includes the first non-scheme char. */
-    (void) u_lexer_get_match(l, u->scheme);
+    warn_err_if (u_lexer_get_match(l, u->scheme) == NULL);
     u->scheme[strlen(u->scheme) - 1] = '\0';
 
     return 0;
@@ -481,7 +481,7 @@ static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->port);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->port));
 
     return 0;
 err:
@@ -512,7 +512,7 @@ static int u_uri_parse_host (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_rmatch(l);
 
-    (void) u_uri_adjust_greedy_match(l, u->host);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->host));
 
     return 0;
 err:
@@ -526,10 +526,11 @@ static int u_uri_adjust_greedy_match (u_lexer_t *l, char match[U_TOKEN_SZ])
     dbg_return_if (l == NULL, ~0);
     dbg_return_if (match == NULL, ~0);
 
-    (void) u_lexer_get_match(l, match);
+    /* The match may not fit. */
+    warn_return_if (u_lexer_get_match(l, match) == NULL, ~0);
     mlen = strlen(match);
 
-    if (!u_lexer_eot(l))
+    if (mlen && !u_lexer_eot(l))
         --mlen;
 
     /* Take care of the one-char-extra greedy match in case of IP-literal's.
@@ -624,7 +625,7 @@ static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u)
         U_LEXER_ERR(l, "Expect \'@\', got \'%c\' instead.", c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->userinfo);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->userinfo));
 
     /* 3.2.1.  User Information: Use of the format "user:password" in the 
      * userinfo field is deprecated.  Anyway... */
@@ -657,7 +658,7 @@ static int u_uri_crumble_user_password (u_uri_t *u)
     do u_lexer_next(l, &c); while (c != ':' && !u_lexer_eot(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->user);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->user));
 
     /* Check if we've exhausted the userinfo string. */
     nop_goto_if (u_lexer_eot(l), end);
@@ -671,7 +672,7 @@ static int u_uri_crumble_user_password (u_uri_t *u)
     do u_lexer_next(l, &c); while (!u_lexer_eot(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->pwd);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->pwd));
 
 end:
     u_lexer_free(l);
@@ -686,7 +687,7 @@ static int u_uri_parse_abempty (u_lexer_t *l, u_uri_t *u)
     u_lexer_record_lmatch(l);
     warn_err_if (u_uri_expect_path_abempty(l));
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->path);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->path));
 
     return 0;
 err:
@@ -706,7 +707,7 @@ static int u_uri_parse_path (u_lexer_t *l, u_uri_t *u)
     warn_err_if (u_uri_expect_path_abempty(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->path);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->path));
 
     return 0;
 err:
@@ -745,7 +746,7 @@ static int u_uri_parse_query (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->query);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->query));
 
     return 0;
 err:
@@ -768,7 +769,7 @@ static int u_uri_parse_fragment (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_lexer_get_match(l, u->fragment);
+    warn_err_if (u_lexer_get_match(l, u->fragment) == NULL);
 
     return 0;
 err:
-- 
2.43.0


From 6f5b8e1fc0476840db462794b7b3d100c8d66d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:45 +0000
Subject: [PATCH 57/73] fix: u_uri_new does not leak the object on failure

---
 srcs/toolbox/uri.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 1817c28..4eac7ca 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -259,6 +259,8 @@ int u_uri_new (u_uri_opts_t opts, u_uri_t **pu)
     *pu = u;
     return 0;
 err:
+    if (u)
+        u_uri_free(u);
     return ~0;
 }
 
-- 
2.43.0


From fdf4a0edf6dcdffc6fe0003206c74c0809975f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 58/73] fix: unset character in the percent encoding error
 message

---
 srcs/toolbox/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 4eac7ca..bbf8ddf 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -834,7 +834,7 @@ static int u_uri_expect_pct_encoded (u_lexer_t *l)
 {
     char i, c;
 
-    if (u_lexer_peek(l) != '%')
+    if ((c = u_lexer_peek(l)) != '%')
         U_LEXER_ERR(l, "Expect \'%%\', got \'%c\' instead.", c);
 
     for (i = 0; i < 2; i++)
-- 
2.43.0


From fb2c25aa752408a2ca6cf9eb8b41558c2cadea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:08 +0000
Subject: [PATCH 59/73] fix: u_uri_crumble rejects a NULL result argument

---
 srcs/toolbox/uri.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index bbf8ddf..1074bff 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -126,6 +126,8 @@ int u_uri_crumble (const char *uri, u_uri_opts_t opts, u_uri_t **pu)
 {
     u_lexer_t *l = NULL;
 
+    dbg_return_if (pu == NULL, ~0);
+
     warn_err_if (u_lexer_new(uri, &l));
     warn_err_if (u_uri_parser(l, opts, pu));
 
-- 
2.43.0


From 8d59d430445271d02e3c4cd35452d1688a2b3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:27 +0000
Subject: [PATCH 60/73] fix: priority queue size does not wrap around

---
 srcs/toolbox/pqueue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/pqueue.c b/srcs/toolbox/pqueue.c
index 0c95546..3a709d2 100644
--- a/srcs/toolbox/pqueue.c
+++ b/srcs/toolbox/pqueue.c
@@ -92,6 +92,7 @@ int u_pq_create (size_t nitems, u_pq_t **ppq)
 
     dbg_return_if (ppq == NULL, ~0);
     dbg_return_if (nitems < 2, ~0); /* Expect at least 2 elements. */
+    dbg_return_if (nitems + 1 == 0, ~0);
 
     /* Make room for both the queue head and items' array. */
     dbg_err_sif ((pq = u_zalloc(sizeof *pq)) == NULL);
-- 
2.43.0


From 0fd955edb24c8656e1bd9423af60f6791da70a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:04 +0000
Subject: [PATCH 61/73] fix: json: don't look up a truncated fully qualified
 name in the cache

---
 srcs/toolbox/json.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index e8d7690..6f8f388 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -766,7 +766,7 @@ u_json_t *u_json_cache_get (u_json_t *jo, const char *name)
 
     /* If 'name' is relative, we need to prefix it with the parent name 
      * space. */
-    dbg_if (u_snprintf(fqn, sizeof fqn, "%s%s", jo->fqn, name));
+    dbg_return_if (u_snprintf(fqn, sizeof fqn, "%s%s", jo->fqn, name), NULL);
 
     return (u_json_t *) u_hmap_easy_get(jo->map, fqn);
 }
@@ -838,7 +838,8 @@ u_json_t *u_json_array_get_nth (u_json_t *jo, unsigned int n)
     if (jo->map)
     {
         char elem_fqn[U_JSON_FQN_SZ] = { '\0' };
-        dbg_if (u_snprintf(elem_fqn, sizeof elem_fqn, "%s[%u]", jo->fqn, n));
+        dbg_return_if (u_snprintf(elem_fqn, sizeof elem_fqn, "%s[%u]", 
+                    jo->fqn, n), NULL);
         return u_json_cache_get(jo, elem_fqn);
     }
     
-- 
2.43.0


From 1fca748273e6dd4bf1f8d1446a517179e9004571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:17 +0000
Subject: [PATCH 62/73] fix: net: u_sa_ntop reported success with a truncated
 address

---
 srcs/toolbox/net.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 34be010..357357a 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -779,7 +779,7 @@ const char *u_sa_ntop (const struct sockaddr *sa, char *d, size_t dlen)
         {
             const struct sockaddr_in *s4 = (const struct sockaddr_in *) sa;
             dbg_err_if (!u_inet_ntop(AF_INET, &s4->sin_addr, a, sizeof a));
-            dbg_if (u_snprintf(d, dlen, "%s:%d", a, ntohs(s4->sin_port)));
+            dbg_err_if (u_snprintf(d, dlen, "%s:%d", a, ntohs(s4->sin_port)));
             break;
         }
 #ifndef NO_IPV6
@@ -787,7 +787,7 @@ const char *u_sa_ntop (const struct sockaddr *sa, char *d, size_t dlen)
         {
             const struct sockaddr_in6 *s6 = (const struct sockaddr_in6 *) sa;
             dbg_err_if (!u_inet_ntop(AF_INET6, &s6->sin6_addr, a, sizeof a));
-            dbg_if (u_snprintf(d, dlen, "[%s]:%d", a, ntohs(s6->sin6_port)));
+            dbg_err_if (u_snprintf(d, dlen, "[%s]:%d", a, ntohs(s6->sin6_port)));
             break;
         }
 #endif  /* !NO_IPV6 */
@@ -795,7 +795,7 @@ const char *u_sa_ntop (const struct sockaddr *sa, char *d, size_t dlen)
         case AF_UNIX:
         {
             const struct sockaddr_un *su = (const struct sockaddr_un *) sa;
-            dbg_if (u_strlcpy(d, su->sun_path, dlen));
+            dbg_err_if (u_strlcpy(d, su->sun_path, dlen));
             break;
         }
 #endif  /* !NO_UNIXSOCK */
-- 
2.43.0


From d1eeaf3362d344e4dfb834987a386f5868423020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:48 +0000
Subject: [PATCH 63/73] fix: printf arguments that do not match their
 conversions

---
 srcs/toolbox/hmap.c | 18 +++++++++---------
 srcs/toolbox/json.c |  8 ++++----
 srcs/toolbox/test.c |  2 +-
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 89b376a..69995de 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -598,7 +598,7 @@ int u_hmap_new (u_hmap_opts_t *opts, u_hmap_t **phmap)
     TAILQ_INIT(&c->pcy.queue);
 
     u_dbg("[hmap]");
-    u_dbg("threshold: %u", c->threshold);
+    u_dbg("threshold: %zu", c->threshold);
 
     *phmap = c;
 
@@ -714,7 +714,7 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
         enum { MAX_INT = 20 };
         char h[MAX_INT];
 
-        u_snprintf(h, MAX_INT, "%u", hash);
+        u_snprintf(h, MAX_INT, "%u", (unsigned int) hash);
         hash = __f_hash(h, hmap->size);
     }
 
@@ -1220,7 +1220,7 @@ void u_hmap_opts_dbg (u_hmap_opts_t *opts)
     u_dbg("<hmap_options>");
     u_dbg("  easy: %s", opts->easy ? "yes" : "no");
     u_dbg("  discard policy: %s", __pcy2str(opts->policy));
-    u_dbg("  buckets: %u (max: %u -- if discard policy != none)",
+    u_dbg("  buckets: %zu (max: %zu -- if discard policy != none)",
             opts->size, opts->max);
     u_dbg("  owns data: %s",
             (opts->options & U_HMAP_OPTS_OWNSDATA) ? "yes" : "no");
@@ -1603,7 +1603,7 @@ static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o)
         enum { MAX_INT = 20 };
         char h[MAX_INT];
 
-        u_snprintf(h, MAX_INT, "%u", hash);
+        u_snprintf(h, MAX_INT, "%u", (unsigned int) hash);
         hash = __f_hash(h, hmap->size);
     }
 
@@ -1943,7 +1943,7 @@ void u_hmap_dbg (u_hmap_t *hmap)
 
         dbg_ifb (u_string_create("", 1, &s)) return;
         dbg_err_if (u_string_clear(s));
-        dbg_err_if (u_string_aprintf(s, "%5d ", i));
+        dbg_err_if (u_string_aprintf(s, "%5d ", (int) i));
 
         LIST_FOREACH(obj, &hmap->hmap[i], next)
         {
@@ -1960,7 +1960,7 @@ void u_hmap_dbg (u_hmap_t *hmap)
                 st = NULL;
             }
         }
-        u_dbg(u_string_c(s));
+        u_dbg("%s", u_string_c(s));
         u_string_free(s);
     }
 
@@ -2000,7 +2000,7 @@ void u_hmap_pcy_dbg (u_hmap_t *hmap)
         s2 = NULL;
     }
 
-    u_dbg(u_string_c(s));
+    u_dbg("%s", u_string_c(s));
     u_string_free(s);
 
     return;
@@ -2122,7 +2122,7 @@ static int __resize(u_hmap_t *hmap)
     if (hmap->opts->policy != U_HMAP_PCY_NONE)
         return 0;
 
-    u_dbg("resize from: %u", hmap->size);
+    u_dbg("resize from: %zu", hmap->size);
 
     /* copy old options */
     dbg_err_if (u_hmap_opts_new(&newopts));
@@ -2147,7 +2147,7 @@ static int __resize(u_hmap_t *hmap)
     memcpy(hmap, newmap, sizeof(u_hmap_t));
     u_free(newmap);
 
-    u_dbg("resized to: %u", hmap->size);
+    u_dbg("resized to: %zu", hmap->size);
 
     return 0;
 err:
diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 6f8f388..43100d9 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1702,7 +1702,7 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
             }
         }
         else if (iscntrl((int) c))
-            U_LEXER_ERR(jl, "control character in string", c); 
+            U_LEXER_ERR(jl, "control character in string"); 
         else    
             U_LEXER_NEXT(jl, &c);
     }
@@ -1795,10 +1795,10 @@ static void u_json_do_print (u_json_t *jo, size_t l, void *opaque)
         case U_JSON_TYPE_ARRAY:
         case U_JSON_TYPE_OBJECT:
             /* No value. */
-            u_con("%*c %s %s", l, ' ', u_json_type_str(jo->type), jo->key);
+            u_con("%*c %s %s", (int) l, ' ', u_json_type_str(jo->type), jo->key);
             break;
         default:
-            u_con("%*c %s %s : \'%s\'", l, ' ', 
+            u_con("%*c %s %s : \'%s\'", (int) l, ' ', 
                     u_json_type_str(jo->type), jo->key, jo->val);
             break;
     }
@@ -1947,7 +1947,7 @@ static int u_json_do_parse (const char *json, u_json_t **pjo,
     if (!u_lexer_eot(jl))
     {
         u_warn("Unparsed trailing text \'%s\' at position %u", 
-                u_lexer_lookahead(jl), u_lexer_pos(jl));
+                u_lexer_lookahead(jl), (unsigned int) u_lexer_pos(jl));
     }
 
     /* Dispose the lexer context. */
diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 237ce56..88d9b21 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -2011,7 +2011,7 @@ static int __timeval_fmt (struct timeval *tv, char t[80])
     secs = tv->tv_sec;
 
     dbg_if (strftime(_tv, sizeof _tv, "%M:%S", localtime(&secs)) == 0);
-    dbg_if (u_snprintf(t, 80, "%s.%06.6d", _tv, tv->tv_usec));
+    dbg_if (u_snprintf(t, 80, "%s.%06.6d", _tv, (int) tv->tv_usec));
 
     return 0;
 }
-- 
2.43.0


From 4a2d678e2c2b74875d46ec65731a6a8169154e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:04 +0000
Subject: [PATCH 64/73] fix: configuration lines longer than the read buffer
 lose characters

---
 srcs/toolbox/config.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 2257c5f..aa3c5ad 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1103,11 +1103,13 @@ static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln)
         len = strlen(buf);
         if(len == 0)
             break; /* empty line */
-        dbg_err_if(u_string_append(ln, buf, --len));
-        if(!u_isnl(buf[len]))
-            continue; /* line's longer the bufsz (or eof);get next line chunk */
-        else
-            break;
+        if(!u_isnl(buf[len - 1]))
+        {   /* line's longer the bufsz (or eof);get next line chunk */
+            dbg_err_if(u_string_append(ln, buf, len));
+            continue;
+        }
+        dbg_err_if(u_string_append(ln, buf, len - 1));
+        break;
     }
 
     nop_err_if(p == NULL); /* eof */
-- 
2.43.0


From 8948c5f01fc1385aea0acae9de8f224b0f85cc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:41 +0000
Subject: [PATCH 65/73] fix: net: timed connect left the socket non-blocking
 when it completed at once

---
 srcs/toolbox/net.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 357357a..f417fea 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -520,7 +520,13 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
      * instead a rather convoluted select() based machinery must be put in
      * place.  Anyway, since the timeout'ed version shares the same code layout
      * we can kill two birds with one stone... */
-    nop_return_if ((rc = connect(sd, addr, addrlen)) == 0, 0);
+    if ((rc = connect(sd, addr, addrlen)) == 0)
+    {
+        if (timeout)
+            (void) u_net_unset_nonblocking(sd);
+
+        return 0;
+    }
     dbg_err_sif (errno != EINTR && errno != EINPROGRESS);
 
     /* "When the connection has been established asynchronously, select() and 
-- 
2.43.0


From df36a4fd29607a4a4285c1b3c96c6cafde2be6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:03 +0000
Subject: [PATCH 66/73] fix: rb: doubled storage size of a contiguous buffer
 wraps around

---
 srcs/toolbox/rb.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 77caa31..acb65e1 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -644,7 +644,10 @@ static int create_malloc (size_t sz, int opts, u_rb_t **prb)
 
     /* Double buffer size in case the user requested contiguous memory. */
     if (opts & U_RB_OPT_USE_CONTIGUOUS_MEM)
+    {
+        dbg_err_if (sz > ((size_t) -1) / 2);
         real_sz <<= 1;
+    }
 
     /* Make room for the buffer. */
     dbg_err_sif ((rb->base = u_zalloc(real_sz)) == NULL);
-- 
2.43.0


From 6023e5abf4058ed6d1a50468e34c29405412c8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:34 +0000
Subject: [PATCH 67/73] fix: array: slots added by a resize are left
 uninitialised

---
 srcs/toolbox/array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/toolbox/array.c b/srcs/toolbox/array.c
index 8c7c4f2..f64f5db 100644
--- a/srcs/toolbox/array.c
+++ b/srcs/toolbox/array.c
@@ -211,6 +211,10 @@ int u_array_resize (u_array_t *da, size_t idx)
     new_base = u_realloc(da->base, new_nslots * sizeof_type[da->type]);
     warn_err_sif (new_base == NULL);
 
+    /* as on creation, slots which have never been set read as 0 */
+    memset((char *) new_base + da->nslots * sizeof_type[da->type], 0, 
+            (new_nslots - da->nslots) * sizeof_type[da->type]);
+
     da->base = new_base;
     da->nslots = new_nslots;
 
-- 
2.43.0


From 4c8b5403a00614fe7b5273017d262119de989c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 68/73] fix: string: growth step overflows after many (possibly
 failed) resizes

---
 srcs/toolbox/str.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 81c63d6..694eb26 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -391,7 +391,13 @@ int u_string_append (u_string_t *s, const char *buf, size_t len)
         min = s->data_len + len + 1; /* min required buffer length */
         nsz = s->data_sz;
         while (nsz <= min)
-            nsz += (BLOCK_SIZE << s->shift_cnt++);
+        {
+            nsz += ((size_t) BLOCK_SIZE << s->shift_cnt);
+
+            /* stop doubling (at 1GB) before the shift overflows */
+            if (s->shift_cnt < 24)
+                s->shift_cnt++;
+        }
 
         dbg_err_if (u_string_reserve(s, nsz));
     }
-- 
2.43.0


From 89c14ebce0efd3cb2c3b1691b6207e120b382036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:18 +0000
Subject: [PATCH 69/73] fix: string, buf: reserving the biggest size wraps
 around and releases the data

---
 srcs/toolbox/buf.c | 1 +
 srcs/toolbox/str.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index e847b1f..d6ed98c 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -45,6 +45,7 @@ int u_buf_reserve (u_buf_t *ubuf, size_t size)
     dbg_err_if (ubuf == NULL);
 
     nop_return_if (size <= ubuf->size, 0);  /* nothing to do */
+    dbg_err_if (size == (size_t) -1);   /* no room for the '\0' */
    
     /* size plus 1 char to store a '\0' */
     dbg_err_sif ((nbuf = u_realloc(ubuf->data, size + 1)) == NULL);
diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 694eb26..5ad972b 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -322,6 +322,7 @@ int u_string_reserve (u_string_t *s, size_t size)
 
     dbg_return_if (s == NULL, ~0);
     nop_return_if (size <= s->data_sz, 0);
+    dbg_err_if (size == (size_t) -1);   /* no room for the '\0' */
    
     /* realloc requested size plus 1 char to store the terminating '\0' */
     nbuf = u_realloc(((s->data == null) ? NULL : s->data), size + 1);
-- 
2.43.0


From 0e5aa4d8d51da49be380eaddfa61f3dc660c16ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:38 +0000
Subject: [PATCH 70/73] fix: hmap: a copy that fails gives elements back
 without their queue entry

---
 srcs/toolbox/hmap.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 69995de..dc538af 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -1551,6 +1551,7 @@ const char *u_hmap_strerror (u_hmap_ret_t rc)
 int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
 {
     u_hmap_o_t *obj;
+    u_hmap_q_t *pqe;
     size_t i;
     int rc;
 
@@ -1562,16 +1563,22 @@ int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
         while ((obj = LIST_FIRST(&from->hmap[i])) != NULL)
         {
             LIST_REMOVE(obj, next);
-            if (obj->pqe)
-                dbg_err_if (__queue_del(from, obj));
+            pqe = obj->pqe;
+            obj->pqe = NULL;
             from->sz--;
 
             if ((rc = u_hmap_put(to, obj, NULL)) == U_HMAP_ERR_FAIL)
             {
                 /* not taken: give it back to the source map */
                 LIST_INSERT_HEAD(&from->hmap[i], obj, next);
+                obj->pqe = pqe;
                 from->sz++;
             }
+            else if (pqe)
+            {
+                TAILQ_REMOVE(&from->pcy.queue, pqe, next);
+                __q_o_free(pqe);
+            }
             dbg_err_if (rc);
         }
     }
-- 
2.43.0


From 6b26f61e4a82b44c7cf3459e2cfb4c3836bbfdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:37 +0000
Subject: [PATCH 71/73] fix: config load reports running out of memory while
 reading a line

---
 srcs/toolbox/config.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index aa3c5ad..d7fec3f 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1112,7 +1112,7 @@ static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln)
         break;
     }
 
-    nop_err_if(p == NULL); /* eof */
+    nop_return_if(p == NULL, 1); /* eof */
 
     return 0;
 err:
@@ -1126,7 +1126,7 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
     const char *ln, *p;
     size_t len;
-    int lineno = 1;
+    int lineno = 1, rc;
     u_config_t *child = NULL;
     u_config_t *subkey;
 
@@ -1140,7 +1140,8 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
 
     dbg_err_if(drv->gets == NULL);
 
-    for(; cs_getline(drv->gets, arg, line) == 0; u_string_clear(line), ++lineno)
+    for(; (rc = cs_getline(drv->gets, arg, line)) == 0; 
+            u_string_clear(line), ++lineno)
     {
         dbg_err_if (u_config_remove_comment(line));
 
@@ -1228,6 +1229,9 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                         u_string_len(value) ? u_string_c(value) : NULL, 
                         overwrite, NULL));
     }
+
+    /* an error (not eof) stopped the reading */
+    dbg_err_if(rc < 0);
     
     u_string_free(lastkey);
     u_string_free(value);
-- 
2.43.0


From e8a79f286ae46dc08b3291c5043bb3bd8bd7ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:58 +0000
Subject: [PATCH 72/73] fix: password database load reports running out of
 memory instead of dropping users

---
 srcs/toolbox/pwd.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index b3196ec..600247c 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -665,6 +665,7 @@ static int u_pwd_db_term (u_pwd_t *pwd)
 
 static int u_pwd_db_load (u_pwd_t *pwd)
 {
+    int rc;
     size_t lc, ntoks;
     char ln[U_PWD_LINE_MAX];
     char **toks = NULL;  /* line fmt is: "name:password[:hint]\n" */
@@ -694,23 +695,23 @@ static int u_pwd_db_load (u_pwd_t *pwd)
         ln[strcspn(ln, "\n")] = '\0';
 
         /* tokenize line */
-        dbg_ifb (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2)
+        dbg_err_if (u_strtok(ln, ":", &toks, &ntoks));
+
+        dbg_ifb (ntoks < 2)
         {
             u_info("bad syntax at line %zu (%s)", lc, ln);
             continue;
         }
 
         /* create u_pwd_rec_t from tokens */
-        dbg_ifb (u_pwd_rec_new(toks[0], toks[1], ntoks < 3 ? NULL : toks[2], 
-                    &rec))
-        {
-            u_info("could not create record for entry at line %zu", lc);
-            continue;
-        }
+        dbg_err_if (u_pwd_rec_new(toks[0], toks[1], 
+                    ntoks < 3 ? NULL : toks[2], &rec));
 
-        /* push rec to db */
-        dbg_ifb (u_pwd_db_push(pwd, rec))
+        /* push rec to db (the first record of a given user is retained) */
+        dbg_ifb ((rc = u_pwd_db_push(pwd, rec)))
         {
+            dbg_err_if (rc != U_HMAP_ERR_EXISTS);
+
             u_info("could not push record for entry at line %zu", lc);
             u_pwd_rec_free(pwd, rec), rec = NULL;
         }
-- 
2.43.0


From 4d9d2e566eeb501335fb927062d96a56764d87b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:39 +0000
Subject: [PATCH 73/73] fix: SCTP event subscription passes members that were
 never set

---
 srcs/toolbox/net.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index f417fea..adab888 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -976,6 +976,8 @@ static int sctp_enable_events (int s, int o)
 {
     struct sctp_event_subscribe e;
 
+    memset(&e, 0, sizeof e);
+
     e.sctp_data_io_event = 
         (o & U_NET_OPT_SCTP_DATA_IO_EVENT) ? 1 : 0;
 
-- 
2.43.0

