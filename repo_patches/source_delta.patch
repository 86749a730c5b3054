From 698b2158d50ab28696f5af310653a5ab7dd056d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 01/62] fix: zt_base_decode wrote through a NULL output buffer
 when given a size

---
 src/libzt/zt_base.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_base.c b/src/libzt/zt_base.c
index 14f3e08..5304ce3 100644
--- a/src/libzt/zt_base.c
+++ b/src/libzt/zt_base.c
@@ -648,7 +648,7 @@ zt_base_decode(zt_base_definition_t * def, const void * in, size_t in_bytes, voi
     mod = ((in_bytes-i) % def->ogroups); /* partial inputs */
     ocount = (lcount * def->igroups) + mod; /* total output bytes */
 
-    if (out == NULL) {
+    if (out == NULL || (*out == NULL && *out_bytes != 0)) {
         *out_bytes = ocount;
         return 0;
     }
-- 
2.43.0


From e0e2c029a2149b752f0a6d08397e50fc8225dd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 02/62] fix: zt_cstr_map turned every character above 225 into
 NUL

---
 src/libzt/zt_cstr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 9a78384..e19155d 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -265,7 +265,10 @@ zt_cstr_map(const char *s, ssize_t i, ssize_t j,
                                190, 191, 192, 193, 194, 195, 196, 197, 198, 199,
                                200, 201, 202, 203, 204, 205, 206, 207, 208, 209,
                                210, 211, 212, 213, 214, 215, 216, 217, 218, 219,
-                               220, 221, 222, 223, 224, 225 };
+                               220, 221, 222, 223, 224, 225, 226, 227, 228, 229,
+                               230, 231, 232, 233, 234, 235, 236, 237, 238, 239,
+                               240, 241, 242, 243, 244, 245, 246, 247, 248, 249,
+                               250, 251, 252, 253, 254, 255 };
 
     if (from && to) {
         while (*from && *to) {
-- 
2.43.0


From 5fcd8fa4791f093ddca6a46ee52cef9a99a3f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:24 +0000
Subject: [PATCH 03/62] fix: zt_cstr_cmp ignored the last character of slices
 of equal length

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index e19155d..cdfad3f 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -340,7 +340,7 @@ zt_cstr_cmp(const char *s1, ssize_t i1, ssize_t j1,
         return cond == 0 ? +1 : cond;
     }
 
-    return strncmp(s1, s2, j1 - i1);
+    return strncmp(s1, s2, IDXLEN(i1, j1));
 }
 
 /*!
-- 
2.43.0


From bf7f25672586019fdd33fd0edc1b670ab0fc2dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:24 +0000
Subject: [PATCH 04/62] fix: zt_cstr_chomp read before the start of an empty
 string

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index cdfad3f..066cb44 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -535,7 +535,7 @@ zt_cstr_chomp(char *str) {
         size_t    i = 0;
 
         i = strlen(str);
-        if (str[i - 1] == '\n') {
+        if (i > 0 && str[i - 1] == '\n') {
             str[i - 1] = '\0';
         }
     }
-- 
2.43.0


From b114587e8bc0781bb457587b3cb5c347a9f89a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 05/62] fix: zt_cstr_strip wrote past the string when a newline
 was not part of the trailing white space

---
 src/libzt/zt_cstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 066cb44..64d015b 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -555,11 +555,11 @@ zt_cstr_strip(char *str) {
         memmove(str, &str[len], (strlen(str) - len) + 1); /* +1 captures \0 */
 
         /* strip whitespace from the end of the string */
-        if (strchr(str, '\n') != NULL) {
-            nl = 1;
-        }
         len = zt_cstr_rspn(str, WHITESPACE "\n");
         len = strlen(str) - len;
+        if (strchr(&str[len], '\n') != NULL) {
+            nl = 1;
+        }
         if (len) {
             if (nl) {
                 str[len++] = '\n';
-- 
2.43.0


From 98c1423999cc8995c8b25fa23b226d62949333e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 06/62] fix: zt_cstr_rspn and zt_cstr_rcspn never looked at the
 first character

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 64d015b..c364d0a 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -578,7 +578,7 @@ zt_cstr_rspn(const char *s, const char *accept) {
     zt_assert(s);
     zt_assert(accept);
 
-    for (i = len - 1; i > 0; i--) { /* -1 to skip \0 */
+    for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
         if (strspn(&s[i], accept) == 0) {
             return (len - i) - 1;                          /* -1 for the first non matching char */
         }
@@ -594,7 +594,7 @@ zt_cstr_rcspn(const char *s, const char *reject) {
     zt_assert(s);
     zt_assert(reject);
 
-    for (i = len - 1; i > 0; i--) { /* -1 to skip \0 */
+    for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
         if (strcspn(&s[i], reject) == 0) {
             return i;                                      /* -1 for the first non matching char */
         }
-- 
2.43.0


From 0e6fe45648f07f5bf21e2775edebb4f013ccc72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 07/62] fix: slices of an empty string had length 1
 (zt_cstr_cat of an empty string lost the rest)

---
 src/libzt/zt_cstr.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index c364d0a..e348efe 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -49,7 +49,7 @@
             zt_assert(i >= 0 && j < (ssize_t)len); \
         } else {                          \
             i = 0;                        \
-            j = 0;                        \
+            j = -1;                       \
         }                                 \
 } while (0)
 
@@ -58,12 +58,9 @@ static INLINE size_t
 IDXLEN(ssize_t i, ssize_t j) {
     ssize_t   r;
 
-    if (i < j) {
-        r = (j - i) + 1;
-    } else {
-        r = (i - j) + 1;
-    }
-    zt_assert(r > 0);
+    /* an empty slice is i == 0, j == -1 */
+    r = (j - i) + 1;
+    zt_assert(r >= 0);
     return (size_t)r;
 }
 
@@ -492,8 +489,6 @@ zt_cstr_any(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     CONVERT(s, i, j);
 
-    zt_assert(i >= 0 && i <= j);
-
     for (; i <= j; i++) {
         if (s[i] != '\0' && strchr(set, s[i])) {
             return i;
@@ -516,8 +511,6 @@ zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     CONVERT(s, i, j);
 
-    zt_assert(i >= 0 && i <= j);
-
     for (orig = i; j >= i; j--) {
         if (s[j] != '\0' && strchr(set, s[j])) {
             return j - orig;
-- 
2.43.0


From a292df660cad340c4da131fa11c19b5cc5814e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 08/62] fix: zt_cstr_rany returned an offset into the slice
 instead of a position in the string

---
 src/libzt/zt_cstr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index e348efe..aa91cea 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -504,16 +504,14 @@ zt_cstr_any(const char *s, ssize_t i, ssize_t j, const char *set) {
  */
 ssize_t
 zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set) {
-    ssize_t   orig;
-
     zt_assert(s);
     zt_assert(set);
 
     CONVERT(s, i, j);
 
-    for (orig = i; j >= i; j--) {
+    for (; j >= i; j--) {
         if (s[j] != '\0' && strchr(set, s[j])) {
-            return j - orig;
+            return j;
         }
     }
 
-- 
2.43.0


From 1e4215e4cd38ae31582ec1f623b12230abe66d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 09/62] fix: zt_cstr_tok read before the start of an empty
 string

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index aa91cea..458a827 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -973,7 +973,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
 
     str_copy = strdup(str);
 
-    if (str[strlen(str) - 1] == delim) {
+    if (*str != '\0' && str[strlen(str) - 1] == delim) {
         str_copy[ strlen(str) - 1 ] = '\0';
     }
 
-- 
2.43.0


From 74fa25a4b5d03047c4935e8aa14a684182893710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 10/62] fix: zt_cstr_itoa wrote its terminator one past the
 buffer

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 458a827..3bb18d3 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -1007,7 +1007,7 @@ ssize_t zt_cstr_itoa(char *s, int value, size_t offset, size_t bufsiz)
 
     result = loc = offset + zt_cstr_int_display_len(value);
 
-    if ((s == NULL) || (loc > bufsiz)) {
+    if ((s == NULL) || (loc >= bufsiz)) {
         return -1;
     }
 
-- 
2.43.0


From b99f2338028079247772fb3b80a76c43f7f82a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 11/62] fix: zt_binary_to_hex wrote one past an odd sized hex
 buffer

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 3bb18d3..14e7c4b 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -802,7 +802,7 @@ zt_binary_to_hex(void *data, size_t dlen, char *hex, size_t hlen) {
     size_t n;
     char * dptr = hex;
 
-    for (n = 0; (n < dlen) && ((n * 2) < hlen); n++, dptr += 2) {
+    for (n = 0; (n < dlen) && ((n * 2) + 1 < hlen); n++, dptr += 2) {
         uint8_t c = ((uint8_t *)data)[n];
         if (hex != NULL) {
             dptr[0] = HEX_DIGITS[((c >> 4) & 0xF)];
-- 
2.43.0


From a9b719df0839269c2762f5e389ce7f479b02bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 12/62] fix: zt_hex_to_binary read past an odd amount of hex
 and did not set errno for a bad second digit

---
 src/libzt/zt_cstr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 14e7c4b..e5825bd 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -860,7 +860,8 @@ zt_hex_to_binary(char *hex, size_t hlen, void *data, size_t dlen) {
             return 0;
         }
 
-        if ((c2 = hex_to_char(*hex++)) == -1) {
+        if (n + 1 >= hlen || (c2 = hex_to_char(*hex++)) == -1) {
+            errno = EINVAL;
             return 0;
         } else {
             n++;
-- 
2.43.0


From aa96ab99a5b2db47877f0da3f0659318440e02bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 13/62] fix: zt_hexdump lost a final line of 15 bytes and
 wrapped addresses at 32 bits

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index e5825bd..dc2182e 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -748,7 +748,7 @@ zt_hexdump(int _getchar(void *), void * data, zt_hexdump_output output, void * o
     size_t    bytes = 0;
     size_t    hpos = 0, cpos = 0;
     int       c = 0;
-    uint32_t  addr = 0L;
+    size_t    addr = 0L;
     size_t    _addr = 0L;
     char      _txt[16+1];
     char      _hex[(16*3)+3];
@@ -782,7 +782,7 @@ zt_hexdump(int _getchar(void *), void * data, zt_hexdump_output output, void * o
         bytes++;
     }
 
-    if ((addr % 16 != 15) && (addr % 16 != 0)) {
+    if (addr % 16 != 0) {
         if (output(odata, _addr, _hex, _txt) == -1 ) {
             return -1;
         }
-- 
2.43.0


From 78982a39d0907d6118e42f1733082c1ae239ef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 14/62] fix: zt_hexdump_str took a 0xFF byte for the end of the
 data

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index dc2182e..f140a0e 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -705,7 +705,7 @@ static int _read_str(void * ctx) {
         return EOF;
     }
 
-    c = *(state->c + state->offt);
+    c = *((unsigned char *)state->c + state->offt);
     state->offt += 1;
     return c;
 }
-- 
2.43.0


From 4ae0cbd66625b1256cf56045b8e6afef3a2ae99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 15/62] fix: zt_cstr_basename and zt_cstr_dirname left a
 truncated result unterminated

---
 src/libzt/zt_cstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index f140a0e..5b79668 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -618,7 +618,7 @@ zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix)
         end = -1;
     }
 
-    zt_cstr_copy(path, start, end, npath, len);
+    zt_cstr_copy(path, start, end, npath, len > 0 ? len - 1 : 0);
     return npath;
 }
 
@@ -641,13 +641,13 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
 
     if ((end = zt_cstr_rfind(path, 0, end, PATH_SEPERATOR)) == -1) {
         /* there is no path seperator */
-        zt_cstr_copy(".", 0, -1, npath, len);
+        zt_cstr_copy(".", 0, -1, npath, len > 0 ? len - 1 : 0);
         return npath;
     } else {
         end = end - 1;
     }
 
-    zt_cstr_copy(path, 0, end, npath, len);
+    zt_cstr_copy(path, 0, end, npath, len > 0 ? len - 1 : 0);
     return npath;
 }
 
-- 
2.43.0


From 0dc6a335cd460c6fe044ffb03cf7688ddc4ea661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 16/62] fix: zt_cstr_dirname of the empty path, of / and of
 /name

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 5b79668..9481ab1 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -635,7 +635,7 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
 
     /* if the end of the path is the PATH_SEPERATOR then skip over it */
     ps_len = strlen(PATH_SEPERATOR);
-    if (strcmp(&path[strlen(path) - ps_len], PATH_SEPERATOR) == 0) {
+    if (strlen(path) > (size_t)ps_len && strcmp(&path[strlen(path) - ps_len], PATH_SEPERATOR) == 0) {
         end = end - ps_len;
     }
 
@@ -643,7 +643,7 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
         /* there is no path seperator */
         zt_cstr_copy(".", 0, -1, npath, len > 0 ? len - 1 : 0);
         return npath;
-    } else {
+    } else if (end > 0) {
         end = end - 1;
     }
 
-- 
2.43.0


From 9cb5d84619743f2a71701843b66a3d86c7645c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 17/62] fix: zt_cstr_basename kept part of a suffix without a
 dot and removed one that is not at the end

---
 src/libzt/zt_cstr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 9481ab1..3e3f284 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -611,8 +611,10 @@ zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix)
 
     if (suffix) {
         end = zt_cstr_rfind(path, start, -1, suffix);
-        if (end > 0 && path[end] == '.') {
+        if (end > start && path[end + strlen(suffix)] == '\0') {
             end--;
+        } else {
+            end = -1;
         }
     } else {
         end = -1;
-- 
2.43.0


From 1d3bb5dd218bf5c7c43d54a45e5b2e4c141ad41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 18/62] fix: zt_buf_drain did not shrink the buffer's capacity
 by what it drained

---
 src/libzt/zt_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index b462599..9f57495 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -79,7 +79,7 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
 
     if (len < b->len) {
         b->len -= len;
-        b->max -= (size_t)((char *)b->top - (char *)b->buf);
+        b->max -= len;
         b->buf  = ((char *)b->buf + len);
     } else {
         b->len = 0;
-- 
2.43.0


From a83ebfb174424117679764abe5fc88079f7b9ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 19/62] fix: zt_buf_expand of a drained buffer reallocated a
 pointer inside the allocation

---
 src/libzt/zt_buf.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index 9f57495..45d66ee 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -64,7 +64,12 @@ zt_buf_expand(zt_buf_t * b, size_t len) {
         b->top = b->buf;
     }
 
-    b->buf = realloc(b->buf, b->len + rlen);
+    if (b->buf != b->top) {
+        /* drained: move what is left back to the start of the allocation */
+        memmove(b->top, b->buf, b->len);
+    }
+
+    b->buf = realloc(b->top, b->len + rlen);
     b->top = b->buf;
     b->max = b->len + rlen;
 
-- 
2.43.0


From 5371425ff36af4286e98b2e95305b13134032dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 20/62] fix: zt_bstream_clone lost the byte order flag

---
 src/libzt/zt_bstream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index a3b97c1..8e3cedb 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -105,6 +105,7 @@ zt_bstream_clone(zt_bstream_t bs)
     clone = zt_calloc(struct zt_bstream, 1);
     clone->data = zt_array_copy(bs->data, zt_array_length(bs->data));
     clone->offt = bs->offt;
+    clone->flipendian = bs->flipendian;
 
     return clone;
 }
-- 
2.43.0


From 5af705439f8f6b7477073e3c1835cbfb5b31a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 21/62] fix: zt_bstream_truncate left the position behind the
 end, the next write went out of bounds

---
 src/libzt/zt_bstream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index 8e3cedb..0bc86df 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -50,6 +50,7 @@ size_t
 zt_bstream_truncate(zt_bstream_t bs)
 {
     zt_assert(bs);
+    bs->offt = 0;
     return zt_array_set_length(bs->data, 0);
 }
 
-- 
2.43.0


From d9de837a92d8914e11e676692cfcbe3707ded731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 22/62] fix: zt_array_resize of an array whose length was set
 to 0 leaked its data

---
 src/libzt/zt_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index f10084c..5b287cb 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -81,7 +81,7 @@ zt_array_resize(zt_array_t array, size_t len)
     zt_assert(array);
     zt_assert(len > 0);
 
-    if (array->length == 0) {
+    if (array->data == NULL) {
         array->data = zt_calloc(char, len * array->size);
     } else if (len > 0) {
         array->data = zt_realloc(char, array->data, len * array->size);
-- 
2.43.0


From 0ed7741e50899ad95790dd0edc9a2187bbef96fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 23/62] fix: zt_queue_dequeue of an empty queue returned the
 queue itself as an element

---
 src/libzt/zt_queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_queue.h b/src/libzt/zt_queue.h
index 40de772..1af57da 100644
--- a/src/libzt/zt_queue.h
+++ b/src/libzt/zt_queue.h
@@ -23,6 +23,10 @@ zt_queue_dequeue(zt_queue_t *queue)
 {
     zt_queue_t * elt;
 
+    if(zt_queue_empty(queue)) {
+        return NULL;
+    }
+
     elt = zt_elist_get_prev(queue);
     zt_elist_remove(elt);
     return (elt);
-- 
2.43.0


From 41dc248bc515300482bec94922242abba5b81d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 24/62] fix: zt_elist_join of an empty list linked that list's
 head in as an element

---
 src/libzt/zt_list.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_list.h b/src/libzt/zt_list.h
index 0cbafcf..981c16d 100644
--- a/src/libzt/zt_list.h
+++ b/src/libzt/zt_list.h
@@ -96,6 +96,10 @@ zt_elist_join(zt_elist_t *head, zt_elist_t *list)
     zt_elist_t *last = list->prev;
     zt_elist_t *at = head->next;
 
+    if (zt_elist_empty(list)) {
+        return;
+    }
+
     first->prev = head;
     head->next = first;
 
-- 
2.43.0


From 129c0b46b876f49a8de8faed3d59bc5a56cb8db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 25/62] fix: zt_table_del of a key behind others in its bucket
 dropped the entries in between

---
 src/libzt/zt_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 0888d7a..0fcd1c9 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -252,6 +252,7 @@ zt_table_del(zt_table *h, const void *key, size_t key_len)
             }
         }
 
+        prev = node;
         node = node->next;
     }
     errno = ENOENT;
-- 
2.43.0


From c31997853d9d9639899b6d157bed077ccdf52a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 26/62] fix: zt_table bucket index could be outside the buckets
 (USE_HINT sizes, 65535 buckets, 64 bit hashes)

---
 src/libzt/zt_table.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 0fcd1c9..329219b 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -28,12 +28,12 @@ unsigned long powers_of_2[] = { 2,            4,         8,
                                 128,          256,       512,
                                 1024,         2048,      4096,
                                 8192,         16384,     32768,
-                                65535,        131072,    262144,
+                                65536,        131072,    262144,
                                 524288,       1048576,   2097152,
                                 4194304,      8388608,   16777216,
                                 33554432,     67108864,  134217728,
                                 268435456,    536870912, 1073741824,
-                                2147483648UL, UINT_MAX };
+                                2147483648UL, 4294967296UL };
 
 struct table_node {
     void              * datum;
@@ -58,6 +58,13 @@ struct zt_table {
     struct table_node   **buckets;
 };
 
+static size_t
+bucket_of(zt_table *h, unsigned long nkey)
+{
+    ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    return nkey % h->num_buckets;
+}
+
 #define ZT_DEFAULT_TABLE_POOL "zt.table.pool"
 
 zt_mem_pool *
@@ -100,7 +107,7 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     table->cdata = cdata;
 
     if (flags & ZT_TABLE_SIZE_USE_HINT) {
-        nbuckets = hint;
+        nbuckets = hint > 0 ? hint : 1;
     } else {
         int i = 0;
         int len = sizeof_array(powers_of_2);
@@ -169,7 +176,7 @@ zt_table_set(zt_table *h, const void *key, size_t key_len, const void *datum, si
     struct table_node * node;
     struct table_node * nn;
 
-    ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey = bucket_of(h, nkey);
     /* ZT_LOG_XDEBUG("for key %d hash key is: %d", (int)key, nkey); */
 
     nn = h->buckets[nkey];
@@ -208,7 +215,7 @@ zt_table_get(zt_table *h, const void *key, size_t key_len)
     nkey = h->func(key, key_len, h->cdata);
     skey = nkey;
 
-    ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey = bucket_of(h, nkey);
     node = h->buckets[nkey];
 
     while (node) {
@@ -232,7 +239,7 @@ zt_table_del(zt_table *h, const void *key, size_t key_len)
     unsigned long       nkey = h->func(key, key_len, h->cdata);
     unsigned long       skey = nkey;
 
-    ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey = bucket_of(h, nkey);
 
     prev = node = h->buckets[nkey];
 
-- 
2.43.0


From 1e3132be50f77729cace52764aa85c0cfce026e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 27/62] fix: zt_table_compare_buff took buffers that differ
 behind a NUL byte for equal

---
 src/libzt/zt_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 329219b..33ad396 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -369,7 +369,7 @@ int
 zt_table_compare_buff(const void *lhs, size_t lhs_len, const void *rhs, size_t rhs_len, void *cdata UNUSED)
 {
     if(lhs_len == rhs_len) {
-        if (strncmp((char *)lhs, (char *)rhs, lhs_len) == 0) {
+        if (memcmp(lhs, rhs, lhs_len) == 0) {
             return 1;
         }
     }
-- 
2.43.0


From bf2963bf8241a75c7dfa4fd0208d1ec55daff6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 28/62] fix: zt_table_init printed a NULL name

---
 src/libzt/zt_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 33ad396..2a4212e 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -134,7 +134,7 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     }
 
 
-    snprintf(tname, sizeof_array(tname), "%s (table node pool)", name);
+    snprintf(tname, sizeof_array(tname), "%s (table node pool)", table->name);
     table->node_pool = zt_mem_pool_init(tname, nbuckets,
                                         sizeof(struct table_node), NULL, NULL, 0);
 
-- 
2.43.0


From 7bacc6c1cfa8a38f3ed270862019df22744c7137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 29/62] fix: zt_set_remove never found its element and shrank
 the set all the same

---
 src/libzt/zt_set.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 453263c..e5de785 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -57,9 +57,33 @@ zt_set_insert(zt_set *set, const void *data, size_t len)
     return zt_table_set(set->tbl, (void *)data, len, (void *)data, len);
 }
 
+struct _set_find {
+    void * data;
+    size_t len;
+};
+
+static int
+_find(void *key UNUSED, size_t key_len, void *datum, size_t datum_len UNUSED, void *param)
+{
+    struct _set_find * f = (struct _set_find *)param;
+
+    if (datum == f->data) {
+        f->len = key_len;
+        return 1;
+    }
+    return 0;
+}
+
 int zt_set_remove(zt_set *set, void **data)
 {
-    *data = zt_table_del(set->tbl, *data, 0);
+    struct _set_find f = { *data, 0 };
+
+    if (zt_table_for_each(set->tbl, _find, &f) == 0) {
+        *data = NULL;
+        return 1;
+    }
+
+    *data = zt_table_del(set->tbl, f.data, f.len);
     set->length--;
     return 0;
 }
-- 
2.43.0


From 141e04901c9b5b553ef25bb56c804c55eafe470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 30/62] fix: set union, intersection and difference stopped at
 the first element already in the result

---
 src/libzt/zt_set.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index e5de785..8a92b69 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -99,7 +99,8 @@ static int _union(void *key UNUSED, size_t key_len, void *datum, size_t datum_le
 
     p = (struct _set_pair *)param;
 
-    return zt_set_insert(p->s2, datum, datum_len);
+    zt_set_insert(p->s2, datum, datum_len);
+    return 0;
 }
 
 int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
@@ -121,7 +122,7 @@ static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datu
     p = (struct _set_pair *)param;
 
     if (zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        zt_set_insert(p->s2, datum, datum_len);
     }
     return 0;
 }
@@ -143,7 +144,7 @@ static int _difference(void *key UNUSED, size_t key_len, void *datum, size_t dat
     p = (struct _set_pair *)param;
 
     if (!zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        zt_set_insert(p->s2, datum, datum_len);
     }
     return 0;
 }
-- 
2.43.0


From cc0a7dad292704bc25f91ad4f6f019e521262de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:41 +0000
Subject: [PATCH 31/62] fix: zt_set_size named a field that is not there

---
 src/libzt/zt_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.h b/src/libzt/zt_set.h
index 3f5be60..134abec 100644
--- a/src/libzt/zt_set.h
+++ b/src/libzt/zt_set.h
@@ -13,7 +13,7 @@ struct zt_set {
 };
 typedef int (*zt_set_iterator)(void *, void *);
 
-#define zt_set_size(set) ((set)->size)
+#define zt_set_size(set) ((set)->length)
 
 zt_set *zt_set_init(int (*match)(const void *key1, size_t key1_len, const void *key2, size_t key2_len, void *cdata),
                     void (*destroy)(void *data),
-- 
2.43.0


From 665544f7f9e686dfd02e6751287a0ff6aee5b10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:20 +0000
Subject: [PATCH 32/62] fix: pool elements whose size is not a multiple of the
 word size were misaligned

---
 src/libzt/zt_mem.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 2125bec..58cedcc 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -185,6 +185,9 @@ zt_mem_pool_init(char *name, ssize_t elts,
     size_t        npages;
     size_t        pcache;
 
+    /* keep every element and its header aligned */
+    size = (size + sizeof(unsigned long) - 1) & ~(sizeof(unsigned long) - 1);
+
     x_calculate_page_data(elts ? elts : 1, size, &npage_size, &epp, &npages);
 
     if (!mem_atexit) {
-- 
2.43.0


From b6e8a0a589b19028139fed6a09a472a274a85e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 33/62] fix: zt_mem_pool_release_free_pages did not count the
 pages it freed

---
 src/libzt/zt_mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 58cedcc..21889ff 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -322,7 +322,6 @@ zt_mem_pool_release(void **data)
                                   pool->release_test_cb_data)) {
             /* release the page */
             zt_mem_page_destroy(page);
-            pool->page_frees++;
         }
     }
 }
@@ -684,6 +683,7 @@ zt_mem_page_destroy(zt_mem_page *page)
 
     page->parent_pool->npages--;
     page->parent_pool->nfree_pages--;
+    page->parent_pool->page_frees++;
 
     size = sizeof(zt_mem_elt) + page->parent_pool->elt_size;
     elt = (zt_mem_elt *)page->data;
-- 
2.43.0


From 8d125659905bc189e2e0e2ffd2f708d8d0c5d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 34/62] fix: a pool group with fewer named descriptors than its
 length dereferenced NULL pools

---
 src/libzt/zt_mem.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 21889ff..63e21e3 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -563,12 +563,15 @@ zt_mem_pool_group_init(zt_mem_pool_desc *group, size_t len)
                                             group[i].cb_data,
                                             group[i].flags);
         if (!ngroup->pools[i]) {
-            while (--i) {
+            while (i--) {
                 zt_mem_pool_destroy(&ngroup->pools[i]);
             }
+            zt_free(ngroup->pools);
+            zt_free(ngroup);
             return 0;
         }
     }
+    ngroup->npools = i;
 
     return ngroup;
 }
-- 
2.43.0


From 2cf0f6c6e013393288802c6dbac1cfb2542c132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 35/62] fix: zt_ptr_array_del missed a duplicate moved into the
 gap and failed when it succeeded

---
 src/libzt/zt_ptr_array.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 2adf433..a956656 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -95,6 +95,7 @@ zt_ptr_array_move_idx_to_idx(zt_ptr_array * array, int32_t src_idx, int32_t dst_
 int
 zt_ptr_array_del(zt_ptr_array * array, void * data) {
     int32_t i;
+    int     found = -1;
 
     if (array == NULL || data == NULL) {
         return -1;
@@ -104,6 +105,8 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
         if (array->array[i] == data) {
             zt_ptr_array_move_idx_to_idx(array, array->count - 1, i);
             array->count--;
+            i--; /* look at the element moved here too */
+            found = 0;
 
             if (array->free_cb) {
                 array->free_cb(data);
@@ -111,7 +114,7 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
         }
     }
 
-    return -1;
+    return found;
 }
 
 int
-- 
2.43.0


From 0d869ca34351fb115915198dd1d6adc699bade85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 36/62] fix: zt_ptr_array index checks let negative indices and
 the one past the end through

---
 src/libzt/zt_ptr_array.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index a956656..fec814d 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -79,11 +79,11 @@ zt_ptr_array_resize(zt_ptr_array * array, int32_t expand) {
 
 int
 zt_ptr_array_move_idx_to_idx(zt_ptr_array * array, int32_t src_idx, int32_t dst_idx) {
-    if (src_idx > array->count) {
+    if (src_idx < 0 || src_idx >= array->count) {
         return -1;
     }
 
-    if (dst_idx > array->count) {
+    if (dst_idx < 0 || dst_idx >= array->count) {
         return -1;
     }
 
@@ -186,10 +186,10 @@ void *
 zt_ptr_array_get_idx(zt_ptr_array * array, int32_t idx) {
     if (idx == -1) {
         /* return the last element */
-        return array->array[array->count - 1];
+        idx = array->count - 1;
     }
 
-    if (idx >= array->count) {
+    if (idx < 0 || idx >= array->count) {
         return NULL;
     }
 
-- 
2.43.0


From 52dd24aca4bde64bea28c3ddb3dc2a6392dfe7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 37/62] fix: zt_ptr_array_resize relied on signed overflow to
 detect a size that is too large

---
 src/libzt/zt_ptr_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index fec814d..8e10614 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -56,7 +56,7 @@ zt_ptr_array_resize(zt_ptr_array * array, int32_t expand) {
         size = expand;
     }
 
-    if ((array->size + size) < array->size) {
+    if (size < 0 || size > INT32_MAX - array->size) {
         /* error on overflow */
         return -1;
     }
-- 
2.43.0


From fdc9c8c8e7711ff9e8b4e7106bf278f797274525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 38/62] fix: zt_ptr_array_cat of an array with itself never
 ended

---
 src/libzt/zt_ptr_array.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 8e10614..837b398 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -120,12 +120,14 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
 int
 zt_ptr_array_cat(zt_ptr_array * dst, zt_ptr_array * src) {
     int32_t i;
+    int32_t count;
 
     if (dst == NULL || src == NULL) {
         return -1;
     }
 
-    for (i = 0; i < src->count; i++) {
+    count = src->count;
+    for (i = 0; i < count; i++) {
         if (zt_ptr_array_add(dst, zt_ptr_array_get_idx(src, i))) {
             return -1;
         }
-- 
2.43.0


From 6efcbd44acb3245845247a958ccd0c9bb6e32f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 39/62] fix: destroying a subpool made its parent forget all
 its other subpools

---
 src/libzt/zt_ez_mempool.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index cc6f6be..f6aca7e 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -91,7 +91,14 @@ zt_ez_mempool_destroy(zt_ez_mempool *pool) {
     pool_ptr = pool->subpools;
 
     if (pool->parent != NULL) {
-        pool->parent->subpools = NULL;
+        zt_ez_mempool **link = &pool->parent->subpools;
+
+        while (*link != NULL && *link != pool) {
+            link = &(*link)->next;
+        }
+        if (*link == pool) {
+            *link = pool->next;
+        }
     }
 
     free_chunks(pool->chunks);
-- 
2.43.0


From 603b7ee0bdf8a0c34d9330a72225204d294e8d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 40/62] fix: zt_ez_mempool_strdup of an empty string was not
 owned by the pool

---
 src/libzt/zt_ez_mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index f6aca7e..1b8eba9 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -131,7 +131,7 @@ char *
 zt_ez_mempool_strdup(zt_ez_mempool *pool, const char *s) {
     char *ret = zt_strdup(s);
 
-    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret), free);
+    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret) + 1, free);
 
     return ret;
 }
-- 
2.43.0


From 2b80815e23cbf03b80114fc4e7ec76afa5221949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 41/62] fix: unsigned checked subtraction refused equal
 operands

---
 src/libzt/zt_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index c098de9..cf21c14 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -74,7 +74,7 @@ ZT_INT_SIGNED_ADD(signed long, long, LONG)
     INLINE static ltype UNUSED ZT_CONC3(zt_, sltype, _sub) (ltype lhs, \
                                                   ltype rhs) \
     {                                                        \
-        zt_assert(lhs > rhs);                                \
+        zt_assert(lhs >= rhs);                                \
         return lhs - rhs;                                    \
     }
 
-- 
2.43.0


From ede561c045c386df5d04f2e9e8a73b4fcf16cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 42/62] fix: signed checked division refused two negative
 operands

---
 src/libzt/zt_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index cf21c14..c8fdaf5 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -184,7 +184,7 @@ ZT_INT_UNSIGNED_DIV(unsigned long, ulong, ULONG, unsigned long long)
         cvtype _tmp;                                          \
         zt_assert(rhs != 0);                                  \
         if (ZT_INT_IS_SIGNED(lhs) && ZT_INT_IS_SIGNED(rhs)) { \
-            zt_assert(lhs != ZT_CONC(sutype, _MIN) && rhs == -1);\
+            zt_assert(lhs != ZT_CONC(sutype, _MIN) || rhs != -1);\
         }                                                     \
         if (ZT_INT_SAME_SIGN(lhs, rhs)) {                     \
             return lhs / rhs;                                 \
-- 
2.43.0


From 0ff85bb12cee76ea5cf7c0e9b98d6a227fde1af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 43/62] fix: sha1_update scrambled the caller's data behind the
 first block

---
 src/libzt/zt_sha1.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 1af5ed8..728773b 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -56,11 +56,11 @@ _sha1_transform(uint32_t state[5], uint8_t buffer[64])
     uint32_t       c;
     uint32_t       d;
     uint32_t       e;
-    CHAR64LONG16 * block;
+    CHAR64LONG16   copy;
+    CHAR64LONG16 * block = &copy;
 
-    /* uint32_t      block[80]; */
-
-    block = (CHAR64LONG16 *)buffer;
+    /* the rounds work in place: not in the caller's data */
+    memcpy(block, buffer, sizeof(copy));
 
     a = state[0];
     b = state[1];
-- 
2.43.0


From 58966bb22734c0f919cc5a169df2e9f9de881fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 44/62] fix: sha1_update overflowed on lengths of 4 GB and a
 little less

---
 src/libzt/zt_sha1.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 728773b..60e1795 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -113,28 +113,24 @@ zt_sha1_init(zt_sha1_ctx *ctx)
 void
 zt_sha1_update(zt_sha1_ctx *ctx, uint8_t *data, size_t len)
 {
-    uint32_t      i;
-    uint32_t      j;
-    uint32_t      llen;
-
-    /* FIXME: 64bit (or better unbounded) sha1_update */
-    zt_assert(len <= UINT_MAX-1);
-    llen = (uint32_t)len;
+    size_t        i;
+    size_t        j;
+    uint32_t      bits = (uint32_t)len << 3;
 
     j = (ctx->count[0] >> 3) & 63;
-    if ((ctx->count[0] += llen << 3) < (llen << 3)) {
+    if ((ctx->count[0] += bits) < bits) {
         ctx->count[1]++;
     }
-    ctx->count[1] += (llen >> 29);
-    if ((j + llen) > 63) {
+    ctx->count[1] += (uint32_t)((uint64_t)len >> 29);
+    if (len >= 64 - j) {
         memcpy(&ctx->buffer[j], data, (i = 64 - j));
         _sha1_transform(ctx->state, ctx->buffer);
-        for (; i + 63 < llen; i += 64) {
+        for (; len - i >= 64; i += 64) {
             _sha1_transform(ctx->state, &data[i]);
         }
         j = 0;
     } else { i = 0; }
-    memcpy(&ctx->buffer[j], &data[i], llen - i);
+    memcpy(&ctx->buffer[j], &data[i], len - i);
 }
 
 void
-- 
2.43.0


From 397c7c3ac40b93dd8906c4eb2f41766ff6877817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:00 +0000
Subject: [PATCH 45/62] fix: sha1_tostr left the text unterminated

---
 src/libzt/zt_sha1.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 60e1795..fb7d8c8 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -175,6 +175,7 @@ char*
 zt_sha1_tostr(uint8_t digest[20], char sha1[41])
 {
     zt_binary_to_hex(digest, 20, sha1, 41);
+    sha1[40] = 0;
     return sha1;
 }
 
-- 
2.43.0


From 58b676fa4666b653d94c31ce3bd783a521431e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:09 +0000
Subject: [PATCH 46/62] fix: zt_time called the function once more than asked
 for

---
 src/libzt/zt_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index ac1c97c..1b8dd21 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -127,7 +127,7 @@ zt_time(int n, struct time_result *tv, void *(*test)(void *), void *data)
     getrusage(RUSAGE_SELF, &rbefore);
 
     if (test && n) {
-        for (i = 0; i <= n; i++) {
+        for (i = 0; i < n; i++) {
             ret = test(data);
         }
     }
-- 
2.43.0


From f1e4baa81b55681eaf616511db8d8875f0defde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 47/62] fix: zt_time_calibrate always measured zero

---
 src/libzt/zt_time.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index 1b8dd21..ad4e9ec 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -103,7 +103,12 @@ static struct time_result _calibration_time = { { 0, 0 }, { 0, 0 } };
 void
 zt_time_calibrate(void)
 {
-    zt_time(0, &_calibration_time, NULL, NULL);
+    struct time_result result = { { 0, 0 }, { 0, 0 } };
+
+    /* not in place: zt_time takes the calibration off what it measures */
+    _calibration_time = result;
+    zt_time(0, &result, NULL, NULL);
+    _calibration_time = result;
 }
 
 /*!
-- 
2.43.0


From 7968df17f120e78e18672c2fa8bc5e60865ea41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 48/62] fix: uuid_fromstr accepted malformed text

---
 src/libzt/zt_uuid.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index c1ac0ac..d2141a7 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -337,11 +337,11 @@ zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
     zt_assert(uuidstr);
     zt_assert(uuid);
 
+    if (zt_uuid_isvalid(uuidstr, flags) != 0) {
+        return -1;
+    }
 
     if (flags == zt_uuid_std_fmt) {
-        if (strlen(uuidstr) != UUID_STR_LEN) {
-            return -1;
-        }
         sscanf(uuidstr, "%8s-%4s-%4s-%4s-%12s",
                uuid_hex,
                &uuid_hex[8],
@@ -350,9 +350,6 @@ zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
                &uuid_hex[20]);
         zt_hex_to_binary(uuid_hex, UUID_SHORT_STR_LEN, uuid->data.bytes, UUID_ALEN);
     } else if (flags == zt_uuid_short_fmt) {
-        if (strlen(uuidstr) != UUID_SHORT_STR_LEN) {
-            return -1;
-        }
         memcpy(uuid_hex, uuidstr, UUID_SHORT_STR_LEN);
         zt_hex_to_binary(uuid_hex, UUID_SHORT_STR_LEN, uuid->data.bytes, UUID_ALEN);
     } else if ((flags == zt_uuid_base62_fmt) || (flags == zt_uuid_base62_hashable_fmt)) {
-- 
2.43.0


From 5b64cda17cd411d0333f0c0c8a28af1ba6579bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 49/62] fix: base62 uuid text past 64 bits a half was accepted
 with bits lost

---
 src/libzt/zt_uuid.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index d2141a7..c76c218 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -522,7 +522,11 @@ base62_decode_int64(const char * in, size_t ilen, uint64_t * out) {
             return -1; /* invalid character */
         }
 
-        v += n * (uint64_t)(powl(62, tlen - i - 1));
+        if (v > (UINT64_MAX - n) / 62) {
+            return -1; /* more than 64 bits */
+        }
+
+        v = v * 62 + n;
     }
 
     *out = v;
-- 
2.43.0


From 536b0baae2cae3ce0371ee394831e8855905ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:12 +0000
Subject: [PATCH 50/62] fix: gc lost its place when the value to scan next was
 protected, unregistered or marked

---
 src/libzt/zt_gc.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index f26593f..3e816ca 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -75,6 +75,15 @@ static int is_protected(zt_gc_collectable_t *mark)
     return ZT_BIT_ISSET(mark->colour, protected);
 }
 
+/* take a value from its list; a scan under way goes on behind it */
+static void leave_list(zt_gc_t *gc, zt_gc_collectable_t *mark)
+{
+    if (gc->scan == &mark->list) {
+        gc->scan = mark->list.next;
+    }
+    zt_elist_remove(&mark->list);
+}
+
 void
 zt_gc_protect(zt_gc_t *gc, void *value)
 {
@@ -83,7 +92,7 @@ zt_gc_protect(zt_gc_t *gc, void *value)
     mark = (zt_gc_collectable_t    *)value;
 
     gc->clear_white(mark);
-    zt_elist_remove(&mark->list);
+    leave_list(gc, mark);
     zt_elist_add(gc->grey, &mark->list);
     ZT_BIT_SET(mark->colour, protected);
 }
@@ -233,11 +242,11 @@ zt_gc_prepare(zt_gc_t *gc UNUSED, void *v)
 }
 
 void
-zt_gc_unregister(zt_gc_t *gc UNUSED, void *v)
+zt_gc_unregister(zt_gc_t *gc, void *v)
 {
     zt_gc_collectable_t * mark = (zt_gc_collectable_t *)v;
 
-    zt_elist_remove(&mark->list);
+    leave_list(gc, mark);
 
     if (++gc->current_allocs < gc->allocs_before_scan) {
         zt_gc_collect(gc, 0);
@@ -353,7 +362,7 @@ zt_gc_collect(zt_gc_t *gc, int full_scan)
         gc->clear_white(mark);
         gc->mark_fn(gc, gc->private_data, elt);
 
-        next = gc->scan->next;
+        next = gc->scan == elt ? elt->next : gc->scan;
 
         if (!is_protected(mark)) {
             /* if it is protected leave it in the grey list
@@ -396,7 +405,7 @@ zt_gc_mark(zt_gc_t *gc, void *value)
 
     if (!is_protected(mark) && gc->is_white(mark)) {
         gc->clear_white(mark);
-        zt_elist_remove(&mark->list);
+        leave_list(gc, mark);
         zt_elist_add_tail(gc->grey, &mark->list);
         return TRUE;
     }
-- 
2.43.0


From f7a84a868ed0a5c9525232754fb3e1295ae8514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:12 +0000
Subject: [PATCH 51/62] fix: gc did not scan what a value protected during a
 scan refers to

---
 src/libzt/zt_gc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index 3e816ca..99a026c 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -93,7 +93,8 @@ zt_gc_protect(zt_gc_t *gc, void *value)
 
     gc->clear_white(mark);
     leave_list(gc, mark);
-    zt_elist_add(gc->grey, &mark->list);
+    /* behind the scan's place: what it refers to is still to be marked */
+    zt_elist_add_tail(gc->grey, &mark->list);
     ZT_BIT_SET(mark->colour, protected);
 }
 
-- 
2.43.0


From 357dbf98790c05395b225550ad72f7c2fcdad24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:12 +0000
Subject: [PATCH 52/62] fix: ipv4_tbl search read past the list of prefix
 lengths when all 32 are in use

---
 src/libzt/zt_ipv4_tbl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 7c37ce5..61cb934 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -261,7 +261,7 @@ zt_ipv4_tbl_search_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         return tbl->any;
     }
 
-    while (1) {
+    while (i < 32) {
         uint32_t addr_masked;
         uint32_t key;
 
-- 
2.43.0


From 7e4ae0f7cc8f8eb4abb629e74a92e06cf19602c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 53/62] fix: zt_ipv4_str2net read past the end of short
 strings, and took negative prefix lengths

---
 src/libzt/zt_ipv4_tbl.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 61cb934..1dce264 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -353,7 +353,7 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
     if ((cp = strchr(str_cp, '/')) != NULL) {
         bitlen = atoi(cp + 1);
 
-        if ((cp - str_cp) > MAXLINE - 1) {
+        if ((cp - str_cp) > MAXLINE - 1 || bitlen < 0) {
             free(save);
             free(str_cp);
             return -1;
@@ -362,7 +362,14 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
         memcpy(save, str, cp - str_cp);
     } else {
         bitlen = 32;
-        memcpy(save, str, MAXLINE);
+
+        if (strlen(str) > MAXLINE - 1) {
+            free(save);
+            free(str_cp);
+            return -1;
+        }
+
+        memcpy(save, str, strlen(str));
     }
 
     if (bitlen > 32) {
-- 
2.43.0


From e128aa0ed9be51c574f7989361f2769919d7dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 54/62] fix: ipv4 tables used the memory of other tables

---
 src/libzt/zt_ipv4_tbl.c | 76 +++++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 29 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 1dce264..3c16132 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -37,17 +37,18 @@ zt_ipv4_tbl_init(uint32_t size)
 
     memset(pools, 0, sizeof(pools));
 
-    pools[0].name = "zt_ipv4_node_hash";
+    /* smallest first: see tbl_alloc */
+    pools[0].name = "zt_ipv4_addr";
     pools[0].elts = 1;
-    pools[0].size = sizeof(zt_ipv4_node *) * rsize;
+    pools[0].size = sizeof(zt_ipv4_addr);
 
     pools[1].name = "zt_ipv4_node";
     pools[1].elts = 1;
     pools[1].size = sizeof(zt_ipv4_node);
 
-    pools[2].name = "zt_ipv4_addr";
+    pools[2].name = "zt_ipv4_node_hash";
     pools[2].elts = 1;
-    pools[2].size = sizeof(zt_ipv4_addr);
+    pools[2].size = sizeof(zt_ipv4_node *) * rsize;
 
     if (!(tbl = calloc(sizeof(zt_ipv4_tbl), 1))) {
         return NULL;
@@ -62,11 +63,27 @@ zt_ipv4_tbl_init(uint32_t size)
 }
 
 
-zt_ipv4_addr   *
-zt_ipv4_addr_frm_str(const char *netstr)
+/* memory of the table itself, or without one of the pool of that name */
+static void    *
+tbl_alloc(zt_ipv4_tbl *tbl, char *name, size_t size)
+{
+    zt_mem_pool *pool;
+
+    if (tbl) {
+        return zt_mem_pool_group_alloc(tbl->pools, size);
+    }
+
+    if (!(pool = zt_mem_pool_get(name))) {
+        return NULL;
+    }
+
+    return zt_mem_pool_alloc(pool);
+}
+
+static zt_ipv4_addr *
+addr_frm_str(zt_ipv4_tbl *tbl, const char *netstr)
 {
     zt_ipv4_addr *addr = NULL;
-    zt_mem_pool  *pool = NULL;
     int           bitlen = 32;
     uint32_t      ipaddr;
 
@@ -74,15 +91,11 @@ zt_ipv4_addr_frm_str(const char *netstr)
         return NULL;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_addr"))) {
-        return NULL;
-    }
-
     if (zt_ipv4_str2net(netstr, &ipaddr, &bitlen)) {
         return NULL;
     }
 
-    if (!(addr = zt_mem_pool_alloc(pool))) {
+    if (!(addr = tbl_alloc(tbl, "zt_ipv4_addr", sizeof(zt_ipv4_addr)))) {
         return NULL;
     }
 
@@ -95,26 +108,28 @@ zt_ipv4_addr_frm_str(const char *netstr)
     return addr;
 }
 
-zt_ipv4_node   *
-zt_ipv4_node_str_init(const char *netstr)
+zt_ipv4_addr   *
+zt_ipv4_addr_frm_str(const char *netstr)
+{
+    return addr_frm_str(NULL, netstr);
+}
+
+static zt_ipv4_node *
+node_str_init(zt_ipv4_tbl *tbl, const char *netstr)
 {
     zt_ipv4_node *node;
     zt_ipv4_addr *addr;
-    zt_mem_pool  *pool;
 
     if (!netstr) {
         return NULL;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_node"))) {
+    if (!(addr = addr_frm_str(tbl, netstr))) {
         return NULL;
     }
 
-    if (!(node = zt_mem_pool_alloc(pool))) {
-        return NULL;
-    }
-
-    if (!(addr = zt_ipv4_addr_frm_str(netstr))) {
+    if (!(node = tbl_alloc(tbl, "zt_ipv4_node", sizeof(zt_ipv4_node)))) {
+        zt_mem_pool_release((void **)&addr);
         return NULL;
     }
 
@@ -124,11 +139,16 @@ zt_ipv4_node_str_init(const char *netstr)
     return node;
 }
 
+zt_ipv4_node   *
+zt_ipv4_node_str_init(const char *netstr)
+{
+    return node_str_init(NULL, netstr);
+}
+
 int
 zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
 {
     zt_ipv4_node *node_slot;
-    zt_mem_pool  *pool;
     uint32_t      key;
     uint8_t       blen;
     int           is_in;
@@ -146,17 +166,13 @@ zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         return 0;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_node_hash"))) {
-        return -1;
-    }
-
     is_in = 0;
     blen = node->addr->bitlen - 1;
 
     if (tbl->tbl[blen] == NULL) {
         zt_ipv4_node **hash_entry;
 
-        if (!(hash_entry = zt_mem_pool_alloc(pool))) {
+        if (!(hash_entry = tbl_alloc(tbl, "zt_ipv4_node_hash", sizeof(zt_ipv4_node *) * tbl->sz))) {
             return -1;
         }
 
@@ -224,7 +240,7 @@ zt_ipv4_tbl_add_frm_str(zt_ipv4_tbl * tbl, const char *netstr)
         return tbl->any;
     }
 
-    if (!(ipv4_node = zt_ipv4_node_str_init(netstr))) {
+    if (!(ipv4_node = node_str_init(tbl, netstr))) {
         return NULL;
     }
 
@@ -298,12 +314,14 @@ zt_ipv4_tbl_search_from_str(zt_ipv4_tbl * tbl, const char *netstr)
         return NULL;
     }
 
-    if (!(ipv4_node = zt_ipv4_node_str_init(netstr))) {
+    if (!(ipv4_node = node_str_init(tbl, netstr))) {
         return NULL;
     }
 
     matched = zt_ipv4_tbl_search_node(tbl, ipv4_node);
 
+    zt_mem_pool_release((void **)&ipv4_node->addr);
+
     zt_mem_pool_release((void **)&ipv4_node);
 
     return matched;
-- 
2.43.0


From 1093e9d4ab7c5090aef79f056d10343708c2af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:15 +0000
Subject: [PATCH 55/62] fix: zt_ipv4_tbl_destroy released no memory once a
 network was added

---
 src/libzt/zt_ipv4_tbl.c | 33 +++++++++++++++++++++++++++++++++
 src/libzt/zt_ipv4_tbl.h |  1 +
 2 files changed, 34 insertions(+)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 3c16132..ffdabe1 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -14,13 +14,45 @@ static uint32_t netmask_tbl[] = {
     0xFFFFFFFC, 0xFFFFFFFE, 0xFFFFFFFF
 };
 
+/* give back a node the table made itself */
+static void
+node_release(zt_ipv4_tbl *tbl, zt_ipv4_node *node)
+{
+    if (node && node->tbl == tbl) {
+        zt_mem_pool_release((void **)&node->addr);
+        zt_mem_pool_release((void **)&node);
+    }
+}
+
 void
 zt_ipv4_tbl_destroy(zt_ipv4_tbl *tbl)
 {
+    zt_ipv4_node *node;
+    uint32_t      key;
+    int           i;
+
     if (!tbl) {
         return;
     }
 
+    /* a pool with elements in use is not destroyed */
+    for (i = 0; i < 32; i++) {
+        if (tbl->tbl[i] == NULL) {
+            continue;
+        }
+
+        for (key = 0; key < tbl->sz; key++) {
+            while ((node = tbl->tbl[i][key])) {
+                tbl->tbl[i][key] = node->next;
+                node_release(tbl, node);
+            }
+        }
+
+        zt_mem_pool_release((void **)&tbl->tbl[i]);
+    }
+
+    node_release(tbl, tbl->any);
+
     if (tbl->pools) {
         zt_mem_pool_group_destroy(tbl->pools);
     }
@@ -135,6 +167,7 @@ node_str_init(zt_ipv4_tbl *tbl, const char *netstr)
 
     node->addr = addr;
     node->next = NULL;
+    node->tbl = tbl;
 
     return node;
 }
diff --git a/src/libzt/zt_ipv4_tbl.h b/src/libzt/zt_ipv4_tbl.h
index 459e1d2..f8a5d85 100644
--- a/src/libzt/zt_ipv4_tbl.h
+++ b/src/libzt/zt_ipv4_tbl.h
@@ -17,6 +17,7 @@ struct zt_ipv4_addr {
 struct zt_ipv4_node {
     zt_ipv4_node *next;
     zt_ipv4_addr *addr;
+    zt_ipv4_tbl  *tbl;      /* the table it was made for, if any */
 };
 
 struct zt_ipv4_tbl {
-- 
2.43.0


From 137c5016d0efd8a4831eef6bf040f124a3630825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:15 +0000
Subject: [PATCH 56/62] fix: cfg leaked the strings it replaced, and the copies
 of what it refused

---
 src/libzt/zt_cfg/cfg_private.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index adb2e97..49d6493 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -173,6 +173,7 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
     struct zt_cfg_block_ty * block_head = NULL;
     struct zt_cfg_value_ty * value = NULL;
     char                   * variable = NULL;
+    char                   * old = NULL;
 
     block_head = add_block(cfg, bvv->block);
     value = add_variable(block_head, bvv->variable);
@@ -181,7 +182,12 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
         value->altered = 1;
     }
 
+    if (value->type == zt_cfg_string) {
+        old = value->v.s;
+    }
+
     value->type = get_type(bvv->value, &value->v);
+    free(old);
 
     /* Check for refrences */
     if (value->type == zt_cfg_string) {
@@ -211,6 +217,7 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
                 char *variable_name, void *var, zt_cfg_type type)
 {
     struct cfg_bvv_ty bvv;
+    int               ret = 1;
 
     bvv.block = strdup(block_name);
     bvv.variable = strdup(variable_name);
@@ -226,7 +233,8 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
         case zt_cfg_bool:
             if ((*(int *)var == 1) || (*(int *)var == 0)) {
                 zt_log_printf(zt_log_err, "Invalid value for type zt_cfg_bool in zt_cfg_set!  Must be a string of (true|yes|no|false).");
-                return -1;
+                ret = -1;
+                break;
             }
         /* FALLTHRU */
         case zt_cfg_string:
@@ -234,15 +242,18 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
             break;
         default:
             zt_log_printf(zt_log_err, "Unknown type in cfg variable list");
-            return -1;
+            ret = -1;
+            break;
     }
 
-    cfg_insert_bvv(cfg, &bvv);
+    if (ret == 1) {
+        cfg_insert_bvv(cfg, &bvv);
+    }
 
     free(bvv.block);
     free(bvv.variable);
     free(bvv.value);
-    return 1;
+    return ret;
 }
 
 int
-- 
2.43.0


From 96e5dee25d4a12bd8f870297623b61b800e1f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:15 +0000
Subject: [PATCH 57/62] fix: a cfg reference that leads back to itself was
 followed for ever

---
 src/libzt/zt_cfg/cfg_private.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 49d6493..38cbde1 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -200,9 +200,16 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
             variable++;    /* move past the '.' */
             if ((b = get_block(cfg->head, block))) {
                 if ((v = get_variable(b->head, variable))) {
-                    free(value->v.s);    /* we had to be a string to get here */
-                    value->v.r = v;
-                    value->type = zt_cfg_ref;
+                    struct zt_cfg_value_ty* r = v;
+
+                    while (r != value && r->type == zt_cfg_ref) {
+                        r = r->v.r;
+                    }
+                    if (r != value) {    /* else it leads back here: no reference */
+                        free(value->v.s);    /* we had to be a string to get here */
+                        value->v.r = v;
+                        value->type = zt_cfg_ref;
+                    }
                 }
             }
             free(block);
-- 
2.43.0


From 1a93b3fb6b6e3f0702aca81f2f7e1a92829cad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:16 +0000
Subject: [PATCH 58/62] fix: cfg_ini refused a last line of one character, and
 read in front of an empty value

---
 src/libzt/zt_cfg/cfg_ini.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 469a95a..e5206e4 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -129,6 +129,7 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
             /* errno = EPROTO; */    /* Nope no EOF so some sort of protocol error */
             return 0;
         }
+        len++;    /* there is no \n to count */
     }
 
     val++;    /* val points to the beginning of value + any white space*/
@@ -149,9 +150,9 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
 
     vallen = strlen(val);
     /* strip trailing whitespace */
-    for (i = vallen - 1; i > 0; i--) {
-        if ((val[i] == ' ') || (val[i] == '\t')) {
-            val[i] = '\0';
+    for (i = vallen; i > 0; i--) {
+        if ((val[i - 1] == ' ') || (val[i - 1] == '\t')) {
+            val[i - 1] = '\0';
         } else {
             break;
         }
-- 
2.43.0


From b92eb017d1c2214b5ca7dea912ee0cdb3de719ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:16 +0000
Subject: [PATCH 59/62] fix: cfg_ini crashed on an overlong block name, and
 leaked what it had read before a syntax error

---
 src/libzt/zt_cfg/cfg_ini.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index e5206e4..c01df7a 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -44,8 +44,7 @@ zt_cfg_ini(char *file, int opts )
     cfg->filename = strdup(file);
     cfg->opts = opts;
     if (parse_cfg(cfg) < 0) {
-        free(cfg->filename);
-        free(cfg);
+        zt_cfg_priv_destructor(cfg);
         cfg = NULL;
     }
 
@@ -190,7 +189,9 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                     free(bvv.block);
                     bvv.block = NULL;
                 }
-                parse_block(file, &bvv);
+                if (parse_block(file, &bvv) < 0) {
+                    return -1;
+                }
                 cfg_discard_line(file);
                 break;
             case ';':
@@ -209,6 +210,7 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                 ungetc(c, file);
                 if (!(parse_line(file, &bvv))) {
                     zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\n", line);
+                    free(bvv.block);
                     return -1;
                 }
                 cfg_insert_bvv(cfg, &bvv);
-- 
2.43.0


From 4db209aaf8d423299bc82fa2ae68b77985e96bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:23 +0000
Subject: [PATCH 60/62] fix: the value of a short option without a long name
 crashed, and behind another letter was wrong

---
 src/libzt/zt_opts.c | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 2967df4..181c03f 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -90,39 +90,24 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
     char * p      = argv[argn];
     char * pp     = NULL;
     char * result = NULL;
-    char * lopt   = def[defn].lopt;
 
     *args_consumed = 0;
 
-    /* skip past any leading '-' */
-    while(*p == '-') { p++; }
-
-    pp = p;
-    do {
-        if (*pp == '=') {
-            result = ++pp;
-            break;
+    if (p[0] == '-' && p[1] == '-') {
+        /* long option: the value follows the first '=' */
+        if ((pp = strchr(p, '='))) {
+            result = pp + 1;
         }
-    } while (*pp++);
+    } else if ((pp = strchr(p, def[defn].sopt))) {
+        /* short option: the value follows the option's own letter */
+        if (*++pp) {
+            result = *pp == '=' ? pp + 1 : pp;
+        }
+    }
 
     if (!result) {
-        pp = p;
-        /* there was no '=' embedded
-         * try matching the long opt name
-         */
-        if (strcmp(lopt, pp) == 0) {
-            result = argv[argn + 1]; /* default to the next option */
-            *args_consumed = 1;
-        } else {
-            /* short opt */
-            pp++;
-            if(*pp) {
-                result = pp;
-            } else {
-                result = argv[argn + 1];
-                *args_consumed = 1;
-            }
-        }
+        result = argv[argn + 1]; /* default to the next option */
+        *args_consumed = 1;
     }
 
     if (!result) {
-- 
2.43.0


From 7b4555e03eb62331a64d121fb98a2d114c96e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:23 +0000
Subject: [PATCH 61/62] fix: the value attached to a short option was taken for
 options too, and unknown letters behind an option ignored

---
 src/libzt/zt_opts.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 181c03f..9b7bdf1 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -85,6 +85,9 @@ zt_opt_error_default(int code, char * fmt, ...) {
     return ret;
 }
 
+/* the value of the short option was found in the option's own argument */
+static int value_attached = 0;
+
 char *
 zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args_consumed, zt_opt_error error) {
     char * p      = argv[argn];
@@ -102,6 +105,7 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
         /* short option: the value follows the option's own letter */
         if (*++pp) {
             result = *pp == '=' ? pp + 1 : pp;
+            value_attached = 1;
         }
     }
 
@@ -471,6 +475,7 @@ zt_opt_process_args(int * argc, char ** argv, zt_opt_def_t * args, zt_opt_valida
 
 
 AGAIN:
+            found = 0;
             for (x = 0; args[x].cb; x++) {
                 if ((len == 0 && args[x].sopt != ZT_OPT_NSO && *p == args[x].sopt) || /* short opt */
                     /* long opt */
@@ -479,6 +484,7 @@ AGAIN:
                     int consumed = 0;
 
                     found = 1;
+                    value_attached = 0;
                     if ((consumed = args[x].cb(i, x, argc, argv, args, error)) < 0) {
                         /* error */
                         return consumed;
@@ -488,8 +494,9 @@ AGAIN:
                         i += consumed;
                     }
 
-                    if(!consumed && !long_opt && *(++p)) {
+                    if(!consumed && !value_attached && !long_opt && *(++p)) {
                         /* if we did not consume extra args AND
+                         * the rest is not the option's value AND
                          * we are a short option AND
                          * there are more short options to consume
                          */
-- 
2.43.0


From 15133b74a8ad47292cb9b009c7b8ce290b6b61f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:23 +0000
Subject: [PATCH 62/62] fix: an option whose value is missing crashed when the
 error handler returned

---
 src/libzt/zt_opts.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 9b7bdf1..eff8dbe 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -134,6 +134,10 @@ zt_opt_intmax(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
     int      args_consumed = 0;
     char   * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return -1;
+    }
+
     errno  = 0;
     result = strtoimax(arg, &end, 0);
 
@@ -163,6 +167,10 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return -1;
+    }
+
     errno  = 0;
     result = strtol(arg, &end, 0);
 
@@ -190,6 +198,10 @@ zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return -1;
+    }
+
     len = strlen(arg);
 
     if (len == 1) {
@@ -248,7 +260,7 @@ zt_opt_string(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
         *(char **)def[defn].cb_data = (void *)strdup(arg);
     }
 
-    return args_consumed;
+    return arg ? args_consumed : -1;
 }
 
 int
@@ -282,7 +294,7 @@ zt_opt_string_array(int argn, int defn, int * argc, char ** argv, zt_opt_def_t *
         *(char***)def[defn].cb_data = new_array;
     }
 
-    return args_consumed;
+    return arg ? args_consumed : -1;
 }
 
 static int
-- 
2.43.0

