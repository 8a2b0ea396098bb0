From f017a30861d6d29bad6e2e18639272be6662cdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:14 +0000
Subject: [PATCH 01/18] fix: reject over-long and non-ASCII encoding names
 instead of overrunning the name buffer

reiconv_lookup_from_name copied a name of any length into a buffer of
MAX_WORD_LENGTH + 2 bytes, and indexed gperf's 128-entry table with bytes
>= 0x80.
---
 lib/iconv.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index d2cd52e..37e5898 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -75,6 +75,21 @@ _CPPP_API size_t reiconv_name_canonicalize(const char *name, char *outbuf)
 _CPPP_API int reiconv_lookup_from_name(const char *encoding)
 {
     char buf[MAX_WORD_LENGTH + 2];
+    size_t name_len = 0;
+
+    // No alias is longer than MAX_WORD_LENGTH or contains a non-ASCII character.
+    for (const char *cp = encoding; *cp; cp++)
+    {
+        if ((unsigned char)*cp >= 0x80)
+        {
+            return -1;
+        }
+        if (*cp != '-' && *cp != '_' && ++name_len > MAX_WORD_LENGTH)
+        {
+            return -1;
+        }
+    }
+
     size_t buf_len = reiconv_name_canonicalize(encoding, buf);
 
     const struct alias *ap = aliases_lookup(buf, buf_len);
-- 
2.43.0


From c6773bc71e5b9426c20fab4380ea80d08b9f8029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:14 +0000
Subject: [PATCH 02/18] fix: bounds-check the code page in
 reiconv_lookup_from_codepage

Negative and too large code pages read outside codepage_to_eindex.
---
 lib/iconv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index 37e5898..effe716 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -98,6 +98,10 @@ _CPPP_API int reiconv_lookup_from_name(const char *encoding)
 
 _CPPP_API int reiconv_lookup_from_codepage(int codepage)
 {
+    if (codepage < 0 || (size_t)codepage >= sizeof(codepage_to_eindex) / sizeof(codepage_to_eindex[0]))
+    {
+        return -1;
+    }
     return codepage_to_eindex[codepage] - 1;
 }
 
-- 
2.43.0


From f8be8809017c176e3c4259b3de194c3816b3cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:14 +0000
Subject: [PATCH 03/18] fix: size the name buffers of reiconv_open from its
 arguments

Names with a suffix ("...//IGNORE") or simply longer than
MAX_WORD_LENGTH + 1 overflowed two stack buffers.
---
 lib/iconv.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index effe716..d4de363 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -163,8 +163,15 @@ _CPPP_API reiconv_t reiconv_open_from_name(const char *fromcode, const char *toc
 
 _CPPP_API reiconv_t reiconv_open(const char *tocode, const char *fromcode)
 {
-    char fromcode_buf[MAX_WORD_LENGTH + 2];
-    char tocode_buf[MAX_WORD_LENGTH + 2];
+    char *fromcode_buf = (char *)malloc(strlen(fromcode) + 1);
+    char *tocode_buf = (char *)malloc(strlen(tocode) + 1);
+    if (fromcode_buf == NULL || tocode_buf == NULL)
+    {
+        free(fromcode_buf);
+        free(tocode_buf);
+        errno = ENOMEM;
+        return (reiconv_t)(-1);
+    }
 
     size_t fromcode_len = reiconv_name_canonicalize(fromcode, fromcode_buf);
     size_t tocode_len = reiconv_name_canonicalize(tocode, tocode_buf);
@@ -197,6 +204,8 @@ _CPPP_API reiconv_t reiconv_open(const char *tocode, const char *fromcode)
 
     int from_index = reiconv_lookup_from_name(fromcode_buf);
     int to_index = reiconv_lookup_from_name(tocode_buf);
+    free(fromcode_buf);
+    free(tocode_buf);
     if (from_index == -1 || to_index == -1)
     {
         errno = EINVAL;
-- 
2.43.0


From bc56d7f8686f5789c833c282b662ede1f3eaa8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:41 +0000
Subject: [PATCH 04/18] fix: check for room before writing GB18030:2005's
 four-byte PUA mappings

U+E816 and five others wrote four bytes into a two-byte output window.
---
 lib/converters/gb18030_2005.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/converters/gb18030_2005.h b/lib/converters/gb18030_2005.h
index 649b3ea..803ec8b 100644
--- a/lib/converters/gb18030_2005.h
+++ b/lib/converters/gb18030_2005.h
@@ -399,6 +399,8 @@ static int gb18030_2005_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t
                         }
                         else
                         {
+                            if (n < 4)
+                                return RET_TOOSMALL;
                             r[0] = (c >> 24);
                             r[1] = (c >> 16) & 0xff;
                             r[2] = (c >> 8) & 0xff;
-- 
2.43.0


From 515290d7f13e6eec2faad5554ed76a9cf621c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:15 +0000
Subject: [PATCH 05/18] fix: make a character's encodability and size
 independent of the output room left

- a reset with a full output buffer stored the pending character past its end
  (the encoders assume n >= 1) and then called abort();
- a discarded character at the end of an exactly sized output buffer was
  reported as E2BIG, so reiconv_convert failed on it;
- several encoders answer 'too small' before checking that the character
  is encodable at all.
---
 lib/loop_unicode.h | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index 3753ec1..be50fb4 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -34,6 +34,34 @@
 #include <stdlib.h>
 #include <string.h>
 
+/* At least as large as the longest output of any xxx_wctomb for one character. */
+#define LOOP_SCRATCH_SIZE 32
+
+/*
+ * Encode one character. When the output window may be too small for it, encode into a scratch
+ * buffer first: whether the character is encodable, and how many bytes it needs (possibly none),
+ * must not depend on the room left, which may be 0 here although xxx_wctomb requires n >= 1.
+ */
+static int unicode_loop_wctomb(conv_t cd, unsigned char *outptr, ucs4_t wc, size_t outleft)
+{
+    unsigned char scratch[LOOP_SCRATCH_SIZE];
+    state_t last_ostate = cd->ostate;
+    int outcount;
+    if (outleft >= sizeof(scratch))
+        return cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
+    outcount = cd->ofuncs.xxx_wctomb(cd, scratch, wc, sizeof(scratch));
+    if (outcount > 0)
+    {
+        if ((size_t)outcount > outleft)
+        {
+            cd->ostate = last_ostate;
+            return RET_TOOSMALL;
+        }
+        memcpy(outptr, scratch, outcount);
+    }
+    return outcount;
+}
+
 static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *inbytesleft, char **outbuf,
                                    size_t *outbytesleft)
 {
@@ -105,14 +133,7 @@ static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *in
         else
         {
             /* Case 4: k bytes read, making up a wide character */
-            if (outleft == 0)
-            {
-                cd->istate = last_istate;
-                errno = E2BIG;
-                result = -1;
-                break;
-            }
-            outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
+            outcount = unicode_loop_wctomb(cd, outptr, wc, outleft);
             if (outcount != RET_ILUNI)
                 goto outcount_ok;
             /* Handle Unicode tag characters (range U+E0000..U+E007F). */
@@ -124,7 +145,7 @@ static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *in
                 outcount = 0;
                 goto outcount_ok;
             }
-            outcount = cd->ofuncs.xxx_wctomb(cd, outptr, 0xFFFD, outleft);
+            outcount = unicode_loop_wctomb(cd, outptr, 0xFFFD, outleft);
             if (outcount != RET_ILUNI)
                 goto outcount_ok;
             cd->istate = last_istate;
@@ -178,7 +199,7 @@ static size_t unicode_loop_reset(reiconv_t icd, char **outbuf, size_t *outbytesl
             {
                 unsigned char *outptr = (unsigned char *)*outbuf;
                 size_t outleft = *outbytesleft;
-                int outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
+                int outcount = unicode_loop_wctomb(cd, outptr, wc, outleft);
                 if (outcount != RET_ILUNI)
                     goto outcount_ok;
                 /* Handle Unicode tag characters (range U+E0000..U+E007F). */
@@ -190,7 +211,7 @@ static size_t unicode_loop_reset(reiconv_t icd, char **outbuf, size_t *outbytesl
                     outcount = 0;
                     goto outcount_ok;
                 }
-                outcount = cd->ofuncs.xxx_wctomb(cd, outptr, 0xFFFD, outleft);
+                outcount = unicode_loop_wctomb(cd, outptr, 0xFFFD, outleft);
                 if (outcount != RET_ILUNI)
                     goto outcount_ok;
                 cd->istate = last_istate;
-- 
2.43.0


From a42ecd2118db6bfd8de94148ac79f3ccacf9b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:50 +0000
Subject: [PATCH 06/18] fix: leave the handle as it was after
 reiconv_result_size

On an error the decoder and encoder states were kept, so the next call on the
handle started in the middle of a shift state; and the byte order learned from
a mark in the measured data changed how the same data was then converted.
---
 lib/iconv.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index d4de363..d37945a 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -236,6 +236,7 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     char tmpbuf[TEMP_BUFFER_SIZE];
     char *inptr = (char *)start;
     size_t insize = inlength;
+    state_t ibyteorder = ((conv_t)cd)->ibyteorder;
     while (insize > 0)
     {
         char *outptr = tmpbuf;
@@ -243,10 +244,11 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
         size_t res = reiconv_iconv(cd, &inptr, &insize, &outptr, &outsize);
         if (res == (size_t)(-1) && errno != E2BIG)
         {
-            if (errno == EINVAL)
-            {
-                errno = EILSEQ;
-            }
+            // Return to the initial state.
+            int err = (errno == EINVAL ? EILSEQ : errno);
+            reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+            ((conv_t)cd)->ibyteorder = ibyteorder;
+            errno = err;
             return (size_t)(-1);
         }
         count += outptr - tmpbuf;
@@ -258,9 +260,11 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     {
         // Return to the initial state.
         reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+        ((conv_t)cd)->ibyteorder = ibyteorder;
         return (size_t)(-1);
     }
     reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+    ((conv_t)cd)->ibyteorder = ibyteorder;
     return count + outptr - tmpbuf;
 }
 
-- 
2.43.0


From c620638b1c8a8081b8b281737ac69b63647d8595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:50 +0000
Subject: [PATCH 07/18] fix: report truncated input from
 reiconv_convert_static_size

It returned 0 and dropped the tail, where reiconv_result_size and
reiconv_convert report EILSEQ; and every failure left the handle in the middle
of a conversion.
---
 lib/iconv.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index d37945a..7adf963 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -280,18 +280,17 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
         size_t res = reiconv_iconv(cd, &inptr, &insize, &outptr, &outsize);
         if (res == (size_t)(-1))
         {
-            if (errno == EINVAL)
-            {
-                break;
-            }
-            else
-            {
-                return -1;
-            }
+            // Return to the initial state.
+            int err = (errno == EINVAL ? EILSEQ : errno);
+            reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+            errno = err;
+            return -1;
         }
     }
     if (reiconv_iconv(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
     {
+        // Return to the initial state.
+        reiconv_iconv(cd, NULL, NULL, NULL, NULL);
         return -1;
     }
     return 0;
-- 
2.43.0


From 4f67be26d65a2b25f2bab5431bdf407a8dd04d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:03 +0000
Subject: [PATCH 08/18] fix: throw std::system_error from reiconv::convert when
 the input cannot be converted

The failure of reiconv_result_size was used as a size: std::length_error was
thrown and the handle leaked.
---
 lib/reiconv.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/reiconv.cpp b/lib/reiconv.cpp
index f1bc597..22f61ff 100644
--- a/lib/reiconv.cpp
+++ b/lib/reiconv.cpp
@@ -23,6 +23,7 @@
 
 #include <cppp/reiconv.hpp>
 
+#include <cerrno>
 #include <cstdlib>
 #include <cstring>
 #include <limits.h>
@@ -60,13 +61,20 @@ _CPPP_API std::string reiconv::convert(reiconv::Encoding from, reiconv::Encoding
         throw std::system_error(errno, std::system_category(), "reiconv_open_from_index");
     }
     std::size_t outlen = ::reiconv_result_size(cd, input.data(), input.size());
+    if (outlen == (std::size_t)(-1))
+    {
+        int err = errno;
+        ::reiconv_handle_close(cd);
+        throw std::system_error(err, std::system_category(), "reiconv_convert");
+    }
 
     std::string res(outlen, '\0');
     char *result = const_cast<char *>(res.data());
     if (::reiconv_convert_static_size(cd, input.data(), input.size(), result, outlen) != 0)
     {
+        int err = errno;
         ::reiconv_handle_close(cd);
-        throw std::system_error(errno, std::system_category(), "reiconv_convert");
+        throw std::system_error(err, std::system_category(), "reiconv_convert");
     }
 
     ::reiconv_handle_close(cd);
-- 
2.43.0


From 697812c2d6b7839d796ca2383991a3e175f8d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:03 +0000
Subject: [PATCH 09/18] fix: write '~' as '~~' in HZ, as RFC 1843 requires

A text such as "~{" was read back as a shift to GB mode.
---
 lib/converters/hz.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/converters/hz.h b/lib/converters/hz.h
index 583fdf7..1d3fbae 100644
--- a/lib/converters/hz.h
+++ b/lib/converters/hz.h
@@ -134,7 +134,7 @@ static int hz_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
             abort();
         if (buf[0] < 0x80)
         {
-            int count = (state ? 3 : 1);
+            int count = (state ? 3 : 1) + (buf[0] == '~' ? 1 : 0);
             if (n < count)
                 return RET_TOOSMALL;
             if (state)
@@ -145,6 +145,8 @@ static int hz_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
                 state = 0;
             }
             r[0] = buf[0];
+            if (buf[0] == '~')
+                r[1] = '~';
             conv->ostate = state;
             return count;
         }
-- 
2.43.0


From f4ee764682bdbe1d7cfd0f42ac0e530412142387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:03 +0000
Subject: [PATCH 10/18] fix: accept only hexadecimal digits in the escapes of
 C99 and JAVA

'G'..'Z' were taken as the digits 16..35, so "\u00GZ" became U+0123.
---
 lib/converters/c99.h  | 8 ++++----
 lib/converters/java.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/converters/c99.h b/lib/converters/c99.h
index 673d143..4bda537 100644
--- a/lib/converters/c99.h
+++ b/lib/converters/c99.h
@@ -61,9 +61,9 @@ static int c99_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n
                 c = s[i];
                 if (c >= '0' && c <= '9')
                     c -= '0';
-                else if (c >= 'A' && c <= 'Z')
+                else if (c >= 'A' && c <= 'F')
                     c -= 'A' - 10;
-                else if (c >= 'a' && c <= 'z')
+                else if (c >= 'a' && c <= 'f')
                     c -= 'a' - 10;
                 else
                     goto simply_backslash;
@@ -85,9 +85,9 @@ static int c99_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n
                 c = s[i];
                 if (c >= '0' && c <= '9')
                     c -= '0';
-                else if (c >= 'A' && c <= 'Z')
+                else if (c >= 'A' && c <= 'F')
                     c -= 'A' - 10;
-                else if (c >= 'a' && c <= 'z')
+                else if (c >= 'a' && c <= 'f')
                     c -= 'a' - 10;
                 else
                     goto simply_backslash;
diff --git a/lib/converters/java.h b/lib/converters/java.h
index b93172b..9f8d78e 100644
--- a/lib/converters/java.h
+++ b/lib/converters/java.h
@@ -57,9 +57,9 @@ static int java_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t
         c = s[i];
         if (c >= '0' && c <= '9')
             c -= '0';
-        else if (c >= 'A' && c <= 'Z')
+        else if (c >= 'A' && c <= 'F')
             c -= 'A' - 10;
-        else if (c >= 'a' && c <= 'z')
+        else if (c >= 'a' && c <= 'f')
             c -= 'a' - 10;
         else
             goto simply_backslash;
@@ -88,9 +88,9 @@ static int java_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t
         c = s[i];
         if (c >= '0' && c <= '9')
             c -= '0';
-        else if (c >= 'A' && c <= 'Z')
+        else if (c >= 'A' && c <= 'F')
             c -= 'A' - 10;
-        else if (c >= 'a' && c <= 'z')
+        else if (c >= 'a' && c <= 'f')
             c -= 'a' - 10;
         else
             goto simply_backslash;
-- 
2.43.0


From 14d98251ce4fd9cb5e1ccb0003cf74ec59b1bd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 11/18] fix: do not write to the output before rejecting a
 character in UTF-7

A '+' was stored in the caller's buffer for characters that are then
reported unencodable.
---
 lib/converters/utf7.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/converters/utf7.h b/lib/converters/utf7.h
index 3335a58..a051b94 100644
--- a/lib/converters/utf7.h
+++ b/lib/converters/utf7.h
@@ -219,6 +219,8 @@ utf7_wctomb (conv_t conv, unsigned char *r, ucs4_t iwc, size_t n)
   state_t state = conv->ostate;
   unsigned int wc = iwc;
   int count = 0;
+  if (wc >= 0x110000)
+    return RET_ILUNI;
   if (state & 3)
     goto active;
 
-- 
2.43.0


From cf6542f5a09bd480c8283091ce70d23c0d932aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 12/18] fix: reject bytes >= 0x80 in HZ's ASCII mode

HZ is a 7-bit encoding (RFC 1843); they were decoded as ISO-8859-1.
---
 lib/converters/hz.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/converters/hz.h b/lib/converters/hz.h
index 1d3fbae..b0106e8 100644
--- a/lib/converters/hz.h
+++ b/lib/converters/hz.h
@@ -93,6 +93,8 @@ static int hz_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n)
     }
     if (state == 0)
     {
+        if (c >= 0x80)
+            goto ilseq;
         *pwc = (ucs4_t)c;
         conv->istate = state;
         return count + 1;
-- 
2.43.0


From fa47b76b7a993690bad6af3831ebbee57ef8593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:55 +0000
Subject: [PATCH 13/18] fix: treat unpaired surrogates as invalid in UTF-7

---
 lib/converters/utf7.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/converters/utf7.h b/lib/converters/utf7.h
index a051b94..04ccaef 100644
--- a/lib/converters/utf7.h
+++ b/lib/converters/utf7.h
@@ -178,6 +178,7 @@ active:
       if (!(wc2 >= 0xdc00 && wc2 < 0xe000)) goto ilseq;
       *pwc = 0x10000 + ((wc1 - 0xd800) << 10) + (wc2 - 0xdc00);
     } else {
+      if (wc >= 0xdc00 && wc < 0xe000) goto ilseq;
       *pwc = wc;
     }
     conv->istate = base64state;
@@ -219,7 +220,7 @@ utf7_wctomb (conv_t conv, unsigned char *r, ucs4_t iwc, size_t n)
   state_t state = conv->ostate;
   unsigned int wc = iwc;
   int count = 0;
-  if (wc >= 0x110000)
+  if (wc >= 0x110000 || (wc >= 0xd800 && wc < 0xe000))
     return RET_ILUNI;
   if (state & 3)
     goto active;
-- 
2.43.0


From db91181f0a6fadbbc2287d57b9b2db89e0a60474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:35 +0000
Subject: [PATCH 14/18] fix: report ENOMEM from reiconv_convert instead of
 writing through a null pointer

---
 lib/iconv.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index 7adf963..04ef60b 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -316,8 +316,14 @@ _CPPP_API int reiconv_convert(reiconv_t cd, const char *input_data, size_t input
         return -1;
     }
 
-    *output_data_ptr =
+    char *output_data =
         (*output_data_ptr == NULL ? (char *)malloc(output_length) : (char *)realloc(*output_data_ptr, output_length));
+    if (output_data == NULL && output_length > 0)
+    {
+        errno = ENOMEM;
+        return -1;
+    }
+    *output_data_ptr = output_data;
 
     if (reiconv_convert_static_size(cd, input_data, input_length, *output_data_ptr, output_length) == -1)
     {
-- 
2.43.0


From 475ec1a5be640b8cc2a526d393e5e577915b0ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:43 +0000
Subject: [PATCH 15/18] fix: close the handle when reiconv::convert runs out of
 memory for its result

---
 lib/reiconv.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/reiconv.cpp b/lib/reiconv.cpp
index 22f61ff..6730fd0 100644
--- a/lib/reiconv.cpp
+++ b/lib/reiconv.cpp
@@ -68,7 +68,16 @@ _CPPP_API std::string reiconv::convert(reiconv::Encoding from, reiconv::Encoding
         throw std::system_error(err, std::system_category(), "reiconv_convert");
     }
 
-    std::string res(outlen, '\0');
+    std::string res;
+    try
+    {
+        res.resize(outlen);
+    }
+    catch (...)
+    {
+        ::reiconv_handle_close(cd);
+        throw;
+    }
     char *result = const_cast<char *>(res.data());
     if (::reiconv_convert_static_size(cd, input.data(), input.size(), result, outlen) != 0)
     {
-- 
2.43.0


From eef52c0e261932cd63dcce68b60d90d10b896a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:48 +0000
Subject: [PATCH 16/18] fix: separate the names IBM921/CP28603 and
 CSISO885915/CP28605, drop the unreachable name CP-GR

Missing commas in lib/encodings.h.snippet glued two pairs of names together, so the catalogue declared
neither of them; CP-GR is not in canonical form (CPGR is listed), so no lookup could ever find it.
---
 lib/encodings.h.snippet | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/encodings.h.snippet b/lib/encodings.h.snippet
index 43e02df..691af8e 100644
--- a/lib/encodings.h.snippet
+++ b/lib/encodings.h.snippet
@@ -527,7 +527,7 @@ DEFENCODING(("ISO885913", /* IANA, glibc, FreeBSD */
              "ISOIR179",  /* glibc */
              "LATIN7",    /* glibc */
              "L7",        /* glibc */
-             "IBM921"     /* AIX */
+             "IBM921",    /* AIX */
              "CP28603",   /* Windows */
              "28603",     /* Windows */
              ),
@@ -548,7 +548,7 @@ DEFENCODING(("ISO885915",      /* IANA, glibc, FreeBSD, AIX, OSF/1, Solaris */
              "ISOIR203",       /* libiconv */
              "LATIN9",         /* IANA */
              "L9",             /* cppp-reiconv */
-             "CSISO885915"     /* IANA */
+             "CSISO885915",    /* IANA */
              "CP28605",        /* Windows */
              "28605",          /* Windows */
              ),
@@ -1148,7 +1148,6 @@ DEFENCODING(("IBM869",   /* IANA */
              "CPGR",     /* IANA */
              "CSIBM869", /* IANA */
              "CP869",    /* AIX */
-             "CP-GR",    /* AIX */
              ),
             cp869, CP869, {cp869_mbtowc, NULL}, {cp869_wctomb, NULL})
 DEFCODEPAGE(869, cp869)
-- 
2.43.0


From 2d40c2658aafa5468dbb37e4cf0695a9690c7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:43 +0000
Subject: [PATCH 17/18] fix: locale_charset: code page 1258 is WINDOWS-1258,
 not VISCII

---
 lib/localecharset/windows_getcp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/localecharset/windows_getcp.h b/lib/localecharset/windows_getcp.h
index 60c2768..4a83bf0 100644
--- a/lib/localecharset/windows_getcp.h
+++ b/lib/localecharset/windows_getcp.h
@@ -210,7 +210,7 @@ static const char *windows_getcp()
     case 1257:
         return "WINDOWS-1257";
     case 1258:
-        return "VISCII";
+        return "WINDOWS-1258";
     case 10000:
         return "MACINTOSH";
     case 10004:
-- 
2.43.0


From 121ce95d3c8f1b67801e82e7a80a2eb397f189f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:43 +0000
Subject: [PATCH 18/18] fix: UTF-16 encoder: no byte order mark in the buffer
 for a character it cannot represent

---
 lib/converters/utf16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/converters/utf16.h b/lib/converters/utf16.h
index 63fbb93..632de0a 100644
--- a/lib/converters/utf16.h
+++ b/lib/converters/utf16.h
@@ -95,7 +95,7 @@ ilseq:
 /* The state is 0 at the beginning, 1 after the BOM has been written. */
 static int utf16_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
 {
-    if (wc != 0xfffe && !(wc >= 0xd800 && wc < 0xe000))
+    if (wc < 0x110000 && wc != 0xfffe && !(wc >= 0xd800 && wc < 0xe000))
     {
         int count = 0;
         if (!conv->ostate)
-- 
2.43.0

