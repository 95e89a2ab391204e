From 1b598c5720f806b6b995b844dfd6e0754b0eb444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 001/147] fix: memcmp, strcmp, strncmp: compare as unsigned
 char.

---
 lib/string/memcmp.c  | 2 +-
 lib/string/strcmp.c  | 2 +-
 lib/string/strncmp.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/string/memcmp.c b/lib/string/memcmp.c
index ca72f63..8fd0744 100644
--- a/lib/string/memcmp.c
+++ b/lib/string/memcmp.c
@@ -36,5 +36,5 @@ memcmp (void const *s1, void const *s2, size_t size)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 255) - (b[0] & 255);
 }
diff --git a/lib/string/strcmp.c b/lib/string/strcmp.c
index b0fee26..f5d2591 100644
--- a/lib/string/strcmp.c
+++ b/lib/string/strcmp.c
@@ -29,5 +29,5 @@ strcmp (char const *a, char const *b)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 255) - (b[0] & 255);
 }
diff --git a/lib/string/strncmp.c b/lib/string/strncmp.c
index 75c84b7..f0bf698 100644
--- a/lib/string/strncmp.c
+++ b/lib/string/strncmp.c
@@ -33,5 +33,5 @@ strncmp (char const *a, char const *b, size_t size)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 255) - (b[0] & 255);
 }
-- 
2.43.0


From b93e8f81adf4ae38c0d89d6f840318bdc9c70660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 002/147] fix: memchr, strchr: search for C converted to
 unsigned char.

---
 lib/string/memchr.c | 3 ++-
 lib/string/strchr.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/string/memchr.c b/lib/string/memchr.c
index 255fdf6..e7cd2c0 100644
--- a/lib/string/memchr.c
+++ b/lib/string/memchr.c
@@ -24,11 +24,12 @@ void *
 memchr (void const *block, int c, size_t size)
 {
   char const *p = block;
+  c = c & 255;
 
   while (size != 0)
     {
       size = size - 1;
-      if (c == p[0])
+      if (c == (p[0] & 255))
         return (void*) p;
       p = p + 1;
     }
diff --git a/lib/string/strchr.c b/lib/string/strchr.c
index da1a707..3258fdc 100644
--- a/lib/string/strchr.c
+++ b/lib/string/strchr.c
@@ -24,9 +24,10 @@ char *
 strchr (char const *s, int c)
 {
   char const *p = s;
+  c = c & 255;
   while (*p || !c)
     {
-      if (c == *p)
+      if (c == (*p & 255))
         return (char *) p;
       p++;
     }
-- 
2.43.0


From 1f5d7e17360b82de6cabd64b9912dcab819fb300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 003/147] fix: strrchr: find NUL in an empty string and bytes
 above 127.

---
 lib/string/strrchr.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/string/strrchr.c b/lib/string/strrchr.c
index 08766fd..bccad0d 100644
--- a/lib/string/strrchr.c
+++ b/lib/string/strrchr.c
@@ -24,17 +24,15 @@ char *
 strrchr (char const *s, int c)
 {
   int n = strlen (s);
-  if (!n)
-    return 0;
   char const *p = s + n;
-  if (!*p && !c)
+  c = c & 255;
+  if (!c)
     return (char *) p;
-  p--;
-  while (n-- && (*p || !c))
+  while (n-- > 0)
     {
-      if (c == *p)
-        return (char *) p;
       p--;
+      if (c == (*p & 255))
+        return (char *) p;
     }
   return 0;
 }
-- 
2.43.0


From 8835756730cfcd707a1710eeb08a96d4f1b3a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 004/147] fix: strpbrk: return 0 if no character is found.

---
 lib/string/strpbrk.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/string/strpbrk.c b/lib/string/strpbrk.c
index 57583ee..14000c4 100644
--- a/lib/string/strpbrk.c
+++ b/lib/string/strpbrk.c
@@ -26,8 +26,8 @@ strpbrk (char const *string, char const *stopset)
   char *p = (char *) string;
   while (*p)
     if (strchr (stopset, *p))
-      break;
+      return p;
     else
       p++;
-  return p;
+  return 0;
 }
-- 
2.43.0


From 47aaf0a5f33813814750be78d10c4dd4651ae13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 005/147] fix: strncat, strncpy: do not read FROM beyond SIZE
 bytes.

---
 lib/string/strncat.c | 2 +-
 lib/string/strncpy.c | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/string/strncat.c b/lib/string/strncat.c
index 9683f91..a604a20 100644
--- a/lib/string/strncat.c
+++ b/lib/string/strncat.c
@@ -26,7 +26,7 @@ strncat (char *to, char const *from, size_t size)
   if (size == 0)
     return to;
   char *p = strchr (to, '\0');
-  while (*from && size-- > 0)
+  while (size-- > 0 && *from)
     *p++ = *from++;
   *p = 0;
   return to;
diff --git a/lib/string/strncpy.c b/lib/string/strncpy.c
index 34ea0f8..a36d8bb 100644
--- a/lib/string/strncpy.c
+++ b/lib/string/strncpy.c
@@ -26,10 +26,11 @@ strncpy (char *to, char const *from, size_t size)
   if (size == 0)
     return to;
   char *p = to;
-  while (*from && size--)
-    *p++ = *from++;
-  if (*from)
-    size++;
+  while (size && *from)
+    {
+      *p++ = *from++;
+      size--;
+    }
   while (size--)
     *p++ = 0;
   return to;
-- 
2.43.0


From 2ba324784a96ea759bfd987a1baff9a880f98288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 006/147] fix: ntoab: make room for 64 bit numbers in any base.

---
 lib/mes/ntoab.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mes/ntoab.c b/lib/mes/ntoab.c
index e75108b..0885ecd 100644
--- a/lib/mes/ntoab.c
+++ b/lib/mes/ntoab.c
@@ -38,8 +38,8 @@ char *
 ntoab (long x, unsigned base, int signed_p)
 {
   if (__itoa_buf == 0)
-    __itoa_buf = malloc (20);
-  char *p = __itoa_buf + 11;
+    __itoa_buf = malloc (72);
+  char *p = __itoa_buf + 71;
 
   p[0] = 0;
   p = p - 1;
-- 
2.43.0


From a5bc8582ca46f38a43edc22435a1fb75d1493e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 007/147] fix: ultoa: the argument is unsigned.

---
 lib/mes/ultoa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mes/ultoa.c b/lib/mes/ultoa.c
index 3319296..e769eb2 100644
--- a/lib/mes/ultoa.c
+++ b/lib/mes/ultoa.c
@@ -23,5 +23,5 @@
 char *
 ultoa (unsigned long x)
 {
-  return ntoab (x, 10, 1);
+  return ntoab (x, 10, 0);
 }
-- 
2.43.0


From b1705e41014386f0ceaa6ef83517605f3a705f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 008/147] fix: isxdigit accepts upper case, DEL is a control
 character.

---
 lib/ctype/iscntrl.c  | 2 +-
 lib/ctype/isxdigit.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ctype/iscntrl.c b/lib/ctype/iscntrl.c
index 82d4c3d..73ad555 100644
--- a/lib/ctype/iscntrl.c
+++ b/lib/ctype/iscntrl.c
@@ -23,5 +23,5 @@
 int
 iscntrl (int c)
 {
-  return c >= 0 && c < 32;
+  return (c >= 0 && c < 32) || c == 127;
 }
diff --git a/lib/ctype/isxdigit.c b/lib/ctype/isxdigit.c
index 13f7a66..b15546e 100644
--- a/lib/ctype/isxdigit.c
+++ b/lib/ctype/isxdigit.c
@@ -24,5 +24,5 @@
 int
 isxdigit (int c)
 {
-  return isdigit (c) || (c >= 'a' && c <= 'f');
+  return isdigit (c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
 }
-- 
2.43.0


From 10ec84d4d3a8d7adc1926a9aebdc1d1ecf19c290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 009/147] fix: abtol: convert long numbers, mixed and upper
 case digits, any base.

---
 lib/ctype/isnumber.c | 15 +++++++--------
 lib/mes/abtol.c      |  9 ++++++---
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/lib/ctype/isnumber.c b/lib/ctype/isnumber.c
index 4c37886..e6d9411 100644
--- a/lib/ctype/isnumber.c
+++ b/lib/ctype/isnumber.c
@@ -23,12 +23,11 @@
 int
 isnumber (int c, int base)
 {
-  if (base == 2)
-    return (c >= '0') && (c <= '1');
-  if (base == 8)
-    return (c >= '0') && (c <= '7');
-  if (base == 10)
-    return isdigit (c);
-  if (base == 16)
-    return isxdigit (c);
+  if (isdigit (c))
+    return c - '0' < base;
+  if (c >= 'a' && c <= 'z')
+    return c - 'a' + 10 < base;
+  if (c >= 'A' && c <= 'Z')
+    return c - 'A' + 10 < base;
+  return 0;
 }
diff --git a/lib/mes/abtol.c b/lib/mes/abtol.c
index 1f297b4..017c2f1 100644
--- a/lib/mes/abtol.c
+++ b/lib/mes/abtol.c
@@ -25,16 +25,16 @@ long
 abtol (char const **p, int base)
 {
   char const *s = p[0];
-  int i = 0;
+  size_t i = 0;
   int sign_p = 0;
-  int m = '0';
+  int m;
   if (base == 0)
     base = 10;
   while (isspace (s[0]) != 0)
     s = s + 1;
   if (s[0] != 0 && s[0] == '+')
     s = s + 1;
-  if (s[0] != 0 && s[0] == '-')
+  else if (s[0] != 0 && s[0] == '-')
     {
       sign_p = 1;
       s = s + 1;
@@ -42,7 +42,10 @@ abtol (char const **p, int base)
   while (isnumber (s[0], base) != 0)
     {
       i = i * base;
+      m = '0';
       if (s[0] > '9')
+        m = 'A' - 10;
+      if (s[0] > 'Z')
         m = 'a' - 10;
       i = i + s[0] - m;
       s = s + 1;
-- 
2.43.0


From b70a54c66be1bfb1774030df7c33748a72540160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 010/147] fix: atol returns a long.

---
 include/stdlib.h  | 1 +
 lib/stdlib/atol.c | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdlib.h b/include/stdlib.h
index 592a387..078228f 100644
--- a/include/stdlib.h
+++ b/include/stdlib.h
@@ -39,6 +39,7 @@ typedef int (*comparison_fn_t) (void const *, void const *);
 void abort (void);
 double atof (char const *s);
 int atoi (char const *s);
+long atol (char const *s);
 int atexit (void (*function) (void));
 void *calloc (size_t nmemb, size_t size);
 void _exit (int status);
diff --git a/lib/stdlib/atol.c b/lib/stdlib/atol.c
index 9339537..ab842c3 100644
--- a/lib/stdlib/atol.c
+++ b/lib/stdlib/atol.c
@@ -20,8 +20,9 @@
 
 #include <stdlib.h>
 
-int
+long
 atol (char const *s)
 {
-  return atoi (s);
+  char const *p = s;
+  return abtol (&p, 0);
 }
-- 
2.43.0


From 82af275bc60fe36e3d21d9092b24f155f5073d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 011/147] fix: atol: declare abtol.

---
 lib/stdlib/atol.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/stdlib/atol.c b/lib/stdlib/atol.c
index ab842c3..aa327a0 100644
--- a/lib/stdlib/atol.c
+++ b/lib/stdlib/atol.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <stdlib.h>
 
 long
-- 
2.43.0


From 1d18c90b46d8d0b408a5ecada89244cd88d85b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 012/147] fix: strtol: honor BASE, prefixes, signs and report
 the end of the number.

---
 lib/stdlib/strtol.c | 52 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/lib/stdlib/strtol.c b/lib/stdlib/strtol.c
index ff937d9..758f214 100644
--- a/lib/stdlib/strtol.c
+++ b/lib/stdlib/strtol.c
@@ -19,22 +19,56 @@
  */
 
 #include <mes/lib.h>
+#include <ctype.h>
 #include <stdlib.h>
-#include <string.h>
 
 long
 strtol (char const *string, char **tailptr, int base)
 {
-  if (!strncmp (string, "0x", 2))
+  char const *p = string;
+  char const *tail = string;
+  unsigned long i = 0;
+  int sign_p = 0;
+  int c;
+  while (isspace (p[0]))
+    p = p + 1;
+  if (p[0] == '+')
+    p = p + 1;
+  else if (p[0] == '-')
     {
-      string += 2;
-      base = 16;
+      sign_p = 1;
+      p = p + 1;
     }
-  if (tailptr)
+  if (base == 0 || base == 16)
+    {
+      if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isnumber (p[2], 16))
+        {
+          p = p + 2;
+          base = 16;
+        }
+    }
+  if (base == 0)
     {
-      *tailptr = (char *) string;
-      return abtol ((char const **) tailptr, base);
+      base = 10;
+      if (p[0] == '0')
+        base = 8;
     }
-  char **p = (char **) &string;
-  return abtol ((char const **) p, base);
+  while (isnumber (p[0], base))
+    {
+      c = p[0];
+      if (isdigit (c))
+        c = c - '0';
+      else if (c >= 'a')
+        c = c - 'a' + 10;
+      else
+        c = c - 'A' + 10;
+      i = i * base + c;
+      p = p + 1;
+      tail = p;
+    }
+  if (tailptr)
+    *tailptr = (char *) tail;
+  if (sign_p)
+    return -i;
+  return i;
 }
-- 
2.43.0


From 3ba753b110406c930c7eb610c709a11298be2ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 013/147] fix: qsort: sort arrays with equal elements.

---
 lib/stdlib/qsort.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/stdlib/qsort.c b/lib/stdlib/qsort.c
index 68352f5..e34e91c 100644
--- a/lib/stdlib/qsort.c
+++ b/lib/stdlib/qsort.c
@@ -54,8 +54,6 @@ qpart (void *base, size_t count, size_t size, int (*compare) (void const *, void
 #endif
           i++;
         }
-      else if (c == 0)
-        i++;
     }
   if (compare (base + count * size, base + i * size) < 0)
     qswap (base + i * size, base + count * size, size);
@@ -67,13 +65,13 @@ qsort (void *base, size_t count, size_t size, int (*compare) (void const *, void
 {
   if (count > 1)
     {
-      int p = qpart (base, count - 1, size, compare);
+      size_t p = qpart (base, count - 1, size, compare);
       qsort (base, p, size, compare);
 #if 1                           //__x86_64__
-      qsort (base + p * size, count - p, size, compare);
+      qsort (base + (p + 1) * size, count - p - 1, size, compare);
 #else
-      int p1 = base + p * size;
-      int p2 = count - p;
+      int p1 = base + (p + 1) * size;
+      int p2 = count - p - 1;
       qsort (p1, p2, size, compare);
 #endif
     }
-- 
2.43.0


From 842c46ef9edd3c2a25f9958d9f08d153f7dbf6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 014/147] fix: calloc: return 0 if there is no memory.

---
 lib/stdlib/calloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/stdlib/calloc.c b/lib/stdlib/calloc.c
index 1a10618..f0f6efb 100644
--- a/lib/stdlib/calloc.c
+++ b/lib/stdlib/calloc.c
@@ -25,7 +25,10 @@ void *
 calloc (size_t nmemb, size_t size)
 {
   size_t count = nmemb * size;
+  if (size && count / size != nmemb)
+    return 0;
   void *p = malloc (count);
-  memset (p, 0, count);
+  if (p)
+    memset (p, 0, count);
   return p;
 }
-- 
2.43.0


From 3ecfbbbd41fa0dcb4b82b1af79312c8fa7204f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 015/147] fix: malloc: return 0 if the break cannot be moved.

---
 lib/linux/malloc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/linux/malloc.c b/lib/linux/malloc.c
index ea609d5..1afe705 100644
--- a/lib/linux/malloc.c
+++ b/lib/linux/malloc.c
@@ -34,9 +34,11 @@ malloc (size_t size)
   /* align what we give back. */
   __brk = (char*) (((uintptr_t) __brk
                     + sizeof (max_align_t) - 1) & -sizeof (max_align_t));
-  if (brk (__brk + size) == -1)
-    return 0;
   char *p = __brk;
-  __brk = __brk + size;
+  /* The brk system call does not fail, it returns the break in effect. */
+  if ((uintptr_t) (p + size) < (uintptr_t) p
+      || (uintptr_t) brk (p + size) < (uintptr_t) (p + size))
+    return 0;
+  __brk = p + size;
   return p;
 }
-- 
2.43.0


From d251e4e87d4b77d39daea636729d9b14fe407f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 016/147] fix: __mesabi_ldiv: divide LONG_MIN, divide by
 LONG_MIN.

---
 lib/mes/div.c | 55 ++++++++++++++-------------------------------------
 1 file changed, 15 insertions(+), 40 deletions(-)

diff --git a/lib/mes/div.c b/lib/mes/div.c
index 4ea0ce3..a2e6a55 100644
--- a/lib/mes/div.c
+++ b/lib/mes/div.c
@@ -231,46 +231,21 @@ __mesabi_uldiv (unsigned long a, unsigned long b, unsigned long *remainder)
 void
 __mesabi_ldiv (long a, long b, struct ldiv_t *result)
 {
-  int negate_result = (a < 0) ^ (b < 0);
-  if (b == LONG_MIN)
-    __mesabi_div0 ();
-  if (a != LONG_MIN)
-    {
-      int negative_a = (a < 0);
-      if (negative_a)
-        a = -a;
-      if (b < 0)
-        b = -b;
-      result->quot = __mesabi_uldiv (a, b, &result->rem);
-      if (negate_result)
-        result->quot = -result->quot;
-      if (negative_a)
-        result->rem = -result->rem;
-    }
-  else
-    {
-      result->rem = 0;
-      if (b < 0)
-        b = -b;
-      if (b == 1)
-        {
-          result->quot = a;
-          /* Since result->quot is already negative, don't negate it again. */
-          negate_result = !negate_result;
-        }
-      else if (b == 0)
-        __mesabi_div0 ();
-      else
-        {
-          long x;
-          for (x = 0; a <= -b; a += b)
-            ++x;
-          result->rem = a;      /* negative */
-          result->quot = x;
-        }
-      if (negate_result)
-        result->quot = -result->quot;
-    }
+  unsigned long ua = a;
+  unsigned long ub = b;
+  unsigned long rem;
+  unsigned long quot;
+  if (a < 0)
+    ua = 0 - ua;
+  if (b < 0)
+    ub = 0 - ub;
+  quot = __mesabi_uldiv (ua, ub, &rem);
+  if ((a < 0) ^ (b < 0))
+    quot = 0 - quot;
+  if (a < 0)
+    rem = 0 - rem;
+  result->quot = quot;
+  result->rem = rem;
 }
 
 long
-- 
2.43.0


From 94ca02fc829779211c09fc19c0d32290cb801090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 017/147] fix: vsnprintf, vfprintf: render width, precision,
 flags and signs as C prescribes.

Honor the width of %c, do not truncate numbers to the precision, do not
sign-extend %o, do not pad between zeros and sign, terminate truncated
output, return the number of characters from vfprintf.
---
 lib/stdio/vfprintf.c  | 129 +++++++++++++++++++++---------------
 lib/stdio/vsnprintf.c | 149 +++++++++++++++++++++++++-----------------
 2 files changed, 166 insertions(+), 112 deletions(-)

diff --git a/lib/stdio/vfprintf.c b/lib/stdio/vfprintf.c
index 0b2c30a..c6217c1 100644
--- a/lib/stdio/vfprintf.c
+++ b/lib/stdio/vfprintf.c
@@ -48,15 +48,16 @@ vfprintf (FILE * f, char const *format, va_list ap)
             c = *++p;
           }
         char pad = ' ';
+        char sign = 0;
         if (c == ' ')
           {
-            pad = c;
-            c = *p++;
+            sign = c;
+            c = *++p;
           }
         if (c == '0')
           {
             pad = c;
-            c = *p++;
+            c = *++p;
           }
         if (c >= '0' && c <= '9')
           {
@@ -67,10 +68,16 @@ vfprintf (FILE * f, char const *format, va_list ap)
           {
             width = va_arg (ap, int);
             c = *++p;
+            if (width < 0)
+              {
+                left_p = 1;
+                width = -width;
+              }
           }
         if (c == '.')
           {
             c = *++p;
+            precision = 0;
             if (c >= '0' && c <= '9')
               {
                 precision = abtol (&p, 10);
@@ -80,6 +87,8 @@ vfprintf (FILE * f, char const *format, va_list ap)
               {
                 precision = va_arg (ap, int);
                 c = *++p;
+                if (precision < 0)
+                  precision = -1;
               }
           }
         if (c == 'l')
@@ -99,9 +108,22 @@ vfprintf (FILE * f, char const *format, va_list ap)
             }
           case 'c':
             {
-              char _c;
-              _c = va_arg (ap, long);
-              fputc (_c, f);
+              c = va_arg (ap, long);
+              width--;
+              while (!left_p && width > 0)
+                {
+                  fputc (' ', f);
+                  count++;
+                  width--;
+                }
+              fputc (c, f);
+              count++;
+              while (width > 0)
+                {
+                  fputc (' ', f);
+                  count++;
+                  width--;
+                }
               break;
             }
           case 'd':
@@ -113,77 +135,82 @@ vfprintf (FILE * f, char const *format, va_list ap)
             {
               long d = va_arg (ap, long);
               int base = c == 'o' ? 8 : c == 'x' || c == 'X' ? 16 : 10;
-              char *s = ntoab (d, base, c != 'u' && c != 'x' && c != 'X');
+              char *s = ntoab (d, base, c == 'd' || c == 'i');
               if (c == 'X')
                 strupr (s);
+              if (c != 'd' && c != 'i')
+                sign = 0;
+              if (*s == '-')
+                {
+                  sign = '-';
+                  s++;
+                }
+              if (precision == 0 && d == 0)
+                s = "";
               int length = strlen (s);
-              if (precision == -1)
+              if (sign)
+                width--;
+              if (precision == -1 && pad == '0' && !left_p)
+                precision = width;
+              if (precision < length)
                 precision = length;
-              if (!left_p)
+              width = width - precision;
+              while (!left_p && width > 0)
                 {
-                  while (width-- > precision)
-                    {
-                      fputc (pad, f);
-                      count++;
-                    }
-                  while (precision > length)
-                    {
-                      fputc ('0', f);
-                      precision--;
-                      width--;
-                      count++;
-                    }
+                  fputc (' ', f);
+                  count++;
+                  width--;
+                }
+              if (sign)
+                {
+                  fputc (sign, f);
+                  count++;
+                }
+              while (precision > length)
+                {
+                  fputc ('0', f);
+                  count++;
+                  precision--;
                 }
               while (*s)
                 {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
-                  fputc (*s++, f);
+                  c = *s++;
+                  fputc (c, f);
                   count++;
                 }
               while (width > 0)
                 {
-                  width--;
-                  fputc (pad, f);
+                  fputc (' ', f);
                   count++;
+                  width--;
                 }
               break;
             }
           case 's':
             {
               char *s = va_arg (ap, char *);
-              int length = strlen (s);
-              if (precision == -1)
-                precision = length;
-              if (!left_p)
+              int length = 0;
+              while (s && length != precision && s[length])
+                length++;
+              width = width - length;
+              while (!left_p && width > 0)
                 {
-                  while (width-- > precision)
-                    {
-                      fputc (pad, f);
-                      count++;
-                    }
-                  while (precision > length)
-                    {
-                      fputc (' ', f);
-                      precision--;
-                      width--;
-                      count++;
-                    }
+                  fputc (' ', f);
+                  count++;
+                  width--;
                 }
-              while (*s)
+              while (length > 0)
                 {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
-                  fputc (*s++, f);
+                  c = *s++;
+                  fputc (c, f);
                   count++;
+                  length--;
                 }
               while (width > 0)
                 {
-                  width--;
-                  fputc (pad, f);
+                  fputc (' ', f);
                   count++;
+                  width--;
                 }
               break;
             }
@@ -248,5 +275,5 @@ vfprintf (FILE * f, char const *format, va_list ap)
         p++;
       }
   va_end (ap);
-  return 0;
+  return count;
 }
diff --git a/lib/stdio/vsnprintf.c b/lib/stdio/vsnprintf.c
index 9a8d796..1be65b6 100644
--- a/lib/stdio/vsnprintf.c
+++ b/lib/stdio/vsnprintf.c
@@ -33,7 +33,7 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
     if (*p != '%')
       {
         c = *p++;
-        if (count < size)
+        if (count + 1 < size)
           *str++ = c;
         count++;
       }
@@ -50,15 +50,16 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
             c = *++p;
           }
         char pad = ' ';
+        char sign = 0;
         if (c == ' ')
           {
-            pad = c;
-            c = *p++;
+            sign = c;
+            c = *++p;
           }
         if (c == '0')
           {
             pad = c;
-            c = *p++;
+            c = *++p;
           }
         if (c >= '0' && c <= '9')
           {
@@ -69,10 +70,16 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
           {
             width = va_arg (ap, long);
             c = *++p;
+            if (width < 0)
+              {
+                left_p = 1;
+                width = -width;
+              }
           }
         if (c == '.')
           {
             c = *++p;
+            precision = 0;
             if (c >= '0' && c <= '9')
               {
                 precision = abtol (&p, 10);
@@ -82,6 +89,8 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
               {
                 precision = va_arg (ap, long);
                 c = *++p;
+                if (precision < 0)
+                  precision = -1;
               }
           }
         if (c == 'l')
@@ -97,7 +106,7 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
           {
           case '%':
             {
-              if (count < size)
+              if (count + 1 < size)
                 *str++ = *p;
               count++;
               break;
@@ -105,9 +114,24 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
           case 'c':
             {
               c = va_arg (ap, long);
-              if (count < size)
+              width--;
+              while (!left_p && width > 0)
+                {
+                  if (count + 1 < size)
+                    *str++ = ' ';
+                  count++;
+                  width--;
+                }
+              if (count + 1 < size)
                 *str++ = c;
               count++;
+              while (width > 0)
+                {
+                  if (count + 1 < size)
+                    *str++ = ' ';
+                  count++;
+                  width--;
+                }
               break;
             }
           case 'd':
@@ -119,87 +143,90 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
             {
               long d = va_arg (ap, long);
               int base = c == 'o' ? 8 : c == 'x' || c == 'X' ? 16 : 10;
-              char *s = ntoab (d, base, c != 'u' && c != 'x' && c != 'X');
+              char *s = ntoab (d, base, c == 'd' || c == 'i');
               if (c == 'X')
                 strupr (s);
+              if (c != 'd' && c != 'i')
+                sign = 0;
+              if (*s == '-')
+                {
+                  sign = '-';
+                  s++;
+                }
+              if (precision == 0 && d == 0)
+                s = "";
               int length = strlen (s);
-              if (precision == -1)
+              if (sign)
+                width--;
+              if (precision == -1 && pad == '0' && !left_p)
+                precision = width;
+              if (precision < length)
                 precision = length;
-              if (!left_p)
+              width = width - precision;
+              while (!left_p && width > 0)
                 {
-                  while (width-- > precision)
-                    {
-                      if (count < size)
-                        *str++ = pad;
-                      count++;
-                    }
-                  while (precision > length)
-                    {
-                      if (count < size)
-                        *str++ = '0';
-                      precision--;
-                      width--;
-                      count++;
-                    }
+                  if (count + 1 < size)
+                    *str++ = ' ';
+                  count++;
+                  width--;
+                }
+              if (sign)
+                {
+                  if (count + 1 < size)
+                    *str++ = sign;
+                  count++;
+                }
+              while (precision > length)
+                {
+                  if (count + 1 < size)
+                    *str++ = '0';
+                  count++;
+                  precision--;
                 }
               while (*s)
                 {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
                   c = *s++;
-                  if (count < size)
+                  if (count + 1 < size)
                     *str++ = c;
                   count++;
                 }
               while (width > 0)
                 {
-                  width--;
-                  if (count < size)
-                    *str++ = pad;
+                  if (count + 1 < size)
+                    *str++ = ' ';
                   count++;
+                  width--;
                 }
               break;
             }
           case 's':
             {
               char *s = va_arg (ap, char *);
-              int length = s ? strlen (s) : 0;
-              if (precision == -1)
-                precision = length;
-              if (!left_p)
+              int length = 0;
+              while (s && length != precision && s[length])
+                length++;
+              width = width - length;
+              while (!left_p && width > 0)
                 {
-                  while (width-- > precision)
-                    {
-                      if (count < size)
-                        *str++ = pad;
-                      count++;
-                    }
-                  while (width > length)
-                    {
-                      if (count < size)
-                        *str++ = ' ';
-                      precision--;
-                      width--;
-                      count++;
-                    }
+                  if (count + 1 < size)
+                    *str++ = ' ';
+                  count++;
+                  width--;
                 }
-              while (s && *s)
+              while (length > 0)
                 {
-                  if (precision-- <= 0)
-                    break;
-                  width--;
                   c = *s++;
-                  if (count < size)
+                  if (count + 1 < size)
                     *str++ = c;
                   count++;
+                  length--;
                 }
               while (width > 0)
                 {
-                  width--;
-                  if (count < size)
-                    *str++ = pad;
+                  if (count + 1 < size)
+                    *str++ = ' ';
                   count++;
+                  width--;
                 }
               break;
             }
@@ -220,13 +247,13 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
                 {
                   while (width-- > precision)
                     {
-                      if (count < size)
+                      if (count + 1 < size)
                         *str++ = pad;
                       count++;
                     }
                   while (precision > length)
                     {
-                      if (count < size)
+                      if (count + 1 < size)
                         *str++ = ' ';
                       precision--;
                       width--;
@@ -239,14 +266,14 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
                     break;
                   width--;
                   c = *s++;
-                  if (count < size)
+                  if (count + 1 < size)
                     *str++ = c;
                   count++;
                 }
               while (width > 0)
                 {
                   width--;
-                  if (count < size)
+                  if (count + 1 < size)
                     *str++ = pad;
                   count++;
                 }
@@ -269,7 +296,7 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
         p++;
       }
   va_end (ap);
-  if (count < size)
+  if (size)
     *str = 0;
   return count;
 }
-- 
2.43.0


From f480bc89b4b9639c47978b115b00b5ffc57b05e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 018/147] fix: vsscanf: match the template, stop at the first
 mismatch.

Match literals and white space, store long for %ld, do not count
conversions without input, read prefixes for %i.
---
 lib/stdio/vsscanf.c | 111 +++++++++++++++++++++++++++-----------------
 1 file changed, 69 insertions(+), 42 deletions(-)

diff --git a/lib/stdio/vsscanf.c b/lib/stdio/vsscanf.c
index 4573bc0..f0f6e13 100644
--- a/lib/stdio/vsscanf.c
+++ b/lib/stdio/vsscanf.c
@@ -31,60 +31,87 @@ vsscanf (char const *s, char const *template, va_list ap)
   char *p = (char *) s;
   char const *t = template;
   int count = 0;
-  while (*t && *p)
-    if (*t != '%')
+  int long_p;
+  while (*t)
+    if (isspace (*t))
       {
         t++;
+        while (isspace (*p))
+          p++;
+      }
+    else if (*t != '%')
+      {
+        if (*t != *p)
+          {
+            if (!*p && !count)
+              count = -1;
+            break;
+          }
+        t++;
         p++;
       }
     else
       {
         t++;
         char c = *t;
+        long_p = 0;
         if (c == 'l')
-          c = *++t;
-        switch (c)
           {
-          case '%':
-            {
-              p++;
-              break;
-            }
-          case 'c':
-            {
-              char *c = va_arg (ap, char *);
-              *c = *p++;
-              count++;
-              break;
-            }
-          case 'd':
-          case 'i':
-          case 'u':
-            {
-              int *d = va_arg (ap, int *);
-              *d = abtol ((char const **)&p, 10);
-              count++;
+            long_p = 1;
+            c = *++t;
+          }
+        if (c != 'c')
+          while (isspace (*p))
+            p++;
+        if (!*p)
+          {
+            if (!count)
+              count = -1;
+            break;
+          }
+        if (c == '%')
+          {
+            if (*p != '%')
               break;
-            }
-          case 'e':
-          case 'f':
-          case 'g':
-          case 'E':
-          case 'G':
-            {
-              float *f = va_arg (ap, float *);
-              *f = strtod (p, &p);
-              count++;
+            p++;
+          }
+        else if (c == 'c')
+          {
+            char *cp = va_arg (ap, char *);
+            *cp = *p++;
+            count++;
+          }
+        else if (c == 'd' || c == 'i' || c == 'u')
+          {
+            char *tail;
+            long d = strtol (p, &tail, c == 'i' ? 0 : 10);
+            if (tail == p)
               break;
-            }
-          default:
-            {
-              eputs ("vsscanf: not supported: %:");
-              eputc (c);
-              eputs ("\n");
-              t++;
-              p++;
-            }
+            p = tail;
+            if (long_p)
+              {
+                long *lp = va_arg (ap, long *);
+                *lp = d;
+              }
+            else
+              {
+                int *ip = va_arg (ap, int *);
+                *ip = d;
+              }
+            count++;
+          }
+        else if (c == 'e' || c == 'f' || c == 'g' || c == 'E' || c == 'G')
+          {
+            float *f = va_arg (ap, float *);
+            *f = strtod (p, &p);
+            count++;
+          }
+        else
+          {
+            eputs ("vsscanf: not supported: %:");
+            eputc (c);
+            eputs ("\n");
+            break;
           }
         t++;
       }
-- 
2.43.0


From 69b98bc3499e5821b0fed35a2c783ea36185059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 019/147] fix: vfscanf: match the template, consume only what
 matches.

Do not read a character beyond the last conversion, do not write beyond
the number buffer.
---
 lib/stdio/vfscanf.c | 183 ++++++++++++++++++++++++++------------------
 1 file changed, 110 insertions(+), 73 deletions(-)

diff --git a/lib/stdio/vfscanf.c b/lib/stdio/vfscanf.c
index b1083a5..5dba01e 100644
--- a/lib/stdio/vfscanf.c
+++ b/lib/stdio/vfscanf.c
@@ -22,98 +22,135 @@
 #include <ctype.h>
 #include <stdarg.h>
 #include <stdio.h>
+#include <stdlib.h>
 
 int
 vfscanf (FILE * stream, char const *template, va_list ap)
 {
-  char p = fgetc (stream);
+  int p;
   char const *t = template;
   int count = 0;
-  while (*t && p != EOF)
-    if (*t != '%')
+  int long_p;
+  int base;
+  char buf[80];
+  char *q;
+  char *tail;
+  while (*t)
+    if (isspace (*t))
       {
         t++;
         p = fgetc (stream);
+        while (isspace (p))
+          p = fgetc (stream);
+        if (p >= 0)
+          ungetc (p, stream);
+      }
+    else if (*t != '%')
+      {
+        p = fgetc (stream);
+        if (p != (*t & 0xff))
+          {
+            if (p >= 0)
+              ungetc (p, stream);
+            else if (!count)
+              count = EOF;
+            break;
+          }
+        t++;
       }
     else
       {
         t++;
         char c = *t;
+        long_p = 0;
         if (c == 'l')
-          c = *++t;
-        switch (c)
           {
-          case '%':
-            {
-              p = fgetc (stream);
-              break;
-            }
-          case 'c':
-            {
-              char *c = va_arg (ap, char *);
-              *c = p;
-              p = fgetc (stream);
-              count++;
-              break;
-            }
-          case 'd':
-          case 'i':
-          case 'u':
-            {
-              int *d = va_arg (ap, int *);
-              char buf[20];
-              char *q = buf;
-              if (p == '+' || p == '-')
-                {
-                  *q++ = p;
-                  p = fgetc (stream);
-                }
-              while (isdigit (p))
-                {
-                  *q++ = p;
-                  p = fgetc (stream);
-                }
-              ungetc (p, stream);
-              *q = 0;
-              q = buf;
-              *d = abtol (&q, 10);
-              count++;
-              break;
-            }
-          case 'e':
-          case 'f':
-          case 'g':
-          case 'E':
-          case 'G':
-            {
-              float *f = va_arg (ap, float *);
-              char buf[20];
-              char *q = buf;
-              if (p == '+' || p == '-')
-                {
-                  *q++ = p;
-                  p = fgetc (stream);
-                }
-              while (isdigit (p))
-                {
+            long_p = 1;
+            c = *++t;
+          }
+        p = fgetc (stream);
+        if (c != 'c')
+          while (isspace (p))
+            p = fgetc (stream);
+        if (p < 0)
+          {
+            if (!count)
+              count = EOF;
+            break;
+          }
+        if (c == '%')
+          {
+            if (p != '%')
+              {
+                ungetc (p, stream);
+                break;
+              }
+          }
+        else if (c == 'c')
+          {
+            char *cp = va_arg (ap, char *);
+            *cp = p;
+            count++;
+          }
+        else if (c == 'd' || c == 'i' || c == 'u'
+                 || c == 'e' || c == 'f' || c == 'g' || c == 'E' || c == 'G')
+          {
+            q = buf;
+            base = 10;
+            if (p == '+' || p == '-')
+              {
+                *q++ = p;
+                p = fgetc (stream);
+              }
+            if (c == 'i' && p == '0')
+              {
+                base = 8;
+                *q++ = p;
+                p = fgetc (stream);
+                if (p == 'x' || p == 'X')
+                  {
+                    base = 16;
+                    *q++ = p;
+                    p = fgetc (stream);
+                  }
+              }
+            while (isnumber (p, base))
+              {
+                if (q < buf + sizeof (buf) - 1)
                   *q++ = p;
-                  p = fgetc (stream);
-                }
+                p = fgetc (stream);
+              }
+            if (p >= 0)
               ungetc (p, stream);
-              *q = 0;
-              q = buf;
-              *f = strtod (q, &q);
-              count++;
+            *q = 0;
+            long d = strtol (buf, &tail, base);
+            if (tail == buf)
               break;
-            }
-          default:
-            {
-              eputs ("vsscanf: not supported: %:");
-              eputc (c);
-              eputs ("\n");
-              t++;
-              p = fgetc (stream);
-            }
+            if (c != 'd' && c != 'i' && c != 'u')
+              {
+                float *f = va_arg (ap, float *);
+                q = buf;
+                *f = strtod (q, &q);
+              }
+            else if (long_p)
+              {
+                long *lp = va_arg (ap, long *);
+                *lp = d;
+              }
+            else
+              {
+                int *ip = va_arg (ap, int *);
+                *ip = d;
+              }
+            count++;
+          }
+        else
+          {
+            eputs ("vfscanf: not supported: %:");
+            eputc (c);
+            eputs ("\n");
+            ungetc (p, stream);
+            break;
           }
         t++;
       }
-- 
2.43.0


From 77f20a7ee8288c4ca8992f4d0d325819c22465e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 020/147] fix: __ashrdi3: shift negative numbers with tcc.

---
 lib/libtcc1.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/libtcc1.c b/lib/libtcc1.c
index 2b80269..da41e28 100644
--- a/lib/libtcc1.c
+++ b/lib/libtcc1.c
@@ -180,12 +180,18 @@ __ashrdi3 (long a, long ah, long b)
   stub = 1;
  return a >> b;
 #else //  __TINYC__
+  // Round down, also for negative numbers.
+  int negative_p = a < 0;
+  if (negative_p)
+    a = ~a;
   for (int i = 0; i < b; i++)
 #if __arm__
     a = __mesabi_idiv (a, 2); // I sure hope that doesn't endless recurse because of the optimizations in __mesabi_udiv that shift
 #else // !__arm__
     a /= 2;
 #endif // !__arm__
+  if (negative_p)
+    a = ~a;
   return a;
 #endif // __TINYC__
 }
-- 
2.43.0


From 259f911c5f23ea6b66af41bbbad87238816b386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 021/147] fix: getopt: stop at --.

---
 lib/posix/getopt.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/posix/getopt.c b/lib/posix/getopt.c
index 5ade18e..a1dc399 100644
--- a/lib/posix/getopt.c
+++ b/lib/posix/getopt.c
@@ -164,6 +164,14 @@ _getopt_internal (int argc, char *const
       if ((argv[optind][0] != '-' || argv[optind][1] == '\0'))
         return EOF;
 
+      /* The special ARGV-element `--' ends the options.  */
+
+      if (argv[optind][0] == '-' && argv[optind][1] == '-' && argv[optind][2] == '\0')
+        {
+          optind++;
+          return EOF;
+        }
+
       /* We have found another option-ARGV-element.
          Start decoding its characters.  */
 
-- 
2.43.0


From 5d38c072e8de3363813f30e106ab7737dceaddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 022/147] fix: mescc: x86_64: keep the stack aligned, split
 locks stall programs.

---
 module/mescc/x86_64/as.scm | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/module/mescc/x86_64/as.scm b/module/mescc/x86_64/as.scm
index 7e438c6..7a31a88 100644
--- a/module/mescc/x86_64/as.scm
+++ b/module/mescc/x86_64/as.scm
@@ -68,7 +68,9 @@
 (define (x86_64:function-locals . rest)
   `(
     ;; FIXME: how on x86_64?
-    ("sub____$i32,%rsp" (#:immediate ,(+ (* 4 1025) (* 20 8))))
+    ;; a multiple of 8: XCHG of a stack slot that straddles cache lines is a
+    ;; split lock, on which Linux stalls the program
+    ("sub____$i32,%rsp" (#:immediate ,(+ (* 8 513) (* 20 8))))
     )) ; 4*1024 buf, 20 local vars
 
 (define (x86_64:r->local info n)
-- 
2.43.0


From df275aa181f0a9c963cd1151c49878724420bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 023/147] fix: mescc: x86: correct encodings of cmp and mov
 with %ebx.

A comparison with a constant in %ebx, as in the second of two switch
statements, used the encoding for a 32 bit immediate with an 8 bit one;
byte and word stores through %ebx were encoded as loads.
---
 lib/x86-mes/x86.M1 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/x86-mes/x86.M1 b/lib/x86-mes/x86.M1
index ede7979..a38e65b 100644
--- a/lib/x86-mes/x86.M1
+++ b/lib/x86-mes/x86.M1
@@ -31,6 +31,7 @@ DEFINE add____$i8,%esp 83c4
 DEFINE add____$i8,(%eax) 8300
 DEFINE add____$i8,(%ebx) 8303
 DEFINE add____$i8,0x32 8305
+DEFINE add____$i32,0x32 8105
 DEFINE add____$i8,0x32(%eax) 8380
 DEFINE add____$i8,0x32(%ebp) 8385
 DEFINE add____$i8,0x8(%eax) 8340
@@ -53,7 +54,8 @@ DEFINE cltd 99
 DEFINE cmp____$0x32,%eax 3d
 DEFINE cmp____$i32,%eax 3d
 DEFINE cmp____$i8,%eax 83f8
-DEFINE cmp____$i8,%ebx 81fb
+DEFINE cmp____$i8,%ebx 83fb
+DEFINE cmp____$i32,%ebx 81fb
 DEFINE div___%ebx f7f3
 DEFINE hlt f4
 DEFINE idiv___%ebx f7fb
@@ -89,8 +91,8 @@ DEFINE mov____%al,0x8(%ebp) 8845
 DEFINE mov____%ax,(%ebx) 668903
 DEFINE mov____%ax,0x8(%ebp) 668945
 DEFINE mov____%bx,%bx 6689db
-DEFINE mov____%cl,(%ebx) 8a08
-DEFINE mov____%cx,(%ebx) 668b08
+DEFINE mov____%cl,(%ebx) 880b
+DEFINE mov____%cx,(%ebx) 66890b
 DEFINE mov____%dl,(%eax) 8810
 DEFINE mov____%dl,0x8(%eax) 8850
 DEFINE mov____%eax,%ebx 89c3
-- 
2.43.0


From a3840ffde4bea3d54d0fe3cf12b29bf82a4729c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 024/147] fix: mescc: x86_64: large and negative 64 bit
 constants.

Constants from 2^31 were sign-extended in comparisons, masks and loads,
negative constants beyond 32 bits lost their upper half, and comparing
with a 64 bit constant was not assembled at all.
---
 lib/x86_64-mes/x86_64.M1   |  4 ++++
 module/mescc/M1.scm        | 14 ++++++++------
 module/mescc/x86_64/as.scm | 14 ++++++--------
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/lib/x86_64-mes/x86_64.M1 b/lib/x86_64-mes/x86_64.M1
index 9ffbbf1..c60129b 100644
--- a/lib/x86_64-mes/x86_64.M1
+++ b/lib/x86_64-mes/x86_64.M1
@@ -34,6 +34,8 @@ DEFINE add____$i8,(%rdi) 8307
 DEFINE add____$i8,0x8(%rbp) 8345
 DEFINE add____%r15,(%rax) 4c0138
 DEFINE add____%r15,(%rdi) 4c013f
+DEFINE add____%r15,%rax 4c01f8
+DEFINE add____%r15,%rdi 4c01ff
 DEFINE add____%rax,%rax 4801c0
 DEFINE add____%rbp,%rax 4801e8
 DEFINE add____%rdi,%rax 4801f8
@@ -46,6 +48,7 @@ DEFINE addl___$i8,(%rax) 8300
 DEFINE addl___$i8,(%rdi) 8307
 DEFINE addw___$i8,(%rax) 668100
 DEFINE addw___$i8,(%rdi) 668107
+DEFINE and____$i32,%rax 4825
 DEFINE and____$i32,%rdi 4881e7
 DEFINE and____%r15,%rax 4c21f8
 DEFINE and____%r15,%rdi 4c21ff
@@ -54,6 +57,7 @@ DEFINE call32 e8
 DEFINE call___*%rax ffd0
 DEFINE call___*%rdi ffd7
 DEFINE cmp____$i32,%rax 483d
+DEFINE cmp____$i32,%rdi 4881ff
 DEFINE cmp____$i8,%rax 4883f8
 DEFINE cmp____$i8,%rdi 4883ff
 DEFINE cmp____%r15,%rax 4c39f8
diff --git a/module/mescc/M1.scm b/module/mescc/M1.scm
index 790ef88..a23657c 100644
--- a/module/mescc/M1.scm
+++ b/module/mescc/M1.scm
@@ -92,12 +92,14 @@
 
 (define (hex2:immediate8 o)
   ;; FIXME: #x100000000 => 0 divide-by-zero when compiled with 64 bit mesc
-  (if hex? (string-append "%0x" (dec->hex (if mesc? 0 (modulo o #x100000000)))
-                          " %0x" (if (< o 0) "-1"
-                                     (dec->hex (if mesc? o (quotient o #x100000000)))))
-      (string-append "%" (number->string (dec->hex (if mesc? 0 (modulo o #x100000000))))
-                     " %" (if (< o 0) "-1"
-                              (number->string (dec->hex (if mesc? o (quotient o #x100000000))))))))
+  (let* ((low (if mesc? 0 (modulo o #x100000000)))
+         (high (cond ((not mesc?) (quotient (- o low) #x100000000))
+                     ((< o 0) -1)
+                     (else o))))
+    (if hex? (string-append "%0x" (dec->hex low)
+                            " %0x" (if (= high -1) "-1" (dec->hex high)))
+        (string-append "%" (number->string low)
+                       " %" (number->string high)))))
 
 (define* (display-join o #:optional (sep ""))
   (let loop ((o o))
diff --git a/module/mescc/x86_64/as.scm b/module/mescc/x86_64/as.scm
index 7a31a88..5a205c2 100644
--- a/module/mescc/x86_64/as.scm
+++ b/module/mescc/x86_64/as.scm
@@ -84,7 +84,7 @@
   (or v (error "invalid value: x86_64:value->r: " v))
   (let ((r (get-r info)))
     (if (and (>= v 0)
-             (< v #xffffffff))
+             (< v #x80000000))
      `((,(string-append "mov____$i32,%" r) (#:immediate ,v)))
      `((,(string-append "mov____$i64,%" r) (#:immediate8 ,v))))))
 
@@ -521,12 +521,11 @@
   (let ((r (get-r info)))
     (cond ((< (abs v) #x80)
            `((,(string-append "cmp____$i8,%" r) (#:immediate1 ,v))))
-          ((and (>= v 0)
-                (< v #xffffffff))
+          ((< (abs v) #x80000000)
            `((,(string-append "cmp____$i32,%" r) (#:immediate ,v))))
           (else
-           `(,(string-append "mov____$i64,%r15") (#:immediate8 ,v)
-             ,(string-append "cmp____%r15,%" r))))))
+           `((,(string-append "mov____$i64,%r15") (#:immediate8 ,v))
+             (,(string-append "cmp____%r15,%" r)))))))
 
 (define (x86_64:push-register info r)
   `((,(string-append "push___%" r))))
@@ -609,8 +608,7 @@
   (let ((r (get-r info)))
     (cond  ((< (abs v) #x80)
             `((,(string-append "addl___$i8,(%" r ")") (#:immediate1 ,v))))
-           ((and (>= v 0)
-                 (< v #xffffffff))
+           ((< (abs v) #x80000000)
             `((,(string-append "addl___$i32,(%" r ")") (#:immediate ,v))))
            (else
             `((,(string-append "mov____$i64,%r15") (#:immediate8 ,v))
@@ -640,7 +638,7 @@
 (define (x86_64:r-and info v)
   (let ((r (get-r info)))
     (if (and (>= v 0)
-             (< v #xffffffff))
+             (< v #x80000000))
         `((,(string-append "and____$i32,%" r) (#:immediate ,v)))
         `((,(string-append "mov____$i64,%r15") (#:immediate8 ,v))
           (,(string-append "and____%r15,%" r))))))
-- 
2.43.0


From 0c39cb545e2deba6388f60f8486e20106ff21113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 025/147] fix: mescc: switch: fall through into the next body,
 default anywhere.

After a body that does not end in break, the tests of the next clause were
run instead of its body; a default that is not the last clause or shares
its body with a case was missed or jumped to itself.
---
 module/mescc/compile.scm | 55 +++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 65c16b3..5f21c8c 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1768,6 +1768,12 @@
            ((default . _) 'default)
            ((labeled-stmt _ ,statement) (clause? statement))
            (_ #f)))
+       (define (default-clause? o)
+         (pmatch o
+           ((default . _) #t)
+           ((case ,test . ,rest) (any default-clause? rest))
+           ((labeled-stmt _ ,statement) (default-clause? statement))
+           (_ #f)))
        (define clause-number
          (let ((i 0))
            (lambda (o)
@@ -1782,7 +1788,7 @@
               (info (expr->register expr info))
               (info (clone info #:break (cons break-label (.break info))))
               (count (length (filter clause? statements)))
-              (default? (find (cut eq? <> 'default) (map clause? statements)))
+              (default? (find default-clause? statements))
               (info (fold (cut switch->info #t label (1- count) <> <> <>) info statements
                           (unfold null? clause-number cdr statements)))
               (last-clause-label (string-append label "clause" (number->string count)))
@@ -1792,7 +1798,8 @@
               (info (append-text info (wrap-as `((#:label ,last-clause-label)))))
               (info (if (not default?) info
                         (append-text info (wrap-as (as info 'jump default-label)))))
-              (info (append-text info (wrap-as `((#:label ,break-label))))))
+              (info (append-text info (wrap-as `((#:label ,break-label)))))
+              (info (fold (lambda (x info) (free-register info)) info (.allocated info))))
          (clone info
                 #:locals locals
                 #:break (cdr (.break info)))))
@@ -1911,7 +1918,6 @@
   (let* ((i-string (number->string i))
          (i+1-string (number->string (1+ i)))
          (body-label (string-append label "body" i-string))
-         (next-body-label (string-append label "body" i+1-string))
          (clause-label (string-append label "clause" i-string))
          (last? (= i count))
          (break-label (string-append label "break"))
@@ -1919,6 +1925,11 @@
          (default-label (string-append label "default")))
     (define (jump label)
       (wrap-as (as info 'jump label)))
+    (define (clause->info info)
+      (if (not clause?) info
+          ;; the body of the previous clause falls through into this body
+          (append-text info `(,@(if (= i 0) '() (jump body-label))
+                              ,@(wrap-as `((#:label ,clause-label)))))))
     (pmatch o
       ((case ,test)
        (define (jump-nz label)
@@ -1935,45 +1946,33 @@
                         (_ (error "case test: not supported: " test)))))
            (append (wrap-as (as info 'r-cmp-value value))
                    (jump-z body-label))))
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
+       (let ((info (clause->info info)))
          (append-text info (test->text test))))
       ((case ,test (case . ,case1))
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
+       (let ((info (clause->info info)))
          (fold (cut switch->info #f label count <> i <>) info (cons `(case ,test) `((case ,@case1))))))
       ((case ,test (default . ,rest))
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
-         (fold (cut switch->info #f label count <> i <>) info (cons `(case ,test) `(default ,@rest)))))
+       (let ((info (clause->info info)))
+         (fold (cut switch->info #f label count <> i <>) info (cons `(case ,test) `((default ,@rest))))))
       ((case ,test ,statement)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
+       (let* ((info (clause->info info))
               (info (switch->info #f label count `(case ,test) i info))
               (info (append-text info (jump next-clause-label)))
               (info (append-text info (wrap-as `((#:label ,body-label)))))
-              (info (ast->info statement info))
-              ;; 66-local-char-array -- fallthrough FIXME
-              ;; (info (if last? info
-              ;;           (append-text info (jump next-body-label))))
-              )
+              (info (ast->info statement info)))
          info))
       ((case ,test (case . ,case1) . ,rest)
-       (let ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                       info)))
+       (let ((info (clause->info info)))
          (fold (cut switch->info #f label count <> i <>) info (cons `(case ,test) `((case ,@case1) ,@rest)))))
       ((default (case . ,case1) . ,rest)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
+       (let* ((info (clause->info info))
               (info (if last? info
                          (append-text info (jump next-clause-label))))
               (info (append-text info (wrap-as `((#:label ,default-label)))))
-              (info (append-text info (jump body-label)))
-              (info (append-text info (wrap-as `((#:label ,body-label))))))
+              (info (append-text info (jump body-label))))
          (fold (cut switch->info #f label count <> i <>) info `((case ,@case1) ,@rest))))
       (default
-        (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                         info))
+        (let* ((info (clause->info info))
                (info (if last? info
                          (append-text info (jump next-clause-label))))
                (info (append-text info (wrap-as `((#:label ,default-label)))))
@@ -1981,16 +1980,14 @@
                (info (append-text info (wrap-as `((#:label ,body-label))))))
           info))
       ((default ,statement)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
+       (let* ((info (clause->info info))
               (info (if last? info
                         (append-text info (jump next-clause-label))))
               (info (append-text info (wrap-as `((#:label ,default-label)))))
               (info (append-text info (wrap-as `((#:label ,body-label))))))
          (ast->info statement info)))
       ((default ,statement ,rest)
-       (let* ((info (if clause? (append-text info (wrap-as `((#:label ,clause-label))))
-                        info))
+       (let* ((info (clause->info info))
               (info (if last? info
                         (append-text info (jump next-clause-label))))
               (info (append-text info (wrap-as `((#:label ,default-label)))))
-- 
2.43.0


From 28d92ffd2cfea54734b4ce3af9750c514a8e51ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 026/147] fix: mescc: value of ||, && and !=.

The value of || and && was that of an operand rather than 0 or 1, and !=
clobbered the other operand of an expression by using lahf.
---
 module/mescc/compile.scm | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 5f21c8c..31df379 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1263,9 +1263,7 @@
            info))
 
         ((ne ,a ,b) (let* ((info ((binop->r info) a b 'r0-r1))
-                           (info (append-text info (wrap-as (as info 'test-r))))
-                           (info (append-text info (wrap-as (as info 'xor-zf))))
-                           (info (append-text info (wrap-as (as info 'zf->r)))))
+                           (info (append-text info (r->boolean info))))
                       info))
 
         ((le ,a ,b)
@@ -1296,7 +1294,8 @@
                 (info (free-register info))
                 (info (expr->register b info))
                 (info (append-text info (wrap-as (as info 'test-r))))
-                (info (append-text info (wrap-as `((#:label ,skip-b-label))))))
+                (info (append-text info (wrap-as `((#:label ,skip-b-label)))))
+                (info (append-text info (r->boolean info))))
            info))
 
         ((and ,a ,b)
@@ -1309,7 +1308,8 @@
                 (info (free-register info))
                 (info (expr->register b info))
                 (info (append-text info (wrap-as (as info 'test-r))))
-                (info (append-text info (wrap-as `((#:label ,skip-b-label))))))
+                (info (append-text info (wrap-as `((#:label ,skip-b-label)))))
+                (info (append-text info (r->boolean info))))
            info))
 
         ((cast ,type ,expr)
@@ -1448,6 +1448,12 @@
       ((4) (append (wrap-as (as info 'long-mem->r)) (convert-r0 info type)))
       (else '()))))
 
+(define (r->boolean info)
+  (append (wrap-as (as info 'test-r))
+          (wrap-as (as info 'zf->r))
+          (wrap-as (as info 'test-r))
+          (wrap-as (as info 'zf->r))))
+
 (define (convert-r0 info type)
   (if (not (type? type)) '()
       (let ((sign (signed? type))
-- 
2.43.0


From 91be682d71ba5cad09589bd9dbc5f66d711cca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 027/147] fix: mescc: size of an array without count.

The element count of a string was always two, that of a list one too many.
---
 module/mescc/compile.scm | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 31df379..cb44eaf 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -2373,7 +2373,11 @@
      (let* ((strings (init->strings init info))
             (info (if (null? strings) info
                       (clone info #:globals (append (.globals info) strings))))
-            (count (length (cadar init)))
+            (count (pmatch init
+                     (((initzer (p-expr (string . ,strings))))
+                      (1+ (apply + (map string-length strings))))
+                     (((initzer (initzer-list . ,initzers))) (length initzers))
+                     (_ (length (cadar init)))))
             (type (make-c-array type count)))
        (if (.function info) (local->info type name o init info)
            (global->info storage type name o init info))))
-- 
2.43.0


From e20e99a9b6948dfce966fcae00c36b10e7f414e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 028/147] fix: mescc: missing and 32 bit memory instructions.

x86_64: stores to a char global and adding to a global pointer were not
assembled; adding to a 64 bit variable only added to its lower half.
---
 lib/x86_64-mes/x86_64.M1 | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/x86_64-mes/x86_64.M1 b/lib/x86_64-mes/x86_64.M1
index c60129b..53fe8cd 100644
--- a/lib/x86_64-mes/x86_64.M1
+++ b/lib/x86_64-mes/x86_64.M1
@@ -24,14 +24,17 @@
 DEFINE add____$i32,%rax 4805
 DEFINE add____$i32,%rbp 4881c5
 DEFINE add____$i32,%rdi 4881c7
-DEFINE add____$i32,(%rax) 8100
-DEFINE add____$i32,0x32(%rbp) 8185
+DEFINE add____$i32,(%rax) 488100
+DEFINE add____$i32,(%rdi) 488107
+DEFINE add____$i32,0x32(%rbp) 488185
+DEFINE add____$i8,0x32 48830425
+DEFINE add____$i32,0x32 48810425
 DEFINE add____$i8,%rax 4883c0
 DEFINE add____$i8,%rdi 4883c7
 DEFINE add____$i8,%rsp 4883c4
-DEFINE add____$i8,(%rax) 8300
-DEFINE add____$i8,(%rdi) 8307
-DEFINE add____$i8,0x8(%rbp) 8345
+DEFINE add____$i8,(%rax) 488300
+DEFINE add____$i8,(%rdi) 488307
+DEFINE add____$i8,0x8(%rbp) 488345
 DEFINE add____%r15,(%rax) 4c0138
 DEFINE add____%r15,(%rdi) 4c013f
 DEFINE add____%r15,%rax 4c01f8
@@ -151,6 +154,8 @@ DEFINE mov____0x8(%rbp),%rsp 488b65
 DEFINE mov____0x8(%rdi),%rax 488b47
 DEFINE mov____0x8(%rdi),%rbp 488b6f
 DEFINE mov____0x8(%rdi),%rsp 488b67
+DEFINE movb___%al,0x32 880425
+DEFINE movb___%dil,0x32 40883c25
 DEFINE movl___%eax,0x32 890425
 DEFINE movl___%edi,0x32 893c25
 DEFINE movl___%esi,(%rdi) 8937
-- 
2.43.0


From c8059be57f7f31aca8718e7f6fe21c9cb52d84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 029/147] fix: mescc: usual arithmetic conversions.

Comparison, division and shift used the signedness of one unpromoted
operand; unsigned values were sign-extended and kept bits beyond their
width; returned and assigned values were not converted; int + pointer was
not scaled and the difference of pointers was taken to be unsigned.
---
 lib/x86-mes/x86.M1         |   3 +
 lib/x86_64-mes/x86_64.M1   |   3 +
 module/mescc/armv4/as.scm  |   4 +-
 module/mescc/compile.scm   | 226 +++++++++++++++++++++++++------------
 module/mescc/i386/as.scm   |   7 +-
 module/mescc/x86_64/as.scm |   7 +-
 6 files changed, 167 insertions(+), 83 deletions(-)

diff --git a/lib/x86-mes/x86.M1 b/lib/x86-mes/x86.M1
index a38e65b..cb2d4cf 100644
--- a/lib/x86-mes/x86.M1
+++ b/lib/x86-mes/x86.M1
@@ -201,6 +201,9 @@ DEFINE shl____$i8,%ebx c1e3
 DEFINE shl____%cl,%eax d3e0
 DEFINE shl____%cl,%ebx d3e3
 DEFINE shr____%cl,%eax d3e8
+DEFINE shr____%cl,%ebx d3eb
+DEFINE sar____%cl,%eax d3f8
+DEFINE sar____%cl,%ebx d3fb
 DEFINE sub____$8,%esp 83ec
 DEFINE sub____$i32,%esp 81ec
 DEFINE sub____%al,%dl 28d0
diff --git a/lib/x86_64-mes/x86_64.M1 b/lib/x86_64-mes/x86_64.M1
index 53fe8cd..a946c7e 100644
--- a/lib/x86_64-mes/x86_64.M1
+++ b/lib/x86_64-mes/x86_64.M1
@@ -228,6 +228,9 @@ DEFINE shl____$i8,%rdi 48c1e7
 DEFINE shl____%cl,%rax 48d3e0
 DEFINE shl____%cl,%rdi 48d3e7
 DEFINE shr____%cl,%rax 48d3e8
+DEFINE shr____%cl,%rdi 48d3ef
+DEFINE sar____%cl,%rax 48d3f8
+DEFINE sar____%cl,%rdi 48d3ff
 DEFINE sub____$i32,%rbp 4881ed
 DEFINE sub____$i32,%rsp 4881ec
 DEFINE sub____%rdi,%rax 4829f8
diff --git a/module/mescc/armv4/as.scm b/module/mescc/armv4/as.scm
index e30338d..01603c3 100644
--- a/module/mescc/armv4/as.scm
+++ b/module/mescc/armv4/as.scm
@@ -349,8 +349,8 @@
         (r1 (get-r1 info)))
     `((,(string-append "lsl____%" r0 ",%" r0 ",%" r1)))))
 
-;; FIXME: lsr??! Signed or unsigned r0?
-(define (armv4:r0>>r1 info)
+;; FIXME: asr if signed?
+(define (armv4:r0>>r1 info signed?)
   (let ((r0 (get-r0 info))
         (r1 (get-r1 info)))
     `((,(string-append "lsr____%" r0 ",%" r0 ",%" r1)))))
diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index cb44eaf..2f4bcab 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -104,6 +104,43 @@
         ((string? o) (->size (get-type o info) info))
         (else (error "->size>: not a <type>:" o))))
 
+(define (integer-type? o)
+  (and (type? o) (memq (type:type o) '(signed unsigned)) #t))
+
+(define (pointer-like? o)
+  (or (pointer? o) (c-array? o)))
+
+(define (fits-bits? value bits)
+  (zero? (ash value (- bits))))
+
+(define (promote type info)
+  (let ((default (get-type "default" info)))
+    (if (and (integer-type? type)
+             (< (->size type info) (->size default info))) default
+             type)))
+
+(define (promoted-type o info)
+  (promote (ast->type o info) info))
+
+(define (arithmetic-type a b info)
+  "Return the type of the result of an arithmetic operation on A and B."
+  (let ((type-a (promoted-type a info)))
+    (if (not (integer-type? type-a)) type-a
+        (let ((type-b (promoted-type b info)))
+          (cond ((pointer-like? type-b) type-b)
+                ((not (integer-type? type-b)) type-a)
+                ((> (->size type-a info) (->size type-b info)) type-a)
+                ((< (->size type-a info) (->size type-b info)) type-b)
+                ((unsigned? type-a) type-a)
+                (else type-b))))))
+
+(define (unsigned-arithmetic? a b info)
+  (let ((type-a (ast->type a info))
+        (type-b (ast->type b info)))
+    (if (and (integer-type? type-a) (integer-type? type-b))
+        (unsigned? (arithmetic-type a b info))
+        (or (unsigned? type-a) (unsigned? type-b)))))
+
 (define (ast->type o info)
   (define (type-helper o info)
     (if (getenv "MESC_DEBUG")
@@ -117,12 +154,19 @@
       ((char ,value) (get-type "char" info))
       ((enum-ref . _) (get-type "default" info))
       ((fixed ,value)
-       (let ((type (cond ((string-suffix? "ULL"value) "unsigned long long")
-                         ((string-suffix? "UL" value) "unsigned long")
-                         ((string-suffix? "U" value) "unsigned")
-                         ((string-suffix? "LL" value) "long long")
-                         ((string-suffix? "L" value) "long")
-                         (else "default"))))
+       (let* ((value (string-upcase value))
+              (type (cond ((or (string-suffix? "ULL" value)
+                               (string-suffix? "LLU" value)) "unsigned long long")
+                          ((or (string-suffix? "UL" value)
+                               (string-suffix? "LU" value)) "unsigned long")
+                          ((string-suffix? "U" value) "unsigned")
+                          ((string-suffix? "LL" value) "long long")
+                          ((string-suffix? "L" value) "long")
+                          ((fits-bits? (cstring->int value) 31) "default")
+                          ((and (string-prefix? "0" value)
+                                (fits-bits? (cstring->int value) 32))
+                           "unsigned")
+                          (else "long"))))
          (get-type type info)))
       ((float ,float) (get-type "float" info))
       ((void) (get-type "void" info))
@@ -207,30 +251,33 @@
       ((pre-dec ,a) (ast->type a info))
       ((post-inc ,a) (ast->type a info))
       ((post-dec ,a) (ast->type a info))
-      ((add ,a ,b) (ast->type a info))
-      ((sub ,a ,b) (ast->type a info))
-      ((bitwise-and ,a ,b) (ast->type a info))
-      ((bitwise-not ,a) (ast->type a info))
-      ((bitwise-or ,a ,b) (ast->type a info))
-      ((bitwise-xor ,a ,b) (ast->type a info))
-      ((lshift ,a ,b) (ast->type a info))
-      ((rshift ,a ,b) (ast->type a info))
-      ((div ,a ,b) (ast->type a info))
-      ((mod ,a ,b) (ast->type a info))
-      ((mul ,a ,b) (ast->type a info))
-      ((not ,a) (ast->type a info))
-      ((pos ,a) (ast->type a info))
-      ((neg ,a) (ast->type a info))
-      ((eq ,a ,b) (ast->type a info))
-      ((ge ,a ,b) (ast->type a info))
-      ((gt ,a ,b) (ast->type a info))
-      ((ne ,a ,b) (ast->type a info))
-      ((le ,a ,b) (ast->type a info))
-      ((lt ,a ,b) (ast->type a info))
+      ((add ,a ,b) (arithmetic-type a b info))
+      ((sub ,a ,b) (if (and (pointer-like? (ast->type a info))
+                            (pointer-like? (ast->type b info)))
+                       (get-type "long" info)
+                       (arithmetic-type a b info)))
+      ((bitwise-and ,a ,b) (arithmetic-type a b info))
+      ((bitwise-not ,a) (promoted-type a info))
+      ((bitwise-or ,a ,b) (arithmetic-type a b info))
+      ((bitwise-xor ,a ,b) (arithmetic-type a b info))
+      ((lshift ,a ,b) (promoted-type a info))
+      ((rshift ,a ,b) (promoted-type a info))
+      ((div ,a ,b) (arithmetic-type a b info))
+      ((mod ,a ,b) (arithmetic-type a b info))
+      ((mul ,a ,b) (arithmetic-type a b info))
+      ((not ,a) (get-type "default" info))
+      ((pos ,a) (promoted-type a info))
+      ((neg ,a) (promoted-type a info))
+      ((eq ,a ,b) (get-type "default" info))
+      ((ge ,a ,b) (get-type "default" info))
+      ((gt ,a ,b) (get-type "default" info))
+      ((ne ,a ,b) (get-type "default" info))
+      ((le ,a ,b) (get-type "default" info))
+      ((lt ,a ,b) (get-type "default" info))
 
       ;; logical
-      ((or ,a ,b) (ast->type a info))
-      ((and ,a ,b) (ast->type a info))
+      ((or ,a ,b) (get-type "default" info))
+      ((and ,a ,b) (get-type "default" info))
 
       ((cast (type-name ,type) ,expr) (ast->type type info))
 
@@ -246,6 +293,8 @@
 
       ((assn-expr ,a ,op ,b) (ast->type a info))
 
+      ((comma-expr . ,exprs) (ast->type (car (reverse exprs)) info))
+
       ((cond-expr _ ,a ,b) (ast->type a info))
 
       (_ (get-type o info))))
@@ -809,7 +858,7 @@
                         (info (append-text info (wrap-as (append
                                                           (as info 'value->r size)
                                                           (as info 'swap-r0-r1)
-                                                          (as info 'r0/r1 #f)))))
+                                                          (as info 'r0/r1 #t)))))
                         (info (append-text info (wrap-as (append (as info 'swap-r0-r1)))))
                         (free-register info))
                    info)))
@@ -1138,7 +1187,12 @@
                 (info (expr->register a info))
                 (value (cstring->int value))
                 (value (* size value)))
-           (append-text info (wrap-as (as info 'r+value value)))))
+           (append-text info (append (wrap-as (as info 'r+value value))
+                                     (convert-unsigned info (ast->type o info))))))
+
+        ((add ,a ,b) (guard (and (integer-type? (ast->type a info))
+                                 (pointer-like? (ast->type b info))))
+         (expr->register `(add ,b ,a) info))
 
         ((add ,a ,b)
          (let* ((rank (expr->rank info a))
@@ -1174,7 +1228,8 @@
                 (info (expr->register a info))
                 (value (cstring->int value))
                 (value (* size value)))
-           (append-text info (wrap-as (as info 'r+value (- value))))))
+           (append-text info (append (wrap-as (as info 'r+value (- value)))
+                                     (convert-unsigned info (ast->type o info))))))
 
         ((sub ,a ,b)
          (let* ((rank (expr->rank info a))
@@ -1190,11 +1245,12 @@
 
            (if (or (= size 1) (or (= rank-b 2) (= rank-b 1)))
                (let ((info ((binop->r info) a b 'r0-r1)))
-                 (if (and (not (= rank-b 2)) (not (= rank-b 1))) info
+                 (if (and (not (= rank-b 2)) (not (= rank-b 1)))
+                     (append-text info (convert-unsigned info (ast->type o info)))
                      ;; FIXME: c&p 792
                      (let* ((info (allocate-register info))
                             (info (append-text info (wrap-as (append (as info 'value->r size)
-                                                                     (as info 'r0/r1 #f)))))
+                                                                     (as info 'r0/r1 #t)))))
                             (info (free-register info)))
                        info)))
                (let* ((info (expr->register b info))
@@ -1211,16 +1267,19 @@
         ((bitwise-and ,a ,b) ((binop->r info) a b 'r0-and-r1))
         ((bitwise-not ,expr)
          (let ((info (expr->register expr info)))
-           (append-text info (wrap-as (as info 'not-r)))))
+           (append-text info (append (wrap-as (as info 'not-r))
+                                     (convert-unsigned info (ast->type o info))))))
         ((bitwise-or ,a ,b) ((binop->r info) a b 'r0-or-r1))
         ((bitwise-xor ,a ,b) ((binop->r info) a b 'r0-xor-r1))
         ((lshift ,a ,b) ((binop->r info) a b 'r0<<r1))
-        ((rshift ,a ,b) ((binop->r info) a b 'r0>>r1))
+        ((rshift ,a ,b)
+         ((binop->r info) a b 'r0>>r1
+          (signed? (promoted-type a info))))
         ((div ,a ,b)
          ((binop->r info) a b 'r0/r1
-          (signed? (ast->type a info))))
+          (signed? (arithmetic-type a b info))))
         ((mod ,a ,b) ((binop->r info) a b 'r0%r1
-                      (signed? (ast->type a info))))
+                      (signed? (arithmetic-type a b info))))
         ((mul ,a ,b) ((binop->r info) a b 'r0*r1))
 
         ((not ,expr)
@@ -1239,25 +1298,21 @@
                                                 (wrap-as (as info 'swap-r0-r1))
                                                 (wrap-as (as info 'r0-r1)))))
                 (info (free-register info)))
-           info))
+           (append-text info (convert-unsigned info (ast->type o info)))))
 
         ((eq ,a ,b) (let ((info ((binop->r info) a b 'r0-r1)))
                       (append-text info (wrap-as (as info 'zf->r)))))
 
         ((ge ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'ae?->r 'ge?->r))
+         (let* ((info ((binop->r info) a b 'r0-r1))
+                (test->r (if (unsigned-arithmetic? a b info) 'ae?->r 'ge?->r))
                 (info (append-text info (wrap-as (as info test->r))))
                 (info (append-text info (wrap-as (as info 'test-r)))))
            info))
 
         ((gt ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'a?->r 'g?->r))
+         (let* ((info ((binop->r info) a b 'r0-r1))
+                (test->r (if (unsigned-arithmetic? a b info) 'a?->r 'g?->r))
                 (info (append-text info (wrap-as (as info test->r))))
                 (info (append-text info (wrap-as (as info 'test-r)))))
            info))
@@ -1267,19 +1322,15 @@
                       info))
 
         ((le ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'be?->r 'le?->r))
+         (let* ((info ((binop->r info) a b 'r0-r1))
+                (test->r (if (unsigned-arithmetic? a b info) 'be?->r 'le?->r))
                 (info (append-text info (wrap-as (as info test->r))))
                 (info (append-text info (wrap-as (as info 'test-r)))))
            info))
 
         ((lt ,a ,b)
-         (let* ((type-a (ast->type a info))
-                (type-b (ast->type b info))
-                (info ((binop->r info) a b 'r0-r1))
-                (test->r (if (or (unsigned? type-a) (unsigned? type-b)) 'b?->r 'l?->r))
+         (let* ((info ((binop->r info) a b 'r0-r1))
+                (test->r (if (unsigned-arithmetic? a b info) 'b?->r 'l?->r))
                 (info (append-text info (wrap-as (as info test->r))))
                 (info (append-text info (wrap-as (as info 'test-r)))))
            info))
@@ -1361,23 +1412,23 @@
                                              info)))
                                  (info (expr->register a info))
                                  (info (append-text info (wrap-as (as info 'swap-r0-r1))))
-                                 (signed? (signed? type))
+                                 (unsigned? (not (signed? (arithmetic-type a b info))))
                                  (info (append-text info (cond ((equal? op "+=") (wrap-as (as info 'r0+r1)))
                                                                ((equal? op "-=") (wrap-as (as info 'r0-r1)))
                                                                ((equal? op "*=") (wrap-as (as info 'r0*r1)))
-                                                               ((equal? op "/=") (wrap-as (as info 'r0/r1 signed?)))
-                                                               ((equal? op "%=") (wrap-as (as info 'r0%r1 signed?)))
+                                                               ((equal? op "/=") (wrap-as (as info 'r0/r1 (not unsigned?))))
+                                                               ((equal? op "%=") (wrap-as (as info 'r0%r1 (not unsigned?))))
                                                                ((equal? op "&=") (wrap-as (as info 'r0-and-r1)))
                                                                ((equal? op "|=") (wrap-as (as info 'r0-or-r1)))
                                                                ((equal? op "^=") (wrap-as (as info 'r0-xor-r1)))
-                                                               ((equal? op ">>=") (wrap-as (as info 'r0>>r1)))
+                                                               ((equal? op ">>=") (wrap-as (as info 'r0>>r1 (signed? (promoted-type a info)))))
                                                                ((equal? op "<<=") (wrap-as (as info 'r0<<r1)))
                                                                (else (error (format #f "mescc: op ~a not supported: ~a\n" op o))))))
                                  (info (free-register info)))
                             (cond ((not (and (= rank 1) (= rank-b 1))) info)
                                   ((equal? op "-=") (let* ((info (allocate-register info))
                                                            (info (append-text info (wrap-as (append (as info 'value->r size)
-                                                                                                    (as info 'r0/r1 signed?)))))
+                                                                                                    (as info 'r0/r1 (not unsigned?))))))
                                                            (info (free-register info)))
                                                       info))
                                   (else (error (format #f "invalid operands to binary ~s (have ~s* and ~s*) " op type (ast->basic-type b info)))))))))
@@ -1396,7 +1447,9 @@
            (pmatch a
              ((p-expr (ident ,name))
               (if (or (<= size r-size)
-                      (<= size-b r-size)) (append-text info ((r->ident info) name))
+                      (<= size-b r-size))
+                  (append-text info (append ((r->ident info) name)
+                                            (convert-assigned info op type type-b)))
                       (let* ((info (expr->register* a info))
                              (info (r0->r1-mem*n info size size-b)))
                         (free-register info))))
@@ -1430,7 +1483,7 @@
                                            (min size (max reg-size size-b))
                                            (min size (max reg-size size-b))))
                        (info (free-register info)))
-                  info)))))
+                  (append-text info (convert-assigned info op type type-b)))))))
         (_ (error "expr->register: not supported: " o))))
 
     (let ((info (helper)))
@@ -1474,19 +1527,41 @@
               ((and (> reg-size 4) (= size 4) sign)
                (wrap-as (as info 'long-signed-r)))
               ((and (> reg-size 4) (= size 4))
-               ;; for 17-unsigned-le
-               (wrap-as (as info 'long-signed-r))  ; huh, why not long-r?
-               ;; for a0-call-trunc-int
-               ;;(wrap-as (as info 'long-r))
-               )
+               (wrap-as (as info 'long-r)))
               (else '())))))
 
+(define (convert-unsigned info type)
+  "Drop the bits that do not fit unsigned integer type TYPE."
+  (if (and (integer-type? type) (unsigned? type)) (convert-r0 info type)
+      '()))
+
+(define (convert-assigned info op type type-b)
+  "Convert the value of an assignment of TYPE-B to integer type TYPE."
+  (if (and (integer-type? type)
+           (or (not (equal? op "="))
+               (not (integer-type? type-b))
+               (not (= (->size type info) (->size type-b info)))
+               (not (eq? (signed? type) (signed? type-b))))) (convert-r0 info type)
+      '()))
+
+(define (convert-operand info o type)
+  "Convert the value of O to arithmetic type TYPE."
+  (let ((type-o (ast->type o info)))
+    (if (and (integer-type? type-o) (signed? type-o)) (convert-unsigned info type)
+        '())))
+
 (define (binop->r info)
   (lambda (a b c . rest)
-    (let* ((info (expr->register a info))
+    (let* ((shift? (memq c '(r0<<r1 r0>>r1)))
+           (type (if shift? (promoted-type a info) (arithmetic-type a b info)))
+           (info (expr->register a info))
+           (info (append-text info (convert-operand info a type)))
            (info (expr->register b info))
-           (info (append-text info (wrap-as (apply as info (cons c rest))))))
-      (free-register info))))
+           (info (if shift? info (append-text info (convert-operand info b type))))
+           (info (append-text info (wrap-as (apply as info (cons c rest)))))
+           (info (free-register info)))
+      (if (memq c '(r0+r1 r0*r1 r0<<r1)) (append-text info (convert-unsigned info type))
+          info))))
 
 (define (binop->r* info)
   (lambda (a b c)
@@ -1564,12 +1639,10 @@
       (_ ((jump 'jump-z (lambda (info) (wrap-as (as info 'r-zero?)))) o)))))
 
 (define (cstring->int o)
-  (let ((o (cond ((string-suffix? "ULL" o) (string-drop-right o 3))
-                 ((string-suffix? "UL" o) (string-drop-right o 2))
-                 ((string-suffix? "U" o) (string-drop-right o 1))
-                 ((string-suffix? "LL" o) (string-drop-right o 2))
-                 ((string-suffix? "L" o) (string-drop-right o 1))
-                 (else o))))
+  (let ((o (let loop ((o (string-downcase o)))
+             (if (or (string-suffix? "u" o) (string-suffix? "l" o))
+                 (loop (string-drop-right o 1))
+                 o))))
     (or (cond ((string-prefix? "0x" o) (string->number (string-drop o 2) 16))
               ((string-prefix? "0b" o) (string->number (string-drop o 2) 2))
               ((string-prefix? "0" o) (string->number o 8))
@@ -1892,6 +1965,9 @@
       ((return ,expr)
        (let* ((info (fold (lambda (x info) (free-register info)) info (.allocated info)))
               (info (expr->register expr info))
+              (type (and=> (assoc-ref (.functions info) (.function info)) function:type))
+              (info (if (not (integer-type? type)) info
+                        (append-text info (convert-r0 info type))))
               (info (free-register info)))
          (append-text info (append (wrap-as (as info 'ret))))))
 
diff --git a/module/mescc/i386/as.scm b/module/mescc/i386/as.scm
index 0b786e5..ff0cd29 100644
--- a/module/mescc/i386/as.scm
+++ b/module/mescc/i386/as.scm
@@ -343,11 +343,12 @@
     `((,(string-append "mov____%" r1 ",%ecx"))
       (,(string-append "shl____%cl,%" r0)))))
 
-(define (i386:r0>>r1 info)
+(define (i386:r0>>r1 info signed?)
   (let ((r0 (get-r0 info))
-        (r1 (get-r1 info)))
+        (r1 (get-r1 info))
+        (shift (if signed? "sar____" "shr____")))
     `((,(string-append "mov____%" r1 ",%ecx"))
-      (,(string-append "shr____%cl,%" r0)))))
+      (,(string-append shift "%cl,%" r0)))))
 
 (define (i386:r0-and-r1 info)
   (let ((r0 (get-r0 info))
diff --git a/module/mescc/x86_64/as.scm b/module/mescc/x86_64/as.scm
index 5a205c2..64042a2 100644
--- a/module/mescc/x86_64/as.scm
+++ b/module/mescc/x86_64/as.scm
@@ -425,11 +425,12 @@
     `((,(string-append "mov____%" r1 ",%rcx"))
       (,(string-append "shl____%cl,%" r0)))))
 
-(define (x86_64:r0>>r1 info)
+(define (x86_64:r0>>r1 info signed?)
   (let ((r0 (get-r0 info))
-        (r1 (get-r1 info)))
+        (r1 (get-r1 info))
+        (shift (if signed? "sar____" "shr____")))
     `((,(string-append "mov____%" r1 ",%rcx"))
-      (,(string-append "shr____%cl,%" r0)))))
+      (,(string-append shift "%cl,%" r0)))))
 
 (define (x86_64:r0-and-r1 info)
   (let ((r0 (get-r0 info))
-- 
2.43.0


From d2587c509c6e6911698a5f183cee7ad51169dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:00 +0000
Subject: [PATCH 030/147] fix: mescc: conditional and comma expressions as
 operands.

---
 module/mescc/compile.scm | 51 ++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 2f4bcab..5625e3e 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -295,7 +295,7 @@
 
       ((comma-expr . ,exprs) (ast->type (car (reverse exprs)) info))
 
-      ((cond-expr _ ,a ,b) (ast->type a info))
+      ((cond-expr _ ,a ,b) (arithmetic-type a b info))
 
       (_ (get-type o info))))
 
@@ -948,6 +948,9 @@
         ((comma-expr)
          (allocate-register info))
 
+        ((comma-expr ,a)
+         (expr->register a info))
+
         ((comma-expr ,a . ,rest)
          (let* ((info (expr->register a info))
                 (info (free-register info)))
@@ -1119,18 +1122,25 @@
         ((cond-expr ,test ,then ,else)
          (let* ((info (append-text info (ast->comment `(cond-expr ,test (ellipsis) (ellipsis)))))
                 (here (number->string (length text)))
-                (label (string-append "_" (.function info) "_" here "_"))
+                ;; a conditional that starts TEST starts here too
+                (count (number->string (count-cond-expr test)))
+                (label (string-append "_" (.function info) "_" here "_" count "_"))
                 (else-label (string-append label "else"))
                 (break-label (string-append label "break"))
+                (type (ast->type o info))
                 (info ((test-jump-label->info info else-label) test))
+                (allocated (.allocated info))
+                (registers (.registers info))
+                (pushed (.pushed info))
                 (info (expr->register then info))
-                (info (free-register info))
+                (info (append-text info (convert-operand info then type)))
                 (info (append-text info (wrap-as (as info 'jump break-label))))
                 (info (append-text info (wrap-as `((#:label ,else-label)))))
+                ;; THEN and ELSE both start with the registers TEST leaves
+                (info (clone info #:allocated allocated #:registers registers #:pushed pushed))
                 (info (expr->register else info))
-                (info (free-register info))
-                (info (append-text info (wrap-as `((#:label ,break-label)))))
-                (info (allocate-register info)))
+                (info (append-text info (convert-operand info else type)))
+                (info (append-text info (wrap-as `((#:label ,break-label))))))
            info))
 
         ((post-inc ,expr)
@@ -1535,6 +1545,12 @@
   (if (and (integer-type? type) (unsigned? type)) (convert-r0 info type)
       '()))
 
+(define (count-cond-expr o)
+  (if (not (pair? o)) 0
+      (+ (if (eq? (car o) 'cond-expr) 1 0)
+         (count-cond-expr (car o))
+         (count-cond-expr (cdr o)))))
+
 (define (convert-assigned info op type type-b)
   "Convert the value of an assignment of TYPE-B to integer type TYPE."
   (if (and (integer-type? type)
@@ -1582,9 +1598,10 @@
       (let* ((info (expr->register o info))
              (info (append-text info (make-comment "jmp test LABEL")))
              (jump-text (wrap-as (as info type label)))
-             (info (append-text info (append (if (null? test) '() ((car test) info))
-                                             jump-text)))
-             (info (free-register info)))
+             (info (append-text info (if (null? test) '() ((car test) info))))
+             ;; restores a pushed register on both branches, keeps the flags
+             (info (free-register info))
+             (info (append-text info jump-text)))
         info)))
   (lambda (o)
     (pmatch o
@@ -1614,22 +1631,6 @@
               (info (append-text info (wrap-as `((#:label ,skip-b-label))))))
          info))
 
-      ((array-ref ,index ,expr) (let* ((rank (expr->rank info expr))
-                                       (reg-size (->size "*" info))
-                                       (size (if (= rank 1) (ast-type->size info expr)
-                                                 reg-size)))
-                                  ((jump (if (= size 1) 'jump-byte-z
-                                             'jump-z)
-                                         (lambda (info) (wrap-as (as info 'r-zero?)))) o)))
-
-      ((de-ref ,expr) (let* ((rank (expr->rank info expr))
-                             (r-size (->size "*" info))
-                             (size (if (= rank 1) (ast-type->size info expr)
-                                       r-size)))
-                        ((jump (if (= size 1) 'jump-byte-z
-                                   'jump-z)
-                               (lambda (info) (wrap-as (as info 'r-zero?)))) o)))
-
       ((assn-expr (p-expr (ident ,name)) ,op ,expr)
        ((jump 'jump-z
               (lambda (info)
-- 
2.43.0


From 4c662928ffe96d05f4f19538a886e5704f4e2374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 031/147] fix: mescc: initialize aggregates, copy structs,
 evaluate lvalues once.

Initialize every element of local, static and global arrays and structs;
copy structs of any size; evaluate the address of an lvalue that is
modified in place once; use the right element order for two-dimensional
arrays; convert the operands of /= and %=.
---
 lib/x86_64-mes/x86_64.M1 |   4 +
 module/mescc/compile.scm | 481 +++++++++++++++++++--------------------
 2 files changed, 239 insertions(+), 246 deletions(-)

diff --git a/lib/x86_64-mes/x86_64.M1 b/lib/x86_64-mes/x86_64.M1
index a946c7e..fa30f4a 100644
--- a/lib/x86_64-mes/x86_64.M1
+++ b/lib/x86_64-mes/x86_64.M1
@@ -107,6 +107,8 @@ DEFINE mov____%edi,0x32(%rbp) 89bd
 DEFINE mov____%edi,0x8(%rbp) 897d
 DEFINE mov____%esi,%eax 89f0
 DEFINE mov____%esi,(%rdi) 8937
+DEFINE mov____%sil,(%rdi) 408837
+DEFINE mov____%si,(%rdi) 668937
 DEFINE mov____%r8,%rdi 4c89c7
 DEFINE mov____%rax,%rax 4889c0
 DEFINE mov____%rax,%rdi 4889c7
@@ -131,6 +133,8 @@ DEFINE mov____%rdx,%rdi 4889d7
 DEFINE mov____%rsi,(%rdi) 488937
 DEFINE mov____%rsp,%rbp 4889e5
 DEFINE mov____(%rax),%eax 8b00
+DEFINE mov____(%rax),%sil 408a30
+DEFINE mov____(%rax),%si 668b30
 DEFINE mov____(%rax),%esi 8b30
 DEFINE mov____(%rax),%rax 488b00
 DEFINE mov____(%rax),%rsi 488b30
diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 5625e3e..82c85bc 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -191,6 +191,7 @@
       ((sizeof-type ,type) (get-type "unsigned" info))
 
       ((string ,string) (make-c-array (get-type "char" info) (1+ (string-length string))))
+      ((string . ,strings) (ast->type `(string ,(apply string-append strings)) info))
 
       ((decl-spec-list (type-spec ,type)) (ast->type type info))
 
@@ -202,6 +203,8 @@
        (or (and=> (assoc-ref (.functions info) name) function:type)
            (get-type "default" info)))
 
+      ((fctn-call . _) (get-type "default" info))
+
       ((fixed-type ,type) (ast->type type info))
       ((float-type ,type) (ast->type type info))
       ((type-spec ,type) (ast->type type info))
@@ -442,7 +445,8 @@
   (let ((var (ident->variable info o)))
     (cond ((global? var) (global:type var))
           ((local? var) (local:type var))
-          ((function? var) (function:type var))
+          ((function? var) (or (function:type var)
+                               (assoc-ref (.types info) "void")))
           ((assoc-ref (.constants info) o) (assoc-ref (.types info) "default"))
           ((pair? var) (car var))
           (else (format (current-error-port) "error: ident->type ~s => ~s\n" o var)
@@ -758,20 +762,24 @@
                                  (as info 'long-r0->r1-mem)))
              ((and (= size 8) (= reg-size 8)) (as info 'quad-r0->r1-mem))
              (else (error "r0->r1-mem*n-: not supported"))))
-      (else (let loop ((i 0))
-              (if (>= i n) '()
-                  (case (- n i)
-                    ((1) (as info 'byte-r0-mem->r1-mem))
-                    ((2) (as info 'word-r0-mem->r1-mem))
-                    ((3) (append (as info 'word-r0-mem->r1-mem)
-                                 (as info 'r+value 2)
-                                 (as info 'r0+value 2)
-                                 (loop (+ i 2))))
-                    ((4) (append (as info 'long-r0-mem->r1-mem)))
-                    (else (append (as info 'r0-mem->r1-mem)
-                                  (as info 'r+value reg-size)
-                                  (as info 'r0+value reg-size)
-                                  (loop (+ i reg-size))))))))))))
+      (else (r0-mem->r1-mem*n info n))))))
+
+(define (r0-mem->r1-mem*n info n)
+  "Copy N bytes from where r0 points to where r1 points, advance both."
+  (let loop ((n n))
+    (let* ((reg-size (->size "*" info))
+           (size (cond ((>= n reg-size) reg-size)
+                       ((>= n 4) 4)
+                       ((>= n 2) 2)
+                       (else n))))
+      (if (zero? n) '()
+          (append (cond ((= size reg-size) (as info 'r0-mem->r1-mem))
+                        ((= size 4) (as info 'long-r0-mem->r1-mem))
+                        ((= size 2) (as info 'word-r0-mem->r1-mem))
+                        (else (as info 'byte-r0-mem->r1-mem)))
+                  (as info 'r+value size)
+                  (as info 'r0+value size)
+                  (loop (- n size)))))))
 
 (define (r0->r1-mem*n info n size)
   (append-text info (r0->r1-mem*n- info n size)))
@@ -921,6 +929,42 @@
 
     (_ (error "expr->register*: not supported: " o))))
 
+(define (address-stable? o)
+  "Does evaluating the address of lvalue O again have no effect and give
+the same address?"
+  (pmatch o
+    ((p-expr (ident ,name)) #t)
+    ((de-ref (p-expr (ident ,name))) #t)
+    ((d-sel (ident ,field) ,struct) (address-stable? struct))
+    ((i-sel (ident ,field) (p-expr (ident ,name))) #t)
+    ((array-ref (p-expr (fixed ,value)) ,array) (address-stable? array))
+    ((array-ref (p-expr (ident ,index)) ,array) (address-stable? array))
+    (_ #f)))
+
+(define (evaluate-address-once o info)
+  "If O modifies an lvalue in place, and evaluating its address twice may
+differ from evaluating it once, return a pair of an equivalent expression
+that uses a temporary and the INFO to compile it with; else return #f."
+  (define (once lvalue make)
+    (and (not (address-stable? lvalue))
+         (.function info)
+         (let ((type (ast->type lvalue info)))
+           (and (not (bit-field? type))
+                (let* ((name (string-append ":address" (number->string (length (.locals info)))))
+                       (info (local->info (rank++ type) name '() '() info))
+                       (address `(p-expr (ident ,name))))
+                  (cons `(comma-expr (assn-expr ,address (op "=") (ref-to ,lvalue))
+                                     ,(make `(de-ref ,address)))
+                        info))))))
+  (pmatch o
+    ((post-inc ,a) (once a (cut list 'post-inc <>)))
+    ((post-dec ,a) (once a (cut list 'post-dec <>)))
+    ((pre-inc ,a) (once a (cut list 'pre-inc <>)))
+    ((pre-dec ,a) (once a (cut list 'pre-dec <>)))
+    ((assn-expr ,a (op ,op) ,b) (guard (not (equal? op "=")))
+     (once a (cut list 'assn-expr <> `(op ,op) b)))
+    (_ #f)))
+
 (define (expr-add info)
   (lambda (o n)
     (let* ((info (expr->register* o info))
@@ -945,6 +989,10 @@
       (pmatch o
         ((expr) info)
 
+        (_ (guard (evaluate-address-once o info))
+           (let ((once (evaluate-address-once o info)))
+             (expr->register (car once) (cdr once))))
+
         ((comma-expr)
          (allocate-register info))
 
@@ -985,10 +1033,8 @@
         ((neg (p-expr (fixed ,value)))
          (let* ((value (- (cstring->int value)))
                 (info (allocate-register info))
-                (info (append-text info (append (wrap-as (as info 'value->r value)))))
-                (reg-size (->size "*" info)))
-           (if (or #t (> value 0) (= reg-size 4)) info
-               (append-text info (wrap-as (as info 'long-signed-r))))))
+                (info (append-text info (append (wrap-as (as info 'value->r value))))))
+           (append-text info (convert-unsigned info (ast->type o info)))))
 
         ((p-expr (char ,char))
          (let ((char (char->integer (car (string->list char))))
@@ -1398,6 +1444,15 @@
                             (else 1))))
            (append-text info ((ident-add info) name (- size)))))
 
+        ((assn-expr ,a (op "=") ,b) (guard (struct-value? (ast->type a info)))
+         (let* ((info (append-text info (ast->comment o)))
+                (size (->size (ast->type a info) info))
+                (info (expr->register b info))
+                (info (expr->register* a info))
+                (info (append-text info (wrap-as (r0-mem->r1-mem*n info size))))
+                (info (append-text info (wrap-as (as info 'r0+value (- size))))))
+           (free-register info)))
+
         ((assn-expr ,a (op ,op) ,b)
          (let* ((info (append-text info (ast->comment o)))
                 (type (ast->type a info))
@@ -1407,6 +1462,7 @@
                 (reg-size (->size "*" info))
                 (size (if (zero? rank) (->size type info) reg-size))
                 (size-b (if (zero? rank-b) (->size type-b info) reg-size))
+                (integers? (and (integer-type? type) (integer-type? type-b)))
                 (info (expr->register b info))
                 (info (if (equal? op "=") info
                           (let* ((struct? (structured-type? type))
@@ -1420,9 +1476,15 @@
                                                   (info (append-text info (wrap-as (as info 'r0*r1))))
                                                   (info (free-register info)))
                                              info)))
+                                 (common-type (arithmetic-type a b info))
+                                 (divide? (member op '("/=" "%=")))
+                                 (info (if (not divide?) info
+                                           (append-text info (convert-operand info b common-type))))
                                  (info (expr->register a info))
+                                 (info (if (not divide?) info
+                                           (append-text info (convert-operand info a common-type))))
                                  (info (append-text info (wrap-as (as info 'swap-r0-r1))))
-                                 (unsigned? (not (signed? (arithmetic-type a b info))))
+                                 (unsigned? (not (signed? common-type)))
                                  (info (append-text info (cond ((equal? op "+=") (wrap-as (as info 'r0+r1)))
                                                                ((equal? op "-=") (wrap-as (as info 'r0-r1)))
                                                                ((equal? op "*=") (wrap-as (as info 'r0*r1)))
@@ -1443,6 +1505,7 @@
                                                       info))
                                   (else (error (format #f "invalid operands to binary ~s (have ~s* and ~s*) " op type (ast->basic-type b info)))))))))
            (when (and (equal? op "=")
+                      (not integers?)
                       (not (= size size-b))
                       (not (and (or (= size 1) (= size 2))
                                 (or (= size-b 2) (= size-b 4) (= size-b reg-size))))
@@ -1500,10 +1563,19 @@
       (if (null? (.post info)) info
           (append-text (clone info #:post '()) (.post info))))))
 
+(define (struct-value? type)
+  "Is TYPE a struct or union?  The value of one is its address."
+  (and (type? type) (structured-type? type)))
+
+(define (address-value? type)
+  (or (c-array? type) (struct-value? type)))
+
 (define (mem->r type info)
   (let* ((size (->size type info))
          (reg-size (->size "*" info))
-         (size (if (= size reg-size) 0 size)))
+         (size (cond ((address-value? type) #f)
+                     ((= size reg-size) 0)
+                     (else size))))
     (case size
       ((0) (wrap-as (as info 'mem->r)))
       ((1) (append (wrap-as (as info 'byte-mem->r)) (convert-r0 info type)))
@@ -2142,127 +2214,98 @@
     ((array-of (ident ,name) ,count) (expr->number info count))
     (_ #f)))
 
-(define (init->r o info)
+(define (char-array? type)
+  (and (c-array? type)
+       (let ((type (c-array:type type)))
+         (and (type? type) (= (type:size type) 1)))))
+
+(define (address-of? o)
   (pmatch o
-    ((initzer-list (initzer ,expr))
-     (expr->register expr info))
-    (((#:string ,string))
-     (expr->register `(p-expr (string ,string)) info))
-    ((,number . _) (guard (number? number))
-     (expr->register `(p-expr (fixed 0)) info))
-    ((,c . ,_) (guard (char? c))
-     info)
-    (_
-     (expr->register o info))))
-
-(define (init-struct-field local field n init info)
-  (let* ((offset (field-offset info (local:type local) (car field)))
-         (size (field:size field info))
-         (offset (+ offset (* n size)))
-         (info (expr->register init info))
-         (info (allocate-register info))
-         (info (append-text info (local->r local info)))
-         (info (append-text info (wrap-as (as info 'r+value offset))))
-         (reg-size (->size "*" info))
-         (size (min size reg-size))
-         (info (r0->r1-mem*n info size size))
-         (info (free-register info))
-         (info (free-register info)))
-    info))
+    ((ref-to ,_) #t)
+    (_ #f)))
 
-(define (init-struct-struct-field local type offset field init info)
-  (let* ((offset (+ offset (field-offset info type (car field))))
-         (size (field:size field info))
-         (info (expr->register init info))
+(define (object-initializers object inits info)
+  "Return a pair of the list of (OBJECT . EXPR) that initialize the parts
+of OBJECT from the list INITS, EXPR is #f where there is none, and the
+rest of INITS."
+  (define (fill objects inits)
+    (let loop ((objects objects) (inits inits) (result '()))
+      (if (null? objects) (cons result inits)
+          (let ((first (object-initializers (car objects) inits info)))
+            (loop (cdr objects) (cdr first) (append result (car first)))))))
+  (define (element i)
+    `(array-ref (p-expr (fixed ,(number->string i))) ,object))
+  (define (members fields)
+    (append-map
+     (lambda (field)
+       (pmatch field
+         ((struct . ,type) (guard (type? type)) (members (type:description type)))
+         ((union . ,type) (guard (type? type)) (members (list-head (type:description type) 1)))
+         ((bits . ,bits) (members bits))
+         ((,name . ,type) `((d-sel (ident ,name) ,object)))))
+     fields))
+  (define (parts type)
+    (cond ((c-array? type) (map element (iota (c-array:count type))))
+          ((eq? (type:type type) 'union) (members (list-head (type:description type) 1)))
+          (else (members (type:description type)))))
+  (define (string->inits string)
+    (map (lambda (c) `(initzer (p-expr (fixed ,(number->string (char->integer c))))))
+         (string->list string)))
+  (let ((type (ast->type object info)))
+    (cond ((not (address-value? type))
+           (pmatch inits
+             (() `(((,object . #f))))
+             (((initzer (initzer-list (initzer ,init) . ,_)) . ,rest)
+              `(((,object . ,init)) . ,rest))
+             (((initzer ,init) . ,rest)
+              `(((,object . ,init)) . ,rest))
+             (_ (error "initializer: not supported:" inits))))
+          ((and (char-array? type) (pair? inits) (array-init->string (car inits)))
+           => (lambda (string)
+                (cons (car (fill (parts type) (string->inits string))) (cdr inits))))
+          (else
+           (pmatch inits
+             (((initzer (initzer-list . ,list)) . ,rest)
+              (cons (car (fill (parts type) list)) rest))
+             (((initzer ,init) . ,rest) (guard (and (struct-value? type)
+                                                    (not (address-of? init))
+                                                    (struct-value? (ast->type init info))))
+              `(((,object . ,init)) . ,rest))
+             (_ (fill (parts type) inits)))))))
+
+(define (zero-local local size info)
+  (let* ((info (expr->register '(p-expr (fixed "0")) info))
          (info (allocate-register info))
-         (info (append-text info (local->r local info)))
-         (info (append-text info (wrap-as (as info 'r+value offset))))
-         (reg-size (->size "*" info))
-         (size (min size reg-size))
-         (info (r0->r1-mem*n info size size))
-         (info (free-register info))
+         (info (append-text info (wrap-as (as info 'local-ptr->r (local:id local)))))
+         (info (let loop ((n size) (info info))
+                 (let* ((reg-size (->size "*" info))
+                        (size (cond ((>= n reg-size) reg-size)
+                                    ((>= n 4) 4)
+                                    ((>= n 2) 2)
+                                    (else n))))
+                   (if (zero? n) info
+                       (loop (- n size)
+                             (append-text (r0->r1-mem*n info size size)
+                                          (wrap-as (as info 'r+value size))))))))
          (info (free-register info)))
-    info))
-
-(define (init-array-entry local index init info)
-  (let* ((type (local:type local))
-         (size (cond ((pointer? type) (->size "*" info))
-                     ((and (c-array? type) ((compose pointer? c-array:type) type)) (->size "*" info))
-                     ((c-array? type) ((compose type:size c-array:type) type))
-                     (else (type:size type))))
-         (offset (* index size))
-         (info (expr->register init info))
-         (info (allocate-register info))
-         (info (append-text info (local->r local info)))
-         (info (append-text info (wrap-as (as info 'r+value offset))))
-         (reg-size (->size "*" info))
-         (size (min size reg-size))
-         (info (r0->r1-mem*n info size size))
-         (info (fold (lambda (x info) (free-register info)) info (.allocated info))))
-    info))
+    (free-register info)))
 
-(define (init-local local o n info)
-  (pmatch o
+(define (init-local name local init info)
+  (pmatch init
     (#f info)
-    ((initzer ,init)
-     (init-local local init n info))
-    ((initzer-list . ,inits)
-     (let ((local-type (local:type local)))
-       (cond ((structured-type? local)
-              (let* ((fields (struct->init-fields local-type))
-                     (field+counts (let loop ((fields fields))
-                                     (if (null? fields) '()
-                                         (let* ((field (car fields))
-                                                (type (cdr field)))
-                                           (cond ((c-array? type)
-                                                  (append (map
-                                                           (lambda (i)
-                                                             (let ((field (cons (car field) (c-array:type type))))
-                                                               (cons field i)))
-                                                           (iota (c-array:count type)))
-                                                          (loop (cdr fields))))
-                                                 (else
-                                                  (cons (cons field 0) (loop (cdr fields))))))))))
-                (let loop ((field+counts field+counts) (inits inits) (info info))
-                  (if (null? field+counts) info
-                      (let* ((field (caaar field+counts))
-                             (type (cdaar field+counts)))
-                        (if (and (type? type)
-                                 (eq? (type:type type) 'struct))
-                            (let* ((field-fields (type:description type))
-                                   (field-inits (list-head inits (max (length inits) (length field-fields))))
-                                   (missing (max 0 (- (length field-fields) (length field-inits))))
-                                   (field-inits+ (append field-inits (map (const '(p-expr (fixed "0"))) (iota missing))))
-                                   (offset (field-offset info local-type field))
-                                   ;; (info (init-local local `(initzer-list ,field-inits) n info))
-                                   ;; crap, howto recurse? -- would need new local for TYPE
-                                   ;; just do two deep for now
-                                   (info (fold (cut init-struct-struct-field local type offset <> <> <>) info field-fields field-inits+)))
-                              (loop (list-tail field+counts (min (length field+counts) (length field-fields)))
-                                    (list-tail inits (min (length field-inits) (length field-inits))) info))
-                            (let* ((missing (max 0 (- (length field+counts) (length inits))))
-                                   (counts (map cdr field+counts))
-                                   (fields (map car field+counts))
-                                   (info (fold (cut init-struct-field local <> <> <> <>) info fields counts (append inits (map (const '(p-expr (fixed "22"))) (iota missing))))))
-                              ;; bah, loopme!
-                              ;;(loop (list-tail field+counts (length field-fields)) (list-tail inits (length field-inits)) info)
-                              info)))))))
-             (else
-              (let* ((type (local:type local))
-                     (type (if (c-array? type) (c-array:type type) type))
-                     (size (->size type info)))
-                (fold (cut init-local local <> <> <>) info inits (iota (length inits) 0 size)))))))
-    (,string (guard (string? string))
-             (let ((inits (string->list string)))
-               (fold (cut init-array-entry local <> <> <>) info (iota (length inits)) inits)))
-
-    (((initzer (initzer-list . ,inits)))
-     (init-local local (car o) n info))
-
     (() info)
-    (_ (let* ((info (init->r o info))
-              (info (append-text info (r->local+n-text info local n))))
-         (free-register info)))))
+    (((initzer . ,_)) (init-local name local (car init) info))
+    ((initzer ,_)
+     (let* ((object `(p-expr (ident ,name)))
+            (initializers (car (object-initializers object (list init) info)))
+            (info (if (every cdr initializers) info
+                      (zero-local local (->size (local:type local) info) info))))
+       (fold (lambda (initializer info)
+               (if (not (cdr initializer)) info
+                   (ast->info `(expr-stmt (assn-expr ,(car initializer) (op "=") ,(cdr initializer)))
+                              info)))
+             info initializers)))
+    (_ (init-local name local `(initzer ,init) info))))
 
 (define (local->info type name o init info)
   (let* ((locals (.locals info))
@@ -2281,7 +2324,6 @@
          (struct? (structured-type? type))
          (size (->size type info))
          (string (and array? (array-init->string init)))
-         (init (or string init))
          (reg-size (->size "*" info))
          (local (if (not array?) local
                     (let ((size (or (and string (max size (1+ (string-length string))))
@@ -2292,120 +2334,75 @@
          (locals (cons local locals))
          (info (clone info #:locals locals))
          (local (cdr local)))
-    (init-local local init 0 info)))
+    (init-local name local init info)))
+
+(define (zeros n)
+  (string->list (make-string (max 0 n) #\nul)))
+
+(define (object-offset object info)
+  (pmatch object
+    ((array-ref (p-expr (fixed ,i)) ,array)
+     (+ (object-offset array info)
+        (* (string->number i) (->size (ast->type object info) info))))
+    ((d-sel (ident ,field) ,struct)
+     (+ (object-offset struct info)
+        (field-offset info (ast->type struct info) field)))
+    (_ 0)))
+
+(define (object-data name storage type init info)
+  "Return the data of global or static NAME of array or struct TYPE."
+  (define (bit-field-value type init)
+    (let ((value (if init (expr->number info init) 0)))
+      (ash (logand value (1- (ash 1 (bit-field:bits type))))
+           (bit-field:bit type))))
+  (let* ((global (make-global-entry name storage type '()))
+         (info (clone info #:locals '() #:statics (cons global (.statics info))))
+         (init (pmatch init
+                 (((initzer . ,_)) (car init))
+                 ((initzer ,_) init)
+                 (_ `(initzer ,init))))
+         (initializers (car (object-initializers `(p-expr (ident ,name)) (list init) info))))
+    (let loop ((initializers initializers) (offset 0))
+      (if (null? initializers) (zeros (- (->size type info) offset))
+          (let* ((object (caar initializers))
+                 (init (cdar initializers))
+                 (type (ast->type object info))
+                 (size (->size type info))
+                 (start (object-offset object info))
+                 (same? (lambda (o) (= (object-offset (car o) info) start))))
+            (append
+             (zeros (- start offset))
+             (cond ((bit-field? type)
+                    (int->bv (bit-field:type type)
+                             (apply + (map (lambda (o) (bit-field-value (ast->type (car o) info) (cdr o)))
+                                           (filter same? initializers)))
+                             info))
+                   ((not init) (zeros size))
+                   (else (init->data type init info)))
+             (loop (if (bit-field? type) (filter (negate same?) initializers) (cdr initializers))
+                   (+ start size))))))))
 
 (define (global->info storage type name o init info)
   (let* ((rank (->rank type))
          (size (->size type info))
-         (data (cond ((not init) (string->list (make-string size #\nul)))
-                     ((c-array? type)
-                      (let* ((string (array-init->string init))
-                             (size (or (and string (max size (1+ (string-length string))))
-                                       size))
-                             (data (or (and=> string string->list)
-                                       (array-init->data type size init info))))
-                        (append data (string->list (make-string (max 0 (- size (length data))) #\nul)))))
-                     ((structured-type? type)
-                      (let ((data (init->data type init info)))
-                        (append data (string->list (make-string (max 0 (- size (length data))) #\nul)))))
+         (data (cond ((or (not init) (null? init)) (zeros size))
+                     ((and (c-array? type) (array-init->string init))
+                      => (lambda (string)
+                           (append (string->list string)
+                                   (zeros (max 1 (- size (string-length string)))))))
+                     ((address-value? type) (object-data name storage type init info))
                      (else
                       (let ((data (init->data type init info)))
-                        (append data (string->list (make-string (max 0 (- size (length data))) #\nul)))))))
+                        (append data (zeros (- size (length data))))))))
          (global (make-global-entry name storage type data)))
     (clone info #:globals (append (.globals info) (list global)))))
 
-(define (array-init-element->data type o info)
-  (pmatch o
-    ((initzer (p-expr (string ,string)))
-     (let ((reg-size (->size "*" info)))
-       (if (= reg-size 8) `((#:string ,string) "%0")
-           `((#:string ,string)))))
-    ((initzer (p-expr (fixed ,fixed)))
-     (if (structured-type? type)
-         (let ((fields (map cdr (struct->init-fields type))))
-           (int->bv type (expr->number info fixed) info))
-         (int->bv type (expr->number info fixed) info)))
-    ((initzer (initzer-list . ,inits))
-     (cond ((structured-type? type)
-            (let* ((fields (map cdr (struct->init-fields type)))
-                   (missing (max 0 (- (length fields) (length inits))))
-                   (inits (append inits
-                                  (map (const '(fixed "0")) (iota missing)))))
-              (map (cut array-init-element->data <> <> info) fields inits)))
-           ((c-array? type)
-            (let* ((missing (max 0 (- (c-array:count type) (length inits))))
-                   (inits (append inits
-                                  (map (const '(fixed "0")) (iota missing)))))
-              (map (cut array-init-element->data (c-array:type type) <> info) inits)))
-         (else
-          (format (current-error-port) "array-init-element->data: oops:~s\n" o)
-          (format (current-error-port) "type:~s\n" type)
-          (error "array-init-element->data: not supported: " o))))
-    (_ (init->data type o info))
-    (_ (error "array-init-element->data: not supported: " o))))
-
-(define (array-init->data type size o info)
-  (pmatch o
-    ((initzer (initzer-list . ,inits))
-     (let ((type (c-array:type type)))
-       (if (structured-type? type)
-           (let* ((init-fields (struct->init-fields type)) ;; FIXME
-                  (count (length init-fields)))
-             (let loop ((inits inits))
-               (if (null? inits) '()
-                   (let ((init (car inits)))
-                     (pmatch init
-                       ((initzer (initzer-list . ,car-inits))
-                        (append (array-init-element->data type init info)
-                                (loop (cdr inits))))
-                       (_
-                        (let* ((count (min (length inits) (length init-fields)))
-                                 (field-inits (list-head inits count)))
-                          (append (array-init-element->data type `(initzer-list ,@field-inits) info)
-                           (loop (list-tail inits count))))))))))
-           (map (cut array-init-element->data type <> info) inits))))
-
-    (((initzer (initzer-list . ,inits)))
-     (array-init->data type size (car o) info))
-
-    ((initzer (p-expr (string ,string)))
-     (let ((data (string->list string)))
-       (if (not size) data
-           (append data (string->list (make-string (max 0 (- size (length data))) #\nul))))))
-
-    (((initzer (p-expr (string ,string))))
-     (array-init->data type size (car o) info))
-
-    ((initzer (p-expr (string . ,strings)))
-     (let ((data (string->list (apply string-append strings))))
-       (if (not size) data
-           (append data (string->list (make-string (max 0 (- size (length data))) #\nul))))))
-
-    (((initzer (p-expr (string . ,strings))))
-     (array-init->data type size (car o) info))
-
-    ((initzer (p-expr (fixed ,fixed)))
-     (int->bv type (expr->number info fixed) info))
-
-    (() (string->list (make-string size #\nul)))
-    (_ (error "array-init->data: not supported: " o))))
-
 (define (array-init->string o)
   (pmatch o
     ((p-expr (string ,string)) string)
     ((p-expr (string . ,strings)) (apply string-append strings))
     ((initzer ,init) (array-init->string init))
     (((initzer ,init)) (array-init->string init))
-    ((initzer-list (initzer (p-expr (char ,c))) . ,inits)
-     (list->string (map (lambda (i) (pmatch i
-                                      ((initzer (p-expr (char ,c))) ((compose car string->list) c))
-                                      ((initzer (p-expr (fixed ,fixed)))
-                                       (let ((value (cstring->int fixed)))
-                                         (if (and (>= value 0) (<= value 255))
-                                             (integer->char value)
-                                             (error "array-init->string: not supported:" i o))))
-                                      (_ (error "array-init->string: not supported:" i o))))
-                        (cdr o))))
     (_ #f)))
 
 (define (init-declr->info type storage o info)
@@ -2465,7 +2462,7 @@
                       (clone info #:globals (append (.globals info) strings))))
             (count (expr->number info count))
             (count1 (expr->number info count1))
-            (type (make-c-array (make-c-array type count1) count)))
+            (type (make-c-array (make-c-array type count) count1)))
        (if (.function info) (local->info type name o init info)
            (global->info storage type name o init info))))
     (_ (error "init-declr->info: not supported: " o))))
@@ -2503,16 +2500,8 @@
     ((ident ,name) (let ((var (ident->variable info name)))
                      (if (number? var) (int->bv type var info)
                          `((#:address ,var)))))
-    ((initzer-list . ,inits)
-     (cond ((structured-type? type)
-            (map (cut init->data <> <> info) (map cdr (struct->init-fields type)) inits))
-           ((c-array? type)
-            (let ((size (->size type info)))
-              (array-init->data type size `(initzer ,o) info)))
-           (else
-            (append-map (cut init->data type <> info) inits))))
-    (((initzer (initzer-list . ,inits)))
-     (init->data type `(initzer-list . ,inits) info))
+    ((initzer-list (initzer ,init) . _) (init->data type init info))
+    (((initzer ,init)) (init->data type init info))
     ((ref-to (p-expr (ident ,name)))
      (let ((var (ident->variable info name))
            (reg-size (->size "*" info)))
-- 
2.43.0


From 0e4bea12ee06bf3032dd264e3f299ec017a62538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 032/147] fix: mescc: addresses in initialized static locals;
 assign structs of any size.

* module/mescc/compile.scm (decl->info): Keep globals visible in the
initializers of static locals.
(expr->register): Match the assignment operator by value.
---
 module/mescc/compile.scm | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 82c85bc..2f1979c 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -1444,7 +1444,7 @@ that uses a temporary and the INFO to compile it with; else return #f."
                             (else 1))))
            (append-text info ((ident-add info) name (- size)))))
 
-        ((assn-expr ,a (op "=") ,b) (guard (struct-value? (ast->type a info)))
+        ((assn-expr ,a (op ,op) ,b) (guard (and (equal? op "=") (struct-value? (ast->type a info))))
          (let* ((info (append-text info (ast->comment o)))
                 (size (->size (ast->type a info) info))
                 (info (expr->register b info))
@@ -2187,10 +2187,11 @@ that uses a temporary and the INFO to compile it with; else return #f."
             (type (ast->type type info))
             (function (.function info)))
        (if (not function) (fold (cut init-declr->info type store <> <>) info (map cdr inits))
-           (let* ((tmp (clone info #:function #f #:globals '()))
+           (let* ((tmp (clone info #:function #f))
                   (tmp (fold (cut init-declr->info type store <> <>) tmp (map cdr inits)))
-                  (statics (map (global->static function) (.globals tmp)))
-                  (strings (filter string-global? (.globals tmp))))
+                  (globals (filter (lambda (o) (not (memq o (.globals info)))) (.globals tmp)))
+                  (statics (map (global->static function) globals))
+                  (strings (filter string-global? globals)))
              (clone info #:globals (append (.globals info) strings)
                     #:statics (append statics (.statics info)))))))
     (((decl-spec-list (stor-spec (,store)) (type-spec ,type)))
-- 
2.43.0


From 3c9a24035079f9445da599e905adb8c43fee04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 033/147] fix: gc: make room for the copy of all cells, grow
 the arena in place.

The arena never grew, and whenever more than JAM_SIZE cells were alive, GC
wrote past the end of the arena, into the stack.

* src/gc.c (gc_init): Reserve room for MAX_ARENA_SIZE and a full copy of it.
(gc_up_arena): Only raise the limits; the arena cannot move.
(gc_copy): Check for end of room.
(gc_flip): Do not touch JAM_SIZE.
(gc_): Grow the arena when more than half of it is alive.
---
 src/gc.c | 89 ++++++++++++++++++++++++++------------------------------
 1 file changed, 41 insertions(+), 48 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index 62643bb..8235138 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -75,7 +75,9 @@ gc_init ()
   p = getenv ("MES_ARENA");
   if (p != 0)
     ARENA_SIZE = atoi (p);
-  JAM_SIZE = ARENA_SIZE / U10;
+  if (MAX_ARENA_SIZE < ARENA_SIZE)
+    MAX_ARENA_SIZE = ARENA_SIZE;
+  JAM_SIZE = MAX_ARENA_SIZE;
   p = getenv ("MES_JAM");
   if (p != 0)
     JAM_SIZE = atoi (p);
@@ -90,10 +92,23 @@ gc_init ()
   if (p != 0)
     MAX_STRING = atoi (p);
 
-  long arena_bytes = (ARENA_SIZE + JAM_SIZE) * sizeof (struct scm);
+  /* Reserve room for an arena of MAX_ARENA_SIZE and a copy of all of its
+     cells: the arena cannot move, and at GC all cells may be alive. */
+  long arena_bytes = (MAX_ARENA_SIZE + JAM_SIZE) * sizeof (struct scm);
   long alloc_bytes = arena_bytes + (STACK_SIZE * sizeof (struct scm));
 
   g_arena = malloc (alloc_bytes);
+  if (g_arena == 0)
+    {
+      MAX_ARENA_SIZE = ARENA_SIZE;
+      if (JAM_SIZE > ARENA_SIZE)
+        JAM_SIZE = ARENA_SIZE;
+      arena_bytes = (MAX_ARENA_SIZE + JAM_SIZE) * sizeof (struct scm);
+      alloc_bytes = arena_bytes + (STACK_SIZE * sizeof (struct scm));
+      g_arena = malloc (alloc_bytes);
+      if (g_arena == 0)
+        assert_msg (0, "gc_init: out of memory");
+    }
   g_cells = cast_charp_to_scmp (g_arena);
   g_stack_array = cast_charp_to_scmpp (g_arena + arena_bytes);
 
@@ -340,34 +355,13 @@ gc_init_news ()
 void
 gc_up_arena ()
 {
-  long old_arena_bytes = (ARENA_SIZE + JAM_SIZE) * sizeof (struct scm);
-  if (ARENA_SIZE >> 1 < MAX_ARENA_SIZE >> 2)
+  if (ARENA_SIZE < MAX_ARENA_SIZE >> 1)
     {
       ARENA_SIZE = ARENA_SIZE << 1;
-      JAM_SIZE = JAM_SIZE << 1;
       GC_SAFETY = GC_SAFETY << 1;
     }
   else
-    ARENA_SIZE = MAX_ARENA_SIZE - JAM_SIZE;
-  long arena_bytes = (ARENA_SIZE + JAM_SIZE) * sizeof (struct scm);
-  long stack_offset = (arena_bytes * 2);
-  long realloc_bytes = (arena_bytes * 2) + (STACK_SIZE * sizeof (struct scm));
-  void *p = realloc (g_cells - M2_CELL_SIZE, realloc_bytes);
-  if (p == 0)
-    {
-      eputs ("realloc failed, g_free=");
-      eputs (ltoa (cast_voidp_to_long (g_free)));
-      eputs (":");
-      long i = g_free - g_cells;
-      i = i / M2_CELL_SIZE;
-      eputs (ltoa (ARENA_SIZE - i));
-      eputs ("\n");
-      assert_msg (0, "0");
-      exit (1);
-    }
-  g_cells = p;
-  memcpy (p + stack_offset, p + old_arena_bytes, STACK_SIZE * sizeof (struct scm *));
-  g_cells = g_cells + M2_CELL_SIZE;
+    ARENA_SIZE = MAX_ARENA_SIZE;
 }
 
 /* A pointer relocating memcpy for pointer cells to avoid using only
@@ -462,9 +456,6 @@ gc_cellcpy (struct scm *dest, struct scm *src, size_t n)
 void
 gc_flip ()
 {
-  if (g_free - g_news > JAM_SIZE)
-    JAM_SIZE = (g_free - g_news) + ((g_free - g_news) / 2);
-
   cell_arena = g_cells - M2_CELL_SIZE; /* For debugging. */
   gc_cellcpy (g_cells, g_news, (g_free - g_news) / M2_CELL_SIZE);
 
@@ -489,6 +480,13 @@ gc_copy (struct scm *old)               /*:((internal)) */
   if (old->type == TBROKEN_HEART)
     return old->car;
   struct scm *new = g_free;
+  long size = 1;
+  if (old->type == TSTRUCT || old->type == TVECTOR)
+    size = 1 + old->length;
+  else if (old->type == TBYTES)
+    size = bytes_cells (old->length);
+  if (cast_voidp_to_long (g_free + (size * M2_CELL_SIZE)) > cast_voidp_to_long (g_stack_array))
+    assert_msg (0, "gc: out of memory");
   g_free = g_free + M2_CELL_SIZE;
   copy_news (new, old);
   if (new->type == TSTRUCT || new->type == TVECTOR)
@@ -616,26 +614,6 @@ gc_ ()
     }
   g_free = g_news + M2_CELL_SIZE;
 
-  if (ARENA_SIZE < MAX_ARENA_SIZE
-      && cast_voidp_to_charp (g_cells) == g_arena + M2_CELL_SIZE)
-    {
-      if (g_debug == 2)
-        eputs ("+");
-      if (g_debug > 2)
-        {
-          eputs (" up[");
-          eputs (ltoa (cast_voidp_to_long (g_cells)));
-          eputs (",");
-          eputs (ltoa (cast_voidp_to_long (g_news)));
-          eputs (":");
-          eputs (ltoa (ARENA_SIZE));
-          eputs (",");
-          eputs (ltoa (MAX_ARENA_SIZE));
-          eputs ("]...");
-        }
-      gc_up_arena ();
-    }
-
   struct scm *new_cell_nil = g_free;
   struct scm *s;
   for (s = cell_nil; s < g_symbol_max; s = s + M2_CELL_SIZE)
@@ -651,6 +629,21 @@ gc_ ()
     copy_stack (i, gc_copy (g_stack_array[i]));
 
   gc_loop (new_cell_nil);
+
+  if (ARENA_SIZE < MAX_ARENA_SIZE && gc_free () > ARENA_SIZE >> 1)
+    {
+      if (g_debug == 2)
+        eputs ("+");
+      if (g_debug > 2)
+        {
+          eputs (" up[");
+          eputs (ltoa (ARENA_SIZE));
+          eputs (",");
+          eputs (ltoa (MAX_ARENA_SIZE));
+          eputs ("]...");
+        }
+      gc_up_arena ();
+    }
 }
 
 struct scm *
-- 
2.43.0


From 340e06104234ce3bb32bb86df794ffb5806985c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 034/147] fix: vector->list: do not share the cells of the
 vector.

A reference to a number or character inside a vector breaks GC.

* src/vector.c (vector_to_list): Use vector_ref_.
---
 src/vector.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 0fc8404..da9d947 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -130,9 +130,7 @@ vector_to_list (struct scm *v)
   struct scm *e;
   for (i = v->length; i; i = i - 1)
     {
-      e = cell_ref (v->vector, i - 1);
-      if (e->type == TREF)
-        e = e->ref;
+      e = vector_ref_ (v, i - 1);
       x = cons (e, x);
     }
   return x;
-- 
2.43.0


From 20d032a85aae00987540c37249adc44397cd4145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 035/147] fix: scm: for-each with any number of lists of
 unequal length.

---
 mes/module/mes/scm.mes | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index dadd358..4fc83b7 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -59,9 +59,11 @@
 (define (for-each f l . xr)
   (if (and (pair? l)
            (or (null? xr)
-               (pair? (car xr))))
+               (not (memq '() xr))))
       (if (null? xr) (begin (f (car l)) (for-each f (cdr l)))
-          (if (null? (cdr xr)) (begin (f (car l) (caar xr)) (for-each f (cdr l) (cdar xr)))))))
+          (if (null? (cdr xr)) (begin (f (car l) (caar xr)) (for-each f (cdr l) (cdar xr)))
+              (begin (apply f (cons (car l) (map car xr)))
+                     (apply for-each (cons* f (cdr l) (map cdr xr))))))))
 
 (define core:error error)
 
-- 
2.43.0


From be45d47a86fafa7a72ef95a6e54e0393d38688db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 036/147] fix: scm: odd? of a negative number.

---
 mes/module/mes/scm.mes | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index 4fc83b7..6581557 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -332,7 +332,7 @@
   (= 0 (remainder x 2)))
 
 (define (odd? x)
-  (= 1 (remainder x 2)))
+  (not (even? x)))
 
 (define (negative? x)
   (< x 0))
-- 
2.43.0


From f576053c7e71cbe00169a749394352c1f4f11411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 037/147] fix: srfi-1: delete-duplicates keeps the first;
 filter-map with a shorter list.

---
 mes/module/srfi/srfi-1.mes | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/mes/module/srfi/srfi-1.mes b/mes/module/srfi/srfi-1.mes
index 8a69b7b..c1e776d 100644
--- a/mes/module/srfi/srfi-1.mes
+++ b/mes/module/srfi/srfi-1.mes
@@ -47,9 +47,10 @@
             (if r (cons r (filter-map f (cdr h)))
                 (filter-map f (cdr h))))
           (if (null? (cdr t))
-              (let ((r (f (car h) (caar t))))
-                (if r (cons r (filter-map f (cdr h) (cdar t)))
-                    (filter-map f (cdr h) (cdar t))))
+              (if (null? (car t)) '()
+                  (let ((r (f (car h) (caar t))))
+                    (if r (cons r (filter-map f (cdr h) (cdar t)))
+                        (filter-map f (cdr h) (cdar t)))))
               (error 'unsupported (cons* "filter-map 3:" f h t))))))
 
 (define (fold proc init lst1 . rest)
@@ -133,13 +134,13 @@
 (define last (compose car last-pair))
 
 (define (delete-duplicates lst . equal)
-  (let ((equal (and (pair? equal) (car equal))))
-    (let loop ((lst lst))
-      (if (null? lst) '()
-          (if (if equal (member (car lst) (cdr lst) equal)
-                  (member (car lst) (cdr lst)))
-              (loop (cdr lst))
-                (cons (car lst) (loop (cdr lst))))))))
+  (let ((equal (if (pair? equal) (car equal) equal?)))
+    (let loop ((lst lst) (result '()))
+      (if (null? lst) (reverse result)
+          (let ((elem (car lst)))
+            (loop (cdr lst)
+                  (if (srfi-1:member elem result (lambda (x y) (equal y x))) result
+                      (cons elem result))))))))
 
 (include-from-path "srfi/srfi-1.scm")
 
-- 
2.43.0


From 64c2fcfc352bf87c1bd8196b76d4682835bc2d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 038/147] fix: divide, modulo: any combination of signs.

---
 src/math.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/math.c b/src/math.c
index 2d0a502..8b361c0 100644
--- a/src/math.c
+++ b/src/math.c
@@ -161,7 +161,7 @@ divide (struct scm *x)                  /*:((name . "/") (arity . n)) */
   if (n < 0)
     {
       sign_p = 1;
-      u = -n;
+      u = 0 - u;
     }
   size_t w;
   while (x != cell_nil)
@@ -171,6 +171,8 @@ divide (struct scm *x)                  /*:((name . "/") (arity . n)) */
       v = i->value;
       sign_p = sign_p && v > 0 || !sign_p && v < 0;
       w = v;
+      if (v < 0)
+        w = 0 - w;
       if (v == 0)
         error (cstring_to_symbol ("divide-by-zero"), x);
       if (u == 0)
@@ -179,9 +181,9 @@ divide (struct scm *x)                  /*:((name . "/") (arity . n)) */
         u = u / w;
       x = cdr (x);
     }
-  n = u;
   if (sign_p)
-    n = -n;
+    u = 0 - u;
+  n = u;
   return make_number (n);
 }
 
@@ -194,21 +196,22 @@ modulo (struct scm *a, struct scm *b)
   long v = b->value;
   if (v == 0)
     error (cstring_to_symbol ("divide-by-zero"), a);
-  int sign_p = 0;
   size_t w = v;
   if (v < 0)
-    {
-      sign_p = 1;
-      w = -v;
-    }
-  while (n < 0)
-    n = n + w;
+    w = 0 - w;
   size_t u = n;
+  if (n < 0)
+    u = 0 - u;
+  u = u % w;
   if (u != 0)
-    u = u % w;
+    {
+      /* The result has the sign of the divisor. */
+      if (n < 0)
+        u = w - u;
+      if (v < 0)
+        u = u - w;
+    }
   n = u;
-  if (sign_p)
-    n = -n;
   return make_number (n);
 }
 
-- 
2.43.0


From 904372f8b2238d9a5453ea63d7a42773b0c30d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 039/147] fix: ash: shift by any count.

---
 src/math.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/math.c b/src/math.c
index 8b361c0..810ef1a 100644
--- a/src/math.c
+++ b/src/math.c
@@ -298,10 +298,18 @@ ash (struct scm *n, struct scm *count)
   assert_number ("ash", count);
   long cn = n->value;
   long ccount = count->value;
-  long result;
+  long bits = sizeof (long) * 8;
+  size_t u = cn;
+  if (ccount <= -bits)
+    {
+      if (cn < 0)
+        return make_number (-1);
+      return make_number (0);
+    }
   if (ccount < 0)
-    result = cn >> -ccount;
-  else
-    result = cn << ccount;
-  return make_number (result);
+    return make_number (cn >> -ccount);
+  if (ccount >= bits)
+    return make_number (0);
+  u = u << ccount;
+  return make_number (u);
 }
-- 
2.43.0


From f91c58ce2cc491b3151655d84cfe5fea49345f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 040/147] fix: scm: <= and >= with more than two arguments.

---
 mes/module/mes/scm.mes | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index 6581557..28839e4 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -317,13 +317,15 @@
 ;;; Math
 (define quotient /)
 
-(define (<= . rest)
-  (or (apply < rest)
-      (apply = rest)))
-
-(define (>= . rest)
-  (or (apply > rest)
-      (apply = rest)))
+(define (<= x . rest)
+  (or (null? rest)
+      (and (not (> x (car rest)))
+           (apply <= rest))))
+
+(define (>= x . rest)
+  (or (null? rest)
+      (and (not (< x (car rest)))
+           (apply >= rest))))
 
 (define (remainder x y)
   (- x (* (quotient x y) y)))
-- 
2.43.0


From bbeb7120e9ff57742b6a1831dc1e4a6a3e353087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 041/147] fix: reader: numbers at the limits of the type.

---
 src/reader.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 6b42178..b2148ef 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -72,7 +72,7 @@ struct scm *
 reader_read_identifier_or_number (int c)
 {
   int i = 0;
-  long n = 0;
+  size_t n = 0;
   int negative_p = 0;
   if (c == '+')
     if (isdigit (peekchar ()) != 0)
@@ -360,7 +360,7 @@ reader_read_character ()
 struct scm *
 reader_read_binary ()
 {
-  long n = 0;
+  size_t n = 0;
   int c = peekchar ();
   int negative_p = 0;
   if (c == '-')
@@ -384,7 +384,7 @@ reader_read_binary ()
 struct scm *
 reader_read_octal ()
 {
-  long n = 0;
+  size_t n = 0;
   int c = peekchar ();
   int negative_p = 0;
   if (c == '-')
@@ -408,7 +408,7 @@ reader_read_octal ()
 struct scm *
 reader_read_hex ()
 {
-  long n = 0;
+  size_t n = 0;
   int c = peekchar ();
   int negative_p = 0;
   if (c == '-')
-- 
2.43.0


From 490384d83f3d428475b530477a853c5ff60fe653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 042/147] fix: scm: string->number: signs, digits of the radix;
 number->string: smallest number.

---
 mes/module/mes/scm.mes | 51 +++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index 28839e4..d5817a5 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -228,42 +228,37 @@
      (equal? (substring string (- length suffix-length)) suffix))))
 
 (define (string->number s . rest)
+  (define (digit c radix)
+    (let* ((i (char->integer c))
+           (d (cond ((char-numeric? c) (- i (char->integer #\0)))
+                    ((and (char>=? c #\a) (char<=? c #\z)) (+ 10 (- i (char->integer #\a))))
+                    ((and (char>=? c #\A) (char<=? c #\Z)) (+ 10 (- i (char->integer #\A))))
+                    (else radix))))
+      (and (< d radix) d)))
   (if (string-prefix? "#x" s) (string->number (string-drop s 2) 16)
-      (let ((lst (string->list s)))
+      (let* ((lst (string->list s))
+             (radix (if (null? rest) 10 (car rest)))
+             (negative? (and (pair? lst) (char=? (car lst) #\-)))
+             (lst (if (and (pair? lst)
+                           (or negative? (char=? (car lst) #\+))) (cdr lst) lst)))
         (and (pair? lst)
-             (let* ((radix (if (null? rest) 10 (car rest)))
-                    (sign (if (and (pair? lst) (char=? (car lst) #\-)) -1 1))
-                    (lst (if (= sign -1) (cdr lst) lst)))
-               (let loop ((lst lst) (n 0))
-                 (if (null? lst) (* sign n)
-                     (let ((i (char->integer (car lst))))
-                       (cond ((and (>= i (char->integer #\0))
-                                   (<= i (char->integer #\9)))
-                              (let ((d (char->integer #\0)))
-                                (loop (cdr lst) (+ (* n radix) (- i d)))))
-                             ((and (= radix 16)
-                                   (>= i (char->integer #\a))
-                                   (<= i (char->integer #\f)))
-                              (let ((d (char->integer #\a)))
-                                (loop (cdr lst) (+ (* n radix) (- i (- d 10))))))
-                             ((and (= radix 16)
-                                   (>= i (char->integer #\A))
-                                   (<= i (char->integer #\F)))
-                              (let ((d (char->integer #\A)))
-                                (loop (cdr lst) (+ (* n radix) (- i (- d 10))))))
-                             ((= i (char->integer #\.)) ; minimal FLOAT support
-                              (let ((fraction (cdr lst)))
-                                (if (null? fraction) n
-                                    (let ((fraction ((compose string->number list->string) fraction)))
-                                      (and fraction n))))) ; FLOAT as integer
-                             (else #f))))))))))
+             (let loop ((lst lst) (n 0))
+               (if (null? lst) n
+                   (let ((d (digit (car lst) radix)))
+                     (cond (d (loop (cdr lst) ((if negative? - +) (* n radix) d)))
+                           ((and (= radix 10) (char=? (car lst) #\.)) ; minimal FLOAT support
+                            (let ((fraction (cdr lst)))
+                              (if (null? fraction) n
+                                  (let ((fraction ((compose string->number list->string) fraction)))
+                                    (and fraction n))))) ; FLOAT as integer
+                           (else #f)))))))))
 
 (define inexact->exact identity)
 
 (define (number->string n . rest)
   (let* ((radix (if (null? rest) 10 (car rest)))
          (sign (if (< n 0) '(#\-) '())))
-    (let loop ((n (abs n)) (lst '()))
+    (let loop ((n n) (lst '()))
       (let* ((i (abs (remainder n radix)))
              (lst (cons (integer->char (+ i (if (< i 10) (char->integer #\0)
                                                 (- (char->integer #\a) 10)))) lst))
-- 
2.43.0


From 82db27b7cd5d9d62167ff97b57af5870ce8bdd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 043/147] fix: eval: scope of internal definitions and of the
 names they define.

---
 src/eval-apply.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index bd09cb3..ed6658e 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -233,6 +233,15 @@ expand_variable_ (struct scm *x, struct scm *formals, int top_p)        /*:((int
   struct scm *a;
   struct scm *f;
   struct scm *v;
+  /* The names defined in a body are local in all of it. */
+  for (f = x; f->type == TPAIR; f = f->cdr)
+    {
+      a = f->car;
+      if (a->type == TPAIR)
+        if (a->car == cell_symbol_define || a->car == cell_symbol_define_macro)
+          if (a->cdr->type == TPAIR)
+            formals = add_formals (formals, a->cdr->car);
+    }
   while (x->type == TPAIR)
     {
       a = x->car;
@@ -243,11 +252,6 @@ expand_variable_ (struct scm *x, struct scm *formals, int top_p)        /*:((int
               f = a->cdr->car;
               formals = add_formals (formals, f);
             }
-          else if (a->car == cell_symbol_define || a->car == cell_symbol_define_macro)
-            {
-              f = a->cdr->car;
-              formals = add_formals (formals, f);
-            }
           if (a->car != cell_symbol_quote)
             expand_variable_ (a, formals, 0);
         }
@@ -639,7 +643,7 @@ eval:
                 aa = R1->cdr->car;
                 if (aa->type != TPAIR)
                   {
-                    push_cc (R1->cdr->cdr->car, R2, cons (cons (R1->cdr->car, R1->cdr->car), R0), cell_vm_eval_define);
+                    push_cc (R1->cdr->cdr->car, R2, R0, cell_vm_eval_define);
                     goto eval;
                   }
                 else
@@ -659,6 +663,13 @@ eval:
                 aa = R2->cdr->car;
                 if (aa->type == TPAIR)
                   name = name->car;
+                /* Evaluating the value may have changed these. */
+                global_p = 0;
+                if (R0->car->car != cell_closure)
+                  global_p = 1;
+                macro_p = 0;
+                if (R2->car == cell_symbol_define_macro)
+                  macro_p = 1;
                 if (macro_p != 0)
                   {
                     entry = macro_get_handle (name);
-- 
2.43.0


From c904169442a9a78161dc589b196b52848b67365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 044/147] fix: scm: hygiene of case, do and unless; do with any
 number of variables.

---
 mes/module/mes/scm.mes | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index d5817a5..e2dcf0a 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -30,31 +30,39 @@
 
 (define (cadddr x) (car (cdddr x)))
 
-(define-macro (case val . args)
-  (if (null? args) #f
-      (let ((clause (car args)))
-        (let ((pred (car clause)))
-          (let ((body (cdr clause)))
-           (if (pair? pred) `(if ,(if (null? (cdr pred))
-                                      `(eq? ,val ',(car pred))
-                                      `(member ,val ',pred))
-                                 (begin ,@body)
-                                 (case ,val ,@(cdr args)))
-               `(begin ,@body)))))))
+(define (case-expand val clauses)
+  (if (null? clauses) `(if #f #f)
+      (let* ((clause (car clauses))
+             (pred (car clause))
+             (body (if (eq? (cadr clause) '=>) `((,(caddr clause) ,val))
+                       (cdr clause))))
+        (cond ((eq? pred 'else) `(begin ,@body))
+              ((null? pred) (case-expand val (cdr clauses)))
+              (else `(if ,(if (null? (cdr pred)) `(,eqv? ,val ',(car pred))
+                              `(,memv ,val ',pred))
+                         (begin ,@body)
+                         ,(case-expand val (cdr clauses))))))))
+
+(define-macro (case val . clauses)
+  `((lambda (,%macro-variable)
+      ,(case-expand %macro-variable clauses))
+    ,val))
 
 (define-macro (when expr . body)
   `(if ,expr
        ((lambda () ,@body))))
 
 (define-macro (unless expr . body)
-  `(if (not ,expr)
+  `(if ,expr (if #f #f)
        ((lambda () ,@body))))
 
 (define-macro (do init test . body)
-  `(let loop ((,(caar init) ,(cadar init)))
-     (when (not ,@test)
-       ,@body
-       (loop ,@(cddar init)))))
+  `(let ,%macro-variable ,(map1 (lambda (x) (list (car x) (cadr x))) init)
+     (if ,(car test) (begin (if #f #f) ,@(cdr test))
+         (begin
+           ,@body
+           (,%macro-variable ,@(map1 (lambda (x) (if (null? (cddr x)) (car x)
+                                                     (caddr x))) init))))))
 
 (define (for-each f l . xr)
   (if (and (pair? l)
-- 
2.43.0


From f1511ec094b302987fd28ca8a1813c7369d7eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 045/147] fix: base: cond and or do not capture variables of
 the program.

---
 mes/module/mes/base.mes | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/mes/module/mes/base.mes b/mes/module/mes/base.mes
index 027a434..9ec1e2b 100644
--- a/mes/module/mes/base.mes
+++ b/mes/module/mes/base.mes
@@ -80,11 +80,15 @@
           (list 'if (car x) (cons 'and (cdr x))
                 #f))))
 
+;; A name for the variable that a macro binds around the expressions of
+;; its user: it cannot be written in a program.
+(define %macro-variable (string->symbol " value"))
+
 (define-macro (or . x)
   (if (null? x) #f
       (if (null? (cdr x)) (car x)
-          (list (list 'lambda (list 'r)
-                      (list 'if 'r 'r
+          (list (list 'lambda (list %macro-variable)
+                      (list 'if %macro-variable %macro-variable
                             (cons 'or (cdr x))))
                 (car x)))))
 
@@ -102,20 +106,19 @@
       (and (pair? x) (list? (cdr x)))))
 
 (define-macro (cond . clauses)
-  (list 'if (pair? clauses)
-        (list (cons
-               'lambda
-               (cons
-                '(test)
-                (list (list 'if 'test
-                            (if (pair? (cdr (car clauses)))
-                                (if (eq? (car (cdr (car clauses))) '=>)
-                                    (append2 (cdr (cdr (car clauses))) '(test))
-                                    (list (cons 'lambda (cons '() (cons 'test (cdr (car clauses)))))))
-                                (list (cons 'lambda (cons '() (cons 'test (cdr (car clauses)))))))
-                            (if (pair? (cdr clauses))
-                                (cons 'cond (cdr clauses)))))))
-              (car (car clauses)))))
+  (if (pair? clauses)
+      (if (pair? (cdr (car clauses)))
+          (if (eq? (car (cdr (car clauses))) '=>)
+              (list (list 'lambda (list %macro-variable)
+                          (list 'if %macro-variable
+                                (append2 (cdr (cdr (car clauses))) (list %macro-variable))
+                                (cons 'cond (cdr clauses))))
+                    (car (car clauses)))
+              (list 'if (car (car clauses))
+                    (list (cons 'lambda (cons '() (cdr (car clauses)))))
+                    (cons 'cond (cdr clauses))))
+          (list 'or (car (car clauses)) (cons 'cond (cdr clauses))))
+      (list 'if #f #f)))
 
 (define else #t)
 
-- 
2.43.0


From 799e314dab94f16c149c5119fe9b4bd1d5be2943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 046/147] fix: let: initial values of a named let are outside
 of its scope.

---
 mes/module/mes/let.mes | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mes/module/mes/let.mes b/mes/module/mes/let.mes
index 0b2ea84..531d587 100644
--- a/mes/module/mes/let.mes
+++ b/mes/module/mes/let.mes
@@ -37,9 +37,10 @@
     ,@(map1 cadr bindings)))
 
 (define-macro (xnamed-let name bindings rest)
-  `(simple-let ((,name *unspecified*))
+  `((simple-let ((,name *unspecified*))
      (set! ,name (lambda ,(map1 car bindings) ,@rest))
-     (,name ,@(map1 cadr bindings))))
+     ,name)
+    ,@(map1 cadr bindings)))
 
 (define-macro (let bindings-or-name . rest)
   (if (symbol? bindings-or-name)
-- 
2.43.0


From a07f0e80b4ed2c109de940e82a13f87f665a1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 047/147] fix: quasiquote: nested levels, local variables named
 like the constructors.

---
 mes/module/mes/quasiquote.mes | 63 ++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/mes/module/mes/quasiquote.mes b/mes/module/mes/quasiquote.mes
index c1e610f..c2efe42 100644
--- a/mes/module/mes/quasiquote.mes
+++ b/mes/module/mes/quasiquote.mes
@@ -27,33 +27,44 @@
 
 (mes-use-module (mes base))
 
-(define (quasiquote-expand x)
-  (cond ((vector? x) (list 'list->vector (quasiquote-expand (vector->list x))))
+;; The procedures that build the structure are part of the expansion
+;; themselves: a user may have other meanings for their names.
+(define (quasiquote-expand x depth)
+  (cond ((vector? x) (list list->vector (quasiquote-expand (vector->list x) depth)))
         ((not (pair? x)) (cons 'quote (cons x '())))
-        ((eq? (car x) 'quasiquote) (quasiquote-expand (quasiquote-expand
-                                             (if (null? (cddr x)) (cadr x)
-                                                 (cons 'list (cdr x))))))
-        ((eq? (car x) 'unquote) (if (null? (cddr x)) (cadr x)
-                                    (cons 'list (cdr x))))
+        ((eq? (car x) 'quasiquote)
+         (quasiquote-expand-pair x (+ depth 1)))
+        ((eq? (car x) 'unquote)
+         (cond ((> depth 0) (quasiquote-expand-pair x (- depth 1)))
+               ((null? (cddr x)) (cadr x))
+               (else (cons list (cdr x)))))
         ((and (pair? (car x)) (eq? (caar x) 'unquote-splicing))
-         ((lambda (d)
-            (if (null? (cddar x)) (list 'append (cadar x) d)
-                (list 'quote (append (cdar x) d))))
-          (quasiquote-expand (cdr x))))
-        (else ((lambda (a d)
-                 (if (pair? d)
-                     (if (eq? (car d) 'quote)
-                         (if (and (pair? a) (eq? (car a) 'quote))
-                             (list 'quote (cons (cadr a) (cadr d)))
-                             (if (null? (cadr d))
-                                 (list 'list a)
-                                 (list 'cons* a d)))
-                         (if (memq (car d) '(list cons*))
-                             (cons (car d) (cons a (cdr d)))
-                             (list 'cons* a d)))
-                     (list 'cons* a d)))
-               (quasiquote-expand (car x))
-               (quasiquote-expand (cdr x))))))
+         (if (> depth 0)
+             (quasiquote-cons (quasiquote-expand-pair (car x) (- depth 1))
+                              (quasiquote-expand (cdr x) depth))
+             ((lambda (d)
+                (if (equal2? d ''()) (if (null? (cddar x)) (cadar x)
+                                         (cons append (cdar x)))
+                    (append2 (cons append (cdar x)) (list d))))
+              (quasiquote-expand (cdr x) depth))))
+        (else (quasiquote-expand-pair x depth))))
+
+(define (quasiquote-expand-pair x depth)
+  (quasiquote-cons (quasiquote-expand (car x) depth)
+                   (quasiquote-expand (cdr x) depth)))
+
+(define (quasiquote-cons a d)
+  (if (pair? d)
+      (if (eq? (car d) 'quote)
+          (if (and (pair? a) (eq? (car a) 'quote))
+              (list 'quote (cons (cadr a) (cadr d)))
+              (if (null? (cadr d))
+                  (list list a)
+                  (list cons* a d)))
+          (if (or (eq? (car d) list) (eq? (car d) cons*))
+              (cons (car d) (cons a (cdr d)))
+              (list cons* a d)))
+      (list cons* a d)))
 
 (define-macro (quasiquote x)
-  (quasiquote-expand x))
+  (quasiquote-expand x 0))
-- 
2.43.0


From f1b924e2e658b4338675719d6a175de5d8b3856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 048/147] fix: gc: grow the arena when it fills up between
 collections.

---
 src/gc.c | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index 8235138..7eff527 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -168,6 +168,29 @@ gc_stats ()
   return r;
 }
 
+void
+gc_up_arena ()
+{
+  if (ARENA_SIZE < MAX_ARENA_SIZE >> 1)
+    {
+      ARENA_SIZE = ARENA_SIZE << 1;
+      GC_SAFETY = GC_SAFETY << 1;
+    }
+  else
+    ARENA_SIZE = MAX_ARENA_SIZE;
+}
+
+/* Cells are being allocated without a chance to collect garbage: grow to
+   hold N cells, there is room for MAX_ARENA_SIZE of them. */
+void
+gc_grow_arena (long n, char const *message)
+{
+  while (ARENA_SIZE < n && ARENA_SIZE < MAX_ARENA_SIZE)
+    gc_up_arena ();
+  if (ARENA_SIZE < n)
+    assert_msg (0, message);
+}
+
 struct scm *
 alloc (long n)
 {
@@ -177,7 +200,7 @@ alloc (long n)
   i = i / M2_CELL_SIZE;
 
   if (i > ARENA_SIZE)
-    assert_msg (0, "alloc: out of memory");
+    gc_grow_arena (i, "alloc: out of memory");
   return x;
 }
 
@@ -189,7 +212,7 @@ make_cell (long type, struct scm *car, struct scm *cdr)
   long i = g_free - g_cells;
   i = i / M2_CELL_SIZE;
   if (i > ARENA_SIZE)
-    assert_msg (0, "make_cell: out of memory");
+    gc_grow_arena (i, "make_cell: out of memory");
   x->type = type;
   x->car = car;
   x->cdr = cdr;
@@ -204,7 +227,7 @@ make_pointer_cell (long type, long car, void *cdr)
   long i = g_free - g_cells;
   i = i / M2_CELL_SIZE;
   if (i > ARENA_SIZE)
-    assert_msg (0, "make_pointer_cell: out of memory");
+    gc_grow_arena (i, "make_pointer_cell: out of memory");
   x->type = type;
   x->length = car;
   x->cdr = cdr;
@@ -219,7 +242,7 @@ make_value_cell (long type, long car, long cdr)
   long i = g_free - g_cells;
   i = i / M2_CELL_SIZE;
   if (i > ARENA_SIZE)
-    assert_msg (0, "make_value_cell: out of memory");
+    gc_grow_arena (i, "make_value_cell: out of memory");
   x->type = type;
   x->length = car;
   x->value = cdr;
@@ -352,18 +375,6 @@ gc_init_news ()
   ncell_zero->value = 'n';
 }
 
-void
-gc_up_arena ()
-{
-  if (ARENA_SIZE < MAX_ARENA_SIZE >> 1)
-    {
-      ARENA_SIZE = ARENA_SIZE << 1;
-      GC_SAFETY = GC_SAFETY << 1;
-    }
-  else
-    ARENA_SIZE = MAX_ARENA_SIZE;
-}
-
 /* A pointer relocating memcpy for pointer cells to avoid using only
    half of the allocated cells.
 
-- 
2.43.0


From db43088c5171abc313bcd20e2271f9960aa4ab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 049/147] fix: scm: gensym makes names no symbol of a program
 has.

---
 mes/module/mes/scm.mes | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index e2dcf0a..def6aea 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -287,7 +287,7 @@
     (lambda (. rest)
       (let ((value (number->string counter)))
         (set! counter (+ counter 1))
-        (string->symbol (string-append "g" value))))))
+        (string->symbol (string-append " g" value))))))
 
 
 ;;; Keywords
-- 
2.43.0


From f461c16ee0d44a9729e26b04d8db7d1a75523abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 050/147] fix: srfi-1: append! leaves the elements of all
 lists.

---
 mes/module/srfi/srfi-1.mes | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mes/module/srfi/srfi-1.mes b/mes/module/srfi/srfi-1.mes
index c1e776d..4b1900c 100644
--- a/mes/module/srfi/srfi-1.mes
+++ b/mes/module/srfi/srfi-1.mes
@@ -103,6 +103,8 @@
 
 (define (remove pred lst) (filter (lambda (x) (not (pred x))) lst))
 
+(define append! append)
+
 (define (reverse! lst . term)
   (if (null? term) (core:reverse! lst term)
       (core:reverse! lst (car term))))
-- 
2.43.0


From 49e3fe3cad784ef96d018e90301f254be9c45963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 051/147] fix: syntax: variables introduced by syntax-rules do
 not capture those of the program.

---
 mes/module/mes/syntax.scm | 82 ++++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 23 deletions(-)

diff --git a/mes/module/mes/syntax.scm b/mes/module/mes/syntax.scm
index 2769dbf..596b1d8 100644
--- a/mes/module/mes/syntax.scm
+++ b/mes/module/mes/syntax.scm
@@ -103,10 +103,10 @@
 
       (define (make-transformer rules)
         `(lambda (,%input ,%rename ,%compare)
-           (let ((,%tail (cdr ,%input)))
+           (let ((,%tail (,cdr ,%input)))
              (cond ,@(map process-rule rules)
                    (else
-                    (syntax-error
+                    (,syntax-error
                      "use of macro doesn't match definition"
                      ,%input))))))
 
@@ -114,15 +114,19 @@
         (if (and (pair? rule)
                  (pair? (cdr rule))
                  (null? (cddr rule)))
-            (let ((pattern (cdar rule))
-                  (template (cadr rule)))
+            (let* ((pattern (cdar rule))
+                   (template (cadr rule))
+                   (variables (meta-variables pattern 0 '()))
+                   (fresh (introduced-variables template variables '())))
               `((and ,@(process-match %tail pattern))
-                (let* ,(process-pattern pattern
-                                        %tail
-                                        (lambda (x) x))
+                (let* (,@(process-pattern pattern
+                                          %tail
+                                          (lambda (x) x))
+                       ,@(map (lambda (name) `(,name (,gensym))) fresh))
                   ,(process-template template
                                      0
-                                     (meta-variables pattern 0 '())))))
+                                     (append (map (lambda (name) (cons name 0)) fresh)
+                                             variables)))))
             (syntax-error "ill-formed syntax rule" rule)))
       
       ;; Generate code to test whether input expression matches pattern
@@ -136,18 +140,18 @@
                (process-segment-match input (car pattern)))
               ((pair? pattern)
                `((let ((,%temp ,input))
-                   (and (pair? ,%temp)
-                        ,@(process-match `(car ,%temp) (car pattern))
-                        ,@(process-match `(cdr ,%temp) (cdr pattern))))))
+                   (and (,pair? ,%temp)
+                        ,@(process-match `(,car ,%temp) (car pattern))
+                        ,@(process-match `(,cdr ,%temp) (cdr pattern))))))
               ((or (null? pattern) (boolean? pattern) (char? pattern))
-               `((eq? ,input ',pattern)))
+               `((,eq? ,input ',pattern)))
               (else
-               `((equal? ,input ',pattern)))))
+               `((,equal? ,input ',pattern)))))
       
       (define (process-segment-match input pattern)
         (let ((conjuncts (process-match '(car l) pattern)))
           (if (null? conjuncts)
-              `((list? ,input))			;+++
+              `((,list? ,input))			;+++
               `((let loop ((l ,input))
                   (or (null? l)
                       (and (pair? l)
@@ -168,11 +172,11 @@
                                 (lambda (x)	;temp is free in x
                                   (mapit (if (eq? %temp x)
                                              path ;+++
-                                             `(map (lambda (,%temp) ,x)
-                                                   ,path))))))
+                                             `(,map (lambda (,%temp) ,x)
+                                                    ,path))))))
               ((pair? pattern)
-               (append (process-pattern (car pattern) `(car ,path) mapit)
-                       (process-pattern (cdr pattern) `(cdr ,path) mapit)))
+               (append (process-pattern (car pattern) `(,car ,path) mapit)
+                       (process-pattern (cdr pattern) `(,cdr ,path) mapit)))
               (else '())))
 
       ;; Generate code to compose the output expression according to template
@@ -196,17 +200,49 @@
                                                  env))
                             (gen (if (equal? (list x) vars)
                                      x ;+++
-                                     `(map (lambda ,vars ,x)
-                                           ,@vars))))
+                                     `(,map (lambda ,vars ,x)
+                                            ,@vars))))
                        (if (null? (cddr template))
                            gen ;+++
-                           `(append ,gen ,(process-template (cddr template)
+                           `(,append ,gen ,(process-template (cddr template)
                                                             rank env)))))))
               ((pair? template)
-               `(cons ,(process-template (car template) rank env)
-                      ,(process-template (cdr template) rank env)))
+               `(,cons ,(process-template (car template) rank env)
+                       ,(process-template (cdr template) rank env)))
               (else `(quote ,template))))
 
+      ;; Return the names that the template binds around its parts: every
+      ;; expansion uses fresh names for them.
+
+      (define (introduced-variables template env names)
+        (define (add name names)
+          (if (or (not (name? name)) (memq name names) (assq name env)
+                  (memq name indicators-for-zero-or-more)) names
+                  (cons name names)))
+        (define (add-formals formals names)
+          (if (pair? formals) (add-formals (cdr formals) (add (car formals) names))
+              (add formals names)))
+        (define (add-bindings bindings names)
+          (if (pair? bindings)
+              (add-bindings (cdr bindings)
+                            (if (pair? (car bindings)) (add (caar bindings) names)
+                                names))
+              names))
+        (define (subtemplates template names)
+          (if (pair? template)
+              (subtemplates (cdr template)
+                            (introduced-variables (car template) env names))
+              names))
+        (if (not (pair? template)) names
+            (subtemplates
+             template
+             (cond ((not (pair? (cdr template))) names)
+                   ((eq? (car template) 'lambda) (add-formals (cadr template) names))
+                   ((not (memq (car template) '(let let* letrec do))) names)
+                   ((and (name? (cadr template)) (pair? (cddr template)))
+                    (add-bindings (caddr template) (add (cadr template) names)))
+                   (else (add-bindings (cadr template) names))))))
+
       ;; Return an association list of (var . rank)
 
       (define (meta-variables pattern rank vars)
-- 
2.43.0


From d3e59f1c92c1404b985bf2717af8a0302654b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 052/147] fix: eval-apply: apply calls its procedure in tail
 position.

---
 src/eval-apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index ed6658e..54413f6 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -487,7 +487,7 @@ apply:
       c = R1->car;
       if (c == cell_vm_apply)
         {
-          push_cc (cons (R1->cdr->car, R1->cdr->cdr->car), R1, R0, cell_vm_return);
+          R1 = cons (R1->cdr->car, R1->cdr->cdr->car);
           goto apply;
         }
       else if (c == cell_vm_eval)
-- 
2.43.0


From 67ddf9f62de14b160e551ed6ea686380ff58bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 053/147] fix: reader: () does not end a file, a file may end
 in a comment.

---
 mes/module/mes/repl.mes |  2 +-
 src/reader.c            | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/mes/module/mes/repl.mes b/mes/module/mes/repl.mes
index 8634491..924940a 100644
--- a/mes/module/mes/repl.mes
+++ b/mes/module/mes/repl.mes
@@ -157,7 +157,7 @@ along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
       (catch #t
         (lambda ()
           (let ((sexp (read-env a)))
-            (when (not (eq? sexp '()))
+            (when (not (eof-object? sexp))
               (when print-sexp?
                 (display "[sexp=")
                 (display sexp)
diff --git a/src/reader.c b/src/reader.c
index b2148ef..d7526ed 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -29,9 +29,15 @@
 struct scm *
 read_input_file_env_ (struct scm *e, struct scm *a)
 {
-  if (e == cell_nil)
-    return e;
-  return cons (e, read_input_file_env_ (read_env (a), a));
+  struct scm *head = cons (cell_nil, cell_nil);
+  struct scm *tail = head;
+  while (e->type != TCHAR || e->value != EOF)
+    {
+      tail->cdr = cons (e, cell_nil);
+      tail = tail->cdr;
+      e = read_env (a);
+    }
+  return head->cdr;
 }
 
 struct scm *
@@ -49,7 +55,7 @@ reader_read_line_comment (int c)
         return c;
       c = readchar ();
     }
-  error (cell_symbol_system_error, make_string0 ("reader_read_line_comment"));
+  return c;
 }
 
 struct scm *reader_read_block_comment (int s, int c);
@@ -115,7 +121,7 @@ reader_read_sexp_ (int c, struct scm *a)
 {
 reset_reader:
   if (c == EOF)
-    return cell_nil;
+    return make_char (EOF);
   if (c == ';')
     {
       c = reader_read_line_comment (c);
-- 
2.43.0


From 2f17093458cd156d57301041b4b2605c51b0c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 054/147] fix: reader: accept all white space between data.

---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index d7526ed..798e757 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -127,7 +127,7 @@ reset_reader:
       c = reader_read_line_comment (c);
       goto reset_reader;
     }
-  if ((c == ' ') || (c == '\t') || (c == '\n') || (c == '\f'))
+  if (isspace (c) != 0)
     {
       c = readchar ();
       goto reset_reader;
-- 
2.43.0


From 1db3c323040646ca0c255c402cc92da025460a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 055/147] fix: reader: block comments nest.

---
 src/reader.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 798e757..2d32646 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -205,13 +205,24 @@ read_env (struct scm *a)
 struct scm *
 reader_read_block_comment (int s, int c)
 {
-  if (c == s)
-    if (peekchar () == '#')
-      {
-        readchar ();
-        return cell_unspecified;
-      }
-  return reader_read_block_comment (s, readchar ());
+  int depth = 1;
+  while (c != EOF)
+    {
+      if (c == s && peekchar () == '#')
+        {
+          readchar ();
+          depth = depth - 1;
+          if (depth == 0)
+            return cell_unspecified;
+        }
+      else if (c == '#' && s == '|' && peekchar () == '|')
+        {
+          readchar ();
+          depth = depth + 1;
+        }
+      c = readchar ();
+    }
+  error (cell_symbol_system_error, make_string0 ("EOF in block comment"));
 }
 
 struct scm *
-- 
2.43.0


From 7fbe89f1fea17035d6b4808052d849e0434cb0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 056/147] fix: reader: a datum comment may end a list.

---
 src/reader.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/reader.c b/src/reader.c
index 2d32646..7dcd85a 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -61,6 +61,7 @@ reader_read_line_comment (int c)
 struct scm *reader_read_block_comment (int s, int c);
 struct scm *reader_read_hash (int c, struct scm *a);
 struct scm *reader_read_list (int c, struct scm *a);
+struct scm *reader_read_sexp_ (int c, struct scm *a);
 
 int
 reader_identifier_p (int c)
@@ -175,6 +176,12 @@ reader_eat_whitespace (int c)
           reader_read_block_comment (c, readchar ());
           return reader_eat_whitespace (readchar ());
         }
+      if (p == ';')
+        {
+          readchar ();
+          reader_read_sexp_ (readchar (), cell_nil);
+          return reader_eat_whitespace (readchar ());
+        }
     }
   return c;
 }
-- 
2.43.0


From a3bc23dac54ecec7f8e6c7e9037456d33dbec679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 057/147] fix: reader: lists of any length, no datum after a
 dot is an error.

---
 src/reader.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 7dcd85a..e2cbdf8 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -189,18 +189,28 @@ reader_eat_whitespace (int c)
 struct scm *
 reader_read_list (int c, struct scm *a)
 {
+  struct scm *head = cons (cell_nil, cell_nil);
+  struct scm *tail = head;
+  struct scm *s;
   c = reader_eat_whitespace (c);
-  if (c == ')')
-    return cell_nil;
-  if (c == EOF)
-    error (cell_symbol_not_a_pair, make_string0 ("EOF in list"));
-  struct scm *s = reader_read_sexp_ (c, a);
-  if (s == cell_dot)
+  while (c != ')')
     {
-      s = reader_read_list (readchar (), a);
-      return s->car;
+      if (c == EOF)
+        error (cell_symbol_not_a_pair, make_string0 ("EOF in list"));
+      s = reader_read_sexp_ (c, a);
+      if (s == cell_dot)
+        {
+          s = reader_read_list (readchar (), a);
+          if (s->type != TPAIR)
+            error (cell_symbol_system_error, make_string0 ("no datum after dot"));
+          tail->cdr = s->car;
+          return head->cdr;
+        }
+      tail->cdr = cons (s, cell_nil);
+      tail = tail->cdr;
+      c = reader_eat_whitespace (readchar ());
     }
-  return cons (s, reader_read_list (readchar (), a));
+  return head->cdr;
 }
 
 struct scm *
-- 
2.43.0


From 70494913947539d9eafda7c83daf7036a7cd5637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 058/147] fix: reader: identifiers like -4a and +4a keep their
 sign.

---
 src/reader.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index e2cbdf8..8763c32 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -81,13 +81,13 @@ reader_read_identifier_or_number (int c)
   int i = 0;
   size_t n = 0;
   int negative_p = 0;
-  if (c == '+')
-    if (isdigit (peekchar ()) != 0)
-      c = readchar ();
-  if (c == '-')
+  if (c == '+' || c == '-')
     if (isdigit (peekchar ()) != 0)
       {
-        negative_p = 1;
+        if (c == '-')
+          negative_p = 1;
+        g_buf[i] = c;
+        i = i + 1;
         c = readchar ();
       }
   while (isdigit (c) != 0)
-- 
2.43.0


From e58f06163c1ad39500abd852e6b752e683051694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 059/147] fix: reader: #true and #false.

---
 src/reader.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 8763c32..425a2ac 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -242,6 +242,15 @@ reader_read_block_comment (int s, int c)
   error (cell_symbol_system_error, make_string0 ("EOF in block comment"));
 }
 
+void
+reader_read_word (char const *word)
+{
+  int i;
+  for (i = 0; word[i] != 0; i = i + 1)
+    if (readchar () != word[i])
+      error (cell_symbol_system_error, make_string0 ("unknown # object"));
+}
+
 struct scm *
 reader_read_hash (int c, struct scm *a)
 {
@@ -256,9 +265,17 @@ reader_read_hash (int c, struct scm *a)
       return reader_read_sexp_ (readchar (), a);
     }
   if (c == 'f')
-    return cell_f;
+    {
+      if (peekchar () == 'a')
+        reader_read_word ("alse");
+      return cell_f;
+    }
   if (c == 't')
-    return cell_t;
+    {
+      if (peekchar () == 'r')
+        reader_read_word ("rue");
+      return cell_t;
+    }
   if (c == ',')
     {
       if (peekchar () == '@')
-- 
2.43.0


From 16e5f3f2fcf2be6a22bac9cb4f484409c02934b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 060/147] fix: reader: #d, numbers with a radix may have a +
 sign.

---
 src/reader.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/reader.c b/src/reader.c
index 425a2ac..bbff852 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -304,6 +304,8 @@ reader_read_hash (int c, struct scm *a)
     return reader_read_octal ();
   if (c == 'x')
     return reader_read_hex ();
+  if (c == 'd')
+    return reader_read_identifier_or_number (readchar ());
   if (c == '\\')
     return reader_read_character ();
   if (c == '(')
@@ -420,6 +422,11 @@ reader_read_binary ()
       readchar ();
       c = peekchar ();
     }
+  else if (c == '+')
+    {
+      readchar ();
+      c = peekchar ();
+    }
   while (c == '0' || c == '1')
     {
       n = n << 1;
@@ -444,6 +451,11 @@ reader_read_octal ()
       readchar ();
       c = peekchar ();
     }
+  else if (c == '+')
+    {
+      readchar ();
+      c = peekchar ();
+    }
   while (c >= '0' && c <= '7')
     {
       n = n << 3;
@@ -468,6 +480,11 @@ reader_read_hex ()
       readchar ();
       c = peekchar ();
     }
+  else if (c == '+')
+    {
+      readchar ();
+      c = peekchar ();
+    }
   while ((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'))
     {
       n = n << 4;
-- 
2.43.0


From 6a5fc8892f6947986df7465631124021a9d993db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 061/147] fix: reader: character names null, delete, escape;
 hexadecimal characters.

---
 src/reader.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index bbff852..1d0c696 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -340,13 +340,10 @@ reader_read_character ()
           p = peekchar ();
         }
     }
-  else if (c == 'x' && ((p >= '0' && p <= '9') || (p >= 'a' && p <= 'f') || (p >= 'F' && p <= 'F')))
+  else if (c == 'x' && ((p >= '0' && p <= '9') || (p >= 'a' && p <= 'f') || (p >= 'A' && p <= 'F')))
     {
       struct scm *n = reader_read_hex ();
       c = n->value;
-      eputs ("reading hex c=");
-      eputs (itoa (c));
-      eputs ("\n");
     }
   else if (((c >= 'a' && c <= 'z') || c == '*') && ((p >= 'a' && p <= 'z') || p == '*'))
     {
@@ -355,6 +352,8 @@ reader_read_character ()
       i = i + 1;
       while ((p >= 'a' && p <= 'z') || p == '*')
         {
+          if (i == 9)
+            error (cell_symbol_system_error, make_string0 ("char not supported"));
           buf[i] = readchar ();
           i = i + 1;
           p = peekchar ();
@@ -364,6 +363,12 @@ reader_read_character ()
         c = EOF;
       else if (strcmp (buf, "nul") == 0)
         c = '\0';
+      else if (strcmp (buf, "null") == 0)
+        c = '\0';
+      else if (strcmp (buf, "delete") == 0)
+        c = 127;
+      else if (strcmp (buf, "escape") == 0)
+        c = 27;
       else if (strcmp (buf, "alarm") == 0)
         c = '\a';
       else if (strcmp (buf, "backspace") == 0)
-- 
2.43.0


From 45b01acbc609f5a7fd8fb39eb67c4357cf935063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 062/147] fix: reader: strings end in an error at end of file,
 \x takes two digits, \newline is skipped.

---
 src/reader.c | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 1d0c696..6d0d6b7 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -507,22 +507,49 @@ reader_read_hex ()
   return make_number (n);
 }
 
+int
+reader_hex_digit (int c)
+{
+  if (c >= '0' && c <= '9')
+    return c - '0';
+  if (c >= 'A' && c <= 'F')
+    return c - 'A' + 10;
+  if (c >= 'a' && c <= 'f')
+    return c - 'a' + 10;
+  return -1;
+}
+
+int
+reader_read_hex_byte ()
+{
+  int n = 0;
+  int i;
+  for (i = 0; i < 2; i = i + 1)
+    if (reader_hex_digit (peekchar ()) >= 0)
+      n = (n * 16) + reader_hex_digit (readchar ());
+  return n;
+}
+
 struct scm *
 reader_read_string ()
 {
   size_t i = 0;
+  int skip_p = 0;
   int c;
-  struct scm *n;
-  do
+  while (1)
     {
-      if (i > MAX_STRING)
+      if (i + 1 >= MAX_STRING)
         assert_max_string (i, "reader_read_string", g_buf);
       c = readchar ();
       if (c == '"')
         break;
+      if (c == EOF)
+        error (cell_symbol_system_error, make_string0 ("EOF in string"));
       if (c == '\\')
         {
           c = readchar ();
+          if (c == '\n')
+            skip_p = 1;
           if (c == '\\' || c == '"')
             0;
           else if (c == '0')
@@ -548,15 +575,15 @@ reader_read_string ()
                c = '\e'; */
             c = 27;
           else if (c == 'x')
-            {
-              n = reader_read_hex ();
-              c = n->value;
-            }
+            c = reader_read_hex_byte ();
         }
-      g_buf[i] = c;
-      i = i + 1;
+      if (skip_p == 0)
+        {
+          g_buf[i] = c;
+          i = i + 1;
+        }
+      skip_p = 0;
     }
-  while (1);
   g_buf[i] = 0;
   return make_string (g_buf, i);
 }
-- 
2.43.0


From 734e07bd719d54e8e1cacf643180fad9d865b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 063/147] fix: reader: check the length of identifiers.

---
 src/reader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.c b/src/reader.c
index 6d0d6b7..1bc4292 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -92,6 +92,8 @@ reader_read_identifier_or_number (int c)
       }
   while (isdigit (c) != 0)
     {
+      if (i + 1 >= MAX_STRING)
+        assert_max_string (i, "reader_read_number", g_buf);
       g_buf[i] = c;
       i = i + 1;
       n = n * 10;
@@ -108,6 +110,8 @@ reader_read_identifier_or_number (int c)
   /* Fallthrough: Note that `4a', `+1b' are identifiers */
   while (reader_end_of_word_p (c) == 0)
     {
+      if (i + 1 >= MAX_STRING)
+        assert_max_string (i, "reader_read_identifier", g_buf);
       g_buf[i] = c;
       i = i + 1;
       c = readchar ();
-- 
2.43.0


From 11321ee0d8011b99d8a2ab79aac1e2e040c8ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 064/147] fix: display: write control characters by their code.

---
 src/display.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/display.c b/src/display.c
index 0d6db3a..a02b8d8 100644
--- a/src/display.c
+++ b/src/display.c
@@ -51,9 +51,14 @@ fdwrite_char (char v, int fd)
     fdputs ("\\space", fd);
   else
     {
-      if (v >= 32 && v <= 127)
-        fdputc ('\\', fd);
-      fdputc (v, fd);
+      fdputc ('\\', fd);
+      if (v > 32 && v < 127)
+        fdputc (v, fd);
+      else
+        {
+          fdputc ('x', fd);
+          fdputs (ntoab (v & 255, 16, 0), fd);
+        }
     }
 }
 
-- 
2.43.0


From f258dd0253893b2a011757ace2723545277a5339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 065/147] fix: display: strings use escapes every reader knows.

---
 src/display.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/display.c b/src/display.c
index a02b8d8..a4e9915 100644
--- a/src/display.c
+++ b/src/display.c
@@ -81,12 +81,9 @@ fdwrite_string_char (char v, int fd)
     fdputs ("\\f", fd);
   /* Nyacc bug
      else if (v == '\r') fdputs ("\\r", fd);
-     else if (v == '\e') fdputs ("\\e", fd);
   */
   else if (v == 13)
     fdputs ("\\r", fd);
-  else if (v == 27)
-    fdputs ("\\e", fd);
   else if (v == '\\')
     fdputs ("\\\\", fd);
   else if (v == '"')
-- 
2.43.0


From c1342de5940ad5664d402e6af629af25b2816da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 066/147] fix: display: numbers of more than 32 bits.

---
 src/display.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.c b/src/display.c
index a4e9915..b163c14 100644
--- a/src/display.c
+++ b/src/display.c
@@ -146,7 +146,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
     }
   else if (t == TNUMBER)
     {
-      fdputs (itoa (x->value), fd);
+      fdputs (ltoa (x->value), fd);
     }
   else if (t == TPAIR)
     {
-- 
2.43.0


From 550918c88bf0460d1a6a1f1dcfe4626c0bf082ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 067/147] fix: display: strings may contain any character.

---
 src/display.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/display.c b/src/display.c
index b163c14..ef5cfa2 100644
--- a/src/display.c
+++ b/src/display.c
@@ -22,6 +22,7 @@
 #include "mes/mes.h"
 
 #include <stdlib.h>
+#include <unistd.h>
 
 int g_depth;
 
@@ -207,7 +208,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
           fdputc ('"', fd);
         }
       else
-        fdputs (cell_bytes (x->string), fd);
+        write (fd, cell_bytes (x->string), x->length);
     }
   else if (t == TSPECIAL || t == TSYMBOL)
     fdwrite_string (cell_bytes (x->string), x->length, fd);
-- 
2.43.0


From 4fee70cbe76e27a4ad5db5235b969217a02b7f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 068/147] fix: display: write control characters, #f in tail
 position and nested vectors.

---
 mes/module/mes/display.mes | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mes/module/mes/display.mes b/mes/module/mes/display.mes
index e3bbf58..d9a6854 100644
--- a/mes/module/mes/display.mes
+++ b/mes/module/mes/display.mes
@@ -75,6 +75,9 @@
                 ((eq? x #\page)
                  (write-char #\\ port)
                  (write-char #\f port))
+                ((eq? x #\return)
+                 (write-char #\\ port)
+                 (write-char #\r port))
                 (#t (write-char x port)))
           (write-char x port)))
 
@@ -94,14 +97,14 @@
                                          (#\page . page)
                                          (#\return . return)
                                          (#\space . space)))
-                               cdr)))
+                               cdr))
+                  (n (char->integer x)))
               (write-char #\# port)
-              (when (or name
-                        (and (>= (char->integer 32))
-                             (<= (char->integer 127))))
-                (write-char #\\ port))
-              (if name (display name port)
-                  (write-char x port)))))
+              (write-char #\\ port)
+              (cond (name (display name port))
+                    ((and (> n 32) (< n 127)) (write-char x port))
+                    (#t (write-char #\x port)
+                        (display (number->string n 16) port))))))
        ((closure? x)
         (display "#<procedure " port)
         (let ((name (and=> (next-xassq2 x (current-module)) car)))
@@ -138,7 +141,7 @@
               (#t
                (display (car x) port write?)
                (if (pair? (cdr x)) (d (cdr x) #t " ")
-                   (if (and (cdr x) (not (null? (cdr x))))
+                   (if (not (null? (cdr x)))
                        (begin
                          (display " . " port)
                          (display (cdr x) port write?))))))
@@ -176,7 +179,7 @@
         (display "#(" port)
         (for-each (lambda (i)
                     (let ((x (vector-ref x i)))
-                      (if (vector? x)
+                      (if (and (vector? x) (not write?))
                           (begin
                             (display (if (= i 0) "" " ") port)
                             (display "#(...)" port))
-- 
2.43.0


From abd65cae1fd0e2e9010594aa99c6e7b53bd57699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 069/147] fix: symbol: => is a symbol.

---
 src/symbol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol.c b/src/symbol.c
index 11dc931..9c8e41a 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -59,7 +59,7 @@ init_symbols_ ()                  /*:((internal)) */
   cell_f = init_symbol (g_symbol, TSPECIAL, "#f");
   cell_t = init_symbol (g_symbol, TSPECIAL, "#t");
   cell_dot = init_symbol (g_symbol, TSPECIAL, ".");
-  cell_arrow = init_symbol (g_symbol, TSPECIAL, "=>");
+  cell_arrow = init_symbol (g_symbol, TSYMBOL, "=>");
   cell_undefined = init_symbol (g_symbol, TSPECIAL, "*undefined*");
   cell_unspecified = init_symbol (g_symbol, TSPECIAL, "*unspecified*");
   cell_closure = init_symbol (g_symbol, TSPECIAL, "*closure*");
-- 
2.43.0


From 7a1a22e2a9c1df5dca4cd4b722f79dfdfbeeeaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 070/147] fix: symbol: (string->symbol "#f") is a symbol.

---
 src/symbol.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/symbol.c b/src/symbol.c
index 9c8e41a..a705e49 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -45,7 +45,10 @@ init_symbol (struct scm *x, long type, char const *name)
       struct scm *string = make_string (name, length);
       x->car_value = length;
       x->cdr = string->string;
-      hash_set_x (g_symbols, string, x);
+      /* The empty list, the booleans and the dot have no name: a symbol of
+         that spelling is another object. */
+      if (name[0] != '(' && name[0] != '#' && strcmp (name, ".") != 0)
+        hash_set_x (g_symbols, string, x);
     }
   g_symbol = g_symbol + M2_CELL_SIZE;
   return x;
-- 
2.43.0


From 02d3d5c030421285ca65e426797a001460f51615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 071/147] fix: posix: string ports do not copy their string for
 every character, read all 256 characters.

---
 include/mes/mes.h |  1 +
 src/display.c     |  3 ++-
 src/posix.c       | 43 ++++++++++++++++++++++++++++++-------------
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/include/mes/mes.h b/include/mes/mes.h
index 9ef6491..d79fb3c 100644
--- a/include/mes/mes.h
+++ b/include/mes/mes.h
@@ -154,6 +154,7 @@ struct scm *vector_set_x_ (struct scm *x, long i, struct scm *e);
 FUNCTION builtin_function (struct scm *builtin);
 char *cell_bytes (struct scm *x);
 char *news_bytes (struct scm *x);
+char *string_port_bytes (struct scm *port);
 int peekchar ();
 int readchar ();
 int unreadchar ();
diff --git a/src/display.c b/src/display.c
index ef5cfa2..cfb141f 100644
--- a/src/display.c
+++ b/src/display.c
@@ -188,9 +188,10 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
       fdputs ("#<port ", fd);
       fdputs (itoa (x->port), fd);
       fdputs (" ", fd);
+      struct scm *port = x;
       x = x->string;
       fdputc ('"', fd);
-      fdwrite_string (cell_bytes (x->string), x->length, fd);
+      fdwrite_string (string_port_bytes (port), x->length, fd);
       fdputc ('"', fd);
       fdputs (">", fd);
     }
diff --git a/src/posix.c b/src/posix.c
index bfb1bcd..001a222 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -59,6 +59,17 @@ exit_ (struct scm *x)                   /*:((name . "exit")) */
   exit (x->value);
 }
 
+/* The first character of the string port PORT that has not been read: the
+   length of its string is the number of these, its bytes are all of them. */
+char *
+string_port_bytes (struct scm *port)
+{
+  struct scm *string = port->string;
+  struct scm *bytes = string->string;
+  char *p = cell_bytes (bytes);
+  return p + (bytes->length - 1 - string->length);
+}
+
 int
 peekchar ()
 {
@@ -73,8 +84,8 @@ peekchar ()
   size_t length = string->length;
   if (length == 0)
     return -1;
-  char const *p = cell_bytes (string->string);
-  return p[0];
+  char *p = string_port_bytes (port);
+  return p[0] & 255;
 }
 
 int
@@ -87,11 +98,9 @@ readchar ()
   size_t length = string->length;
   if (length == 0)
     return -1;
-  char const *p = cell_bytes (string->string);
-  int c = p[0];
-  p = p + 1;
-  port->string = make_string (p, length - 1);
-  return c;
+  char *p = string_port_bytes (port);
+  string->length = length - 1;
+  return p[0] & 255;
 }
 
 int
@@ -101,15 +110,22 @@ unreadchar (int c)
     return fdungetc (c, __stdin);
   if (c == EOF) /* can't unread EOF */
     return c;
+  char *p;
   struct scm *port = current_input_port ();
   struct scm *string = port->string;
-  size_t length = string->length;
-  char *p = cell_bytes (string->string);
-  p = p - 1;
-  string = make_string (p, length + 1);
-  p = cell_bytes (string->string);
+  size_t length = string->length + 1;
+  if (length < string->string->length)
+    {
+      string->length = length;
+      p = string_port_bytes (port);
+    }
+  else
+    {
+      string = string_append (cons (make_string (" ", 1), cons (string, cell_nil)));
+      port->string = string;
+      p = cell_bytes (string->string);
+    }
   p[0] = c;
-  port->string = string;
   return c;
 }
 
@@ -247,6 +263,7 @@ open_input_file (struct scm *file_name)
 struct scm *
 open_input_string (struct scm *string)
 {
+  string = make_string (cell_bytes (string->string), string->length);
   struct scm *port = make_string_port (string);
   g_ports = cons (port, g_ports);
   return port;
-- 
2.43.0


From 1d8722ce0eef572b8857dad5751b4e94efa73fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 072/147] fix: string: string-ref of characters above 127,
 index of the string's length is out of range.

---
 src/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string.c b/src/string.c
index 171cb7b..f8e3259 100644
--- a/src/string.c
+++ b/src/string.c
@@ -229,8 +229,8 @@ string_ref (struct scm *str, struct scm *k)
   assert_msg (k->type == TNUMBER, "k->type == TNUMBER");
   size_t size = str->length;
   size_t i = k->value;
-  if (i > size)
+  if (i >= size)
     error (cell_symbol_system_error, cons (make_string0 ("value out of range"), k));
   char const *p = cell_bytes (str->string);
-  return make_char (p[i]);
+  return make_char (p[i] & 255);
 }
-- 
2.43.0


From bfb6095171bfe50a40d872d62766841e4520932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 073/147] fix: hash: names with characters above 127.

---
 src/hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index ed1bb5d..55f3fcd 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -26,10 +26,10 @@
 int
 hash_cstring (char const *s, long size)
 {
-  int hash = s[0] * 37;
+  int hash = (s[0] & 255) * 37;
   if (s[0] != 0)
     if (s[1] != 0)
-      hash = hash + (s[1] * 43);
+      hash = hash + ((s[1] & 255) * 43);
   assert_msg (size != 0, "size");
   hash = hash % size;
   return hash;
-- 
2.43.0


From dbe85ceb8be6d624766cf0cf91dfe99ac15c668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 074/147] fix: string: string-set! changes its string.

---
 include/mes/builtins.h |  1 +
 mes/module/mes/scm.mes |  3 ---
 src/builtins.c         |  1 +
 src/string.c           | 21 ++++++++++++++++++++-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/mes/builtins.h b/include/mes/builtins.h
index c5f5aac..d82a7f6 100644
--- a/include/mes/builtins.h
+++ b/include/mes/builtins.h
@@ -165,6 +165,7 @@ struct scm *read_string (struct scm *port);
 struct scm *string_append (struct scm *x);
 struct scm *string_length (struct scm *string);
 struct scm *string_ref (struct scm *str, struct scm *k);
+struct scm *string_set_x (struct scm *str, struct scm *k, struct scm *c);
 /* src/struct.c */
 struct scm *make_struct (struct scm *type, struct scm *fields, struct scm *printer);
 struct scm *struct_length (struct scm *x);
diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index def6aea..6731ace 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -212,9 +212,6 @@
 (define (make-string n . fill)
   (list->string (apply make-list n fill)))
 
-(define (string-set! s k v)
-  (list->string (list-set! (string->list s) k v)))
-
 (define (substring s start . rest)
   (let* ((end (and (pair? rest) (car rest)))
          (lst (list-tail (string->list s) start)))
diff --git a/src/builtins.c b/src/builtins.c
index c4ebb92..1f095bc 100644
--- a/src/builtins.c
+++ b/src/builtins.c
@@ -275,6 +275,7 @@ mes_builtins (struct scm *a)            /*:((internal)) */
   a = init_builtin (builtin_type, "string-append", -1, &string_append, a);
   a = init_builtin (builtin_type, "string-length", 1, &string_length, a);
   a = init_builtin (builtin_type, "string-ref", 2, &string_ref, a);
+  a = init_builtin (builtin_type, "string-set!", 3, &string_set_x, a);
   /* src/struct.c */
   a = init_builtin (builtin_type, "make-struct", 3, &make_struct, a);
   a = init_builtin (builtin_type, "struct-length", 1, &struct_length, a);
diff --git a/src/string.c b/src/string.c
index f8e3259..89af9eb 100644
--- a/src/string.c
+++ b/src/string.c
@@ -124,7 +124,8 @@ struct scm *
 make_symbol (struct scm *string)
 {
   struct scm *x = make_pointer_cell (TSYMBOL, string->length, string->string);
-  hash_set_x (g_symbols, string, x);
+  /* The string may change, the name of the symbol may not. */
+  hash_set_x (g_symbols, symbol_to_string (x), x);
   return x;
 }
 
@@ -234,3 +235,21 @@ string_ref (struct scm *str, struct scm *k)
   char const *p = cell_bytes (str->string);
   return make_char (p[i] & 255);
 }
+
+struct scm *
+string_set_x (struct scm *str, struct scm *k, struct scm *c)
+{
+  assert_msg (str->type == TSTRING, "str->type == TSTRING");
+  assert_msg (k->type == TNUMBER, "k->type == TNUMBER");
+  assert_msg (c->type == TCHAR, "c->type == TCHAR");
+  size_t size = str->length;
+  size_t i = k->value;
+  if (i >= size)
+    error (cell_symbol_system_error, cons (make_string0 ("value out of range"), k));
+  /* Other strings, symbols and keywords may share its bytes. */
+  struct scm *bytes = make_bytes (cell_bytes (str->string), size + 1);
+  char *p = cell_bytes (bytes);
+  p[i] = c->value;
+  str->cdr = bytes;
+  return str;
+}
-- 
2.43.0


From d89291b6eb8d15096d9cd7dd1223a05aaf1964bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 075/147] fix: srfi-13: string-take of no characters.

---
 mes/module/srfi/srfi-13.mes | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/srfi/srfi-13.mes b/mes/module/srfi/srfi-13.mes
index dfd1c54..3e50e04 100644
--- a/mes/module/srfi/srfi-13.mes
+++ b/mes/module/srfi/srfi-13.mes
@@ -62,7 +62,7 @@
                         (list (list->string (list-head lst (- (length lst) (length rest)))))))))))
 
 (define (string-take s n)
-  (cond ((zero? n) s)
+  (cond ((zero? n) "")
         ((> n 0) (list->string (list-head (string->list s) n)))
         (else (error "string-take: not supported: n=" n))))
 
-- 
2.43.0


From 02927fa9d97a4964c231e0869d0773f0645b2a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 076/147] fix: srfi-13: string-delete removes the characters
 that satisfy its predicate.

---
 mes/module/srfi/srfi-13.mes | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/srfi/srfi-13.mes b/mes/module/srfi/srfi-13.mes
index 3e50e04..ca16325 100644
--- a/mes/module/srfi/srfi-13.mes
+++ b/mes/module/srfi/srfi-13.mes
@@ -80,7 +80,7 @@
         (else (error "string-drop-right: not supported: n=" n))))
 
 (define (string-delete pred s)
-  (let ((p (if (procedure? pred) pred
+  (let ((p (if (procedure? pred) (negate pred)
                (lambda (c) (not (eq? pred c))))))
     (list->string (filter p (string->list s)))))
 
-- 
2.43.0


From 47bfce1624ca3af37dc9332fe9b8b366da39adac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 077/147] fix: srfi-13: string-contains of an empty string.

---
 mes/module/srfi/srfi-13.mes | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mes/module/srfi/srfi-13.mes b/mes/module/srfi/srfi-13.mes
index ca16325..302ffd8 100644
--- a/mes/module/srfi/srfi-13.mes
+++ b/mes/module/srfi/srfi-13.mes
@@ -134,14 +134,12 @@
 (define (string-contains string needle)
   (let ((needle (string->list needle)))
     (let loop ((string (string->list string)) (i 0))
-      (and (pair? string)
-           (let match ((start string) (needle needle) (n i))
-             (if (null? needle) i
-                 (and (pair? start)
-                      (if (eq? (car start) (car needle))
-                          (or (match (cdr start) (cdr needle) (1+ n))
-                              (loop (cdr string) (1+ i)))
-                          (loop (cdr string) (1+ i))))))))))
+      (let match ((start string) (needle needle))
+        (cond ((null? needle) i)
+              ((null? start) #f)
+              ((eq? (car start) (car needle))
+               (match (cdr start) (cdr needle)))
+              (#t (loop (cdr string) (1+ i))))))))
 
 (define (string-trim string . pred)
   (list->string
-- 
2.43.0


From 44a340119764eae4e1c73fe421249439dabc982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 078/147] fix: srfi-13: string-trim, string-trim-right and
 string-trim-both use their predicate.

---
 mes/module/srfi/srfi-13.mes | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/mes/module/srfi/srfi-13.mes b/mes/module/srfi/srfi-13.mes
index 302ffd8..ca9d85f 100644
--- a/mes/module/srfi/srfi-13.mes
+++ b/mes/module/srfi/srfi-13.mes
@@ -141,25 +141,23 @@
                (match (cdr start) (cdr needle)))
               (#t (loop (cdr string) (1+ i))))))))
 
+(define (trim-list lst pred)
+  (let ((pred (cond ((null? pred) char-whitespace?)
+                    ((char? (car pred)) (lambda (c) (eq? c (car pred))))
+                    (#t (car pred)))))
+    (let loop ((lst lst))
+      (if (or (null? lst)
+              (not (pred (car lst)))) lst
+              (loop (cdr lst))))))
+
 (define (string-trim string . pred)
-  (list->string
-   (if (pair? pred) (error "string-trim: not supported: PRED=" pred)
-       (let loop ((lst (string->list string)))
-         (if (or (null? lst)
-                 (not (char-whitespace? (car lst)))) lst
-                 (loop (cdr lst)))))))
+  (list->string (trim-list (string->list string) pred)))
 
 (define (string-trim-right string . pred)
-  (list->string
-   (reverse!
-    (if (pair? pred) (error "string-trim-right: not supported: PRED=" pred)
-        (let loop ((lst (reverse (string->list string))))
-          (if (or (null? lst)
-                  (not (char-whitespace? (car lst)))) lst
-                  (loop (cdr lst))))))))
+  (list->string (reverse! (trim-list (reverse (string->list string)) pred))))
 
 (define (string-trim-both string . pred)
-  ((compose string-trim string-trim-right) string))
+  (apply string-trim (apply string-trim-right string pred) pred))
 
 (define (string-map f string)
   (list->string (map f (string->list string))))
-- 
2.43.0


From 62380932618e472994caf2b310140ec2cef15177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 079/147] fix: simple-format: ~% and ~~ take no argument.

---
 mes/module/mes/simple-format.mes | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mes/module/mes/simple-format.mes b/mes/module/mes/simple-format.mes
index 8b57e15..0f6f4b7 100644
--- a/mes/module/mes/simple-format.mes
+++ b/mes/module/mes/simple-format.mes
@@ -47,12 +47,16 @@
                                          (simple-format (cdr lst) args))
                 (let ((c (cadr lst)))
                   (case c
-                    ((#\A) (display (car args) port))
-                    ((#\a) (display (car args) port))
-                    ((#\S) (write (car args) port))
-                    ((#\s) (write (car args) port))
-                    (else (display (car args) port)))
-                  (simple-format (cddr lst) (cdr args)))))))
+                    ((#\%) (newline port) (simple-format (cddr lst) args))
+                    ((#\~) (write-char #\~ port) (simple-format (cddr lst) args))
+                    (else
+                     (case c
+                       ((#\A) (display (car args) port))
+                       ((#\a) (display (car args) port))
+                       ((#\S) (write (car args) port))
+                       ((#\s) (write (car args) port))
+                       (else (display (car args) port)))
+                     (simple-format (cddr lst) (cdr args)))))))))
 
     (if destination (simple-format lst rest)
         (with-output-to-string
-- 
2.43.0


From d94c32b84be33966ee94b2c24438efee301c3eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 080/147] fix: hash-ref, hashq-ref: Return the default exactly
 when the key is missing.

---
 src/eval-apply.c |  2 +-
 src/hash.c       | 24 ++++++++++--------------
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index 54413f6..de713ca 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -158,7 +158,7 @@ struct scm *
 macro_get_handle (struct scm *name)     /*:((internal)) */
 {
   if (name->type == TSYMBOL)
-    return hashq_get_handle (g_macros, name, cell_nil);
+    return hashq_get_handle (g_macros, name, cell_f);
   return cell_f;
 }
 
diff --git a/src/hash.c b/src/hash.c
index 55f3fcd..40a5046 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -78,20 +78,20 @@ hashq_get_handle (struct scm *table, struct scm *key, struct scm *dflt)
   struct scm *buckets = struct_ref_ (table, 4);
   struct scm *bucket = vector_ref_ (buckets, hash);
   struct scm *x = cell_f;
-  if (dflt->type == TPAIR)
-    x = dflt->car;
   if (bucket->type == TPAIR)
     x = assq (key, bucket);
+  if (x == cell_f)
+    x = dflt;
   return x;
 }
 
 struct scm *
 hashq_ref (struct scm *table, struct scm *key, struct scm *dflt)
 {
-  struct scm *x = hashq_get_handle (table, key, dflt);
-  if (x != cell_f)
-    x = x->cdr;
-  return x;
+  struct scm *x = hashq_get_handle (table, key, cell_f);
+  if (x == cell_f)
+    return dflt;
+  return x->cdr;
 }
 
 struct scm *
@@ -103,15 +103,11 @@ hash_ref (struct scm *table, struct scm *key, struct scm *dflt)
   struct scm *buckets = struct_ref_ (table, 4);
   struct scm *bucket = vector_ref_ (buckets, hash);
   struct scm *x = cell_f;
-  if (dflt->type == TPAIR)
-    x = dflt->car;
   if (bucket->type == TPAIR)
-    {
-      x = assoc (key, bucket);
-      if (x != cell_f)
-        x = x->cdr;
-    }
-  return x;
+    x = assoc (key, bucket);
+  if (x == cell_f)
+    return dflt;
+  return x->cdr;
 }
 
 struct scm *
-- 
2.43.0


From b94fd5a490b647f23a306ddfc23c3415de68bf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 081/147] fix: hash-set!, hashq-set!: Replace the value of a
 key that is present.

Prepending another entry made the bucket grow with every assignment.
---
 src/hash.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index 40a5046..aa5cd0b 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -117,6 +117,16 @@ hash_set_x_ (struct scm *table, unsigned hash, struct scm *key, struct scm *valu
   struct scm *bucket = vector_ref_ (buckets, hash);
   if (bucket->type != TPAIR)
     bucket = cell_nil;
+  struct scm *x;
+  if (key->type == TSTRING)
+    x = assoc (key, bucket);
+  else
+    x = assq (key, bucket);
+  if (x != cell_f)
+    {
+      x->cdr = value;
+      return value;
+    }
   bucket = acons (key, value, bucket);
   vector_set_x_ (buckets, hash, bucket);
   return value;
-- 
2.43.0


From ede772c87975ea4440345d62a914d305f0303a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 082/147] fix: make-hash-table: Take the size as an optional
 argument.

---
 src/builtins.c | 2 +-
 src/hash.c     | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/builtins.c b/src/builtins.c
index 1f095bc..0b933f6 100644
--- a/src/builtins.c
+++ b/src/builtins.c
@@ -180,7 +180,7 @@ mes_builtins (struct scm *a)            /*:((internal)) */
   a = init_builtin (builtin_type, "hashq-set!", 3, &hashq_set_x, a);
   a = init_builtin (builtin_type, "hash-set!", 3, &hash_set_x, a);
   a = init_builtin (builtin_type, "hash-table-printer", 1, &hash_table_printer, a);
-  a = init_builtin (builtin_type, "make-hash-table", 1, &make_hash_table, a);
+  a = init_builtin (builtin_type, "make-hash-table", -1, &make_hash_table, a);
   /* src/lib.c */
   a = init_builtin (builtin_type, "core:type", 1, &type_, a);
   a = init_builtin (builtin_type, "core:car", 1, &car_, a);
diff --git a/src/hash.c b/src/hash.c
index aa5cd0b..ee4e86b 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -216,8 +216,11 @@ make_hash_table (struct scm *x)
   long size = 0;
   if (x->type == TPAIR)
     {
-      assert_msg (x->type == TNUMBER, "x->type == TNUMBER");
+      x = x->car;
+      assert_number ("make-hash-table", x);
       size = x->value;
+      if (size < 0)
+        error (cell_symbol_wrong_type_arg, cons (make_string0 ("make-hash-table: negative size"), x));
     }
   return make_hash_table_ (size);
 }
-- 
2.43.0


From 937a35b7e873286fa2e45e24e7f0bae8c7b0fb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 083/147] fix: vector-ref, vector-set!, make-vector,
 vector->list: Check the arguments.

A negative index or an index that is not a number accessed memory outside
the vector.
---
 src/vector.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/vector.c b/src/vector.c
index da9d947..97bc08c 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -50,6 +50,8 @@ make_vector (struct scm *x)               /*:((arity . n)) */
   struct scm *k = x->car;
   assert_number ("make-vector", k);
   long n = k->value;
+  if (n < 0)
+    error (cell_symbol_wrong_type_arg, cons (make_string0 ("make-vector: negative size"), k));
   struct scm *e = cell_unspecified;
   if (x->cdr != cell_nil)
     e = x->cdr->car;
@@ -60,7 +62,8 @@ make_vector (struct scm *x)               /*:((arity . n)) */
 struct scm *
 vector_length (struct scm *x)
 {
-  assert_msg (x->type == TVECTOR, "x->type == TVECTOR");
+  if (x->type != TVECTOR)
+    error (cell_symbol_wrong_type_arg, cons (make_string0 ("vector-length"), x));
   return make_number (x->length);
 }
 
@@ -68,6 +71,7 @@ struct scm *
 vector_ref_ (struct scm *x, long i)
 {
   assert_msg (x->type == TVECTOR, "x->type == TVECTOR");
+  assert_msg (i >= 0, "i >= 0");
   assert_msg (i < x->length, "i < x->length");
   struct scm *e = cell_ref (x->vector, i);
   if (e->type == TREF)
@@ -79,9 +83,22 @@ vector_ref_ (struct scm *x, long i)
   return e;
 }
 
+void
+assert_vector_index (char const *name, struct scm *x, struct scm *i)    /*:((internal)) */
+{
+  if (x->type != TVECTOR)
+    error (cell_symbol_wrong_type_arg, cons (make_string0 (name), x));
+  assert_number (name, i);
+  if (i->value < 0)
+    error (cell_symbol_wrong_type_arg, cons (make_string0 (name), i));
+  if (i->value >= x->length)
+    error (cell_symbol_wrong_type_arg, cons (make_string0 (name), i));
+}
+
 struct scm *
 vector_ref (struct scm *x, struct scm *i)
 {
+  assert_vector_index ("vector-ref", x, i);
   return vector_ref_ (x, i->value);
 }
 
@@ -97,6 +114,7 @@ struct scm *
 vector_set_x_ (struct scm *x, long i, struct scm *e)
 {
   assert_msg (x->type == TVECTOR, "x->type == TVECTOR");
+  assert_msg (i >= 0, "i >= 0");
   assert_msg (i < x->length, "i < x->length");
   copy_cell (cell_ref (x->vector, i), vector_entry (e));
   return cell_unspecified;
@@ -105,6 +123,7 @@ vector_set_x_ (struct scm *x, long i, struct scm *e)
 struct scm *
 vector_set_x (struct scm *x, struct scm *i, struct scm *e)
 {
+  assert_vector_index ("vector-set!", x, i);
   return vector_set_x_ (x, i->value, e);
 }
 
@@ -125,6 +144,8 @@ list_to_vector (struct scm *x)
 struct scm *
 vector_to_list (struct scm *v)
 {
+  if (v->type != TVECTOR)
+    error (cell_symbol_wrong_type_arg, cons (make_string0 ("vector->list"), v));
   struct scm *x = cell_nil;
   long i;
   struct scm *e;
-- 
2.43.0


From c276d8e4dde113c750df34b3fe2c1c67de13146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 084/147] fix: struct-ref, struct-set!: Check the arguments.

---
 src/struct.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/struct.c b/src/struct.c
index 19162c7..b4f5fde 100644
--- a/src/struct.c
+++ b/src/struct.c
@@ -58,6 +58,7 @@ struct scm *
 struct_ref_ (struct scm *x, long i)
 {
   assert_msg (x->type == TSTRUCT, "x->type == TSTRUCT");
+  assert_msg (i >= 0, "i >= 0");
   assert_msg (i < x->length, "i < x->length");
   struct scm *e = cell_ref (x->structure, i);
   if (e->type == TREF)
@@ -73,19 +74,34 @@ struct scm *
 struct_set_x_ (struct scm *x, long i, struct scm *e)
 {
   assert_msg (x->type == TSTRUCT, "x->type == TSTRUCT");
+  assert_msg (i >= 0, "i >= 0");
   assert_msg (i < x->length, "i < x->length");
   copy_cell (cell_ref (x->structure, i), vector_entry (e));
   return cell_unspecified;
 }
 
+void
+assert_struct_index (char const *name, struct scm *x, struct scm *i)    /*:((internal)) */
+{
+  if (x->type != TSTRUCT)
+    error (cell_symbol_wrong_type_arg, cons (make_string0 (name), x));
+  assert_number (name, i);
+  if (i->value < 0)
+    error (cell_symbol_wrong_type_arg, cons (make_string0 (name), i));
+  if (i->value >= x->length)
+    error (cell_symbol_wrong_type_arg, cons (make_string0 (name), i));
+}
+
 struct scm *
 struct_ref (struct scm *x, struct scm *i)
 {
+  assert_struct_index ("struct-ref", x, i);
   return struct_ref_ (x, i->value);
 }
 
 struct scm *
 struct_set_x (struct scm *x, struct scm *i, struct scm *e)
 {
+  assert_struct_index ("struct-set!", x, i);
   return struct_set_x_ (x, i->value, e);
 }
-- 
2.43.0


From cbcca7552f68600dbe43ceb755f81794b87c7182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 085/147] fix: srfi-9: Predicates and accessors accept exactly
 the instances of the type.

They compared the names of the types, and aborted for an object that is
not a record.
---
 mes/module/srfi/srfi-9-struct.mes | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mes/module/srfi/srfi-9-struct.mes b/mes/module/srfi/srfi-9-struct.mes
index 0f50920..08f18d8 100644
--- a/mes/module/srfi/srfi-9-struct.mes
+++ b/mes/module/srfi/srfi-9-struct.mes
@@ -43,13 +43,17 @@
 (define (record-type o)
   (struct-ref o 2))
 
+(define (instance? o type)
+  (and (struct? o)
+       (eq? (struct-vtable o) type)))
+
 (define (record-predicate type)
   (lambda (o)
-    (and (record? o)
-         (eq? (record-type o) (record-type type)))))
+    (instance? o type)))
 
 (define (record? o)
   (and (struct? o)
+       (struct? (struct-vtable o))
        (record-type? (struct-vtable o))))
 
 (define (record-constructor type name params)
@@ -92,14 +96,14 @@
 (define (record-getter type field)
   (let ((i (record-field-index type field)))
     (lambda (o . field?)
-      (if (not (eq? (record-type o) (record-type type))) (error "record getter: record expected" type o)
+      (if (not (instance? o type)) (error "record getter: record expected" type o)
           (if (pair? field?) field
               (struct-ref o i))))))
 
 (define (record-setter type field)
   (let ((i (record-field-index type field)))
     (lambda (o v)
-      (if (not (eq? (record-type o) (record-type type))) (error "record setter: record expected" type o)
+      (if (not (instance? o type)) (error "record setter: record expected" type o)
           (struct-set! o i v)))))
 
 (define (record-field-index type field)
-- 
2.43.0


From 7560c8b32f35befb39fe056e4ec8cfcc93f9cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 086/147] fix: srfi-9: A constructor stores each argument in
 the field it names.

---
 mes/module/srfi/srfi-9-struct.mes | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mes/module/srfi/srfi-9-struct.mes b/mes/module/srfi/srfi-9-struct.mes
index 08f18d8..669080e 100644
--- a/mes/module/srfi/srfi-9-struct.mes
+++ b/mes/module/srfi/srfi-9-struct.mes
@@ -59,10 +59,11 @@
 (define (record-constructor type name params)
   (let ((fields (record-fields type))
         (record-type (record-type type)))
-    (lambda (. o)
-      (if (not (= (length o) (length params))) (error "wrong number of arguments for record-constructor")
-          (let ((rest (make-list (- (length fields) (length params)))))
-            (make-struct type (cons name (append o rest)) record-printer))))))
+    (let ((indices (map (lambda (field) (lst-index params field)) fields)))
+      (lambda (. o)
+        (if (not (= (length o) (length params))) (error "wrong number of arguments for record-constructor")
+            (let ((values (map (lambda (i) (and i (list-ref o i))) indices)))
+              (make-struct type (cons name values) record-printer)))))))
 
 (define record-printer *unspecified*)   ; TODO
 (define (record-printer o)
-- 
2.43.0


From e6a89b57df7e76e4b0b76db1bbe4dee84edc1052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 087/147] fix: srfi-9: A field without modifier does not define
 anything else.

---
 mes/module/srfi/srfi-9-struct.mes | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mes/module/srfi/srfi-9-struct.mes b/mes/module/srfi/srfi-9-struct.mes
index 669080e..ec0b1d3 100644
--- a/mes/module/srfi/srfi-9-struct.mes
+++ b/mes/module/srfi/srfi-9-struct.mes
@@ -91,8 +91,9 @@
 (define-macro (define-record-accessor type field)
   `(begin
      (define ,(cadr field) ,(record-getter type (car field)))
-     (if ,(pair? (cddr field))
-         (define ,(if (pair? (cddr field)) (caddr field)) ,(record-setter type (car field))))))
+     ,@(if (pair? (cddr field))
+           `((define ,(caddr field) ,(record-setter type (car field))))
+           '())))
 
 (define (record-getter type field)
   (let ((i (record-field-index type field)))
-- 
2.43.0


From 1e23af53711a507245c9fdc720d34ddf76cdbdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 088/147] fix: srfi-9 gnu: set-field evaluates its arguments
 once, in their own scope.

Also follow all of the getters.
---
 mes/module/srfi/srfi-9/gnu-struct.mes | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/mes/module/srfi/srfi-9/gnu-struct.mes b/mes/module/srfi/srfi-9/gnu-struct.mes
index aacfc4d..d72aca2 100644
--- a/mes/module/srfi/srfi-9/gnu-struct.mes
+++ b/mes/module/srfi/srfi-9/gnu-struct.mes
@@ -26,13 +26,18 @@
   `(define-record-type ,type ,constructor+params ,predicate ,@(map (lambda (f) (list-head f 2)) fields)))
 
 (define-macro (set-field o getters value)
-  `(let ((getter ,(car getters)))
-     (let* ((type (struct-vtable ,o))
-            (name (record-type ,o))
-            (set (getter ,o #t)))
-       (define (field->value field)
-         (if (eq? set field) ,value
-             ((record-getter type field) ,o)))
-       (let* ((fields (record-fields type))
-              (values (map field->value fields)))
-         (apply (record-constructor type name fields) values)))))
+  `(record-set-field ,o (list ,@getters) ,value))
+
+(define (record-set-field o getters value)
+  (let* ((getter (car getters))
+         (type (struct-vtable o))
+         (name (record-type o))
+         (set (getter o #t))
+         (value (if (null? (cdr getters)) value
+                    (record-set-field (getter o) (cdr getters) value))))
+    (define (field->value field)
+      (if (eq? set field) value
+          ((record-getter type field) o)))
+    (let* ((fields (record-fields type))
+           (values (map field->value fields)))
+      (apply (record-constructor type name fields) values))))
-- 
2.43.0


From 64a0474d4807f517074160ae15733f8d13794816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:36 +0000
Subject: [PATCH 089/147] fix: A program that caught an error of a builtin does
 not continue at the error when it is done.

---
 src/core.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core.c b/src/core.c
index 15585e4..a977dc4 100644
--- a/src/core.c
+++ b/src/core.c
@@ -151,7 +151,12 @@ error (struct scm *key, struct scm *x)
 #if !__MESC_MES__ && !__M2_PLANET__
   struct scm *throw = module_ref (R0, cell_symbol_throw);
   if (throw != cell_undefined)
-    return apply (throw, cons (key, cons (x, cell_nil)), R0);
+    {
+      /* THROW does not return here: the handler continues the program
+         from its catch form.  When APPLY returns, all of it has run.  */
+      apply (throw, cons (key, cons (x, cell_nil)), R0);
+      exit (0);
+    }
 #endif
   display_error_ (key);
   eputs (": ");
-- 
2.43.0


From 73f2ab073a8bf2899ffe61b2781425e7690bb8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 090/147] fix: display, write: Show a record on the port that
 was given.

---
 mes/module/mes/display.mes | 5 ++++-
 src/display.c              | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/mes/module/mes/display.mes b/mes/module/mes/display.mes
index d9a6854..d735c6d 100644
--- a/mes/module/mes/display.mes
+++ b/mes/module/mes/display.mes
@@ -167,7 +167,10 @@
        ((struct? x)
         (let* ((printer (struct-ref x 1)))
           (if (or (builtin? printer) (closure? printer))
-              (printer x)
+              (let ((out (current-output-port)))
+                (set-current-output-port port)
+                (printer x)
+                (set-current-output-port out))
               (begin
                 (display "#<" port)
                 (for-each (lambda (i)
diff --git a/src/display.c b/src/display.c
index cfb141f..c3edfc5 100644
--- a/src/display.c
+++ b/src/display.c
@@ -221,7 +221,13 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
       if (printer->type == TREF)
         printer = printer->ref;
       if (printer->type == TCLOSURE || builtin_p (printer) == cell_t)
-        apply (printer, cons (x, cell_nil), R0);
+        {
+          /* A printer writes to the current output port.  */
+          int out = __stdout;
+          __stdout = fd;
+          apply (printer, cons (x, cell_nil), R0);
+          __stdout = out;
+        }
       else
         {
           fdputs ("#<", fd);
-- 
2.43.0


From 5047ede78e0430ff858957f9f4a4c107e2636f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 091/147] fix: memq, assq: A number, character or keyword is
 found by an object of its type only.

---
 src/core.c | 10 ++++++----
 src/lib.c  |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core.c b/src/core.c
index a977dc4..8eb46fb 100644
--- a/src/core.c
+++ b/src/core.c
@@ -232,8 +232,9 @@ assq (struct scm *x, struct scm *a)
       long v = x->value;
       while (a != cell_nil)
         {
-          if (v == a->car->car->value)
-            return a->car;
+          if (a->car->car->type == t)
+            if (v == a->car->car->value)
+              return a->car;
           a = a->cdr;
         }
     }
@@ -241,8 +242,9 @@ assq (struct scm *x, struct scm *a)
     {
       while (a != cell_nil)
         {
-          if (string_equal_p (x, a->car->car) == cell_t)
-            return a->car;
+          if (a->car->car->type == TKEYWORD)
+            if (string_equal_p (x, a->car->car) == cell_t)
+              return a->car;
           a = a->cdr;
         }
     }
diff --git a/src/lib.c b/src/lib.c
index f892553..6050054 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -74,8 +74,9 @@ memq (struct scm *x, struct scm *a)
       long v = x->value;
       while (a != cell_nil)
         {
-          if (v == a->car->value)
-            return a;
+          if (a->car->type == t)
+            if (v == a->car->value)
+              return a;
           a = a->cdr;
         }
       return cell_f;
-- 
2.43.0


From 961537c10245d423265ef9cccd5f68ef3f971fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 092/147] fix: values, call-with-values: One value is the value
 itself.

A producer that returned one value that is not a list crashed the
interpreter.
---
 src/core.c       | 3 +++
 src/eval-apply.c | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/core.c b/src/core.c
index 8eb46fb..b252f65 100644
--- a/src/core.c
+++ b/src/core.c
@@ -114,6 +114,9 @@ eq_p (struct scm *x, struct scm *y)
 struct scm *
 values (struct scm *x)                  /*:((arity . n)) */
 {
+  if (x->type == TPAIR)
+    if (x->cdr == cell_nil)
+      return x->car;
   struct scm *v = cons (0, x);
   v->type = TVALUES;
   return v;
diff --git a/src/eval-apply.c b/src/eval-apply.c
index de713ca..031e065 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -978,6 +978,8 @@ call_with_values:
 call_with_values2:
   if (R1->type == TVALUES)
     R1 = R1->cdr;
+  else
+    R1 = cons (R1, cell_nil);
   R1 = cons (R2->cdr->car, R1);
   goto apply;
 
-- 
2.43.0


From 7a310f4d20a047b011b92d952b64b1ac34bb8117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 093/147] fix: apply_builtin: Replace multiple values as the
 second argument, do not add one.

---
 src/eval-apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index 031e065..ac12321 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -314,7 +314,7 @@ apply_builtin (struct scm *fn, struct scm *x)   /*:((internal)) */
       d = x->cdr;
       if (d->type == TPAIR)
         if (d->car->type == TVALUES)
-          x = cons (a, cons (d->car->cdr->car, d));
+          x = cons (a, cons (d->car->cdr->car, d->cdr));
     }
 
   if (arity == 0)
-- 
2.43.0


From 04b6129b14d6811ef364f63b6473276190d0084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 094/147] fix: call/cc: Escape from the receiver with the
 value, run the guards of dynamic-wind.

The frame that was captured resumed at a stale point until the receiver
had returned, and only the first of several values was delivered.  The
guards of dynamic-wind were not run, fluids and the handler of catch not
restored when leaving with a continuation or an exception.
---
 mes/module/mes/catch.mes  | 27 +++++++-------
 mes/module/mes/fluids.mes | 75 +++++++++++++++++++++++++++++++--------
 src/eval-apply.c          | 18 ++--------
 src/symbol.c              |  1 +
 4 files changed, 78 insertions(+), 43 deletions(-)

diff --git a/mes/module/mes/catch.mes b/mes/module/mes/catch.mes
index 45d8235..5ee84f4 100644
--- a/mes/module/mes/catch.mes
+++ b/mes/module/mes/catch.mes
@@ -33,20 +33,19 @@
                (abort))))
 
 (define (catch key thunk handler)
-  (let ((previous-eh (fluid-ref %eh)))
-    (with-fluid*
-        %eh #f
-        (lambda ()
-          (call/cc
-           (lambda (cc)
-             (fluid-set! %eh
-                         (lambda (k . args)
-                           (let ((handler (if (or (eq? key #t) (eq? key k)) handler
-                                              previous-eh)))
-                             (cc
-                              (lambda (x)
-                                (apply handler (cons k args)))))))
-             (thunk)))))))
+  ((call/cc
+    (lambda (cc)
+      (let ((previous-eh (fluid-ref %eh)))
+        (with-fluid*
+            %eh
+            (lambda (k . args)
+              (if (or (eq? key #t) (eq? key k))
+                  (cc (lambda () (apply handler (cons k args))))
+                  (apply previous-eh (cons k args))))
+          (lambda ()
+            (call-with-values thunk
+              (lambda vals
+                (lambda () (apply values vals)))))))))))
 
 (define (throw key . args)
   (let ((handler (fluid-ref %eh)))
diff --git a/mes/module/mes/fluids.mes b/mes/module/mes/fluids.mes
index 5fe3f18..a6759ec 100644
--- a/mes/module/mes/fluids.mes
+++ b/mes/module/mes/fluids.mes
@@ -50,11 +50,11 @@
           (symbol-prefix? 'fluid: ,fluid))))
 
 (define (with-fluid* fluid value thunk)
-  (let ((v (fluid)))
-    (fluid-set! fluid value)
-    (let ((r (thunk)))
-      (fluid-set! fluid v)
-      r)))
+  (let ((swap (lambda ()
+                (let ((v (fluid-ref fluid)))
+                  (fluid-set! fluid value)
+                  (set! value v)))))
+    (dynamic-wind swap thunk swap)))
 
 ;; (define-macro (with-fluids*-macro fluids values thunk)
 ;;   `(begin
@@ -68,15 +68,62 @@
 ;;   (primitive-eval (with-fluids*-next fluids values thunk)))
 
 (define-macro (with-fluids bindings . bodies)
-  (let ((syms (map gensym bindings)))
-    `(let ,(map (lambda (b s) `(,s (,b))) (map car bindings) syms)
-       ,@(map (lambda (o) `(fluid-set! ,(car o) ,(cadr o))) bindings)
-       (let ((r (begin ,@bodies)))
-         ,@(map (lambda (b s) `(fluid-set! ,b ,s)) (map car bindings) syms)
-         r))))
+  `(with-fluids* (list ,@(map car bindings)) (list ,@(map cadr bindings))
+                 (lambda () ,@bodies)))
+
+(define (with-fluids* fluids values thunk)
+  (if (null? fluids) (thunk)
+      (with-fluid* (car fluids) (car values)
+                   (lambda ()
+                     (with-fluids* (cdr fluids) (cdr values) thunk)))))
+
+;; The pairs of guards of the dynamic-winds that are being executed,
+;; the innermost first.
+(define %winds '())
 
 (define (dynamic-wind in-guard thunk out-guard)
   (in-guard)
-  (let ((r (thunk)))
-    (out-guard)
-    r))
+  (set! %winds (cons (cons in-guard out-guard) %winds))
+  (call-with-values thunk
+    (lambda vals
+      (set! %winds (cdr %winds))
+      (out-guard)
+      (apply values vals))))
+
+(define (%rewind winds)
+  (define (tail x n)
+    (if (= n 0) x (tail (cdr x) (- n 1))))
+  (define (common a b)
+    (if (eq? a b) a (common (cdr a) (cdr b))))
+  (define (unwind to)
+    (if (not (eq? %winds to))
+        (let ((out-guard (cdar %winds)))
+          (set! %winds (cdr %winds))
+          (out-guard)
+          (unwind to))))
+  (define (wind winds from)
+    (if (not (eq? winds from))
+        (begin
+          (wind (cdr winds) from)
+          ((caar winds))
+          (set! %winds winds))))
+  (if (not (eq? winds %winds))
+      (let* ((to (length winds))
+             (from (length %winds))
+             (shared (common (if (> to from) (tail winds (- to from)) winds)
+                             (if (> from to) (tail %winds (- from to)) %winds))))
+        (unwind shared)
+        (wind winds shared))))
+
+(define core:call/cc call/cc)
+
+(define (call/cc procedure)
+  (let ((winds %winds))
+    (core:call/cc
+     (lambda (cc)
+       (procedure
+        (lambda vals
+          (%rewind winds)
+          (apply cc vals)))))))
+
+(define call-with-current-continuation call/cc)
diff --git a/src/eval-apply.c b/src/eval-apply.c
index ac12321..e697243 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -394,8 +394,6 @@ eval_apply:
     goto macro_expand_define;
   else if (R3 == cell_vm_begin_expand_eval)
     goto begin_expand_eval;
-  else if (R3 == cell_vm_call_with_current_continuation2)
-    goto call_with_current_continuation2;
   else if (R3 == cell_vm_macro_expand_set_x)
     goto macro_expand_set_x;
   else if (R3 == cell_vm_eval_pmatch_cdr)
@@ -477,9 +475,9 @@ apply:
             g_stack_array[STACK_SIZE - v->length + i] = vector_ref_ (v, i);
           g_stack = STACK_SIZE - v->length;
         }
-      x = R1;
+      x = values (R1->cdr);
       gc_pop_frame ();
-      R1 = x->cdr->car;
+      R1 = x;
       goto eval_apply;
     }
   else if (t == TSPECIAL)
@@ -712,8 +710,6 @@ eval:
         goto vm_return;
       if (R1 == cell_symbol_begin)
         goto vm_return;
-      if (R1 == cell_symbol_call_with_current_continuation)
-        goto vm_return;
       R1 = assert_defined (R1, module_ref (R0, R1));
       goto vm_return;
     }
@@ -955,22 +951,14 @@ if_expr:
   goto vm_return;
 
 call_with_current_continuation:
-  gc_push_frame ();
   x = make_continuation (g_continuations);
   g_continuations = g_continuations + 1;
   v = make_vector_ (STACK_SIZE - g_stack, cell_unspecified);
   for (i = g_stack; i < STACK_SIZE; i = i + 1)
     vector_set_x_ (v, i - g_stack, g_stack_array[i]);
   x->continuation = v;
-  gc_pop_frame ();
-  push_cc (cons (R1->car, cons (x, cell_nil)), x, R0, cell_vm_call_with_current_continuation2);
+  R1 = cons (R1->car, cons (x, cell_nil));
   goto apply;
-call_with_current_continuation2:
-  v = make_vector_ (STACK_SIZE - g_stack, cell_unspecified);
-  for (i = g_stack; i < STACK_SIZE; i = i + 1)
-    vector_set_x_ (v, i - g_stack, g_stack_array[i]);
-  R2->continuation = v;
-  goto vm_return;
 
 call_with_values:
   push_cc (cons (R1->car, cell_nil), R1, R0, cell_vm_call_with_values2);
diff --git a/src/symbol.c b/src/symbol.c
index a705e49..dae498b 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -193,6 +193,7 @@ init_symbols ()                  /*:((internal)) */
 
   struct scm *a = cell_nil;
   a = acons (cell_symbol_call_with_values, cell_symbol_call_with_values, a);
+  a = acons (cell_symbol_call_with_current_continuation, cell_symbol_call_with_current_continuation, a);
   a = acons (cell_symbol_boot_module, cell_symbol_boot_module, a);
   a = acons (cell_symbol_current_module, cell_symbol_current_module, a);
 
-- 
2.43.0


From 400b430b21b1a7a6ac3a899044c76bb9e53f9162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 095/147] fix: error: A local variable named throw is not the
 procedure throw.

---
 src/core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.c b/src/core.c
index b252f65..f89e74b 100644
--- a/src/core.c
+++ b/src/core.c
@@ -152,7 +152,7 @@ struct scm *
 error (struct scm *key, struct scm *x)
 {
 #if !__MESC_MES__ && !__M2_PLANET__
-  struct scm *throw = module_ref (R0, cell_symbol_throw);
+  struct scm *throw = module_ref (cell_nil, cell_symbol_throw);
   if (throw != cell_undefined)
     {
       /* THROW does not return here: the handler continues the program
-- 
2.43.0


From 49ba31427181711bcfbe2246c39f1c067ee7ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:07 +0000
Subject: [PATCH 096/147] fix: lambda: A procedure made by a local lambda sees
 definitions that follow it.

---
 src/eval-apply.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index e697243..3ffd0b1 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -459,7 +459,6 @@ apply:
       formals = cl->cdr->car;
       args = R1->cdr;
       aa = cl->car->cdr;
-      aa = aa->cdr;
       check_formals (R1->car, formals, R1->cdr);
       p = pairlis (formals, args, aa);
       call_lambda (body, p, aa, R0);
@@ -646,14 +645,13 @@ eval:
                   }
                 else
                   {
-                    p = pairlis (R1->cdr->car, R1->cdr->car, R0);
                     formals = R1->cdr->car->cdr;
                     body = R1->cdr->cdr;
 
                     if (macro_p != 0 || global_p != 0)
                       expand_variable (body, formals);
                     R1 = cons (cell_symbol_lambda, cons (formals, body));
-                    push_cc (R1, R2, p, cell_vm_eval_define);
+                    push_cc (R1, R2, R0, cell_vm_eval_define);
                     goto eval;
                   }
               eval_define:
-- 
2.43.0


From 8dae0162271f52a5f266cc7b67bed5ec2c9f33ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 097/147] fix: eval: Evaluate the operator of a call once.

---
 src/eval-apply.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index 3ffd0b1..5e5809e 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -693,10 +693,11 @@ eval:
           gc_check ();
           goto eval;
         eval_check_func:
-          push_cc (R2->cdr, R2, R0, cell_vm_eval2);
+          push_cc (R2->cdr, R1, R0, cell_vm_eval2);
           goto evlis;
         eval2:
-          R1 = cons (R2->car, R1);
+          check_apply (R2, cell_unspecified);
+          R1 = cons (R2, R1);
           goto apply;
         }
     }
-- 
2.43.0


From d91e44afbc84f09cc65ed10f74dde7612158eea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:46 +0000
Subject: [PATCH 098/147] gc: Hooks of the run-time monitor, guarded by
 MES_VK_GC.

---
 src/gc.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index 7eff527..d273ba3 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -601,9 +601,21 @@ gc_loop (struct scm *scan)
   gc_flip ();
 }
 
+#if MES_VK_GC
+/* Run-time monitoring, off by default: the monitor decides when to collect,
+   moves the cells that survive and inspects the heap.  */
+int vk_gc_now ();
+void vk_gc_move ();
+void vk_gc_done ();
+#endif
+
 struct scm *
 gc_check ()
 {
+#if MES_VK_GC
+  if (vk_gc_now () != 0)
+    return gc ();
+#endif
   long used = ((g_free - g_cells) / M2_CELL_SIZE) + GC_SAFETY;
   if (used >= ARENA_SIZE)
     return gc ();
@@ -629,6 +641,9 @@ gc_ ()
   struct scm *s;
   for (s = cell_nil; s < g_symbol_max; s = s + M2_CELL_SIZE)
     gc_copy (s);
+#if MES_VK_GC
+  vk_gc_move ();
+#endif
 
   g_symbols = gc_copy (g_symbols);
   g_macros = gc_copy (g_macros);
@@ -674,6 +689,9 @@ gc ()
   clock_gettime (CLOCK_PROCESS_CPUTIME_ID, gc_start_time);
   gc_push_frame ();
   gc_ ();
+#if MES_VK_GC
+  vk_gc_done ();
+#endif
   gc_pop_frame ();
   clock_gettime (CLOCK_PROCESS_CPUTIME_ID, gc_end_time);
   long time = seconds_and_nanoseconds_to_long
-- 
2.43.0


From 7fb0f21797bb3f2fd5c6adc113ff17600009e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 099/147] fix: String ports: Reclaim those no longer in use,
 read from one given as argument.

---
 include/mes/builtins.h |  4 +-
 include/mes/mes.h      |  1 +
 src/builtins.c         |  4 +-
 src/gc.c               |  2 +-
 src/posix.c            | 88 +++++++++++++++++++++++++++---------------
 src/string.c           |  8 ++--
 6 files changed, 66 insertions(+), 41 deletions(-)

diff --git a/include/mes/builtins.h b/include/mes/builtins.h
index d82a7f6..3c38f67 100644
--- a/include/mes/builtins.h
+++ b/include/mes/builtins.h
@@ -108,9 +108,9 @@ struct scm *exit_ (struct scm *x);
 struct scm *peek_byte ();
 struct scm *read_byte ();
 struct scm *unread_byte (struct scm *i);
-struct scm *peek_char ();
+struct scm *peek_char (struct scm *port);
 struct scm *read_char (struct scm *port);
-struct scm *unread_char (struct scm *i);
+struct scm *unread_char (struct scm *x);
 struct scm *write_char (struct scm *i);
 struct scm *write_byte (struct scm *x);
 struct scm *getenv_ (struct scm *s);
diff --git a/include/mes/mes.h b/include/mes/mes.h
index d79fb3c..e25b32d 100644
--- a/include/mes/mes.h
+++ b/include/mes/mes.h
@@ -155,6 +155,7 @@ FUNCTION builtin_function (struct scm *builtin);
 char *cell_bytes (struct scm *x);
 char *news_bytes (struct scm *x);
 char *string_port_bytes (struct scm *port);
+void set_input_port (struct scm *port);
 int peekchar ();
 int readchar ();
 int unreadchar ();
diff --git a/src/builtins.c b/src/builtins.c
index 0b933f6..e5009d4 100644
--- a/src/builtins.c
+++ b/src/builtins.c
@@ -218,9 +218,9 @@ mes_builtins (struct scm *a)            /*:((internal)) */
   a = init_builtin (builtin_type, "peek-byte", 0, &peek_byte, a);
   a = init_builtin (builtin_type, "read-byte", 0, &read_byte, a);
   a = init_builtin (builtin_type, "unread-byte", 1, &unread_byte, a);
-  a = init_builtin (builtin_type, "peek-char", 0, &peek_char, a);
+  a = init_builtin (builtin_type, "peek-char", -1, &peek_char, a);
   a = init_builtin (builtin_type, "read-char", -1, &read_char, a);
-  a = init_builtin (builtin_type, "unread-char", 1, &unread_char, a);
+  a = init_builtin (builtin_type, "unread-char", -1, &unread_char, a);
   a = init_builtin (builtin_type, "write-char", -1, &write_char, a);
   a = init_builtin (builtin_type, "write-byte", -1, &write_byte, a);
   a = init_builtin (builtin_type, "getenv", 1, &getenv_, a);
diff --git a/src/gc.c b/src/gc.c
index d273ba3..4724ca5 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -355,7 +355,7 @@ make_string0 (char const *s)
 struct scm *
 make_string_port (struct scm *x)        /*:((internal)) */
 {
-  return make_pointer_cell (TPORT, -length__ (g_ports) - 2, x);
+  return make_pointer_cell (TPORT, -2, x);
 }
 
 void
diff --git a/src/posix.c b/src/posix.c
index 001a222..cfdc486 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -70,6 +70,27 @@ string_port_bytes (struct scm *port)
   return p + (bytes->length - 1 - string->length);
 }
 
+/* The string port that is the current input port, or 0. */
+struct scm *
+current_string_port ()                  /*:((internal)) */
+{
+  if (__stdin < 0 && g_ports->type == TPAIR)
+    return g_ports->car;
+  return 0;
+}
+
+void
+set_input_port (struct scm *port)       /*:((internal)) */
+{
+  if (port->type == TNUMBER)
+    __stdin = port->value;
+  else if (port->type == TPORT)
+    {
+      __stdin = port->port;
+      g_ports = cons (port, cell_nil);
+    }
+}
+
 int
 peekchar ()
 {
@@ -79,7 +100,9 @@ peekchar ()
       unreadchar (c);
       return c;
     }
-  struct scm *port = current_input_port ();
+  struct scm *port = current_string_port ();
+  if (port == 0)
+    return -1;
   struct scm *string = port->string;
   size_t length = string->length;
   if (length == 0)
@@ -93,7 +116,9 @@ readchar ()
 {
   if (__stdin >= 0)
     return fdgetc (__stdin);
-  struct scm *port = current_input_port ();
+  struct scm *port = current_string_port ();
+  if (port == 0)
+    return -1;
   struct scm *string = port->string;
   size_t length = string->length;
   if (length == 0)
@@ -111,7 +136,9 @@ unreadchar (int c)
   if (c == EOF) /* can't unread EOF */
     return c;
   char *p;
-  struct scm *port = current_input_port ();
+  struct scm *port = current_string_port ();
+  if (port == 0)
+    return -1;
   struct scm *string = port->string;
   size_t length = string->length + 1;
   if (length < string->string->length)
@@ -149,27 +176,43 @@ unread_byte (struct scm *i)
 }
 
 struct scm *
-peek_char ()
+peek_char (struct scm *port)            /*:((arity . n)) */
 {
-  return make_char (peekchar ());
+  int fd = __stdin;
+  struct scm *ports = g_ports;
+  if (port->type == TPAIR)
+    set_input_port (port->car);
+  struct scm *c = make_char (peekchar ());
+  __stdin = fd;
+  g_ports = ports;
+  return c;
 }
 
 struct scm *
 read_char (struct scm *port)            /*:((arity . n)) */
 {
   int fd = __stdin;
+  struct scm *ports = g_ports;
   if (port->type == TPAIR)
-    if (port->car->type == TNUMBER)
-      __stdin = port->car->value;
+    set_input_port (port->car);
   struct scm *c = make_char (readchar ());
   __stdin = fd;
+  g_ports = ports;
   return c;
 }
 
 struct scm *
-unread_char (struct scm *i)
+unread_char (struct scm *x)             /*:((arity . n)) */
 {
+  struct scm *i = car (x);
+  struct scm *port = cdr (x);
+  int fd = __stdin;
+  struct scm *ports = g_ports;
+  if (port->type == TPAIR)
+    set_input_port (port->car);
   unreadchar (i->value);
+  __stdin = fd;
+  g_ports = ports;
   return i;
 }
 
@@ -239,16 +282,10 @@ current_input_port ()
 {
   if (__stdin >= 0)
     return make_number (__stdin);
-  struct scm *x = g_ports;
-  struct scm *a;
-  while (x != 0)
-    {
-      a = x->car;
-      if (a->port == __stdin)
-        return a;
-      x = x->cdr;
-    }
-  return x->car;
+  struct scm *port = current_string_port ();
+  if (port != 0)
+    return port;
+  return make_number (__stdin);
 }
 
 struct scm *
@@ -264,25 +301,14 @@ struct scm *
 open_input_string (struct scm *string)
 {
   string = make_string (cell_bytes (string->string), string->length);
-  struct scm *port = make_string_port (string);
-  g_ports = cons (port, g_ports);
-  return port;
+  return make_string_port (string);
 }
 
 struct scm *
 set_current_input_port (struct scm *port)
 {
   struct scm *prev = current_input_port ();
-  if (port->type == TNUMBER)
-    {
-      int p = port->value;
-      if (p != 0)
-        __stdin = p;
-      else
-        __stdin = STDIN;
-    }
-  else if (port->type == TPORT)
-    __stdin = port->port;
+  set_input_port (port);
   return prev;
 }
 
diff --git a/src/string.c b/src/string.c
index 89af9eb..cc9981c 100644
--- a/src/string.c
+++ b/src/string.c
@@ -174,12 +174,9 @@ struct scm *
 read_string (struct scm *port)          /*:((arity . n)) */
 {
   int fd = __stdin;
+  struct scm *ports = g_ports;
   if (port->type == TPAIR)
-    {
-      struct scm *p = car (port);
-      if (p->type == TNUMBER)
-        __stdin = p->value;
-    }
+    set_input_port (port->car);
   int c = readchar ();
   size_t i = 0;
   while (c != -1)
@@ -192,6 +189,7 @@ read_string (struct scm *port)          /*:((arity . n)) */
     }
   g_buf[i] = 0;
   __stdin = fd;
+  g_ports = ports;
   return make_string (g_buf, i);
 }
 
-- 
2.43.0


From 5bbd07c87d0c4dd9a2a08fb731c5ad12725b6fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 100/147] fix: read: Restore the current input port.

---
 mes/module/mes/scm.mes | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index 6731ace..3b01271 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -99,6 +99,7 @@
   (if (null? port) (read-env (current-module))
       (let* ((prev (set-current-input-port (car port)))
              (result (read-env (current-module))))
+        (set-current-input-port prev)
         result)))
 
 (if (not (defined? 'peek-char))
-- 
2.43.0


From 6b1b444ec28503917e1497b832bb8f1e63f49efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 101/147] fix: write-byte: Write to the port that was given,
 also when that is 1 or 2.

---
 src/posix.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/posix.c b/src/posix.c
index cfdc486..c7280a1 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -233,13 +233,7 @@ write_byte (struct scm *x)              /*:((arity . n)) */
     {
       struct scm *f = p->car;
       if (f->type == TNUMBER)
-        {
-          long v = f->value;
-          if (v != 1)
-            fd = v;
-          if (v == 2)
-            fd = __stderr;
-        }
+        fd = f->value;
     }
   char cc = c->value;
   write (fd, &cc, 1);
-- 
2.43.0


From 31086a01b893dcc2425345bc15bdf6fbff186864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 102/147] fix: newline: Honour the port argument.

---
 mes/module/mes/boot-0.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 767a1f2..8f1a331 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -53,7 +53,7 @@
       (core:write-port x (car rest))))
 
 (define (newline . rest)
-  (core:display "\n"))
+  (apply display (cons "\n" rest)))
 
 (define (cadr x) (car (cdr x)))
 
-- 
2.43.0


From 184700cd24c59fd71f13e9bdf829e437dcfcabe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 103/147] fix: with-output-to-string: Collect in linear time;
 undo all redirections when control leaves.

---
 mes/module/mes/guile.mes         | 51 +++++++++++++-------------------
 mes/module/mes/simple-format.mes | 41 +++++++++++++++++--------
 2 files changed, 49 insertions(+), 43 deletions(-)

diff --git a/mes/module/mes/guile.mes b/mes/module/mes/guile.mes
index 42ac445..e39c7c6 100644
--- a/mes/module/mes/guile.mes
+++ b/mes/module/mes/guile.mes
@@ -34,7 +34,7 @@
 
 (define %load-path (or (and=> (getenv "GUILE_LOAD_PATH") (lambda (x) (string-split x #\:))) '()))
 
-(define (drain-input port) (read-string))
+(define (drain-input port) (read-string port))
 
 (define (read-line . rest)
   (let* ((port (if (pair? rest) (car rest) (current-input-port)))
@@ -43,11 +43,13 @@
     (if (eof-object? c) c
         (list->string
          (let loop ((c c))
-           (if (or (eof-object? c) (eq? c #\newline)) (case handle-delim
-                                                        ((trim) '())
-                                                        ((concat) '(#\newline))
-                                                        (else (error (format #f "not supported: handle-delim=~a" handle-delim))))
-               (cons c (loop (read-char port)))))))))
+           (cond
+            ((eof-object? c) '())
+            ((eq? c #\newline) (case handle-delim
+                                 ((trim) '())
+                                 ((concat) '(#\newline))
+                                 (else (error (format #f "not supported: handle-delim=~a" handle-delim)))))
+            (else (cons c (loop (read-char port))))))))))
 
 (define (object->string x . rest)
   (with-output-to-string
@@ -56,48 +58,37 @@
 (define (port-filename p) "<stdin>")
 (define (port-line p) 0)
 
+;; Call THUNK with PORT as the current port, as long as control is inside it.
+(define (%with-port current-port set-current-port! port thunk)
+  (let ((swap (lambda ()
+                (let ((save (current-port)))
+                  (set-current-port! port)
+                  (set! port save)))))
+    (dynamic-wind swap thunk swap)))
+
 (define (with-input-from-string string thunk)
-  (let ((prev (set-current-input-port (open-input-string string)))
-        (r (thunk)))
-    (set-current-input-port prev)
-    r))
+  (%with-port current-input-port set-current-input-port (open-input-string string) thunk))
 
 (define (with-input-from-file file thunk)
   (let ((port (open-input-file file)))
     (if (= port -1)
         (error 'no-such-file file)
-        (let* ((save (current-input-port))
-               (foo (set-current-input-port port))
-               (r (thunk)))
-          (set-current-input-port save)
-          r))))
+        (%with-port current-input-port set-current-input-port port thunk))))
 
 (define (with-output-to-file file thunk)
   (let ((port (open-output-file file)))
     (if (= port -1)
         (error 'cannot-open file)
-        (let* ((save (current-output-port))
-               (foo (set-current-output-port port))
-               (r (thunk)))
-          (set-current-output-port save)
-          r))))
+        (%with-port current-output-port set-current-output-port port thunk))))
 
 (define (with-error-to-file file thunk)
   (let ((port (open-output-file file)))
     (if (= port -1)
         (error 'cannot-open file)
-        (let* ((save (current-error-port))
-               (foo (set-current-error-port port))
-               (r (thunk)))
-          (set-current-error-port save)
-          r))))
+        (%with-port current-error-port set-current-error-port port thunk))))
 
 (define (with-output-to-port port thunk)
-  (let* ((save (current-output-port))
-         (foo (set-current-output-port port))
-         (r (thunk)))
-    (set-current-output-port save)
-    r))
+  (%with-port current-output-port set-current-output-port port thunk))
 
 (define core:open-input-file open-input-file)
 (define (open-input-file file)
diff --git a/mes/module/mes/simple-format.mes b/mes/module/mes/simple-format.mes
index 0f6f4b7..b7bea68 100644
--- a/mes/module/mes/simple-format.mes
+++ b/mes/module/mes/simple-format.mes
@@ -22,20 +22,35 @@
 
 ;;; Code:
 
+(mes-use-module (mes fluids))
+
+;; The number of the next string port for output; they have no descriptor.
+(define %string-port -2)
+
 (define (with-output-to-string thunk)
-  (define save-write-byte write-byte)
-  (let ((stdout '()))
-    (set! write-byte
-          (lambda (x . rest)
-            (let ((out? (or (null? rest) (eq? (car rest) (current-output-port)))))
-              (if (not out?) (apply save-write-byte (cons x rest))
-                  (begin
-                    (set! stdout (append stdout (list (integer->char x))))
-                    x)))))
-    (thunk)
-    (let ((r (apply string stdout)))
-      (set! write-byte save-write-byte)
-      r)))
+  (let ((port %string-port)
+        (stdout '())
+        (save-port #f)
+        (save-write-byte #f))
+    (define (string-write-byte x . rest)
+      (if (eq? port (if (null? rest) (current-output-port) (car rest)))
+          (begin
+            (set! stdout (cons (integer->char x) stdout))
+            x)
+          (apply save-write-byte (cons x rest))))
+    (dynamic-wind
+      (lambda ()
+        (set! save-port (current-output-port))
+        (set! save-write-byte write-byte)
+        (set! %string-port (- port 1))
+        (set! write-byte string-write-byte)
+        (set-current-output-port port))
+      thunk
+      (lambda ()
+        (set! %string-port port)
+        (set! write-byte save-write-byte)
+        (set-current-output-port save-port)))
+    (list->string (reverse stdout))))
 
 (define (simple-format destination format . rest)
   (let ((port (if (boolean? destination) (current-output-port) destination))
-- 
2.43.0


From 441dc34adab3752992e2d2d6d449f5fbec7e0bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 104/147] fix: read-line: Read lines of any length.

---
 mes/module/mes/guile.mes | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/mes/module/mes/guile.mes b/mes/module/mes/guile.mes
index e39c7c6..20f7364 100644
--- a/mes/module/mes/guile.mes
+++ b/mes/module/mes/guile.mes
@@ -41,15 +41,14 @@
          (handle-delim (if (and (pair? rest) (pair? (cdr rest))) (cadr rest) 'trim))
          (c (read-char port)))
     (if (eof-object? c) c
-        (list->string
-         (let loop ((c c))
-           (cond
-            ((eof-object? c) '())
-            ((eq? c #\newline) (case handle-delim
-                                 ((trim) '())
-                                 ((concat) '(#\newline))
-                                 (else (error (format #f "not supported: handle-delim=~a" handle-delim)))))
-            (else (cons c (loop (read-char port))))))))))
+        (let loop ((c c) (line '()))
+          (cond
+           ((eof-object? c) (list->string (reverse line)))
+           ((eq? c #\newline) (case handle-delim
+                                ((trim) (list->string (reverse line)))
+                                ((concat) (list->string (reverse (cons c line))))
+                                (else (error (format #f "not supported: handle-delim=~a" handle-delim)))))
+           (else (loop (read-char port) (cons c line))))))))
 
 (define (object->string x . rest)
   (with-output-to-string
-- 
2.43.0


From 21a3016d2dccd13b4c8b0318a7dd24490aaf48ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 105/147] fix: fdgetc, fdungetc: Any number of open files.

---
 lib/mes/fdgetc.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/mes/fdgetc.c b/lib/mes/fdgetc.c
index e5c63a7..eef6ad9 100644
--- a/lib/mes/fdgetc.c
+++ b/lib/mes/fdgetc.c
@@ -27,12 +27,15 @@
 #include <unistd.h>
 
 int *__ungetc_buf;
+int __ungetc_size;
 
 int
 __ungetc_p (int filedes)
 {
   if (__ungetc_buf == 0)
     __ungetc_init ();
+  if (filedes < 0 || filedes >= __ungetc_size)
+    return 0;
   return __ungetc_buf[filedes] >= 0;
 }
 
@@ -45,6 +48,7 @@ __ungetc_init ()
       __ungetc_buf = malloc ((__FILEDES_MAX + 1) * sizeof (int));
       errno = save_errno;
       memset (__ungetc_buf, -1, (__FILEDES_MAX + 1) * sizeof (int));
+      __ungetc_size = __FILEDES_MAX + 1;
     }
 }
 
@@ -53,7 +57,8 @@ __ungetc_clear (int filedes)
 {
   if (__ungetc_buf == 0)
     __ungetc_init ();
-  __ungetc_buf[filedes] = -1;
+  if (filedes >= 0 && filedes < __ungetc_size)
+    __ungetc_buf[filedes] = -1;
 }
 
 void
@@ -61,7 +66,20 @@ __ungetc_set (int filedes, int c)
 {
   if (__ungetc_buf == 0)
     __ungetc_init ();
-  __ungetc_buf[filedes] = c;
+  if (filedes >= __ungetc_size)
+    {
+      int save_errno = errno;
+      int size = 2 * filedes;
+      int *buf = malloc (size * sizeof (int));
+      errno = save_errno;
+      memset (buf, -1, size * sizeof (int));
+      memcpy (buf, __ungetc_buf, __ungetc_size * sizeof (int));
+      free (__ungetc_buf);
+      __ungetc_buf = buf;
+      __ungetc_size = size;
+    }
+  if (filedes >= 0)
+    __ungetc_buf[filedes] = c;
 }
 
 int
@@ -71,7 +89,9 @@ fdgetc (int fd)
     __ungetc_init ();
 
   char c;
-  int i = __ungetc_buf[fd];
+  int i = -1;
+  if (fd >= 0 && fd < __ungetc_size)
+    i = __ungetc_buf[fd];
   if (i >= 0)
     __ungetc_buf[fd] = -1;
   else
-- 
2.43.0


From e770692df30686ae534f5537c5068eb86f17075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:10 +0000
Subject: [PATCH 106/147] fix: read: Files opened beyond the buffered-read
 cache.

---
 lib/mes/__buffered_read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index bac1f30..ecca44d 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -62,6 +62,8 @@ __buffered_read_init (int filedes)
 size_t
 __buffered_read_clear (int filedes)
 {
+  if (filedes < 0 || filedes >= __FILEDES_MAX)
+    return 0;
   __buffered_read_init (filedes);
   size_t size = __read_cache[filedes].size;
   __read_cache[filedes].size = 0;
@@ -72,6 +74,8 @@ ssize_t
 __buffered_read (int filedes, void *buffer, size_t size)
 {
   size_t todo = size;
+  if (filedes < 0 || filedes >= __FILEDES_MAX)
+    return _read (filedes, buffer, size);
   __buffered_read_init (filedes);
   struct __read_buffer *cache = &__read_cache[filedes];
   char *p = buffer;
-- 
2.43.0


From f36568bd9d354819ef24fd3f1e06bba431b62d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:11 +0000
Subject: [PATCH 107/147] fix: load: Restore the input port; a program reads
 from standard input.

---
 mes/module/mes/boot-0.scm | 5 ++---
 src/eval-apply.c          | 5 ++++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 8f1a331..59be0bc 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -205,7 +205,6 @@
 (mes-use-module (mes getopt-long))
 
 (define %main #f)
-(primitive-load 0)
 (let ((tty? (isatty? 0)))
   (define (parse-opts args)
     (let* ((option-spec
@@ -270,8 +269,8 @@ General help using GNU software: <http://gnu.org/gethelp/>
              (setenv "GUILE_LOAD_PATH" (string-append dir ":" (getenv "GUILE_LOAD_PATH")))))
     (when command
       (let* ((prev (set-current-input-port (open-input-string command)))
-             (expr (cons 'begin (read-input-file-env (current-module))))
-             (set-current-input-port prev))
+             (expr (cons 'begin (read-input-file-env (current-module)))))
+        (set-current-input-port prev)
         (primitive-eval expr)
         (exit 0)))
     (when main (set! %main main))
diff --git a/src/eval-apply.c b/src/eval-apply.c
index 5e5809e..c96e0de 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -880,8 +880,10 @@ begin_expand:
               push_cc (R1->car->cdr->car, R1, R0, cell_vm_begin_expand_primitive_load);
               goto eval;
             begin_expand_primitive_load:
+              /* What the current input port has is read to its end, a
+                 program reads from standard input. */
               if ((R1->type == TNUMBER) && R1->value == 0)
-                0;
+                input = make_number (STDIN);
               else if (R1->type == TSTRING)
                 input = set_current_input_port (open_input_file (R1));
               else if (R1->type == TPORT)
@@ -893,6 +895,7 @@ begin_expand:
                   assert_msg (0, "begin-expand-boom 0");
                 }
 
+              R1 = input;
               push_cc (input, R2, R0, cell_vm_return);
               x = read_input_file_env (R0);
               if (g_debug > 5)
-- 
2.43.0


From 98eb728a3a32e9b39af1fb75db4c4f2f7d16d2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 108/147] fix: MesCC: Functions and arrays named in an
 initializer take a full word.

---
 module/mescc/compile.scm | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 2f1979c..62a9e0f 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -2500,7 +2500,9 @@ rest of INITS."
            `((#:string ,(string-join strings ""))))))
     ((ident ,name) (let ((var (ident->variable info name)))
                      (if (number? var) (int->bv type var info)
-                         `((#:address ,var)))))
+                         `((#:address ,var)
+                           ,@(if (= (->size "*" info) 8) '((#:address 0))
+                                 '())))))
     ((initzer-list (initzer ,init) . _) (init->data type init info))
     (((initzer ,init)) (init->data type init info))
     ((ref-to (p-expr (ident ,name)))
-- 
2.43.0


From 705e9de81b0e5df7a0b322b6f13f1cabd498d79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 109/147] fix: MesCC: Call the value of a global function
 pointer.

---
 module/mescc/compile.scm | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 62a9e0f..59ce034 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -441,6 +441,14 @@
   (and (pair? (car o))
        (eq? (caar o) #:string)))
 
+(define (function-variable? name info)
+  "Is NAME, in a call, a variable that holds the address of a function?"
+  (or (assoc-ref (.locals info) name)
+      (assoc-ref (.statics info) name)
+      (and (not (assoc name (.functions info)))
+           (not (equal? name (.function info)))
+           (assoc-ref (filter (negate static-global?) (.globals info)) name))))
+
 (define (ident->type info o)
   (let ((var (ident->variable info o)))
     (cond ((global? var) (global:type var))
@@ -1125,7 +1133,7 @@ that uses a temporary and the INFO to compile it with; else return #f."
                               (fold-right expr->arg info expr-list (reverse (iota (length expr-list))))))
                     (info (clone info #:allocated '() #:pushed 0 #:registers (append (reverse allocated) registers)))
                     (n (length expr-list))
-                    (info (if (not (assoc-ref locals name))
+                    (info (if (not (function-variable? name info))
                               (begin
                                 (when (and (not (assoc name (.functions info)))
                                            (not (assoc name globals))
-- 
2.43.0


From 925052ba4d22d9f85262980242863c1176845d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 110/147] fix: MesCC: Parameters of a function are not visible
 after it.

---
 module/mescc/compile.scm | 1 +
 1 file changed, 1 insertion(+)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 59ce034..ad18eac 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -2749,6 +2749,7 @@ rest of INITS."
       (if (and stack (getenv "MESC_DEBUG")) (format (current-error-port) "        stack: ~a\n" stack))
       (clone info
              #:function #f
+             #:locals '()
              #:globals (append (.statics info) (.globals info))
              #:statics '()
              #:functions (append (.functions info) (list (cons name (make-function name type (assert-return (.text info))))))))))
-- 
2.43.0


From 580685c029cb865e26192c3f8610e802d59a7fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 111/147] fix: MesCC: Sources in one command share extern
 globals and keep local statics apart.

---
 module/mescc/M1.scm | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/module/mescc/M1.scm b/module/mescc/M1.scm
index a23657c..86bf2a8 100644
--- a/module/mescc/M1.scm
+++ b/module/mescc/M1.scm
@@ -42,7 +42,7 @@
 (define (M1:merge-infos o info)
   (clone info
          #:functions (alist-add (.functions info) (.functions o))
-         #:globals (alist-add (.globals info) (.globals o))
+         #:globals (globals-add (.globals info) (.globals o))
          #:types (.types o)))
 
 (define (alist-add a b)
@@ -51,6 +51,18 @@
          (a-keys (map car a)))
     (append a (filter (lambda (e) (not (member (car e) a-keys))) b))))
 
+(define (globals-add a b)
+  "Add globals B to A; a definition replaces an extern declaration."
+  (define (label e)
+    (if (and (not (pair? (car e))) (global? (cdr e))) (global->string (cdr e))
+        (car e)))
+  (define (declaration? e)
+    (and (global? (cdr e)) (global-extern? (cdr e))))
+  (let* ((b-labels (map label b))
+         (a (filter (lambda (e) (not (and (declaration? e) (member (label e) b-labels)))) a))
+         (a-labels (map label a)))
+    (append a (filter (lambda (e) (not (member (label e) a-labels))) b))))
+
 (define (hex2:address o)
   (string-append "&" o))
 
-- 
2.43.0


From a35470cf3d4b1edef16af99857ce89a59425c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 112/147] fix: va_start: Skip the word of the last parameter,
 also if its type is smaller.

---
 include/stdarg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdarg.h b/include/stdarg.h
index 6a8fee6..7329711 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -35,7 +35,7 @@
 #endif
 
 typedef char *va_list;
-#define va_start(ap, last) (void)((ap) = (char*)(&(last) + 1))
+#define va_start(ap, last) (void)((ap) = (char*)&(last) + sizeof (void*))
 #define va_arg(ap, type) (type)(((long*)((ap) = ((ap) + sizeof (void*))))[-1])
 #define va_align(ap, alignment) ((char*)((((unsigned long) (ap)) + (alignment) - 1) &~ ((alignment) - 1)))
 #define va_arg8(ap, type) (type)(((double*)((ap) = (va_align((ap), 8) + sizeof(double))))[-1])
-- 
2.43.0


From 9e9a1e231e809a83df2097c788d1c00bae2d15b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 113/147] fix: MesCC: Write constants of 2^63 and up alike on
 Guile and Mes.

---
 module/mescc/M1.scm | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/module/mescc/M1.scm b/module/mescc/M1.scm
index 86bf2a8..6815d4b 100644
--- a/module/mescc/M1.scm
+++ b/module/mescc/M1.scm
@@ -107,7 +107,10 @@
   (let* ((low (if mesc? 0 (modulo o #x100000000)))
          (high (cond ((not mesc?) (quotient (- o low) #x100000000))
                      ((< o 0) -1)
-                     (else o))))
+                     (else o)))
+         ;; Mes has 64 bit numbers: the high half of 2^63 and up is negative
+         (high (if (and (not mesc?) (>= high #x80000000)) (- high #x100000000)
+                   high)))
     (if hex? (string-append "%0x" (dec->hex low)
                             " %0x" (if (= high -1) "-1" (dec->hex high)))
         (string-append "%" (number->string low)
-- 
2.43.0


From 725e7f91982c47f90cf692b97f5c1131cd6afeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:19 +0000
Subject: [PATCH 114/147] fix: MesCC: -D NAME defines NAME as 1.

---
 module/mescc/mescc.scm | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/module/mescc/mescc.scm b/module/mescc/mescc.scm
index ce79a3c..306d03e 100644
--- a/module/mescc/mescc.scm
+++ b/module/mescc/mescc.scm
@@ -55,7 +55,7 @@
                                     (option-ref options 'output #f)))
                               (else (replace-suffix input-base ".E"))))
          (dir (dirname input-file-name))
-         (defines (reverse (filter-map (multi-opt 'define) options)))
+         (defines (option->defines options))
          (includes (reverse (filter-map (multi-opt 'include) options)))
          (includes (cons (option-ref options 'includedir #f) includes))
          (includes (cons dir includes))
@@ -99,7 +99,7 @@
 
 (define (c->info options file-name)
   (let* ((dir (dirname file-name))
-         (defines (reverse (filter-map (multi-opt 'define) options)))
+         (defines (option->defines options))
          (includes (reverse (filter-map (multi-opt 'include) options)))
          (includes (cons (option-ref options 'includedir #f) includes))
          (includes (cons dir includes))
@@ -384,6 +384,11 @@
                 ((equal? arch "x86_64") (if numbered-arch? "2" "amd64"))))))
 
 (define (multi-opt option-name) (lambda (o) (and (eq? (car o) option-name) (cdr o))))
+(define (option->defines options)
+  (define (define->string o)
+    (if (string-index o #\=) o
+        (string-append o "=1")))
+  (map define->string (reverse (filter-map (multi-opt 'define) options))))
 (define (count-opt options option-name)
   (let ((lst (filter-map (multi-opt option-name) options)))
     (and (pair? lst) (length lst))))
-- 
2.43.0


From 58e3b315fbdd9ed729b268cf7a9f123539c26871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:20 +0000
Subject: [PATCH 115/147] fix: MesCC: Exit with failure when a command is
 killed by a signal.

---
 module/mescc/mescc.scm | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/module/mescc/mescc.scm b/module/mescc/mescc.scm
index 306d03e..799bb54 100644
--- a/module/mescc/mescc.scm
+++ b/module/mescc/mescc.scm
@@ -317,7 +317,9 @@
   (let ((status (apply system* args)))
     (when (not (zero? status))
       (format (current-error-port) "mescc: failed: ~a\n" (string-join args))
-      (exit (status:exit-val status)))
+      (let ((val (status:exit-val status)))
+        ;; A command that was killed by a signal has no exit value.
+        (exit (if (and val (> val 0)) val 1))))
     status))
 
 (define (arch-get options)
-- 
2.43.0


From ddde308afec3586db6256d969663a0b6e7506c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 116/147] fix: MesCC: A parameter that is declared as an array
 is a pointer.

---
 module/mescc/compile.scm | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index ad18eac..3538fe8 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -2663,9 +2663,11 @@ rest of INITS."
     ((param-decl (decl-spec-list (type-spec ,type)) (param-declr (ptr-declr ,pointer (ident ,name))))
      (let ((rank (pointer->rank pointer)))
        (rank+= (ast->type type info) rank)))
-    ((param-decl (decl-spec-list ,type) (param-declr (ptr-declr ,pointer (array-of _))))
+    ((param-decl (decl-spec-list ,type) (param-declr (ptr-declr ,pointer (array-of (ident ,name) . ,_))))
      (let ((rank (pointer->rank pointer)))
        (rank+= (ast->type type info) (1+ rank))))
+    ((param-decl (decl-spec-list ,type) (param-declr (array-of (ident ,name) . ,_)))
+     (rank+= (ast->type type info) 1))
     ((param-decl ,type _) (ast->type type info))
     (_ (error "param-decl:get-type not supported:" o))))
 
-- 
2.43.0


From 9c1df5e847d7b43618ddb87978ea8a9366202154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 117/147] fix: stdio: Return the character that was written,
 EOF on failure.

---
 lib/mes/fdputc.c    | 5 +++--
 lib/mes/fdputs.c    | 3 ++-
 lib/stdio/putchar.c | 5 +++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/mes/fdputc.c b/lib/mes/fdputc.c
index 87c1b80..51301fc 100644
--- a/lib/mes/fdputc.c
+++ b/lib/mes/fdputc.c
@@ -24,6 +24,7 @@ int
 fdputc (int c, int fd)
 {
   char *p = cast_intp_to_charp (&c);
-  write (fd, p, 1);
-  return 0;
+  if (write (fd, p, 1) < 1)
+    return -1;
+  return c & 255;
 }
diff --git a/lib/mes/fdputs.c b/lib/mes/fdputs.c
index 7c6d4ab..a291ae5 100644
--- a/lib/mes/fdputs.c
+++ b/lib/mes/fdputs.c
@@ -25,6 +25,7 @@ int
 fdputs (char const *s, int fd)
 {
   int i = strlen (s);
-  write (fd, s, i);
+  if (write (fd, s, i) < i)
+    return -1;
   return 0;
 }
diff --git a/lib/stdio/putchar.c b/lib/stdio/putchar.c
index 2ca347f..c17d056 100644
--- a/lib/stdio/putchar.c
+++ b/lib/stdio/putchar.c
@@ -25,6 +25,7 @@ int
 putchar (int c)
 {
   char *p = cast_intp_to_charp (&c);
-  write (__stdout, p, 1);
-  return 0;
+  if (write (__stdout, p, 1) < 1)
+    return -1;
+  return c & 255;
 }
-- 
2.43.0


From dd4a3c663e8afe11b7aba4901c61528beee1b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 118/147] fix: fopen: Honour all modes.

---
 lib/stdio/fopen.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/lib/stdio/fopen.c b/lib/stdio/fopen.c
index 3164c11..4bfa516 100644
--- a/lib/stdio/fopen.c
+++ b/lib/stdio/fopen.c
@@ -39,22 +39,18 @@ fopen (char const *file_name, char const *opentype)
     }
 
   int fd;
-  int mode = 0600;
-  if ((opentype[0] == 'a' || !strcmp (opentype, "r+")) && !access (file_name, O_RDONLY))
-    {
-      int flags = O_RDWR;
-      if (opentype[0] == 'a')
-        flags |= O_APPEND;
-      fd = _open3 (file_name, flags, mode);
-    }
-  else if (opentype[0] == 'w' || opentype[0] == 'a' || !strcmp (opentype, "r+"))
-    {
-      char *plus_p = strchr (opentype, '+');
-      int flags = plus_p ? O_RDWR | O_CREAT : O_WRONLY | O_CREAT | O_TRUNC;
-      fd = _open3 (file_name, flags, mode);
-    }
-  else
-    fd = _open3 (file_name, O_RDONLY, 0);
+  int mode = 0666;
+  char *plus_p = strchr (opentype, '+');
+  int flags = O_RDONLY;
+  if (plus_p)
+    flags = O_RDWR;
+  else if (opentype[0] != 'r')
+    flags = O_WRONLY;
+  if (opentype[0] == 'w')
+    flags |= O_CREAT | O_TRUNC;
+  if (opentype[0] == 'a')
+    flags |= O_CREAT | O_APPEND;
+  fd = _open3 (file_name, flags, mode);
 
   if (__mes_debug ())
     {
-- 
2.43.0


From 49f09756c6a5f52b55990311ff71157c0e1e40b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 119/147] fix: feof, fread: Report the end of file after a read
 has met it.

---
 include/mes/lib.h |  1 +
 lib/mes/fdgetc.c  | 17 ++++++++++++++++-
 lib/stdio/feof.c  |  6 ++----
 lib/stdio/fread.c | 15 +++++++++------
 4 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/include/mes/lib.h b/include/mes/lib.h
index 549cca1..6c57f21 100644
--- a/include/mes/lib.h
+++ b/include/mes/lib.h
@@ -34,6 +34,7 @@ void __ungetc_init ();
 void __ungetc_clear (int filedes);
 void __ungetc_set (int filedes, int c);
 int __ungetc_p (int filedes);
+int __eof_p (int filedes);
 double abtod (char const **p, int base);
 long abtol (char const **p, int base);
 char *dtoab (double number, int base, int signed_p);
diff --git a/lib/mes/fdgetc.c b/lib/mes/fdgetc.c
index eef6ad9..4c00103 100644
--- a/lib/mes/fdgetc.c
+++ b/lib/mes/fdgetc.c
@@ -82,6 +82,17 @@ __ungetc_set (int filedes, int c)
     __ungetc_buf[filedes] = c;
 }
 
+/* At the end of file, the push-back buffer holds -2.  */
+int
+__eof_p (int filedes)
+{
+  if (__ungetc_buf == 0)
+    __ungetc_init ();
+  if (filedes < 0 || filedes >= __ungetc_size)
+    return 0;
+  return __ungetc_buf[filedes] == -2;
+}
+
 int
 fdgetc (int fd)
 {
@@ -98,7 +109,11 @@ fdgetc (int fd)
     {
       int r = read (fd, &c, 1);
       if (r < 1)
-        return -1;
+        {
+          if (r == 0)
+            __ungetc_set (fd, -2);
+          return -1;
+        }
       i = c;
     }
   if (i < 0)
diff --git a/lib/stdio/feof.c b/lib/stdio/feof.c
index 5d11388..18606a4 100644
--- a/lib/stdio/feof.c
+++ b/lib/stdio/feof.c
@@ -18,13 +18,11 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <stdio.h>
 
 int
 feof (FILE * stream)
 {
-  int c = fgetc (stream);
-  if (c != EOF)
-    ungetc (c, stream);
-  return c == EOF;
+  return __eof_p ((int) (long) stream);
 }
diff --git a/lib/stdio/fread.c b/lib/stdio/fread.c
index 505700c..619c1f1 100644
--- a/lib/stdio/fread.c
+++ b/lib/stdio/fread.c
@@ -42,13 +42,16 @@ fread (void *data, size_t size, size_t count, FILE * stream)
   while (__fungetc_p (stream) && todo-- && ++bytes)
     *buf++ = fgetc (stream);
   int filedes = (long) stream;
-  if (todo)
+  while (todo)
     {
       int r = read (filedes, buf, todo);
-      if (r < 0 && !bytes)
-        bytes = r;
-      else
-        bytes += r;
+      if (r == 0)
+        __ungetc_set (filedes, -2);
+      if (r < 1)
+        break;
+      bytes += r;
+      buf += r;
+      todo -= r;
     }
 
   if (__mes_debug ())
@@ -62,7 +65,7 @@ fread (void *data, size_t size, size_t count, FILE * stream)
       if (bytes > 0 && bytes < sizeof (debug_buf))
         {
           strncpy (debug_buf, data, bytes);
-          buf[bytes] = 0;
+          debug_buf[bytes] = 0;
           eputs ("fread buf=");
           eputs (debug_buf);
           eputs ("\n");
-- 
2.43.0


From d3d5f5d35938b0e73ecbe874dc114116928a435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 120/147] fix: lseek: Keep the position and what was read ahead
 on failure.

---
 lib/linux/lseek.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lib/linux/lseek.c b/lib/linux/lseek.c
index f71af59..b0d5942 100644
--- a/lib/linux/lseek.c
+++ b/lib/linux/lseek.c
@@ -24,23 +24,20 @@
 #include <stdio.h>
 #include <sys/types.h>
 
-#if !__MESC__ /* FIXME: We want bin/mes-mescc's x86-linux sha256sum to stay the same. */
 off_t
 _lseek (int filedes, off_t offset, int whence)
 {
   return _sys_call3 (SYS_lseek, (int) filedes, (long) offset, (int) whence);
 }
-#endif
 
 off_t
 lseek (int filedes, off_t offset, int whence)
 {
-#if !__MESC__ /* FIXME: We want bin/mes-mescc's x86-linux sha256sum to stay the same. */
   if (_lseek (filedes, 0, SEEK_CUR) == -1)
     return -1;
-#endif
-  size_t skip = __buffered_read_clear (filedes);
-  if (whence == SEEK_CUR)
-    offset -= skip;
-  return _sys_call3 (SYS_lseek, (int) filedes, (long) offset, (int) whence);
+  /* First undo the reading ahead, so that a failure leaves the position.  */
+  ssize_t skip = __buffered_read_clear (filedes);
+  if (skip)
+    _lseek (filedes, -skip, SEEK_CUR);
+  return _lseek (filedes, offset, whence);
 }
-- 
2.43.0


From f6830bf4b3dcd1d52a741532cfdcadf51202f61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 121/147] fix: fseek, ftell: Honour a character that was pushed
 back.

---
 lib/stdio/fseek.c | 4 ++++
 lib/stdio/ftell.c | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/stdio/fseek.c b/lib/stdio/fseek.c
index ce468ab..c25660c 100644
--- a/lib/stdio/fseek.c
+++ b/lib/stdio/fseek.c
@@ -26,7 +26,11 @@ int
 fseek (FILE * stream, long offset, int whence)
 {
   int filedes = (long) stream;
+  if (whence == SEEK_CUR && __ungetc_p (filedes))
+    offset = offset - 1;
   off_t pos = lseek (filedes, offset, whence);
+  if (pos >= 0)
+    __ungetc_clear (filedes);
   if (__mes_debug ())
     {
       eputs ("fread fd=");
diff --git a/lib/stdio/ftell.c b/lib/stdio/ftell.c
index aa8ddd3..77d0927 100644
--- a/lib/stdio/ftell.c
+++ b/lib/stdio/ftell.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <fcntl.h>
 #include <stdio.h>
 #include <unistd.h>
@@ -25,5 +26,9 @@
 long
 ftell (FILE * stream)
 {
-  return lseek ((int) (long) stream, 0, SEEK_CUR);
+  int filedes = (long) stream;
+  long pos = lseek (filedes, 0, SEEK_CUR);
+  if (pos > 0 && __ungetc_p (filedes))
+    pos = pos - 1;
+  return pos;
 }
-- 
2.43.0


From a475c7e79f5cf6b004a45d26547d41aa6aec87af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 122/147] fix: read: Return what a pipe or terminal has.

---
 lib/mes/__buffered_read.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index ecca44d..62658a9 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -19,8 +19,12 @@
  */
 
 #include <mes/lib.h>
+#include <errno.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/types.h>
+#include <unistd.h>
 
 #if !__MESC__
 #define __READ_BUFFER_MAX 128
@@ -86,6 +90,16 @@ __buffered_read (int filedes, void *buffer, size_t size)
       todo--;
       *p++ = cache->string[__read_buffer_max - cache->size--];
     }
+  /* Do not wait for more from a pipe or terminal.  */
+  if (todo && todo < size)
+    {
+      int save_errno = errno;
+      off_t pos = lseek (filedes, 0, SEEK_CUR);
+      errno = save_errno;
+      if (pos < 0)
+        return size - todo;
+    }
+
   if (todo)
     {
 #if !__MESC__
-- 
2.43.0


From 1a4a3aa1dd50d3883d91df3407002b28550a3d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 123/147] fix: fflush: Succeed on a stream that cannot be
 synced.

---
 lib/stdio/fflush.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/stdio/fflush.c b/lib/stdio/fflush.c
index 0993089..da5af99 100644
--- a/lib/stdio/fflush.c
+++ b/lib/stdio/fflush.c
@@ -25,8 +25,6 @@
 int
 fflush (FILE * stream)
 {
-  int filedes = (long) stream;
-  if (filedes < 3)
-    return 0;
-  return fsync (filedes);
+  /* Nothing is buffered.  */
+  return 0;
 }
-- 
2.43.0


From 64d102d1bff8e88284f6ca73f2746f4d813e30be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 124/147] fix: stat: Match the kernel's structure on x86_64.

---
 include/sys/stat.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sys/stat.h b/include/sys/stat.h
index 0aefa28..f77e2cd 100644
--- a/include/sys/stat.h
+++ b/include/sys/stat.h
@@ -63,10 +63,11 @@ struct stat
 {
   unsigned long  st_dev;
   unsigned long  st_ino;
+  unsigned long  st_nlink;
   unsigned int   st_mode;
-  unsigned int   st_nlink;
   unsigned int   st_uid;
   unsigned int   st_gid;
+  unsigned int   __pad0;
   unsigned long  st_rdev;
   long           st_size;
   unsigned long  st_blksize;
@@ -79,6 +80,7 @@ struct stat
   unsigned long  st_ctime_usec;
   unsigned long  __foo0;
   unsigned long  __foo1;
+  unsigned long  __foo2;
 };
 #endif
 // *INDENT-ON*
-- 
2.43.0


From bf3c8d0b9c85b3710e6dd2a6fd8547cea246750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 125/147] fix: setenv: Make room for new variables; honour the
 overwrite flag.

---
 lib/posix/setenv.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/posix/setenv.c b/lib/posix/setenv.c
index 321a5ab..0b6860c 100644
--- a/lib/posix/setenv.c
+++ b/lib/posix/setenv.c
@@ -31,6 +31,7 @@ setenv (char const *s, char const *v, int overwrite_p)
   char **p = environ;
   int length = strlen (s);
   char* q;
+  int count = 0;
 
   while (p[0] != 0)
     {
@@ -38,19 +39,30 @@ setenv (char const *s, char const *v, int overwrite_p)
         {
           q = p[0] + length;
           if (q[0] == '=')
-            break;
+            {
+              if (overwrite_p == 0)
+                return 0;
+              break;
+            }
         }
       p = p + M2_PTR_SIZE;
+      count = count + 1;
     }
   char *entry = malloc (length + strlen (v) + 2);
-  int end_p = p[0] == 0;
-  p[0] = entry;
   strcpy (entry, s);
   strcpy (entry + length, "=");
   strcpy (entry + length + 1, v);
-  entry[length + strlen (v) + 2] = 0;
-  if (end_p != 0)
-    p[1] = 0;
+  if (p[0] == 0)
+    {
+      /* There is no room for a new variable behind the initial environment.  */
+      char **env = malloc ((count + 2) * sizeof (char *));
+      memcpy (env, environ, count * sizeof (char *));
+      environ = env;
+      p = env + (count * M2_PTR_SIZE) + M2_PTR_SIZE;
+      p[0] = 0;
+      p = p - M2_PTR_SIZE;
+    }
+  p[0] = entry;
 
   return 0;
 }
-- 
2.43.0


From 727b801129851899dfe707087d8c1af97af8c624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 126/147] fix: unsetenv: Remove every entry of the variable.

---
 lib/posix/unsetenv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/posix/unsetenv.c b/lib/posix/unsetenv.c
index 726f626..efc186f 100644
--- a/lib/posix/unsetenv.c
+++ b/lib/posix/unsetenv.c
@@ -36,6 +36,7 @@ unsetenv (char const *name)
           while (*q++)
             q[0] = q[1];
         }
-      p++;
+      else
+        p++;
     }
 }
-- 
2.43.0


From 362e4a3eea65f59ecef0c780064fba12930c590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 127/147] fix: atexit: Run every handler, last one first.

---
 lib/stdlib/atexit.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/lib/stdlib/atexit.c b/lib/stdlib/atexit.c
index 218ae85..56f4ba6 100644
--- a/lib/stdlib/atexit.c
+++ b/lib/stdlib/atexit.c
@@ -21,8 +21,34 @@
 #include <mes/lib.h>
 #include <stdlib.h>
 
+struct __atexit
+{
+  void (*function) (void);
+  struct __atexit *next;
+};
+struct __atexit *__atexit_list;
+
+static void
+__atexit_run (void)
+{
+  while (__atexit_list)
+    {
+      void (*function) (void);
+      function = __atexit_list->function;
+      __atexit_list = __atexit_list->next;
+      (*function) ();
+    }
+}
+
 int
 atexit (void (*function) (void))
 {
-  __call_at_exit = function;
+  struct __atexit *entry = malloc (sizeof (struct __atexit));
+  if (!entry)
+    return -1;
+  entry->function = function;
+  entry->next = __atexit_list;
+  __atexit_list = entry;
+  __call_at_exit = __atexit_run;
+  return 0;
 }
-- 
2.43.0


From b03ae42eb4288491f42f0ebe12936b2e5ed5c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 128/147] fix: execl, execlp: Pass on the given zeroth
 argument.

---
 include/stdarg.h   | 2 +-
 lib/posix/execl.c  | 6 +++---
 lib/posix/execlp.c | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/stdarg.h b/include/stdarg.h
index 7329711..a88fc61 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -42,7 +42,7 @@ typedef char *va_list;
 #define va_end(ap) (void)((ap) = 0)
 #define va_copy(dest, src) dest = src
 
-int vexec (char const *file_name, va_list ap);
+int vexec (char const *file_name, char const *arg0, va_list ap);
 int vfprintf (FILE * stream, char const *template, va_list ap);
 int vfscanf (FILE * stream, char const *template, va_list ap);
 int vprintf (char const *format, va_list ap);
diff --git a/lib/posix/execl.c b/lib/posix/execl.c
index 4513586..f77d869 100644
--- a/lib/posix/execl.c
+++ b/lib/posix/execl.c
@@ -23,13 +23,13 @@
 #include <unistd.h>
 
 int
-vexec (char const *file_name, va_list ap)
+vexec (char const *file_name, char const *arg0, va_list ap)
 {
   char *arg = va_arg (ap, char *);
   char *argv[1000];             // POSIX minimum 4096
   int i = 0;
 
-  argv[i++] = (char *) file_name;
+  argv[i++] = (char *) arg0;
   while (arg)
     {
       argv[i++] = arg;
@@ -61,7 +61,7 @@ execl (char const *file_name, char const *arg, ...)
       eputs (file_name);
       eputs ("\n");
     }
-  r = vexec (file_name, ap);
+  r = vexec (file_name, arg, ap);
   va_end (ap);
   return r;
 }
diff --git a/lib/posix/execlp.c b/lib/posix/execlp.c
index 904b586..c39de15 100644
--- a/lib/posix/execlp.c
+++ b/lib/posix/execlp.c
@@ -42,7 +42,7 @@ execlp (char const *file_name, char const *arg, ...)
       errno = ENOENT;
       return -1;
     }
-  r = vexec (file_name, ap);
+  r = vexec (file_name, arg, ap);
   va_end (ap);
   return r;
 }
-- 
2.43.0


From baca2397ce5edf796d01d181ae20ec72a8567bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 129/147] fix: search_path: Stay within PATH and the buffer.

---
 lib/mes/search-path.c | 46 ++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/lib/mes/search-path.c b/lib/mes/search-path.c
index afedf13..35230e0 100644
--- a/lib/mes/search-path.c
+++ b/lib/mes/search-path.c
@@ -26,7 +26,7 @@
 char *
 search_path (char const *file_name)
 {
-  static char buf[256];
+  static char buf[4096];
   char *path = getenv ("PATH");
   if (__mes_debug ())
     {
@@ -34,33 +34,43 @@ search_path (char const *file_name)
       eputs (file_name);
       eputs ("\n");
     }
-  while (*path)
+  while (path)
     {
       char *end = strchr (path, ':');
-      if (!end)
+      char *next = 0;
+      if (end)
+        next = end + 1;
+      else
         end = strchr (path, '\0');
-      strncpy (buf, path, end - path);
-      buf[end - path] = 0;
-      if (__mes_debug ())
-        {
-          eputs (" dir: ");
-          eputs (buf);
-          eputs ("\n");
-        }
-      if (buf[end - path] != '/')
-        strcat (buf, "/");
-      strcat (buf, file_name);
-      if (!access (buf, X_OK))
+      size_t length = end - path;
+      if (length + strlen (file_name) + 3 <= sizeof (buf))
         {
+          strncpy (buf, path, length);
+          /* An empty element is the current directory.  */
+          if (!length)
+            buf[length++] = '.';
+          buf[length] = 0;
           if (__mes_debug ())
             {
-              eputs (" found: ");
+              eputs (" dir: ");
               eputs (buf);
               eputs ("\n");
             }
-          return buf;
+          if (buf[length - 1] != '/')
+            strcat (buf, "/");
+          strcat (buf, file_name);
+          if (!access (buf, X_OK))
+            {
+              if (__mes_debug ())
+                {
+                  eputs (" found: ");
+                  eputs (buf);
+                  eputs ("\n");
+                }
+              return buf;
+            }
         }
-      path = end + 1;
+      path = next;
     }
   return 0;
 }
-- 
2.43.0


From 6eac2bade2a7511cb5177e44158460bf86b63e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 130/147] fix: MesCC: A parameter that is a function pointer is
 a pointer.

---
 module/mescc/compile.scm | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/module/mescc/compile.scm b/module/mescc/compile.scm
index 3538fe8..fabcebc 100644
--- a/module/mescc/compile.scm
+++ b/module/mescc/compile.scm
@@ -2214,6 +2214,7 @@ that uses a temporary and the INFO to compile it with; else return #f."
     ((ident ,name) name)
     ((array-of ,array . ,_) (ast->name array))
     ((ftn-declr (scope (ptr-declr ,pointer (ident ,name))) . _) name)
+    ((ftn-declr (ident ,name) . _) name)
     ((ptr-declr ,pointer ,decl . ,_) (ast->name decl))
     ((ptr-declr ,pointer (ident ,name)) name)
     (_ (error "ast->name not supported: " o))))
@@ -2668,6 +2669,12 @@ rest of INITS."
        (rank+= (ast->type type info) (1+ rank))))
     ((param-decl (decl-spec-list ,type) (param-declr (array-of (ident ,name) . ,_)))
      (rank+= (ast->type type info) 1))
+    ((param-decl (decl-spec-list ,type) (param-declr (ftn-declr (scope (ptr-declr ,pointer . ,_)) . ,__)))
+     (rank+= (ast->type type info) (pointer->rank pointer)))
+    ((param-decl (decl-spec-list ,type) (param-declr (ftn-declr (ident ,name) . ,_)))
+     (rank+= (ast->type type info) 1))
+    ((param-decl (decl-spec-list ,type) (param-declr (ptr-declr ,pointer (ftn-declr . ,_))))
+     (rank+= (ast->type type info) (1+ (pointer->rank pointer))))
     ((param-decl ,type _) (ast->type type info))
     (_ (error "param-decl:get-type not supported:" o))))
 
-- 
2.43.0


From 9b664dcf105879de9cbc6b79aa156e423738a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:23 +0000
Subject: [PATCH 131/147] fix: search_path: A directory is not a program.

---
 lib/mes/search-path.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/mes/search-path.c b/lib/mes/search-path.c
index 35230e0..82594b4 100644
--- a/lib/mes/search-path.c
+++ b/lib/mes/search-path.c
@@ -21,12 +21,14 @@
 #include <mes/lib.h>
 #include <string.h>
 #include <stdlib.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 char *
 search_path (char const *file_name)
 {
   static char buf[4096];
+  struct stat st;
   char *path = getenv ("PATH");
   if (__mes_debug ())
     {
@@ -59,7 +61,7 @@ search_path (char const *file_name)
           if (buf[length - 1] != '/')
             strcat (buf, "/");
           strcat (buf, file_name);
-          if (!access (buf, X_OK))
+          if (!access (buf, X_OK) && !stat (buf, &st) && !S_ISDIR (st.st_mode))
             {
               if (__mes_debug ())
                 {
-- 
2.43.0


From ee352b9d76191f4c53ccac892c3e7d23780030f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 132/147] fix: crt1: Run the exit handlers when main returns.

---
 lib/linux/x86-mes-gcc/crt1.c      | 5 ++---
 lib/linux/x86-mes-mescc/crt1.c    | 7 +++----
 lib/linux/x86_64-mes-gcc/crt1.c   | 3 +--
 lib/linux/x86_64-mes-mescc/crt1.c | 7 +++----
 4 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/lib/linux/x86-mes-gcc/crt1.c b/lib/linux/x86-mes-gcc/crt1.c
index 74cfe06..70dbd5b 100644
--- a/lib/linux/x86-mes-gcc/crt1.c
+++ b/lib/linux/x86-mes-gcc/crt1.c
@@ -70,9 +70,8 @@ _start ()
 
        "call    main\n\t"
 
-       "mov     %eax,%ebx\n\t"
-       "mov     $1,%eax\n\t"
-       "int     $0x80\n\t"
+       "push    %eax\n\t"
+       "call    exit\n\t"
        "hlt     \n\t"
        );
 }
diff --git a/lib/linux/x86-mes-mescc/crt1.c b/lib/linux/x86-mes-mescc/crt1.c
index 05f189d..2b6c9ea 100644
--- a/lib/linux/x86-mes-mescc/crt1.c
+++ b/lib/linux/x86-mes-mescc/crt1.c
@@ -21,6 +21,7 @@
 #include "mes/lib-mini.h"
 
 int main (int argc, char *argv[], char *envp[]);
+void exit (int status);
 
 int
 _start ()
@@ -56,8 +57,6 @@ _start ()
 
   main ();
 
-  asm ("mov____%eax,%ebx");
-  asm ("mov____$i32,%eax %1");
-  asm ("int____$0x80");
-  asm ("hlt");
+  asm ("push___%eax");
+  exit ();
 }
diff --git a/lib/linux/x86_64-mes-gcc/crt1.c b/lib/linux/x86_64-mes-gcc/crt1.c
index 0000d7b..90cfd12 100644
--- a/lib/linux/x86_64-mes-gcc/crt1.c
+++ b/lib/linux/x86_64-mes-gcc/crt1.c
@@ -72,8 +72,7 @@ _start ()
        "call    main\n\t"
 
        "mov     %rax,%rdi\n\t"
-       "mov     $0x3c,%rax\n\t"
-       "syscall \n\t"
+       "call    exit\n\t"
        "hlt     \n\t"
        );
 }
diff --git a/lib/linux/x86_64-mes-mescc/crt1.c b/lib/linux/x86_64-mes-mescc/crt1.c
index 35d33c2..b25f80f 100644
--- a/lib/linux/x86_64-mes-mescc/crt1.c
+++ b/lib/linux/x86_64-mes-mescc/crt1.c
@@ -20,6 +20,7 @@
 
 #include "mes/lib-mini.h"
 int main (int argc, char *argv[], char *envp[]);
+void exit (int status);
 
 int
 _start ()
@@ -72,8 +73,6 @@ _start ()
 
   main ();
 
-  asm ("mov____%rax,%rdi");
-  asm ("mov____$i32,%rax %0x3c");
-  asm ("syscall");
-  asm ("hlt");
+  asm ("push___%rax");
+  exit ();
 }
-- 
2.43.0


From b605c473237ec0e59994c6fc03bf645dfab1e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:11 +0000
Subject: [PATCH 133/147] fix: remove: Remove a symbolic link itself.

---
 lib/stdio/remove.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/stdio/remove.c b/lib/stdio/remove.c
index ebc7c93..babb5aa 100644
--- a/lib/stdio/remove.c
+++ b/lib/stdio/remove.c
@@ -18,17 +18,15 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <errno.h>
 #include <stdio.h>
-#include <sys/stat.h>
 #include <unistd.h>
 
 int
 remove (char const *file_name)
 {
-  struct stat buf;
-  if (stat (file_name, &buf) < 0)
-    return -1;
-  if (S_ISDIR (buf.st_mode))
+  int r = unlink (file_name);
+  if (r < 0 && errno == EISDIR)
     return rmdir (file_name);
-  return unlink (file_name);
+  return r;
 }
-- 
2.43.0


From 07c940a37b5d7b9a941b20c407a916cfa01363b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 134/147] fix: setjmp: Save the caller's frame, stack and
 registers on x86_64.

---
 include/setjmp.h            |  3 ++
 lib/x86_64-mes-gcc/setjmp.c | 68 ++++++++++++++++++++-----------------
 2 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/include/setjmp.h b/include/setjmp.h
index 5f838ff..9069e39 100644
--- a/include/setjmp.h
+++ b/include/setjmp.h
@@ -49,6 +49,9 @@ typedef struct
   long __bp;
   long __pc;
   long __sp;
+#if __x86_64__ && (__GNUC__ || __TINYC__)
+  long __registers[5]; /* Note: Keep in sync with lib/x86_64-mes-gcc/setjmp.c */
+#endif
 } __jmp_buf;
 #endif
 typedef __jmp_buf jmp_buf[1];
diff --git a/lib/x86_64-mes-gcc/setjmp.c b/lib/x86_64-mes-gcc/setjmp.c
index b274160..45bf371 100644
--- a/lib/x86_64-mes-gcc/setjmp.c
+++ b/lib/x86_64-mes-gcc/setjmp.c
@@ -19,36 +19,42 @@
  */
 
 #include <setjmp.h>
-#include <stdlib.h>
 
-void
-longjmp (jmp_buf env, int val)
-{
-  val = val == 0 ? 1 : val;
-  // *INDENT-OFF*
-  asm (
-       "mov    0x00(%rdi),%rbp\n\t"     // env->__bp
-       "mov    0x08(%rdi),%rbx\n\t"     // env->__pc
-       "mov    0x10(%rdi),%rsp\n\t"     // env->__sp
-       "jmp    *%rbx\n\t"               // jmp *PC
-       );
-  // *INDENT-ON*
-  // not reached
-  exit (42);
-}
+// *INDENT-OFF*
+asm (
+     ".text\n\t"
+     ".globl longjmp\n\t"
+     ".type  longjmp,@function\n"
+     "longjmp:\n\t"
+     "mov    0x18(%rdi),%rbx\n\t"     // env->__registers
+     "mov    0x20(%rdi),%r12\n\t"
+     "mov    0x28(%rdi),%r13\n\t"
+     "mov    0x30(%rdi),%r14\n\t"
+     "mov    0x38(%rdi),%r15\n\t"
+     "mov    0x00(%rdi),%rbp\n\t"     // env->__bp
+     "mov    0x10(%rdi),%rsp\n\t"     // env->__sp
+     "mov    %esi,%eax\n\t"           // val
+     "test   %eax,%eax\n\t"
+     "jne    1f\n\t"
+     "mov    $1,%eax\n"
+     "1:\n\t"
+     "jmp    *0x08(%rdi)\n"           // jmp *env->__pc
 
-int
-setjmp (jmp_buf env)
-{
-  long *p;
-  // *INDENT-OFF*
-  asm ("mov    %%rbp,%0"
-       : "=r" (p)
-       : //no inputs ""
-       );
-  // *INDENT-ON*
-  env[0].__bp = (long) p;
-  env[0].__pc = p[1];
-  env[0].__sp = p[0];
-  return 0;
-}
+     "\n\t"
+     ".globl setjmp\n\t"
+     ".type  setjmp,@function\n"
+     "setjmp:\n\t"
+     "mov    %rbp,0x00(%rdi)\n\t"     // env->__bp
+     "mov    (%rsp),%rax\n\t"
+     "mov    %rax,0x08(%rdi)\n\t"     // env->__pc
+     "lea    8(%rsp),%rax\n\t"
+     "mov    %rax,0x10(%rdi)\n\t"     // env->__sp
+     "mov    %rbx,0x18(%rdi)\n\t"     // env->__registers
+     "mov    %r12,0x20(%rdi)\n\t"
+     "mov    %r13,0x28(%rdi)\n\t"
+     "mov    %r14,0x30(%rdi)\n\t"
+     "mov    %r15,0x38(%rdi)\n\t"
+     "mov    $0,%eax\n\t"
+     "ret\n"
+     );
+// *INDENT-ON*
-- 
2.43.0


From f5a847696a8fd4af1c7ca5b2168240ec4bf0f587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:55 +0000
Subject: [PATCH 135/147] fix: getopt-long: Accept an empty argument.

---
 module/mes/getopt-long.scm | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/module/mes/getopt-long.scm b/module/mes/getopt-long.scm
index 65355d9..3b6972f 100644
--- a/module/mes/getopt-long.scm
+++ b/module/mes/getopt-long.scm
@@ -226,8 +226,8 @@
     (cond ((null? opt-ls)
            (reverse ret-ls))                                    ;;; retval
           ((let ((opt (car opt-ls)))
-             (and (eq? (string-ref opt 0) #\-)
-                  (> (string-length opt) 1)
+             (and (> (string-length opt) 1)
+                  (eq? (string-ref opt 0) #\-)
                   (char-alphabetic? (string-ref opt 1))))
            (let* ((opt (car opt-ls))
                   (n (char->integer (string-ref opt 1)))
@@ -249,7 +249,7 @@
                       (cons (car opt-ls) ret-ls))))))
 
 (define (looks-like-an-option string)
-  (eq? (string-ref string 0) #\-))
+  (string-prefix? "-" string))
 
 (define (process-options specs argument-ls stop-at-first-non-option)
   ;; Use SPECS to scan ARGUMENT-LS; return (FOUND . ETC).
@@ -309,8 +309,8 @@
         (if (null? argument-ls)
             (cons found (reverse etc))                          ;;; retval
             (cond ((let ((opt (car argument-ls)))
-                     (and (eq? (string-ref opt 0) #\-)
-                          (> (string-length opt) 1)
+                     (and (> (string-length opt) 1)
+                          (eq? (string-ref opt 0) #\-)
                           (let ((n (char->integer (string-ref opt 1))))
                             (or (and (>= n (char->integer #\A)) (<= n (char->integer #\Z)))
                                 (and (>= n (char->integer #\a)) (<= n (char->integer #\z)))))))
-- 
2.43.0


From 005c483afa955a6ae3d91e484931456fb9716ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:55 +0000
Subject: [PATCH 136/147] fix: boot: Honour the documented options, leave a
 program its own arguments.

---
 mes/module/mes/boot-0.scm | 86 ++++++++++++++++++++++++++++++---------
 scripts/mescc.scm.in      |  3 +-
 2 files changed, 68 insertions(+), 21 deletions(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 59be0bc..58eb57f 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -204,30 +204,74 @@
 
 (mes-use-module (mes getopt-long))
 
+(define %command #f)
+(define %load-files '())
 (define %main #f)
+
+(define-macro (load-files)
+  (cons 'begin (map (lambda (file) (list 'primitive-load file)) %load-files)))
+
+;; Apply the entry point that is named by the string MAIN: a procedure, or
+;; the procedure `main' of a module, to the command line.
+(define (run-main main)
+  (let* ((prev (set-current-input-port (open-input-string main)))
+         (name (read)))
+    (set-current-input-port prev)
+    (primitive-eval (list (if (and (pair? name) (every symbol? name)) 'main
+                              name)
+                          (list 'quote (command-line))))))
+
 (let ((tty? (isatty? 0)))
+  (define (option-values name options)
+    (reverse (filter-map (lambda (o) (and (eq? (car o) name) (cdr o)))
+                         options)))
   (define (parse-opts args)
     (let* ((option-spec
-            '((no-auto-compile)
+            '((auto-compile)
+              (fresh-auto-compile)
+              (no-auto-compile)
               (command (single-char #\c) (value #t))
               (compiled-path (single-char #\C) (value #t))
               (help (single-char #\h))
+              (load (single-char #\l) (value #t))
               (load-path (single-char #\L) (value #t))
               (main (single-char #\e) (value #t))
               (source (single-char #\s) (value #t))
               (version (single-char #\v))
               (version (single-char #\V)))))
       (getopt-long args option-spec #:stop-at-first-non-option #t)))
-  (define (source-arg? o)
-    (equal? "-s" o))
-  (let* ((s-index (list-index source-arg? %argv))
-         (args (if s-index (list-head %argv (+ s-index 2)) %argv))
+  ;; The number of ARGS that are for mes: those that follow the script, the
+  ;; expression or `--' are for the program.
+  (define (count-mes-args args)
+    (let loop ((n 1) (rest (cdr args)))
+      (cond ((null? rest) n)
+            ((equal? (car rest) "--") (+ n 1))
+            ((or (string-prefix? "--command=" (car rest))
+                 (string-prefix? "--source=" (car rest)))
+             (+ n 1))
+            ((member (car rest) '("-c" "--command" "-s" "--source"))
+             (min (length args) (+ n 2)))
+            ((member (car rest) '("-C" "--compiled-path" "-L" "--load-path"
+                                  "-e" "--main" "-l" "--load"))
+             (if (null? (cdr rest)) (+ n 1)
+                 (loop (+ n 2) (cddr rest))))
+            ((and (string-prefix? "-" (car rest)) (not (equal? (car rest) "-")))
+             (loop (+ n 1) (cdr rest)))
+            (else n))))
+  (let* ((count (count-mes-args %argv))
+         (args (list-head %argv count))
+         (rest (list-tail %argv count))
+         (interactive? (equal? (last args) "--"))
          (options (parse-opts args))
          (command (option-ref options 'command #f))
          (main (option-ref options 'main #f))
          (source (option-ref options 'source #f))
-         (files (if s-index (list-tail %argv (+ s-index 1))
-                    (option-ref options '() '())))
+         (files (cond (source (cons source rest))
+                      ((or command interactive?) '())
+                      ;; `mes FILE -- ARGS', as in the mescc script
+                      ((and (> (length rest) 1) (equal? (cadr rest) "--"))
+                       (cons (car rest) (cddr rest)))
+                      (else rest)))
          (help? (option-ref options 'help #f))
          (usage? #f)
          (version? (option-ref options 'version #f)))
@@ -264,17 +308,18 @@ General help using GNU software: <http://gnu.org/gethelp/>
 " (or (and usage? (current-error-port)) (current-output-port)))
           (exit (or (and usage? 2) 0)))
      options)
-    (and=> (option-ref options 'load-path #f)
-           (lambda (dir)
-             (setenv "GUILE_LOAD_PATH" (string-append dir ":" (getenv "GUILE_LOAD_PATH")))))
-    (when command
-      (let* ((prev (set-current-input-port (open-input-string command)))
-             (expr (cons 'begin (read-input-file-env (current-module)))))
-        (set-current-input-port prev)
-        (primitive-eval expr)
-        (exit 0)))
-    (when main (set! %main main))
-    (cond ((pair? files)
+    (let ((dirs (option-values 'load-path options))
+          (path (getenv "GUILE_LOAD_PATH")))
+      (when (pair? dirs)
+        (setenv "GUILE_LOAD_PATH"
+                (string-join (if path (append dirs (list path)) dirs) ":"))))
+    (when (null? files)
+      (set! %argv (cons (car %argv) rest)))
+    (set! %load-files (option-values 'load options))
+    (set! %command command)
+    (set! %main main)
+    (cond (command #t)
+          ((pair? files)
            (let* ((file (car files))
                   (port (if (equal? file "-") 0
                             (open-input-file file))))
@@ -286,5 +331,6 @@ General help using GNU software: <http://gnu.org/gethelp/>
            (set-current-input-port 0)
            (repl))
           (else #t))))
-(primitive-load 0)
-(primitive-load (open-input-string %main))
+(load-files)
+(primitive-load (if %command (open-input-string %command) 0))
+(when %main (run-main %main))
diff --git a/scripts/mescc.scm.in b/scripts/mescc.scm.in
index 0fa613a..22ea226 100644
--- a/scripts/mescc.scm.in
+++ b/scripts/mescc.scm.in
@@ -64,7 +64,8 @@
 (cond-expand
  (mes
   (mes-use-module (mescc))
-  (mescc:main (command-line)))
+  (mescc:main (command-line))
+  (exit 0))
  (guile
   (use-modules (mescc))))
 
-- 
2.43.0


From fbd682f4cc6491418a0f2d6d52bb394a0fbd9102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:55 +0000
Subject: [PATCH 137/147] fix: system*: Run the program found in PATH, wait for
 it, fail when there is none.

---
 mes/module/mes/posix.mes | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/mes/module/mes/posix.mes b/mes/module/mes/posix.mes
index fc1b157..8f588cd 100644
--- a/mes/module/mes/posix.mes
+++ b/mes/module/mes/posix.mes
@@ -44,25 +44,34 @@
            (if (access? f R_OK) f
                (loop (cdr path)))))))
 
+;; Try FILE-NAME in each directory of PATH.  Only returns if none of these
+;; can be executed.
 (define (execlp file-name args)
-  (let ((executable (if (string-index file-name #\/) file-name
-                        (search-path (string-split (getenv "PATH") #\:) file-name))))
-    (execl executable args)))
+  (if (string-index file-name #\/) (execl file-name args)
+      (let loop ((path (string-split (or (getenv "PATH") "/bin:/usr/bin") #\:)))
+        (if (null? path) -1
+            (let ((dir (car path)))
+              (execl (if (string-null? dir) file-name
+                         (string-append dir "/" file-name))
+                     args)
+              (loop (cdr path)))))))
 
 (define (system* file-name . args)
   (let ((pid (primitive-fork)))
     (cond ((zero? pid)
-           (let ((out (current-output-port))
-                 (err (current-error-port)))
+           (let* ((out (current-output-port))
+                  (err (current-error-port))
+                  (err (if (= err 1) (dup err) err)))
              (when (and (> out 0)
                         (not (= out 1)))
                (dup2 out 1))
              (when (and (> err 0)
                         (not (= err 2)))
                (dup2 err 2))
-             (exit (apply execlp file-name (list args)))))
+             (execlp file-name args)
+             (exit 127)))
           ((= -1 pid) (error "fork failed:" file-name))
-          (else (let ((pid+status (waitpid 0)))
+          (else (let ((pid+status (waitpid pid)))
                   (cdr pid+status))))))
 
 (define (waitpid pid . options)
@@ -70,4 +79,5 @@
     (core:waitpid pid options)))
 
 (define (status:exit-val status)
-  (ash status -8))
+  (and (zero? (logand status 127))
+       (logand (ash status -8) 255)))
-- 
2.43.0


From 95017da10de21c106a7602e165dad817e655599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 138/147] fix: exit: Accept a boolean, or no status.

---
 src/builtins.c |  2 +-
 src/posix.c    | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/builtins.c b/src/builtins.c
index e5009d4..2207171 100644
--- a/src/builtins.c
+++ b/src/builtins.c
@@ -214,7 +214,7 @@ mes_builtins (struct scm *a)            /*:((internal)) */
   a = init_builtin (builtin_type, "module-define!", 3, &module_define_x, a);
   /* src/posix.c */
   a = init_builtin (builtin_type, "abort", 0, &abort_, a);
-  a = init_builtin (builtin_type, "exit", 1, &exit_, a);
+  a = init_builtin (builtin_type, "exit", -1, &exit_, a);
   a = init_builtin (builtin_type, "peek-byte", 0, &peek_byte, a);
   a = init_builtin (builtin_type, "read-byte", 0, &read_byte, a);
   a = init_builtin (builtin_type, "unread-byte", 1, &unread_byte, a);
diff --git a/src/posix.c b/src/posix.c
index c7280a1..80b8dfa 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -53,10 +53,18 @@ abort_ ()                   /*:((name . "abort")) */
 }
 
 struct scm *
-exit_ (struct scm *x)                   /*:((name . "exit")) */
-{
-  assert_msg (x->type == TNUMBER, "x->type == TNUMBER");
-  exit (x->value);
+exit_ (struct scm *x)                   /*:((name . "exit") (arity . n)) */
+{
+  struct scm *status;
+  if (x->type != TPAIR)
+    exit (0);
+  status = car (x);
+  if (status == cell_t)
+    exit (0);
+  if (status == cell_f)
+    exit (1);
+  assert_msg (status->type == TNUMBER, "status->type == TNUMBER");
+  exit (status->value);
 }
 
 /* The first character of the string port PORT that has not been read: the
-- 
2.43.0


From 5188c4fa1bd9cc1f970113c04994e5d000eb8a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 139/147] fix: setenv: Set a variable with a name of any
 length.

---
 include/mes/mes.h | 1 -
 src/mes.c         | 1 -
 src/posix.c       | 4 +---
 3 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/mes/mes.h b/include/mes/mes.h
index e25b32d..50c4110 100644
--- a/include/mes/mes.h
+++ b/include/mes/mes.h
@@ -102,7 +102,6 @@ extern size_t gc_time;
 extern char **__execl_c_argv;
 extern char *__open_boot_buf;
 extern char *__open_boot_file_name;
-extern char *__setenv_buf;
 extern char *__reader_read_char_buf;
 extern struct timespec *g_start_time;
 extern struct timeval *__gettimeofday_time;
diff --git a/src/mes.c b/src/mes.c
index 86699ba..e6b2432 100644
--- a/src/mes.c
+++ b/src/mes.c
@@ -166,7 +166,6 @@ init (char **envp)
   __open_boot_buf = malloc (PATH_MAX);
   __open_boot_file_name = malloc (PATH_MAX);
   __reader_read_char_buf = malloc (10);
-  __setenv_buf = malloc (1024);
   g_datadir = malloc (1024);
   g_start_time = malloc (sizeof (struct timespec));
   memset (g_start_time, 0, sizeof (struct timespec));
diff --git a/src/posix.c b/src/posix.c
index 80b8dfa..bba1ed2 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -264,9 +264,7 @@ getenv_ (struct scm *s)                 /*:((name . "getenv")) */
 struct scm *
 setenv_ (struct scm *s, struct scm *v)          /*:((name . "setenv")) */
 {
-  char *buf = __setenv_buf;
-  strcpy (buf, cell_bytes (s->string));
-  setenv (buf, cell_bytes (v->string), 1);
+  setenv (cell_bytes (s->string), cell_bytes (v->string), 1);
   return cell_unspecified;
 }
 
-- 
2.43.0


From a90ccd20ffbff23f871df17ac54fe54b81fbd83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 140/147] fix: system*: A child does not go on with its
 parent's program after an error.

---
 mes/module/mes/posix.mes | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mes/module/mes/posix.mes b/mes/module/mes/posix.mes
index 8f588cd..f9d21b8 100644
--- a/mes/module/mes/posix.mes
+++ b/mes/module/mes/posix.mes
@@ -68,7 +68,9 @@
              (when (and (> err 0)
                         (not (= err 2)))
                (dup2 err 2))
-             (execlp file-name args)
+             (catch #t
+               (lambda _ (execlp file-name args))
+               (lambda _ #f))
              (exit 127)))
           ((= -1 pid) (error "fork failed:" file-name))
           (else (let ((pid+status (waitpid pid)))
-- 
2.43.0


From 5622059541dbbb5700c8e1a741837b892e6f7c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 141/147] fix: assq, assoc, memq, append, reverse!: Stay within
 an improper list.

---
 src/core.c | 56 +++++++++++++++++++++++++++++++-----------------------
 src/lib.c  | 17 +++++++----------
 2 files changed, 39 insertions(+), 34 deletions(-)

diff --git a/src/core.c b/src/core.c
index f89e74b..93c2e8c 100644
--- a/src/core.c
+++ b/src/core.c
@@ -33,16 +33,15 @@ struct scm *
 assoc_string (struct scm *x, struct scm *a)     /*:((internal)) */
 {
   struct scm *b;
-  while (a != cell_nil)
+  while (a->type == TPAIR)
     {
       b = a->car;
-      if (b->car->type == TSTRING)
-        if (string_equal_p (x, b->car) == cell_t)
-          return b;
+      if (b->type == TPAIR)
+        if (b->car->type == TSTRING)
+          if (string_equal_p (x, b->car) == cell_t)
+            return b;
       a = a->cdr;
     }
-  if (a != cell_nil)
-    return a->car;
   return cell_f;
 }
 
@@ -177,11 +176,13 @@ append2 (struct scm *x, struct scm *y)
   if (x->type != TPAIR)
     error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append2")));
   struct scm *r = cell_nil;
-  while (x != cell_nil)
+  while (x->type == TPAIR)
     {
       r = cons (x->car, r);
       x = x->cdr;
     }
+  if (x != cell_nil)
+    error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append2")));
   return reverse_x_ (r, y);
 }
 
@@ -192,11 +193,13 @@ append_reverse (struct scm *x, struct scm *y)
     return y;
   if (x->type != TPAIR)
     error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append-reverse")));
-  while (x != cell_nil)
+  while (x->type == TPAIR)
     {
       y = cons (x->car, y);
       x = x->cdr;
     }
+  if (x != cell_nil)
+    error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append-reverse")));
   return y;
 }
 
@@ -206,13 +209,15 @@ reverse_x_ (struct scm *x, struct scm *t)
   if (x != cell_nil && x->type != TPAIR)
     error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("core:reverse!")));
   struct scm *r = t;
-  while (x != cell_nil)
+  while (x->type == TPAIR)
     {
       t = x->cdr;
       x->cdr = r;
       r = x;
       x = t;
     }
+  if (x != cell_nil)
+    error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("core:reverse!")));
   return r;
 }
 
@@ -224,38 +229,40 @@ assq (struct scm *x, struct scm *a)
   int t = x->type;
 
   if (t == TSYMBOL || t == TSPECIAL)
-    while (a != cell_nil)
+    while (a->type == TPAIR)
       {
-        if (x == a->car->car)
+        if (x == a->car->car && a->car->type == TPAIR)
           return a->car;
         a = a->cdr;
       }
   else if (t == TCHAR || t == TNUMBER)
     {
       long v = x->value;
-      while (a != cell_nil)
+      while (a->type == TPAIR)
         {
-          if (a->car->car->type == t)
-            if (v == a->car->car->value)
-              return a->car;
+          if (a->car->type == TPAIR)
+            if (a->car->car->type == t)
+              if (v == a->car->car->value)
+                return a->car;
           a = a->cdr;
         }
     }
   else if (t == TKEYWORD)
     {
-      while (a != cell_nil)
+      while (a->type == TPAIR)
         {
-          if (a->car->car->type == TKEYWORD)
-            if (string_equal_p (x, a->car->car) == cell_t)
-              return a->car;
+          if (a->car->type == TPAIR)
+            if (a->car->car->type == TKEYWORD)
+              if (string_equal_p (x, a->car->car) == cell_t)
+                return a->car;
           a = a->cdr;
         }
     }
   else
     /* pointer equality, e.g. on strings. */
-    while (a != cell_nil)
+    while (a->type == TPAIR)
       {
-        if (x == a->car->car)
+        if (x == a->car->car && a->car->type == TPAIR)
           return a->car;
         a = a->cdr;
       }
@@ -267,10 +274,11 @@ assoc (struct scm *x, struct scm *a)
 {
   if (x->type == TSTRING)
     return assoc_string (x, a);
-  while (a != cell_nil)
+  while (a->type == TPAIR)
     {
-      if (equal2_p (x, a->car->car) == cell_t)
-        return a->car;
+      if (a->car->type == TPAIR)
+        if (equal2_p (x, a->car->car) == cell_t)
+          return a->car;
       a = a->cdr;
     }
   return cell_f;
diff --git a/src/lib.c b/src/lib.c
index 6050054..29f1e4c 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -56,9 +56,9 @@ cdr_ (struct scm *x)
 struct scm *
 xassq (struct scm *x, struct scm *a)            /* For speed in core. */
 {
-  while (a != cell_nil)
+  while (a->type == TPAIR)
     {
-      if (x == a->car->cdr)
+      if (x == a->car->cdr && a->car->type == TPAIR)
         return a->car;
       a = a->cdr;
     }
@@ -72,7 +72,7 @@ memq (struct scm *x, struct scm *a)
   if (t == TCHAR || t == TNUMBER)
     {
       long v = x->value;
-      while (a != cell_nil)
+      while (a->type == TPAIR)
         {
           if (a->car->type == t)
             if (v == a->car->value)
@@ -83,7 +83,7 @@ memq (struct scm *x, struct scm *a)
     }
   if (t == TKEYWORD)
     {
-      while (a != cell_nil)
+      while (a->type == TPAIR)
         {
           if (a->car->type == TKEYWORD)
             if (string_equal_p (x, a->car) == cell_t)
@@ -92,7 +92,7 @@ memq (struct scm *x, struct scm *a)
         }
       return cell_f;
     }
-  while (a != cell_nil)
+  while (a->type == TPAIR)
     {
       if (x == a->car)
         return a;
@@ -146,12 +146,9 @@ equal2:
 struct scm *
 last_pair (struct scm *x)
 {
-  while (x != cell_nil)
-    {
-      if (x->cdr == cell_nil)
-        return x;
+  if (x->type == TPAIR)
+    while (x->cdr->type == TPAIR)
       x = x->cdr;
-    }
   return x;
 }
 
-- 
2.43.0


From a6cff11a2207e6b64cd2320e95a71cba5c4c566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:52 +0000
Subject: [PATCH 142/147] fix: hash-table-printer, module-printer: Return a
 value.

---
 src/hash.c   | 1 +
 src/module.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index ee4e86b..f7605d9 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -180,6 +180,7 @@ hash_table_printer (struct scm *table)
         }
     }
   fdputc ('>', __stdout);
+  return cell_unspecified;
 }
 
 struct scm *
diff --git a/src/module.c b/src/module.c
index 98c382f..101f260 100644
--- a/src/module.c
+++ b/src/module.c
@@ -81,6 +81,7 @@ module_printer (struct scm *module)
   fdputs ("globals:\n  ", __stdout);
   display_ (table);
   fdputc ('>', __stdout);
+  return cell_unspecified;
 }
 
 struct scm *
-- 
2.43.0


From f24b8c67c26a648eb1c5662aa861a878358a9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:52 +0000
Subject: [PATCH 143/147] fix: -, make-vector: Report an error without
 arguments.

---
 src/math.c   | 2 ++
 src/vector.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/math.c b/src/math.c
index 810ef1a..453fd9d 100644
--- a/src/math.c
+++ b/src/math.c
@@ -107,6 +107,8 @@ is_p (struct scm *x)                    /*:((name . "=") (arity . n)) */
 struct scm *
 minus (struct scm *x)                   /*:((name . "-") (arity . n)) */
 {
+  if (x == cell_nil)
+    assert_number ("minus", x);
   assert_number ("minus", x->car);
   long n = x->car->value;
   x = cdr (x);
diff --git a/src/vector.c b/src/vector.c
index 97bc08c..c1a179e 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -47,6 +47,8 @@ make_vector_ (long k, struct scm *e)
 struct scm *
 make_vector (struct scm *x)               /*:((arity . n)) */
 {
+  if (x == cell_nil)
+    assert_number ("make-vector", x);
   struct scm *k = x->car;
   assert_number ("make-vector", k);
   long n = k->value;
-- 
2.43.0


From 98511bd1a5f001c55e7dd93c16a1d4b320fc6372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:52 +0000
Subject: [PATCH 144/147] fix: strings: Check the size before the string buffer
 is written.

---
 src/string.c | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/string.c b/src/string.c
index cc9981c..7e92f42 100644
--- a/src/string.c
+++ b/src/string.c
@@ -27,17 +27,11 @@
 void
 assert_max_string (size_t i, char const *msg, char const *string)
 {
-  if (i > MAX_STRING)
-    {
-      eputs (msg);
-      eputs (":string too long[");
-      eputs (itoa (i));
-      eputs ("]:");
-      char *p = cast_voidp_to_charp (string);
-      p[MAX_STRING - 1] = 0;
-      eputs (p);
-      error (cell_symbol_system_error, cell_f);
-    }
+  eputs (msg);
+  eputs (":string too long[");
+  eputs (itoa (i));
+  eputs ("]\n");
+  error (cell_symbol_system_error, cell_f);
 }
 
 char const *
@@ -48,7 +42,7 @@ list_to_cstring (struct scm *list, size_t *size)
   struct scm *x;
   while (list != cell_nil)
     {
-      if (i > MAX_STRING)
+      if (i + 1 >= MAX_STRING)
         assert_max_string (i, "list_to_string", g_buf);
       x = car (list);
       g_buf[i] = x->value;
@@ -181,7 +175,7 @@ read_string (struct scm *port)          /*:((arity . n)) */
   size_t i = 0;
   while (c != -1)
     {
-      if (i > MAX_STRING)
+      if (i + 1 >= MAX_STRING)
         assert_max_string (i, "read_string", g_buf);
       g_buf[i] = c;
       i = i + 1;
@@ -204,11 +198,11 @@ string_append (struct scm *x)           /*:((arity . n)) */
     {
       string = x->car;
       assert_msg (string->type == TSTRING, "string->type == TSTRING");
-      memcpy (p, cell_bytes (string->string), string->length + 1);
-      p = p + string->length;
       size = size + string->length;
-      if (size > MAX_STRING)
+      if (size >= MAX_STRING)
         assert_max_string (size, "string_append", g_buf);
+      memcpy (p, cell_bytes (string->string), string->length + 1);
+      p = p + string->length;
       x = x->cdr;
     }
   return make_string (g_buf, size);
-- 
2.43.0


From f781b8fd3516183c3ae8646c6f5f31947e3cd02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:04 +0000
Subject: [PATCH 145/147] fix: strings, files: Check that an argument is a
 string.

---
 include/mes/mes.h |  1 +
 src/posix.c       | 10 ++++++++++
 src/string.c      | 22 ++++++++++++++++++++--
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/mes/mes.h b/include/mes/mes.h
index 50c4110..0749650 100644
--- a/include/mes/mes.h
+++ b/include/mes/mes.h
@@ -164,6 +164,7 @@ size_t bytes_cells (size_t length);
 void assert_max_string (size_t i, char const *msg, char const *string);
 void assert_msg (int check, char *msg);
 void assert_number (char const *name, struct scm *x);
+void assert_string (char const *name, struct scm *x);
 void copy_cell (struct scm *to, struct scm *from);
 void gc_ ();
 void gc_dump_arena (struct scm *cells, long size);
diff --git a/src/posix.c b/src/posix.c
index bba1ed2..9a193af 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -255,6 +255,7 @@ struct scm *
 getenv_ (struct scm *s)                 /*:((name . "getenv")) */
 {
   char *p;
+  assert_string ("getenv", s);
   p = getenv (cell_bytes (s->string));
   if (p != 0)
     return make_string0 (p);
@@ -264,6 +265,8 @@ getenv_ (struct scm *s)                 /*:((name . "getenv")) */
 struct scm *
 setenv_ (struct scm *s, struct scm *v)          /*:((name . "setenv")) */
 {
+  assert_string ("setenv", s);
+  assert_string ("setenv", v);
   setenv (cell_bytes (s->string), cell_bytes (v->string), 1);
   return cell_unspecified;
 }
@@ -271,6 +274,7 @@ setenv_ (struct scm *s, struct scm *v)          /*:((name . "setenv")) */
 struct scm *
 access_p (struct scm *file_name, struct scm *mode)
 {
+  assert_string ("access?", file_name);
   int result = access (cell_bytes (file_name->string), mode->value);
   if (result == 0)
     return cell_t;
@@ -291,6 +295,7 @@ current_input_port ()
 struct scm *
 open_input_file (struct scm *file_name)
 {
+  assert_string ("open-input-file", file_name);
   int filedes = mes_open (cell_bytes (file_name->string), O_RDONLY, 0);
   if (filedes == -1)
     error (cell_symbol_system_error, cons (make_string0 ("No such file or directory"), file_name));
@@ -300,6 +305,7 @@ open_input_file (struct scm *file_name)
 struct scm *
 open_input_string (struct scm *string)
 {
+  assert_string ("open-input-string", string);
   string = make_string (cell_bytes (string->string), string->length);
   return make_string_port (string);
 }
@@ -330,6 +336,7 @@ open_output_file (struct scm *x)        /*:((arity . n)) */
   struct scm *file_name = car (x);
   x = cdr (x);
   int mode = S_IRUSR | S_IWUSR;
+  assert_string ("open-output-file", file_name);
   if (x->type == TPAIR)
     {
       struct scm *i = car (x);
@@ -362,6 +369,7 @@ set_current_error_port (struct scm *port)
 struct scm *
 chmod_ (struct scm *file_name, struct scm *mode)        /*:((name . "chmod")) */
 {
+  assert_string ("chmod", file_name);
   chmod (cell_bytes (file_name->string), mode->value);
   return cell_unspecified;
 }
@@ -386,6 +394,7 @@ execl_ (struct scm *file_name, struct scm *args)        /*:((name . "execl")) */
   char **c_argv = __execl_c_argv;
   int i = 0;
 
+  assert_string ("execl", file_name);
   if (length__ (args) > 1000)
     error (cell_symbol_system_error,
            cons (file_name, cons (make_string0 ("too many arguments"), cons (file_name, args))));
@@ -497,6 +506,7 @@ dup2_ (struct scm *old, struct scm *new)        /*:((name . "dup2")) */
 struct scm *
 delete_file (struct scm *file_name)
 {
+  assert_string ("delete-file", file_name);
   unlink (cell_bytes (file_name->string));
   return cell_unspecified;
 }
diff --git a/src/string.c b/src/string.c
index 7e92f42..4d8944f 100644
--- a/src/string.c
+++ b/src/string.c
@@ -34,6 +34,13 @@ assert_max_string (size_t i, char const *msg, char const *string)
   error (cell_symbol_system_error, cell_f);
 }
 
+void
+assert_string (char const *name, struct scm *x)
+{
+  if (x->type != TSTRING)
+    error (cell_symbol_wrong_type_arg, cons (make_string0 (name), x));
+}
+
 char const *
 list_to_cstring (struct scm *list, size_t *size)
 {
@@ -58,7 +65,7 @@ list_to_cstring (struct scm *list, size_t *size)
 struct scm *
 string_equal_p (struct scm *a, struct scm *b)   /*:((name . "string=?")) */
 {
-  if (!((a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD || b->type == TKEYWORD)))
+  if (!((a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD && b->type == TKEYWORD)))
     {
       eputs ("type a: ");
       eputs (itoa (a->type));
@@ -72,7 +79,7 @@ string_equal_p (struct scm *a, struct scm *b)   /*:((name . "string=?")) */
       eputs ("b= ");
       write_error_ (b);
       eputs ("\n");
-      assert_msg ((a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD || b->type == TKEYWORD), "(a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD || b->type == TKEYWORD)");
+      assert_msg ((a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD && b->type == TKEYWORD), "(a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD && b->type == TKEYWORD)");
     }
   if (a == b)
     return cell_t;
@@ -90,24 +97,31 @@ string_equal_p (struct scm *a, struct scm *b)   /*:((name . "string=?")) */
 struct scm *
 symbol_to_string (struct scm *symbol)
 {
+  if (symbol->type != TSYMBOL && symbol->type != TSPECIAL)
+    error (cell_symbol_wrong_type_arg, cons (make_string0 ("symbol->string"), symbol));
   return make_cell (TSTRING, symbol->car, symbol->cdr);
 }
 
 struct scm *
 symbol_to_keyword (struct scm *symbol)
 {
+  if (symbol->type != TSYMBOL && symbol->type != TSPECIAL)
+    error (cell_symbol_wrong_type_arg, cons (make_string0 ("symbol->keyword"), symbol));
   return make_cell (TKEYWORD, symbol->car, symbol->cdr);
 }
 
 struct scm *
 keyword_to_string (struct scm *keyword)
 {
+  if (keyword->type != TKEYWORD)
+    error (cell_symbol_wrong_type_arg, cons (make_string0 ("keyword->string"), keyword));
   return make_cell (TSTRING, keyword->car, keyword->cdr);
 }
 
 struct scm *
 string_to_symbol (struct scm *string)
 {
+  assert_string ("string->symbol", string);
   struct scm *x = hash_ref (g_symbols, string, cell_f);
   if (x == cell_f)
     x = make_symbol (string);
@@ -117,6 +131,7 @@ string_to_symbol (struct scm *string)
 struct scm *
 make_symbol (struct scm *string)
 {
+  assert_string ("make-symbol", string);
   struct scm *x = make_pointer_cell (TSYMBOL, string->length, string->string);
   /* The string may change, the name of the symbol may not. */
   hash_set_x (g_symbols, symbol_to_string (x), x);
@@ -153,6 +168,9 @@ cstring_to_symbol (char const *s)
 struct scm *
 string_to_list (struct scm *string)
 {
+  /* Also the name of a symbol, keyword or special value. */
+  if (string->type != TSYMBOL && string->type != TKEYWORD && string->type != TSPECIAL)
+    assert_string ("string->list", string);
   return bytes_to_list (cell_bytes (string->string), string->length);
 }
 
-- 
2.43.0


From c860645c4ce85daf539cabc5b9c2a66a1a84ef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:04 +0000
Subject: [PATCH 146/147] fix: values: Pass no values to a builtin;
 frame-printer: Return a value.

---
 src/eval-apply.c | 4 ++--
 src/stack.c      | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index c96e0de..a6fa342 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -305,7 +305,7 @@ apply_builtin (struct scm *fn, struct scm *x)   /*:((internal)) */
   if ((arity > 0 || arity == -1) && x != cell_nil)
     {
       a = x->car;
-      if (a->type == TVALUES)
+      if (a->type == TVALUES && a->cdr->type == TPAIR)
         x = cons (a->cdr->car, x->cdr);
     }
   if ((arity > 1 || arity == -1) && x != cell_nil)
@@ -313,7 +313,7 @@ apply_builtin (struct scm *fn, struct scm *x)   /*:((internal)) */
       a = x->car;
       d = x->cdr;
       if (d->type == TPAIR)
-        if (d->car->type == TVALUES)
+        if (d->car->type == TVALUES && d->car->cdr->type == TPAIR)
           x = cons (a, cons (d->car->cdr->car, d->cdr));
     }
 
diff --git a/src/stack.c b/src/stack.c
index 02d58f7..5ba8c3b 100644
--- a/src/stack.c
+++ b/src/stack.c
@@ -33,6 +33,7 @@ frame_printer (struct scm *frame)
   fdputs ("procedure: ", __stdout);
   display_ (struct_ref_ (frame, 3));
   fdputc ('>', __stdout);
+  return cell_unspecified;
 }
 
 struct scm *
-- 
2.43.0


From 5f6559384c6d93a69399a63765f367e13ac76cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:43 +0000
Subject: [PATCH 147/147] fix: simple-format: Write to the string, not to the
 port outside it.

---
 mes/module/mes/simple-format.mes | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mes/module/mes/simple-format.mes b/mes/module/mes/simple-format.mes
index b7bea68..8b02a9f 100644
--- a/mes/module/mes/simple-format.mes
+++ b/mes/module/mes/simple-format.mes
@@ -53,8 +53,12 @@
     (list->string (reverse stdout))))
 
 (define (simple-format destination format . rest)
-  (let ((port (if (boolean? destination) (current-output-port) destination))
-        (lst (string->list format)))
+  (if destination (%simple-format (if (eq? destination #t) (current-output-port) destination) format rest)
+      (with-output-to-string
+        (lambda () (%simple-format (current-output-port) format rest)))))
+
+(define (%simple-format port format rest)
+  (let ((lst (string->list format)))
     (define (simple-format lst args)
       (if (pair? lst)
           (let ((c (car lst)))
@@ -73,8 +77,6 @@
                        (else (display (car args) port)))
                      (simple-format (cddr lst) (cdr args)))))))))
 
-    (if destination (simple-format lst rest)
-        (with-output-to-string
-          (lambda () (simple-format lst rest))))))
+    (simple-format lst rest)))
 
 (define format simple-format)
-- 
2.43.0

