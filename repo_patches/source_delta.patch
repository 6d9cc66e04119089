From d0c43153362cebaf0c7cc0bd1232dda59ecbfeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 001/132] fix: reject ill-formed dimension expressions and
 division by zero in infixcalc

---
 src/utils/infixcalc.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/utils/infixcalc.c b/src/utils/infixcalc.c
index a394f92..0262d80 100644
--- a/src/utils/infixcalc.c
+++ b/src/utils/infixcalc.c
@@ -254,6 +254,10 @@ static int eval(Operator op, Stack *vstack, char *err, size_t errlen)
   if (opinfo->nargs == 2) {
     int arg2 = pop(vstack);
     int arg1 = pop(vstack);
+    if ((op == '/' || op == '%') && arg2 == 0) {
+      snprintf(err, errlen, "division by zero");
+      return -1;
+    }
     value = binary_eval(op, arg1, arg2);
   } else {
     snprintf(err, errlen, "%lu-ary operators are not implemented",
@@ -284,8 +288,10 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
   TokenValue token;
   Operator op;
   int result=INT_MIN;
+  int need_operand=1;  /* whether next token must be an operand or '(' */
 
-  if (err && errlen) err[0] = '\0';
+  if (!err) errlen = 0;  /* makes all calls to snprintf() below safe */
+  if (errlen) err[0] = '\0';
   memset(&vstack, 0, sizeof(vstack));
   memset(&ostack, 0, sizeof(ostack));
 
@@ -298,8 +304,14 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
                (int)(p - expr), expr);
       goto fail;
     }
+    if (need_operand != (token.type == typeVal || token.u.op == '(')) {
+      snprintf(err, errlen, "missing %s at position %d in expression \"%s\"",
+               need_operand ? "operand" : "operator", (int)(p - expr), expr);
+      goto fail;
+    }
     switch (token.type) {
     case typeVal:
+      need_operand = 0;
       push(&vstack, token.u.val);
       break;
 
@@ -309,13 +321,13 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
         push(&ostack, token.u.op);
         break;
       case ')':
-        while ((op = pop(&ostack)) != '(') {
-          if (!ostack.len) {
-            snprintf(err, errlen,
-                     "missing start parenthesis in expression \"%s\"", expr);
-            goto fail;
-          }
+        op = ')';
+        while (ostack.len && (op = pop(&ostack)) != '(')
           if (eval(op, &vstack, err, errlen)) goto fail;
+        if (op != '(') {
+          snprintf(err, errlen,
+                   "missing start parenthesis in expression \"%s\"", expr);
+          goto fail;
         }
         break;
       default:
@@ -327,6 +339,7 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
           if (eval(op, &vstack, err, errlen)) goto fail;
         }
         push(&ostack, token.u.op);
+        need_operand = 1;
         break;
       }
     }
-- 
2.43.0


From 9f50ad136e26d3508094fb3ba93b31db70aea317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 002/132] fix: report errors and negative values for every
 property dimension expression

---
 src/dlite-entity.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 958978e..184ca14 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -394,10 +394,13 @@ static int _instance_propdims_eval(DLiteInstance *inst, const size_t *dims)
     DLiteProperty *p = meta->_properties + i;
     int j;
     char errmsg[256] = "";
-    for (j=0; j < p->ndims; j++)
-      propdims[n++] = infixcalc(p->shape[j], vars, meta->_ndimensions,
-                                errmsg, sizeof(errmsg));
-    if (errmsg[0]) FAILCODE1(dliteSyntaxError, "invalid property dimension expression: %s", errmsg);
+    for (j=0; j < p->ndims; j++) {
+      int size = infixcalc(p->shape[j], vars, meta->_ndimensions,
+                           errmsg, sizeof(errmsg));
+      if (errmsg[0]) FAILCODE1(dliteSyntaxError, "invalid property dimension expression: %s", errmsg);
+      if (size < 0) FAILCODE2(dliteValueError, "property dimension expression \"%s\" has negative value: %d", p->shape[j], size);
+      propdims[n++] = size;
+    }
   }
   assert(n == meta->_npropdims);
 
-- 
2.43.0


From 12ff05ac7f0f57045a20a10dcf7e126e094b714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 003/132] fix: make quoting and unquoting of strings inverse
 operations

Backslashes and control characters were not escaped, so quoted strings
could not be read back (and were not valid JSON).  Also do not read past
the given length and honour strquoteInitialBlanks only if it is set.
---
 src/utils/strutils.c | 139 ++++++++++++++++++++++++++++++++++---------
 src/utils/strutils.h |  11 ++--
 2 files changed, 119 insertions(+), 31 deletions(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 414010f..8210dbb 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -246,8 +246,9 @@ int strnput_escape(char **destp, size_t *sizep, size_t pos,
 /*
   Double-quote input string `s` and write it to `dest`.
 
-  Embedded double-quotes are escaped with backslash. At most `size`
-  characters are written to `dest` (including terminating NUL).
+  Embedded double-quotes, backslashes and control characters are
+  escaped like in JSON. At most `size` characters are written to `dest`
+  (including terminating NUL).
 
   If `s` is NULL, this function will behave similarly to snprintf(),
   except for the added quoting marks.
@@ -269,7 +270,9 @@ int strquote(char *dest, size_t size, const char *s)
 int strnquote(char *dest, size_t size, const char *s, int n,
               StrquoteFlags flags)
 {
+  static const char *esc = "\"\\\b\f\n\r\t", *letter = "\"\\bfnrt";
   size_t i=0, j=0;
+  if (!dest) size = 0;
   if (!size) dest = NULL;
 
   /* Write initial quote sign to `dest`. */
@@ -282,17 +285,25 @@ int strnquote(char *dest, size_t size, const char *s, int n,
 
     /* Loop over each character in source `s` and copy it to `dest`.
        If `n` is positive, consume at most `n` characters from `s`. */
-    while (s[j] && (n < 0 || (int)j < n)) {
-
-      /* Add backslash (escape) in front of double-quote characters
-         when copying to `dest` */
-      if (s[j] == '"' && !(flags & strquoteNoEscape)) {
-        if (size > i) dest[i] = '\\';
-        i++;
+    while ((n < 0 || (int)j < n) && s[j]) {
+      const char *q;
+      char buf[8];
+      int k, len=0;
+      unsigned char c = s[j++];
+
+      /* Escape double-quotes, backslashes and control characters */
+      if (flags & strquoteNoEscape) {
+        buf[len++] = c;
+      } else if ((q = strchr(esc, c))) {
+        buf[len++] = '\\';
+        buf[len++] = letter[q - esc];
+      } else if (c < 0x20) {
+        len = snprintf(buf, sizeof(buf), "\\u%04x", c);
+      } else {
+        buf[len++] = c;
       }
-      if (size > i) dest[i] = s[j];
-      i++;
-      j++;
+      for (k=0; k<len; k++, i++)
+        if (size > i) dest[i] = buf[k];
     }
 
   } else {
@@ -300,13 +311,13 @@ int strnquote(char *dest, size_t size, const char *s, int n,
     /* If `s` is NULL, use system snprintf() to represent it in a standard
        way. */
     // cppcheck-suppress nullPointer
-    int m = snprintf(dest+i, PDIFF(size, i), "%s", s);
-    if (m >= 0) i += j;
+    int m = snprintf((dest) ? dest+i : NULL, PDIFF(size, i), "%s", s);
+    if (m >= 0) i += m;
   }
 
   /* Write final quote sign to `dest`. */
   if (!(flags & strquoteNoQuote)) {
-    if (dest && size > i) dest[i] = '"';
+    if (size > i) dest[i] = '"';
     i++;
   }
 
@@ -317,13 +328,82 @@ int strnquote(char *dest, size_t size, const char *s, int n,
 }
 
 
+/*
+  Help function for strnunquote().  Decodes the escape sequence at the
+  start of `s`, reading at most `n` bytes if `n` is non-negative.
+
+  The decoded bytes are written to `buf`, which must have a size of at
+  least 4 bytes, and `*len` is set to the number of bytes written.
+
+  Returns number of bytes consumed.  If `s` does not start with a
+  known escape sequence, its first byte is copied.
+ */
+static int unescape(const char *s, int n, char *buf, int *len)
+{
+  static const char *esc = "\"\\/\b\f\n\r\t", *letter = "\"\\/bfnrt";
+  const char *q;
+  *len = 1;
+  buf[0] = s[0];
+  if (s[0] != '\\' || n == 1 || !s[1]) return 1;
+  if (s[1] != 'u') {
+    if (!(q = strchr(letter, s[1]))) return 1;
+    buf[0] = esc[q - letter];
+    return 2;
+  } else {
+    unsigned long c=0, c2=0;
+    int i, m=6;
+    for (i=2; i<12; i++) {
+      if (n >= 0 && i >= n) break;
+      if (i == 6 && s[i] != '\\') break;
+      if (i == 7 && s[i] != 'u') break;
+      if (i == 6 || i == 7) continue;
+      if (!isxdigit((unsigned char)s[i])) break;
+      if (i < 6)
+        c = 16*c + (isdigit((unsigned char)s[i]) ?
+                    s[i] - '0' : tolower(s[i]) - 'a' + 10);
+      else
+        c2 = 16*c2 + (isdigit((unsigned char)s[i]) ?
+                      s[i] - '0' : tolower(s[i]) - 'a' + 10);
+      if (i == 5 && (c < 0xd800 || c > 0xdbff)) { i++; break; }
+    }
+    if (i < 6) return 1;
+    if (c >= 0xd800 && c <= 0xdfff) {  // surrogate pair
+      if (i < 12 || c > 0xdbff || c2 < 0xdc00 || c2 > 0xdfff) return 1;
+      c = 0x10000 + ((c - 0xd800) << 10) + (c2 - 0xdc00);
+      m = 12;
+    }
+    if (!c) return 1;
+    if (c < 0x80) {
+      buf[0] = (char)c;
+    } else if (c < 0x800) {
+      buf[0] = (char)(0xc0 | (c >> 6));
+      buf[1] = (char)(0x80 | (c & 0x3f));
+      *len = 2;
+    } else if (c < 0x10000) {
+      buf[0] = (char)(0xe0 | (c >> 12));
+      buf[1] = (char)(0x80 | ((c >> 6) & 0x3f));
+      buf[2] = (char)(0x80 | (c & 0x3f));
+      *len = 3;
+    } else {
+      buf[0] = (char)(0xf0 | (c >> 18));
+      buf[1] = (char)(0x80 | ((c >> 12) & 0x3f));
+      buf[2] = (char)(0x80 | ((c >> 6) & 0x3f));
+      buf[3] = (char)(0x80 | (c & 0x3f));
+      *len = 4;
+    }
+    return m;
+  }
+}
+
+
 /*
   Strip double-quotes from `s` and write the result to `dest`.
 
   At most `size` characters are written to `dest` (including
   terminating NUL).  The input `s` may optionally starts with a
   sequence of blanks.  It should then be followed by a double quote.
-  The scanning stops at the next unescaped double quote.
+  The scanning stops at the next unescaped double quote.  JSON escape
+  sequences are decoded.
 
   If `consumed` is not NULL, the number of consumed characters are
   stored in the interger it points to.
@@ -356,19 +436,24 @@ int strnunquote(char *dest, size_t size, const char *s, int n,
   size_t i=0, j=0;
   if (!dest) size = 0;
   if (!size) dest = NULL;
-  if (!(flags && strquoteInitialBlanks))
-    while (isspace(s[j])) j++;
-  if (!(flags & strquoteNoQuote) && s[j++] != '"') return -1;
-  while (s[j] && ((flags & strquoteNoQuote) || s[j] != '"')) {
-    if (!(flags & strquoteNoEscape) && s[j] == '\\' && s[j+1] == '"') j++;
-    if (n >= 0 && (int)j >= n) break;
-    if (dest && size > i) dest[i] = s[j];
-    i++;
-    j++;
+#define MORE (n < 0 || (int)j < n)
+  if (!(flags & strquoteInitialBlanks))
+    while (MORE && isspace((unsigned char)s[j])) j++;
+  if (!(flags & strquoteNoQuote) && (!MORE || s[j++] != '"')) return -1;
+  while (MORE && s[j] && ((flags & strquoteNoQuote) || s[j] != '"')) {
+    char buf[4];
+    int k, len=1;
+    if (flags & strquoteNoEscape)
+      buf[0] = s[j++];
+    else
+      j += unescape(s+j, (n < 0) ? -1 : n - (int)j, buf, &len);
+    for (k=0; k<len; k++, i++)
+      if (size > i) dest[i] = buf[k];
   }
   if (dest) dest[(size > i) ? i : size-1] = '\0';
-  if (!(flags & strquoteNoQuote) && s[j++] != '"') return -2;
-  if (consumed) *consumed = (n >= 0 && (int)j >= n) ? n : (int)j;
+  if (!(flags & strquoteNoQuote) && MORE && s[j++] != '"') return -2;
+#undef MORE
+  if (consumed) *consumed = j;
   return i;
 }
 
diff --git a/src/utils/strutils.h b/src/utils/strutils.h
index bfce51a..6785d21 100644
--- a/src/utils/strutils.h
+++ b/src/utils/strutils.h
@@ -28,7 +28,8 @@ typedef enum _StrquoteFlags {
   strquoteInitialBlanks=1,  /*!< Do not skip initial blanks */
   strquoteNoQuote=2,        /*!< Input is not expected to start and end
                                  with double quote */
-  strquoteNoEscape=4,       /*!< Do not escape embedded double quotes */
+  strquoteNoEscape=4,       /*!< Do not escape embedded double quotes,
+                                 backslashes and control characters */
   strquoteRaw=7             /*!< Copy the input without conversions */
 } StrquoteFlags;
 
@@ -143,8 +144,9 @@ int strnput_escape(char **destp, size_t *sizep, size_t pos,
 /**
   Double-quote input string `s` and write it to `dest`.
 
-  Embedded double-quotes are escaped with backslash. At most size
-  characters are written to `dest` (including terminating NUL).
+  Embedded double-quotes, backslashes and control characters are
+  escaped like in JSON. At most size characters are written to `dest`
+  (including terminating NUL).
 
   Returns number of characters written to `dest` (excluding
   terminating NUL).  If the output is truncated, the number of
@@ -166,7 +168,8 @@ int strnquote(char *dest, size_t size, const char *s, int n,
   At most `size` characters are written to `dest` (including
   terminating NUL).  The input `s` may optionally starts with a
   sequence of blanks.  It should then be followed by a double quote.
-  The scanning stops at the next unescaped double quote.
+  The scanning stops at the next unescaped double quote.  JSON escape
+  sequences are decoded.
 
   Returns number of characters written to `dest` (excluding
   terminating NUL).  If the output is truncated, the number of
-- 
2.43.0


From 172ab2da0660c8cd4513b547a87d345ef9089609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 004/132] fix: string utilities: bounds, return values and
 semantic version order

strhex_encode() and strnput_escape() now always terminate their output and
return the documented lengths, strlst_insert() grows the list in time,
natoi() and the semver functions stay within the given length, and
pre-release identifiers are compared as specified by semver.
---
 src/utils/strutils.c | 207 +++++++++++++++++++++++--------------------
 1 file changed, 113 insertions(+), 94 deletions(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 8210dbb..df06697 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -167,7 +167,7 @@ int strnput(char **destp, size_t *sizep, size_t pos, const char *src, int len)
 {
   size_t size;
   char *p = *destp;
-  if (len < 0) len = strlen(src);
+  len = (len < 0) ? (int)strlen(src) : (int)strnlen(src, len);
   size = pos + len + 1;
 
   if (sizep) {
@@ -214,6 +214,15 @@ int strnput_escape(char **destp, size_t *sizep, size_t pos,
   if (unescaped >= strcatOther) return -1;
   if (len < 0) len = strlen(src);
 
+  /* Ensure that the result is NUL-terminated, also if `src` is empty */
+  if (size < n+1) {
+    size = n+1;
+    if (!(p = realloc(p, size))) return -1;
+    *destp = p;
+    *sizep = size;
+  }
+  p[n] = '\0';
+
   while (i < len && src[i]) {
     if (size < n+escape_size) {
       size = clp2(n+escape_size + len);
@@ -231,7 +240,7 @@ int strnput_escape(char **destp, size_t *sizep, size_t pos,
     }
   }
   assert(n < size);
-  return n;
+  return n - pos;
 }
 
 
@@ -512,14 +521,14 @@ int strnput_unquote(char **destp, size_t *sizep, size_t pos, const char *s,
 int strhex_encode(char *hex, size_t hexsize, const unsigned char *data,
                   size_t size)
 {
-  int n, m=0;
-  size_t i;
-  for (i=0; i<size; i++) {
-    if ((n = snprintf(hex+m, PDIFF(hexsize, m), "%02x", data[i])) < 0) return n;
-    if (n == 2 && m == (int)hexsize-2) hex[m] = '\0';
-    m += n;
+  static const char *digits = "0123456789abcdef";
+  size_t i, m=0;
+  for (i=0; i<size && m+2 < hexsize; i++) {
+    hex[m++] = digits[data[i] >> 4];
+    hex[m++] = digits[data[i] & 0x0f];
   }
-  return m;
+  if (hexsize) hex[m] = '\0';
+  return 2*size;
 }
 
 
@@ -754,7 +763,7 @@ static char **_strlst_insert(char **strlst, size_t *n, const char *s, int i,
   if (!strlst || !*n) {
     m = CHUNK_SIZE;
     if (!(q = calloc(m, sizeof(char *)))) goto fail;
-  } else if (m < len+1) {
+  } else if (m < len+2) {
     m += CHUNK_SIZE;
     if (!(q = realloc(strlst, m*sizeof(char *)))) goto fail;
   }
@@ -835,7 +844,7 @@ const char *strlst_get(char **strlst, int i)
 {
   int j;
   if (i < 0) i += strlst_count(strlst);
-  if (i < 0) return NULL;
+  if (i < 0 || !strlst) return NULL;
   for (j=0; j<i; j++) if (!strlst[j]) return NULL;
   return strlst[i];
 }
@@ -850,7 +859,7 @@ int strlst_remove(char **strlst, int i)
 {
   int j;
   if (i < 0) i += strlst_count(strlst);
-  if (i < 0) return 1;
+  if (i < 0 || !strlst) return 1;
   for (j=0; j<=i; j++) if (!strlst[j]) return 1;
   free(strlst[i]);
   for (j=i; strlst[j]; j++) strlst[j] = strlst[j+1];
@@ -871,7 +880,7 @@ char *strlst_pop(char **strlst, int i)
   int j;
   char *p;
   if (i < 0) i += strlst_count(strlst);
-  if (i < 0) return NULL;
+  if (i < 0 || !strlst) return NULL;
   for (j=0; j<=i; j++) if (!strlst[j]) return NULL;
   p = strlst[i];
   for (j=i; strlst[j]; j++) strlst[j] = strlst[j+1];
@@ -887,20 +896,46 @@ char *strlst_pop(char **strlst, int i)
 int natoi(const char *s, int n)
 {
   int x=0, sign=1;
-  while (isspace(*s)) s++, n--;
-  if (*s == '-') {
-    sign = -1;
+  while (n > 0 && isspace((unsigned char)*s)) s++, n--;
+  if (n > 0 && (*s == '-' || *s == '+')) {
+    if (*s == '-') sign = -1;
     s++, n--;
   }
-  if (*s == '+') s++;
-  while(isdigit(*s) && n-- > 0) {
+  while (n > 0 && isdigit((unsigned char)*s)) {
     x = 10*x + (*s - '0');
-    s++;
+    s++, n--;
   }
   return sign*x;
 }
 
 
+/* Returns number of leading digits in the first `n` bytes of `s`. */
+static size_t digitspan(const char *s, size_t n)
+{
+  size_t m=0;
+  while (m < n && isdigit((unsigned char)s[m])) m++;
+  return m;
+}
+
+/* Returns length of the initial identifier (consisting of alphanumerics
+   and hyphens) in the first `n` bytes of `s`. */
+static size_t identspan(const char *s, size_t n)
+{
+  size_t m=0;
+  while (m < n && (isalnum((unsigned char)s[m]) || s[m] == '-')) m++;
+  return m;
+}
+
+/* Compares the strings of digits `s1` and `s2` of length `n1` and `n2`. */
+static int cmpdigits(const char *s1, size_t n1, const char *s2, size_t n2)
+{
+  while (n1 && *s1 == '0') s1++, n1--;
+  while (n2 && *s2 == '0') s2++, n2--;
+  if (n1 != n2) return (n1 < n2) ? -1 : 1;
+  return strncmp(s1, s2, n1);
+}
+
+
 /*
   Checks if `v` points to a valid semantic version 2.0.0 number.
 
@@ -925,43 +960,34 @@ int strchk_semver(const char *v)
 */
 int strnchk_semver(const char *v, size_t n)
 {
-  size_t m=0;
-  /* Major number */
-  if (n < 5) return -1;
-  if (!isdigit(v[m])) return -1;
-  if (v[0] == '0' && isdigit(v[1])) return -1;
-  while (isdigit(v[m]) && m < n) m++;
-  /* Minor number */
-  if (v[m] != '.') return -1;
-  if (m < n) m++;
-  if (!isdigit(v[m])) return -1;
-  if (n >= m+2 && v[m] == '0' && isdigit(v[m+1])) return -1;
-  while (isdigit(v[m]) && m < n) m++;
-  /* Patch number */
-  if (v[m] != '.') return -1;
-  if (m < n) m++;
-  if (!isdigit(v[m])) return -1;
-  if (n >= m+2 && v[m] == '0' && isdigit(v[m+1])) return -1;
-  while (isdigit(v[m]) && m < n) m++;
+  size_t i, k, m=0;
+  n = strnlen(v, n);
+  /* Major, minor and patch numbers */
+  for (i=0; i<3; i++) {
+    if (i > 0 && (m >= n || v[m++] != '.')) return -1;
+    k = m;
+    while (m < n && isdigit((unsigned char)v[m])) m++;
+    if (m == k) return -1;
+    if (m > k+1 && v[k] == '0') return -1;
+  }
   /* Pre-release */
-  if (m == n) return m;
-  if (v[m] == '-') {
+  if (m < n && v[m] == '-') {
     do {
-      if (n <= ++m) return -1;
-      if (!isalnum(v[m]) && v[m] != '-') return -1;
-      while ((isalnum(v[m]) || v[m] == '-') && m < n) m++;
-    } while (v[m] == '.');
+      k = ++m;
+      m += identspan(v+m, n-m);
+      if (m == k) return -1;
+      if (m > k+1 && v[k] == '0' && digitspan(v+k, n-k) == m-k) return -1;
+    } while (m < n && v[m] == '.');
   }
   /* Build */
-  if (m == n) return m;
-  if (v[m] == '+') {
+  if (m < n && v[m] == '+') {
     do {
-      if (n <= ++m ) return -1;
-      if (!isalnum(v[m]) && v[m] != '-') return -1;
-      while ((isalnum(v[m]) || v[m] == '-') && m < n) m++;
-    } while (v[m] == '.');
+      k = ++m;
+      m += identspan(v+m, n-m);
+      if (m == k) return -1;
+    } while (m < n && v[m] == '.');
   }
-  if (m < n && v[m]) return -1;
+  if (m < n) return -1;
   return m;
 }
 
@@ -991,53 +1017,46 @@ int strcmp_semver(const char *v1, const char *v2)
 */
 int strncmp_semver(const char *v1, const char *v2, size_t n)
 {
-  int d, pr1=0, pr2=0;
-  size_t m, n1=0, n2=0;
-  /* Compare major number */
-  d = natoi(v1, n) - natoi(v2, n);
-  if (d) return (d < 0) ? -1 : 1;
-  while (isdigit(v1[n1]) && n1 < n) n1++;
-  while (isdigit(v2[n2]) && n2 < n) n2++;
-  /* Compare minor number */
-  if (n1 < n) n1++;
-  if (n2 < n) n2++;
-  d = natoi(v1+n1, n-n1) - natoi(v2+n2, n-n2);
-  if (d) return (d < 0) ? -1 : 1;
-  while (isdigit(v1[n1]) && n1 < n) n1++;
-  while (isdigit(v2[n2]) && n2 < n) n2++;
-  /* Compare patch number */
-  if (n1 < n) n1++;
-  if (n2 < n) n2++;
-  d = natoi(v1+n1, n-n1) - natoi(v2+n2, n-n2);
-  if (d) return (d < 0) ? -1 : 1;
-  while (isdigit(v1[n1]) && n1 < n) n1++;
-  while (isdigit(v2[n2]) && n2 < n) n2++;
-  assert(n1 == n2);
-  m = n1;
+  int i, d, pr1, pr2;
+  size_t m1=0, m2=0, n1, n2, d1, d2;
+  /* Compare major, minor and patch numbers */
+  for (i=0; i<3; i++) {
+    if (i > 0) {
+      if (m1 < n && v1[m1]) m1++;
+      if (m2 < n && v2[m2]) m2++;
+    }
+    n1 = digitspan(v1+m1, n-m1);
+    n2 = digitspan(v2+m2, n-m2);
+    if ((d = cmpdigits(v1+m1, n1, v2+m2, n2))) return (d < 0) ? -1 : 1;
+    m1 += n1;
+    m2 += n2;
+  }
   /* Compare pre-release */
-  if (m > n) return 0;
-  if (v1[m] == '-') pr1 = 1;
-  if (v2[m] == '-') pr2 = 1;
+  pr1 = (v1[m1] == '-');
+  pr2 = (v2[m2] == '-');
   if (!pr1 && pr2) return -1;
   if (pr1 && !pr2) return 1;
-  if (pr1 && pr2) {
-    do {
-      size_t d1, d2;
-      if (m < n) m++;
-      for (n1=m; (isalnum(v1[n1]) || v1[n1] == '-') && n1 < n; n1++);
-      for (n2=m; (isalnum(v2[n2]) || v2[n2] == '-') && n2 < n; n2++);
-      for (d1=m; (isdigit(v1[d1])) && d1 < n; d1++);
-      for (d2=m; (isdigit(v2[d2])) && d2 < n; d2++);
-      if (d1 == n1 && d2 == n2) {
-        d = natoi(v1+m, n-m) - natoi(v2+m, n-m);
-      } else {
-        d = strncmp(v1+m, v2+m, MIN(n1, n2)-m);
-        if (d == 0) d = n1 - n2;
-      }
-      if (d) return (d < 0) ? -1 : 1;
-      assert(n1 == n2);
-      m = n1;
-    } while (v1[n1] == '.' && v2[n2] == '.');
+  while (pr1 && pr2) {
+    if (m1 < n) m1++;
+    if (m2 < n) m2++;
+    n1 = identspan(v1+m1, n-m1);
+    n2 = identspan(v2+m2, n-m2);
+    d1 = digitspan(v1+m1, n1);
+    d2 = digitspan(v2+m2, n2);
+    if (d1 == n1 && d2 == n2) {
+      d = cmpdigits(v1+m1, n1, v2+m2, n2);
+    } else if (d1 == n1 || d2 == n2) {
+      d = (d1 == n1) ? -1 : 1;  // numeric identifiers have lower precedence
+    } else {
+      if ((d = strncmp(v1+m1, v2+m2, MIN(n1, n2))) == 0)
+        d = (n1 > n2) - (n1 < n2);
+    }
+    if (d) return (d < 0) ? -1 : 1;
+    m1 += n1;
+    m2 += n2;
+    pr1 = (m1 < n && v1[m1] == '.');
+    pr2 = (m2 < n && v2[m2] == '.');
+    if (pr1 != pr2) return (pr1) ? 1 : -1;
   }
   return 0;
 }
-- 
2.43.0


From ee98ff5811b60332d49b8596e4ff5422ee57c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 005/132] fix: globmatch: character classes with non-ASCII
 characters and brackets

Bytes above 127 indexed outside the bit list, and the closing bracket was
a member of every class.
---
 src/utils/globmatch.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/globmatch.c b/src/utils/globmatch.c
index 6197335..77506a5 100644
--- a/src/utils/globmatch.c
+++ b/src/utils/globmatch.c
@@ -36,7 +36,7 @@
 #include "globmatch.h"
 
 # define CHECK_BIT( tab, bit ) ( tab[ (bit)/8 ] & (1<<( (bit)%8 )) )
-# define BITLISTSIZE 16 /* bytes used for [chars] in compiled expr */
+# define BITLISTSIZE 32 /* bytes used for [chars] in compiled expr */
 
 static void globchars();
 
@@ -75,7 +75,7 @@ int globmatch(const char *pattern, const char *string)
 
                 /* build character class bitlist */
 
-                globchars( here, c, bitlist );
+                globchars( here, c-1, bitlist );
 
                 if( !CHECK_BIT( bitlist, *(unsigned char *)s ) )
                         return 1;
@@ -143,11 +143,11 @@ char *s, *e, *b;
 
                 if( s+2 < e && s[1] == '-' )
                 {
-                        for( c = s[0]; c <= s[2]; c++ )
+                        for( c = (unsigned char)s[0]; c <= (unsigned char)s[2]; c++ )
                                 b[ c/8 ] |= (1<<(c%8));
                         s += 3;
                 } else {
-                        c = *s++;
+                        c = (unsigned char)*s++;
                         b[ c/8 ] |= (1<<(c%8));
                 }
         }
-- 
2.43.0


From 402979fbe1ef60c0c3117f089d93d0321cb65fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 006/132] fix: clp2/flp2: wrong result for numbers with more
 than 8 bits

---
 src/utils/clp2.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/utils/clp2.c b/src/utils/clp2.c
index 7cbbacf..5093ff9 100644
--- a/src/utils/clp2.c
+++ b/src/utils/clp2.c
@@ -8,16 +8,16 @@ size_t clp2(size_t n)
   n |= n >> 1;
   n |= n >> 2;
   n |= n >> 4;
-#if SIZEOF_SIZE_TYPE > 1
+#if SIZEOF_SIZE_T > 1
   n |= n >> 8;
 #endif
-#if SIZEOF_SIZE_TYPE > 2
+#if SIZEOF_SIZE_T > 2
   n |= n >> 16;
 #endif
-#if SIZEOF_SIZE_TYPE > 4
+#if SIZEOF_SIZE_T > 4
   n |= n >> 32;
 #endif
-#if SIZEOF_SIZE_TYPE > 8
+#if SIZEOF_SIZE_T > 8
   n |= n >> 64;
 #endif
   return ++n;
@@ -30,16 +30,16 @@ size_t flp2(size_t n)
   n |= n >> 1;
   n |= n >> 2;
   n |= n >> 4;
-#if SIZEOF_SIZE_TYPE > 1
+#if SIZEOF_SIZE_T > 1
   n |= n >> 8;
 #endif
-#if SIZEOF_SIZE_TYPE > 2
+#if SIZEOF_SIZE_T > 2
   n |= n >> 16;
 #endif
-#if SIZEOF_SIZE_TYPE > 4
+#if SIZEOF_SIZE_T > 4
   n |= n >> 32;
 #endif
-#if SIZEOF_SIZE_TYPE > 8
+#if SIZEOF_SIZE_T > 8
   n |= n >> 64;
 #endif
   return n - (n >> 1);
-- 
2.43.0


From 0aa10cd86ea27a13999a0457a55c3e97f3af058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 007/132] fix: strtob: assign endptr also for the empty string

---
 src/utils/strtob.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/strtob.c b/src/utils/strtob.c
index 7d4d47e..83c5df0 100644
--- a/src/utils/strtob.c
+++ b/src/utils/strtob.c
@@ -16,6 +16,7 @@ int strtob(const char *ptr, char **endptr)
   char *falsevals[] = {"0", "false", ".false.", "no", "off", NULL};
   char **q, *p = (char *)ptr;
 
+  if (endptr) *endptr = p;
   if (!p || !*p) return 0;
   p += strspn(p, " \t\n\v\f\r");
   for (q=truevals; *q; q++) {
-- 
2.43.0


From 6bac6144619087c84713bae7c6bc6b749f56b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 008/132] fix: strsets/strsetn: terminate the destination also
 for empty source

---
 src/utils/strutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index df06697..419d52c 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -121,6 +121,7 @@ int strsetc(char *dest, long size, int c)
 int strsets(char *dest, long size, const char *src)
 {
   int n=0;
+  if (size > 0) dest[0] = '\0';
   while (*src)
     n += strsetc(dest+n, size-n, *(src++));
   return n;
@@ -133,6 +134,7 @@ int strsetn(char *dest, long size, const char *src, int len)
 {
   int i, n=0;
   if (len < 0) len = strlen(src);
+  if (size > 0) dest[0] = '\0';
   for (i=0; i<len; i++)
     n += strsetc(dest+n, size-n, src[i]);
   return n;
-- 
2.43.0


From bf745670bcc9c1b933713a420806cb782e657b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 009/132] fix: do not accept prefixes of type names or
 overflowing sizes as types

---
 src/dlite-type.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 39cb890..0f30b71 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1,6 +1,8 @@
 #include "config.h"
 
 #include <assert.h>
+#include <errno.h>
+#include <limits.h>
 #include <string.h>
 #include <stddef.h>
 #include <ctype.h>
@@ -494,7 +496,8 @@ int dlite_type_set_dtype_and_size(const char *typename,
 
   /* Check if typename is a fixed-sized type listed in the type table */
   for (i=0; type_table[i].typename; i++) {
-    if (strncmp(typename, type_table[i].typename, len) == 0) {
+    if (strlen(type_table[i].typename) == len &&
+        strncmp(typename, type_table[i].typename, len) == 0) {
       *dtype = type_table[i].dtype;
       *size = type_table[i].size;
       return 0;
@@ -511,8 +514,11 @@ int dlite_type_set_dtype_and_size(const char *typename,
   }
 
   /* extract size from `typename` */
-  typesize = strtol(typename + namelen, &endptr, 10);
+  errno = 0;
+  typesize = strtoul(typename + namelen, &endptr, 10);
   assert(endptr == typename + len);
+  if (errno || typesize >= INT_MAX)
+    return errno = 0, errx(dliteTypeError, "too large size in type name: %s", typename);
   if (namelen == 4 && strncmp(typename, "blob", namelen) == 0) {
     *dtype = dliteBlob;
     *size = typesize;
-- 
2.43.0


From 1de0197267bce534dbfb7307aaa765ee10ecce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 010/132] fix: dlite_type_copy: release the old value and copy
 all fields of dimensions, properties and relations

---
 src/dlite-type.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 0f30b71..d9c5f53 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -564,6 +564,7 @@ int dlite_type_is_allocated(DLiteType dtype)
 */
 void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
 {
+  if (dest == src) return dest;
   switch (dtype) {
   case dliteBlob:
   case dliteBool:
@@ -593,23 +594,27 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
     {
       DLiteDimension *d=dest;
       const DLiteDimension *s=src;
-      d->name = strdup(s->name);
-      d->description = strdup(s->description);
+      dlite_type_clear(dest, dtype, size);
+      d->name = (s->name) ? strdup(s->name) : NULL;
+      d->description = (s->description) ? strdup(s->description) : NULL;
     }
     break;
   case dliteProperty:
     {
       DLiteProperty *d=dest;
       const DLiteProperty *s=src;
-      d->name = strdup(s->name);
+      dlite_type_clear(dest, dtype, size);
+      d->name = (s->name) ? strdup(s->name) : NULL;
       d->type = s->type;
       d->size = s->size;
       if (s->ref) d->ref = strdup(s->ref);
       d->ndims = s->ndims;
       if (d->ndims) {
         int i;
-        if (!(d->shape = malloc(d->ndims*sizeof(char *))))
+        if (!(d->shape = calloc(d->ndims, sizeof(char *)))) {
+          d->ndims = 0;
           return err(dliteMemoryError, "allocation failure"), NULL;
+        }
         for (i=0; i<d->ndims; i++)
           d->shape[i] = strdup(s->shape[i]);
       } else {
@@ -623,9 +628,11 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
     {
       DLiteRelation *d=dest;
       const DLiteRelation *s=src;
-      d->s = strdup(s->s);
-      d->p = strdup(s->p);
-      d->o = strdup(s->o);
+      dlite_type_clear(dest, dtype, size);
+      d->s = (s->s) ? strdup(s->s) : NULL;
+      d->p = (s->p) ? strdup(s->p) : NULL;
+      d->o = (s->o) ? strdup(s->o) : NULL;
+      d->d = (s->d) ? strdup(s->d) : NULL;
       d->id = (s->id) ? strdup(s->id) : NULL;
     }
     break;
-- 
2.43.0


From 2d8c32f15d9c13efac9d5478fb4d361be524a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 011/132] fix: dlite_type_print: escape strings of metadata
 types, write $ref and keep full float precision when no precision is given

---
 src/dlite-type.c | 105 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 84 insertions(+), 21 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index d9c5f53..fdff69c 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -710,6 +710,52 @@ static StrquoteFlags as_qflags(DLiteType dtype, DLiteTypeFlag flags)
 /* Expands to `a - b` if `a > b` else to `0`. */
 #define PDIFF(a, b) (((size_t)(a) > (size_t)(b)) ? (a) - (b) : 0)
 
+/*
+  Returns the smallest precision (at least 6) with which the floating
+  point number of size `size` pointed to by `p` can be printed and read
+  back without loss.
+ */
+static int float_precision(const void *p, size_t size)
+{
+  char buf[64];
+  int r;
+  for (r=6; r < 36; r++) {
+    switch (size) {
+    case 4:
+      snprintf(buf, sizeof(buf), "%.*g", r, *((float32_t *)p));
+      if (strtof(buf, NULL) == *((float32_t *)p)) return r;
+      if (r >= 9) return r;
+      break;
+    case 8:
+      snprintf(buf, sizeof(buf), "%.*g", r, *((float64_t *)p));
+      if (strtod(buf, NULL) == *((float64_t *)p)) return r;
+      if (r >= 17) return r;
+      break;
+#ifdef HAVE_FLOAT80
+    case 10:
+      snprintf(buf, sizeof(buf), "%.*Lg", r, *((float80_t *)p));
+      if (strtold(buf, NULL) == *((float80_t *)p)) return r;
+      break;
+#endif
+#ifdef HAVE_FLOAT96
+    case 12:
+      snprintf(buf, sizeof(buf), "%.*Lg", r, *((float96_t *)p));
+      if (strtold(buf, NULL) == *((float96_t *)p)) return r;
+      break;
+#endif
+#ifdef HAVE_FLOAT128
+    case 16:
+      snprintf(buf, sizeof(buf), "%.*Lg", r, *((float128_t *)p));
+      if (strtold(buf, NULL) == *((float128_t *)p)) return r;
+      break;
+#endif
+    default:
+      return r;
+    }
+  }
+  return r;
+}
+
 /*
   Serialises data of type `dtype` and size `size` pointed to by `p`.
   The string representation is written to `dest`.  No more than
@@ -718,7 +764,9 @@ static StrquoteFlags as_qflags(DLiteType dtype, DLiteTypeFlag flags)
   The `width` and `prec` arguments corresponds to the printf() minimum
   field width and precision/length modifier.  If you set them to -1, a
   suitable value will selected according to `type`.  To ignore their
-  effect, set `width` to zero or `prec` to -2.
+  effect, set `width` to zero or `prec` to -2.  In the latter case,
+  floating point numbers are written with as many digits as needed
+  for reading back the same number.
 
   Returns number of bytes written to `dest`.  If the output is
   truncated because it exceeds `n`, the number of bytes that would
@@ -798,6 +846,7 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
   case dliteFloat:
     if (w == -1) w = 12;
     if (r == -1) r = 6;
+    if (r < -1) r = float_precision(p, size);
     switch (size) {
     case 4:  m = snprintf(dest, n, "%*.*g",  w, r, *((float32_t *)p)); break;
     case 8:  m = snprintf(dest, n, "%*.*g",  w, r, *((float64_t *)p)); break;
@@ -841,9 +890,16 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
     break;
 
   case dliteDimension:
-    m = snprintf(dest, n, "{\"name\": \"%s\", \"description\": \"%s\"}",
-                 ((DLiteDimension *)p)->name,
-                 ((DLiteDimension *)p)->description);
+    {
+      DLiteDimension *dim = (DLiteDimension *)p;
+      m = snprintf(dest, n, "{\"name\": ");
+      m += strquote(dest+m, PDIFF(n, m), (dim->name) ? dim->name : "");
+      if (dim->description) {
+        m += snprintf(dest+m, PDIFF(n, m), ", \"description\": ");
+        m += strquote(dest+m, PDIFF(n, m), dim->description);
+      }
+      m += snprintf(dest+m, PDIFF(n, m), "}");
+    }
     break;
 
   case dliteProperty:
@@ -853,23 +909,31 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
       DLiteProperty *prop = (DLiteProperty *)p;
       dlite_type_set_typename(prop->type, prop->size, typename,
                               sizeof(typename));
-      m = snprintf(dest, n, "{"
-                   "\"name\": \"%s\", "
-                   "\"type\": \"%s\", "
-                   "\"ndims\": %d",
-                   prop->name, typename, prop->ndims);
+      m = snprintf(dest, n, "{\"name\": ");
+      m += strquote(dest+m, PDIFF(n, m), (prop->name) ? prop->name : "");
+      m += snprintf(dest+m, PDIFF(n, m), ", \"type\": \"%s\", ", typename);
+      if (prop->ref) {
+        m += snprintf(dest+m, PDIFF(n, m), "\"$ref\": ");
+        m += strquote(dest+m, PDIFF(n, m), prop->ref);
+        m += snprintf(dest+m, PDIFF(n, m), ", ");
+      }
+      m += snprintf(dest+m, PDIFF(n, m), "\"ndims\": %d", prop->ndims);
       if (prop->ndims) {
         m += snprintf(dest+m, PDIFF(n, m), ", \"shape\": [");
-        for (i=0; i < prop->ndims; i++)
-          m += snprintf(dest+m, PDIFF(n, m), "\"%s\"%s", prop->shape[i],
-                        (i < prop->ndims-1) ? ", " : "");
+        for (i=0; i < prop->ndims; i++) {
+          m += strquote(dest+m, PDIFF(n, m), prop->shape[i]);
+          if (i < prop->ndims-1) m += snprintf(dest+m, PDIFF(n, m), ", ");
+        }
         m += snprintf(dest+m, PDIFF(n, m), "]");
       }
-      if (prop->unit && *prop->unit)
-        m += snprintf(dest+m, PDIFF(n, m), ", \"unit\": \"%s\"", prop->unit);
-      if (prop->description && *prop->description)
-        m += snprintf(dest+m, PDIFF(n, m), ", \"description\": \"%s\"",
-                      prop->description);
+      if (prop->unit && *prop->unit) {
+        m += snprintf(dest+m, PDIFF(n, m), ", \"unit\": ");
+        m += strquote(dest+m, PDIFF(n, m), prop->unit);
+      }
+      if (prop->description && *prop->description) {
+        m += snprintf(dest+m, PDIFF(n, m), ", \"description\": ");
+        m += strquote(dest+m, PDIFF(n, m), prop->description);
+      }
       m += snprintf(dest+m, PDIFF(n, m), "}");
     }
     break;
@@ -878,11 +942,11 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
     {
       DLiteRelation *r = (DLiteRelation *)p;
       m = snprintf(dest, n, "[");
-      m += strquote(dest+m, PDIFF(n, m), r->s);
+      m += strquote(dest+m, PDIFF(n, m), (r->s) ? r->s : "");
       m += snprintf(dest+m, PDIFF(n, m), ", ");
-      m += strquote(dest+m, PDIFF(n, m), r->p);
+      m += strquote(dest+m, PDIFF(n, m), (r->p) ? r->p : "");
       m += snprintf(dest+m, PDIFF(n, m), ", ");
-      m += strquote(dest+m, PDIFF(n, m), r->o);
+      m += strquote(dest+m, PDIFF(n, m), (r->o) ? r->o : "");
       if (r->d) {
         m += snprintf(dest+m, PDIFF(n, m), ", ");
         m += strquote(dest+m, PDIFF(n, m), r->d);
@@ -917,7 +981,6 @@ int dlite_type_aprint(char **dest, size_t *n, size_t pos, const void *p,
   size_t newsize;
   assert(dest);
   if (!*dest) *n = 0;
-  if (!n) *dest = NULL;
   m = dlite_type_print((*dest) ? *dest + pos : NULL,
                        PDIFF(*n, pos), p, dtype, size,
                        width, prec, flags);
-- 
2.43.0


From 19c111d2950a749243faa7f908dd850e0c77cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 012/132] fix: dlite_type_scan: respect len, release old
 values, unescape strings and reject out-of-range integers

---
 src/dlite-type.c | 290 +++++++++++++++++++++++++++--------------------
 1 file changed, 168 insertions(+), 122 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index fdff69c..1939c94 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -5,6 +5,7 @@
 #include <limits.h>
 #include <string.h>
 #include <stddef.h>
+#include <stdlib.h>
 #include <ctype.h>
 #ifdef HAVE_INTTYPES_H
 #include <inttypes.h>
@@ -1004,13 +1005,106 @@ int dlite_type_aprint(char **dest, size_t *n, size_t pos, const void *p,
 #define MAX_PROPERTY_TOKENS  64  // this supports at least 50 dimensions...
 #define MAX_RELATION_TOKENS  11
 
-/* Macro used by dlite_type_scan() to asign `target` when scanning a
-   relation. */
-#define SET_RELATION(target, buf, bufsize, t, src)                      \
-  if (strnput_unquote(&buf, &bufsize, 0, src + t->start,                \
-                      t->end - t->start, NULL, strquoteNoQuote) < 0)    \
-    return -1;                                                          \
-  target = (buf[0]) ? strndup(buf, t->end - t->start) : NULL;
+/* Returns a newly allocated string with the (unescaped) content of
+   JSON token `t` or NULL on error. */
+static char *tokendup(const char *src, const jsmntok_t *t)
+{
+  char *buf;
+  int len = t->end - t->start;
+  if (!(buf = malloc(len + 1)))
+    return err(dliteMemoryError, "allocation failure"), NULL;
+  memcpy(buf, src + t->start, len);
+  buf[len] = '\0';
+  if (t->type == JSMN_STRING &&
+      strnunquote(buf, len + 1, src + t->start, len, NULL,
+                  strquoteNoQuote | strquoteInitialBlanks) < 0) {
+    free(buf);
+    return err(dliteParseError, "invalid string: %.*s", len, src + t->start), NULL;
+  }
+  return buf;
+}
+
+/* Returns non-zero if JSON token `t` is an empty string or null. */
+static int tokenempty(const char *src, const jsmntok_t *t)
+{
+  return t->end <= t->start ||
+    (t->type == JSMN_PRIMITIVE && src[t->start] == 'n');
+}
+
+/* Scans the elements of a relation represented by JSON object or array
+   `tokens` into `rel`.  Returns non-zero on error. */
+static int scan_relation(const char *src, const jsmntok_t *tokens,
+                         DLiteRelation *rel)
+{
+  static const char *keys[] = {"s", "p", "o", "d", "id"};
+  char **dest[] = {&rel->s, &rel->p, &rel->o, &rel->d, &rel->id};
+  int i;
+  for (i=0; i<5; i++) {
+    const jsmntok_t *t = NULL;
+    if (tokens->type == JSMN_OBJECT)
+      t = jsmn_item(src, (jsmntok_t *)tokens, keys[i]);
+    else if (i < tokens->size)
+      t = jsmn_element(src, (jsmntok_t *)tokens, i);
+    if (!t && i < 3)
+      return errx(dliteParseError, "missing element \"%s\" in relation", keys[i]);
+    if (!t || (i >= 3 && tokenempty(src, t))) continue;
+    if (!(*dest[i] = tokendup(src, t))) return -1;
+  }
+  return 0;
+}
+
+/* Scans signed integer of given size.  The number of characters consumed
+   is assigned to `m`.  Returns non-zero on error. */
+static int scan_int(const char *src, void *p, size_t size, int *m)
+{
+  char *endptr;
+  long long v;
+  errno = 0;
+  v = strtoll(src, &endptr, 0);
+  if (endptr == src)
+    return errno = 0, errx(dliteValueError, "invalid int: '%s'", src);
+  if (errno ||
+      (size < 8 && (v < -(1LL << (8*size - 1)) || v >= (1LL << (8*size - 1)))))
+    return errno = 0, errx(dliteValueError, "too large number for int%d: '%s'",
+                           (int)(8*size), src);
+  switch (size) {
+  case 1: *((int8_t *)p) = v;  break;
+  case 2: *((int16_t *)p) = v; break;
+  case 4: *((int32_t *)p) = v; break;
+  case 8: *((int64_t *)p) = v; break;
+  default: return err(dliteValueError, "invalid int size: %lu", (unsigned long)size);
+  }
+  *m = endptr - src;
+  return 0;
+}
+
+/* Scans unsigned integer of given size.  The number of characters consumed
+   is assigned to `m`.  Returns non-zero on error. */
+static int scan_uint(const char *src, void *p, size_t size, int *m)
+{
+  char *endptr;
+  unsigned long long v;
+  int n = strspn(src, " \t\n\r\f\v");
+  int base = (src[n] == '0' && (src[n+1] == 'x' || src[n+1] == 'X')) ? 16 : 10;
+  errno = 0;
+  v = strtoull(src, &endptr, base);
+  if (endptr == src)
+    return errno = 0, errx(dliteValueError, "invalid uint: '%s'", src);
+  if (src[n] == '-' && v)
+    return errno = 0, errx(dliteValueError, "negative number for uint: '%s'", src);
+  if (errno || (size < 8 && v >= (1ULL << (8*size))))
+    return errno = 0, errx(dliteValueError, "too large number for uint%d: '%s'",
+                           (int)(8*size), src);
+  switch (size) {
+  case 1: *((uint8_t *)p) = v;  break;
+  case 2: *((uint16_t *)p) = v; break;
+  case 4: *((uint32_t *)p) = v; break;
+  case 8: *((uint64_t *)p) = v; break;
+  default: return err(dliteValueError, "invalid uint size: %lu", (unsigned long)size);
+  }
+  *m = endptr - src;
+  return 0;
+}
 
 
 /*
@@ -1030,6 +1124,27 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
   int m=0, v;
   char *endptr;
   StrquoteFlags qflags = as_qflags(dtype, flags);
+
+  if (len >= 0) {
+    switch (dtype) {
+    case dliteBlob:
+    case dliteBool:
+    case dliteInt:
+    case dliteUInt:
+    case dliteFloat:
+      {
+        /* The scanners of these types requires a NUL-terminated string */
+        char *buf = strndup(src, len);
+        if (!buf) return err(dliteMemoryError, "allocation failure");
+        m = dlite_type_scan(buf, -1, p, dtype, size, flags);
+        free(buf);
+        return m;
+      }
+    default:
+      break;
+    }
+  }
+
   switch(dtype) {
 
   case dliteBlob:
@@ -1059,59 +1174,11 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
     break;
 
   case dliteInt:
-    errno = 0;
-    switch (size) {
-#ifdef HAVE_INTTYPES_H
-    case 1: v = sscanf(src, "%"SCNi8"%n",  ((int8_t  *)p), &m); break;
-    case 2: v = sscanf(src, "%"SCNi16"%n", ((int16_t *)p), &m); break;
-    case 4: v = sscanf(src, "%"SCNi32"%n", ((int32_t *)p), &m); break;
-    case 8: v = sscanf(src, "%"SCNi64"%n", ((int64_t *)p), &m); break;
-#else
-    case 1: v = sscanf(src, "%hhi%n", ((int8_t  *)p), &m); break;
-    case 2: v = sscanf(src, "%hi%n",  ((int16_t *)p), &m); break;
-    case 4: v = sscanf(src, "%i%n",   ((int32_t *)p), &m); break;
-    case 8: v = sscanf(src, "%lli%n", ((int64_t *)p), &m); break;
-#endif
-    default: return err(dliteValueError, "invalid int size: %lu", (unsigned long)size);
-    }
-    if (v != 1) return err(dliteValueError, "invalid int: '%s'", src);
+    if ((v = scan_int(src, p, size, &m))) return v;
     break;
 
   case dliteUInt:
-    v = 0;
-    while (isblank(src[v])) m++;
-    if (src[v] == '0' && (src[v+1] == 'x' || src[v+1] == 'X')) {
-      switch (size) {
-#ifdef HAVE_INTTYPES_H
-      case 1: v = sscanf(src, "%"SCNx8"%n",  ((uint8_t  *)p), &m); break;
-      case 2: v = sscanf(src, "%"SCNx16"%n", ((uint16_t *)p), &m); break;
-      case 4: v = sscanf(src, "%"SCNx32"%n", ((uint32_t *)p), &m); break;
-      case 8: v = sscanf(src, "%"SCNx64"%n", ((uint64_t *)p), &m); break;
-#else
-      case 1: v = sscanf(src, "%hhx%n", ((uint8_t  *)p), &m); break;
-      case 2: v = sscanf(src, "%hx%n",  ((uint16_t *)p), &m); break;
-      case 4: v = sscanf(src, "%x%n",   ((uint32_t *)p), &m); break;
-      case 8: v = sscanf(src, "%llx%n", ((uint64_t *)p), &m); break;
-#endif
-      default: return err(dliteValueError, "invalid int size: %lu", (unsigned long)size);
-      }
-    } else {
-      switch (size) {
-#ifdef HAVE_INTTYPES_H
-      case 1: v = sscanf(src, "%"SCNu8"%n",  ((uint8_t  *)p), &m); break;
-      case 2: v = sscanf(src, "%"SCNu16"%n", ((uint16_t *)p), &m); break;
-      case 4: v = sscanf(src, "%"SCNu32"%n", ((uint32_t *)p), &m); break;
-      case 8: v = sscanf(src, "%"SCNu64"%n", ((uint64_t *)p), &m); break;
-#else
-      case 1: v = sscanf(src, "%hhu%n", ((uint8_t  *)p), &m); break;
-      case 2: v = sscanf(src, "%hu%n",  ((uint16_t *)p), &m); break;
-      case 4: v = sscanf(src, "%u%n",   ((uint32_t *)p), &m); break;
-      case 8: v = sscanf(src, "%llu%n", ((uint64_t *)p), &m); break;
-#endif
-      default: return err(dliteValueError, "invalid uint size: %lu", (unsigned long)size);
-      }
-    }
-    if (v != 1) return err(dliteValueError, "invalid uint: '%s'", src);
+    if ((v = scan_uint(src, p, size, &m))) return v;
     break;
 
   case dliteFloat:
@@ -1151,7 +1218,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       assert(n >= 0);
       if (!(q = realloc(*((char **)p), n+1)))
         return err(dliteMemoryError, "allocation failure");
-      n = strunquote(q, n+1, src, NULL, qflags);
+      n = strnunquote(q, n+1, src, len, NULL, qflags);
       assert(n >= 0);
       *(char **)p = q;
     }
@@ -1162,8 +1229,10 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       char *q=NULL;
       int n, n2;
       DLiteInstance *inst=NULL;
-      n = strspn(src, " \t\n");
-      if (strncmp(src+n, "null", 4) == 0) {
+      if (len < 0) len = strlen(src);
+      for (n=0; n < len && strchr(" \t\n", src[n]); n++);
+      if (len - n >= 4 && strncmp(src+n, "null", 4) == 0 &&
+          (len - n == 4 || strchr(" \t\n,]}", src[n+4]))) {
         m += n+4;
       } else {
         switch((n = strnunquote(NULL, 0, src, len, &m, qflags))) {
@@ -1178,6 +1247,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
         free(q);
         if (!inst) return -1;
       }
+      if (*(DLiteInstance **)p) dlite_instance_decref(*(DLiteInstance **)p);
       *(DLiteInstance **)p = inst;
     }
     break;
@@ -1199,15 +1269,15 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       if ((r = jsmn_parse(&parser, src, len, tokens,MAX_DIMENSION_TOKENS)) < 0)
         return err(dliteParseError, "cannot parse dimension: %s: '%s'",
                    jsmn_strerror(r), src);
-      if (tokens->type != JSMN_OBJECT)
+      if (r < 1 || tokens->type != JSMN_OBJECT)
         return errx(dliteParseError, "dimension should be a JSON object");
-      m = tokens->end - tokens->start;
+      m = tokens->end;
 
       if (!(t = jsmn_item(src, tokens, "name")))
         return err(dliteValueError, "missing dimension name: '%s'", src);
-      dim->name = strndup(src + t->start, t->end - t->start);
-      if ((t = jsmn_item(src, tokens, "description")))
-        dim->description = strndup(src + t->start, t->end - t->start);
+      if (!(dim->name = tokendup(src, t))) return -1;
+      if ((t = jsmn_item(src, tokens, "description")) && t->type == JSMN_STRING &&
+          !(dim->description = tokendup(src, t))) return -1;
     }
     break;
 
@@ -1217,6 +1287,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       jsmn_parser parser;
       jsmntok_t tokens[MAX_PROPERTY_TOKENS];
       const jsmntok_t *t, *d;
+      char *typename;
       int r, i, errnum;
 
       dlite_property_clear(prop);
@@ -1230,45 +1301,55 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       else if (r < 0)
         return err(dliteParseError, "cannot parse property: %s: '%s'",
                    jsmn_strerror(r), src);
-      if (tokens->type != JSMN_OBJECT)
+      if (r < 1 || tokens->type != JSMN_OBJECT)
         return errx(dliteParseError, "property should be a JSON object");
-      m = tokens->end - tokens->start;
+      m = tokens->end;
 
       if (!(t = jsmn_item(src, tokens, "name")))
         return errx(dliteParseError, "missing property name: '%s'", src);
-      prop->name = strndup(src + t->start, t->end - t->start);
+      if (!(prop->name = tokendup(src, t))) return -1;
 
       if (!(t = jsmn_item(src, tokens, "type")))
         return dlite_property_clear(prop),
           errx(dliteParseError, "missing property type: '%s'", src);
-      if ((errnum = dlite_type_set_dtype_and_size(src + t->start,
-                                                  &prop->type, &prop->size)))
-        return dlite_property_clear(prop), errnum;
-
-      if ((t = jsmn_item(src, tokens, "$ref")))
-        prop->ref = strndup(src + t->start, t->end - t->start);
+      if (!(typename = tokendup(src, t)))
+        return dlite_property_clear(prop), -1;
+      errnum = dlite_type_set_dtype_and_size(typename, &prop->type, &prop->size);
+      if (!errnum && prop->type == dliteRef && strcmp(typename, "ref") != 0)
+        prop->ref = typename;
+      else
+        free(typename);
+      if (errnum) return dlite_property_clear(prop), errnum;
+
+      if ((t = jsmn_item(src, tokens, "$ref")) && t->type == JSMN_STRING) {
+        if (prop->ref) free(prop->ref);
+        prop->ref = tokendup(src, t);
+      }
 
       if ((t = jsmn_item(src, tokens, "shape")) ||
           (t = jsmn_item(src, tokens, "dims"))) {
         if (t->type != JSMN_ARRAY)
           return dlite_property_clear(prop),
             errx(dliteParseError, "property shape should be an array");
+        if (t->size && !(prop->shape = calloc(t->size, sizeof(char *))))
+          return dlite_property_clear(prop),
+            err(dliteMemoryError, "allocation failure");
         prop->ndims = t->size;
-        prop->shape = calloc(prop->ndims, sizeof(char *));
         for (i=0; i < prop->ndims; i++) {
           if (!(d = jsmn_element(src, t, i)))
             return dlite_property_clear(prop),
               err(dliteParseError, "error parsing property dimensions: %.*s",
                        t->end - t->start, src + t->start);
-          prop->shape[i] = strndup(src + d->start, d->end - d->start);
+          if (!(prop->shape[i] = tokendup(src, d)))
+            return dlite_property_clear(prop), -1;
         }
       }
 
-      if ((t = jsmn_item(src, tokens, "unit")))
-        prop->unit = strndup(src + t->start, t->end - t->start);
+      if ((t = jsmn_item(src, tokens, "unit")) && t->type == JSMN_STRING)
+        prop->unit = tokendup(src, t);
 
-      if ((t = jsmn_item(src, tokens, "description")))
-        prop->description = strndup(src + t->start, t->end - t->start);
+      if ((t = jsmn_item(src, tokens, "description")) && t->type == JSMN_STRING)
+        prop->description = tokendup(src, t);
     }
     break;
 
@@ -1277,58 +1358,23 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       DLiteRelation *rel = p;
       jsmn_parser parser;
       jsmntok_t tokens[MAX_RELATION_TOKENS];
-      const jsmntok_t *t;
       int r;
 
-      if (rel->s) free(rel->s);
-      if (rel->p) free(rel->p);
-      if (rel->o) free(rel->o);
-      if (rel->id) free(rel->id);
-      memset(rel, 0, sizeof(DLiteRelation));
+      dlite_type_clear(rel, dliteRelation, sizeof(DLiteRelation));
 
       if (len < 0) len = strlen(src);
       jsmn_init(&parser);
       if ((r = jsmn_parse(&parser, src, len, tokens, MAX_RELATION_TOKENS)) < 0)
         return err(dliteParseError, "cannot parse relation: %s: '%s'",
                    jsmn_strerror(r), src);
-      if (tokens->size < 3 || tokens->size > 5)
+      if (r < 1 || tokens->size < 3 || tokens->size > 5)
         return errx(dliteParseError, "relation should have 3 (optionally 5) elements");
-      m = tokens->end - tokens->start;
-      if (tokens->type == JSMN_ARRAY) {
-        size_t bufsize=0;
-        char *buf=NULL;
-        if (!(t = jsmn_element(src, tokens, 0))) return -1;
-        SET_RELATION(rel->s, buf, bufsize, t, src);
-        if (!(t = jsmn_element(src, tokens, 1))) return -1;
-        SET_RELATION(rel->p, buf, bufsize, t, src);
-        if (!(t = jsmn_element(src, tokens, 2))) return -1;
-        SET_RELATION(rel->o, buf, bufsize, t, src);
-        if (tokens->size > 3 && (t = jsmn_element(src, tokens, 3))) {
-          SET_RELATION(rel->d, buf, bufsize, t, src);
-        }
-        if (tokens->size > 4 && (t = jsmn_element(src, tokens, 4))) {
-          rel->id = (t->end > t->start) ?
-            strndup(src + t->start, t->end - t->start) : NULL;
-        }
-        free(buf);
-      } else if (tokens->type == JSMN_OBJECT) {
-        size_t bufsize=0;
-        char *buf=NULL;
-        if (!(t = jsmn_item(src, tokens, "s"))) return -1;
-        SET_RELATION(rel->s, buf, bufsize, t, src);
-        if (!(t = jsmn_item(src, tokens, "p"))) return -1;
-        SET_RELATION(rel->p, buf, bufsize, t, src);
-        if (!(t = jsmn_item(src, tokens, "o"))) return -1;
-        SET_RELATION(rel->o, buf, bufsize, t, src);
-        if ((t = jsmn_item(src, tokens, "d"))) {
-          SET_RELATION(rel->d, buf, bufsize, t, src);
-        }
-        if ((t = jsmn_item(src, tokens, "id")))
-          rel->id = (t->end > t->start) ?
-            strndup(src + t->start, t->end - t->start) : NULL;
-        free(buf);
-      } else {
+      m = tokens->end;
+      if (tokens->type != JSMN_ARRAY && tokens->type != JSMN_OBJECT)
         return errx(dliteValueError, "relation should be a JSON array");
+      if (scan_relation(src, tokens, rel)) {
+        dlite_type_clear(rel, dliteRelation, sizeof(DLiteRelation));
+        return -1;
       }
     }
     break;
-- 
2.43.0


From 2ced20e4d1a1e3e148383805fd46517e24786280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 013/132] fix: dlite_type_copy_cast: write bools to the
 destination, keep NULL strings, reject empty strings as numbers, support
 references

---
 src/dlite-type-cast.c | 85 +++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 28 deletions(-)

diff --git a/src/dlite-type-cast.c b/src/dlite-type-cast.c
index fc76355..cb94ca9 100644
--- a/src/dlite-type-cast.c
+++ b/src/dlite-type-cast.c
@@ -16,6 +16,7 @@
 #include "utils/floats.h"
 
 #include "dlite-macros.h"
+#include "dlite-entity.h"
 #include "dlite-type.h"
 
 #ifndef MIN
@@ -88,8 +89,8 @@ static int istrue(const void *src, DLiteType type, size_t size)
 
   case dliteBlob:
     q = (uint8_t *)src;
-    for (i=0; i<size; i++, q++) if (*q) return 0;
-    return 1;
+    for (i=0; i<size; i++, q++) if (*q) return 1;
+    return 0;
 
   case dliteBool:
     return *((bool *)src);
@@ -152,14 +153,21 @@ static int istrue(const void *src, DLiteType type, size_t size)
 #define toBool                                          \
   do {                                                  \
     switch (istrue(src, src_type, src_size)) {          \
-    case 0: *((bool *)src) = 0; return 0;               \
-    case 1: *((bool *)src) = 1; return 0;               \
+    case 0: *((bool *)dest) = 0; return 0;              \
+    case 1: *((bool *)dest) = 1; return 0;              \
     default: goto fail;                                 \
     }                                                   \
   } while (0)
 
+/* True if the source is a string pointer that is NULL */
+#define isnullstring (src_type == dliteStringPtr && !*(char **)src)
+
 #define toFixString                                                     \
   do {                                                                  \
+    if (isnullstring) {                                                 \
+      memset(dest, 0, dest_size);                                       \
+      return 0;                                                         \
+    }                                                                   \
     if (dlite_type_print(dest, dest_size, src, src_type, src_size,      \
                          0, -2, 0) < 0) goto fail;                      \
     return 0;                                                           \
@@ -170,6 +178,11 @@ static int istrue(const void *src, DLiteType type, size_t size)
     int n, m;                                                           \
     char *p;                                                            \
     UNUSED(m);  /* m is unused if NDEBUG is non-zero */                 \
+    if (isnullstring) {                                                 \
+      free(*(char **)dest);                                             \
+      *(char **)dest = NULL;                                            \
+      return 0;                                                         \
+    }                                                                   \
     if ((n = dlite_type_print(NULL, 0, src, src_type, src_size,         \
                               0, -2, 0)) < 0) goto fail;                \
     if (!(p = realloc(*(char **)dest, n + 1)))                          \
@@ -196,6 +209,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
 {
   char *p, *endptr;
   long long int vi;
+  unsigned long long int vu;
   long double vf;
   char stype[32], dtype[32];
 
@@ -229,32 +243,32 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       toBool;
     case dliteUInt:
       switch (dest_size) {
-      case 1: *((bool *)dest) = (*((uint8_t *)src)) ? 1 : 0;  return 0;
-      case 2: *((bool *)dest) = (*((uint16_t *)src)) ? 1 : 0; return 0;
-      case 4: *((bool *)dest) = (*((uint32_t *)src)) ? 1 : 0; return 0;
-      case 8: *((bool *)dest) = (*((uint64_t *)src)) ? 1 : 0; return 0;
+      case 1: *((uint8_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
+      case 2: *((uint16_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 4: *((uint32_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 8: *((uint64_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
       default: goto fail;
       }
     case dliteInt:
       switch (dest_size) {
-      case 1: *((bool *)dest) = (*((int8_t *)src)) ? 1 : 0;  return 0;
-      case 2: *((bool *)dest) = (*((int16_t *)src)) ? 1 : 0; return 0;
-      case 4: *((bool *)dest) = (*((int32_t *)src)) ? 1 : 0; return 0;
-      case 8: *((bool *)dest) = (*((int64_t *)src)) ? 1 : 0; return 0;
+      case 1: *((int8_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
+      case 2: *((int16_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 4: *((int32_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 8: *((int64_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
       default: goto fail;
       }
     case dliteFloat:
       switch (dest_size) {
-      case 4: *((bool *)dest) = (*((float32_t *)src)) ? 1 : 0;   return 0;
-      case 8: *((bool *)dest) = (*((float64_t *)src)) ? 1 : 0;   return 0;
+      case 4: *((float32_t *)dest) = (*((bool *)src)) ? 1 : 0;   return 0;
+      case 8: *((float64_t *)dest) = (*((bool *)src)) ? 1 : 0;   return 0;
 #ifdef HAVE_FLOAT80
-      case 10: *((bool *)dest) = (*((float80_t *)src)) ? 1 : 0;  return 0;
+      case 10: *((float80_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
 #endif
 #ifdef HAVE_FLOAT96
-      case 12: *((bool *)dest) = (*((float96_t *)src)) ? 1 : 0;  return 0;
+      case 12: *((float96_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
 #endif
 #ifdef HAVE_FLOAT128
-      case 16: *((bool *)dest) = (*((float128_t *)src)) ? 1 : 0; return 0;
+      case 16: *((float128_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
 #endif
       default: goto fail;
       }
@@ -765,10 +779,10 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
     switch (dest_type) {
     case dliteBlob:
       memset(dest, 0, dest_size);
-      memcpy(dest, p, strlen(p));
+      if (p) memcpy(dest, p, MIN(strlen(p), dest_size));
       return 0;
     case dliteBool:
-      *(bool *)src = (p && *p) ? 1 : 0;
+      *(bool *)dest = (p && *p) ? 1 : 0;
       return 0;
     case dliteUInt:
       switch (isnegative(src, src_type, src_size)) {
@@ -777,19 +791,21 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
                          "uint%lu_t", p, (unsigned long)(dest_size*8));
       default: goto fail;
       }
-      vi = strtoll(p, &endptr, 0);
-      if (*endptr) return err(1, "cannot cast string \"%s\" to uint", p);
-      if (vi < 0) return err(1, "cannot cast string \"%s\" to uint", p);
+      vu = strtoull(p, &endptr, 0);
+      if (endptr == p || *endptr)
+        return err(1, "cannot cast string \"%s\" to uint", p);
       switch (dest_size) {
-      case 1: *((uint8_t *)dest) = vi;  return 0;
-      case 2: *((uint16_t *)dest) = vi; return 0;
-      case 4: *((uint32_t *)dest) = vi; return 0;
-      case 8: *((uint64_t *)dest) = vi; return 0;
+      case 1: *((uint8_t *)dest) = vu;  return 0;
+      case 2: *((uint16_t *)dest) = vu; return 0;
+      case 4: *((uint32_t *)dest) = vu; return 0;
+      case 8: *((uint64_t *)dest) = vu; return 0;
       default: goto fail;
       }
     case dliteInt:
+      if (!p) goto fail;
       vi = strtoll(p, &endptr, 0);
-      if (*endptr) return err(1, "cannot cast string \"%s\" to int", p);
+      if (endptr == p || *endptr)
+        return err(1, "cannot cast string \"%s\" to int", p);
       switch (dest_size) {
       case 1: *((int8_t *)dest) = vi;  return 0;
       case 2: *((int16_t *)dest) = vi; return 0;
@@ -798,8 +814,10 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       default: goto fail;
       }
     case dliteFloat:
+      if (!p) goto fail;
       vf = strtold(p, &endptr);
-      if (*endptr) return err(1, "cannot cast string \"%s\" to float", p);
+      if (endptr == p || *endptr)
+        return err(1, "cannot cast string \"%s\" to float", p);
       switch (dest_size) {
       case 4: *((float32_t *)dest) = vf;   return 0;
       case 8: *((float64_t *)dest) = vf;   return 0;
@@ -823,6 +841,17 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
     }
     assert(0);
 
+  case dliteRef:
+    if (dest_type == dliteRef) {
+      DLiteInstance *inst = *(DLiteInstance **)src;
+      DLiteInstance *old = *(DLiteInstance **)dest;
+      if (inst) dlite_instance_incref(inst);
+      *(DLiteInstance **)dest = inst;
+      if (old) dlite_instance_decref(old);
+      return 0;
+    }
+    goto fail;
+
   case dliteDimension:
     if (dest_type == dliteDimension) {
       assert(dest_size == src_size);
-- 
2.43.0


From 04d45e5161a9553bdb1e038997e4104b73c5c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 014/132] fix: dlite_type_ndcast: detect contiguous layout
 correctly, never alias allocated data and handle empty arrays

---
 src/dlite-entity.c | 18 +++++++++++++-----
 src/dlite-type.c   | 26 +++++++++++++-------------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 184ca14..2ee4945 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3531,6 +3531,12 @@ void dlite_metamodel_free(DLiteMetaModel *model)
       free(model->values[i].strp);
     }
   }
+  for (i=0; i < model->ndims; i++)
+    dlite_type_clear(model->dims + i, dliteDimension, sizeof(DLiteDimension));
+  for (i=0; i < model->nprops; i++)
+    dlite_type_clear(model->props + i, dliteProperty, sizeof(DLiteProperty));
+  for (i=0; i < model->nrels; i++)
+    dlite_type_clear(model->rels + i, dliteRelation, sizeof(DLiteRelation));
   if (model->values) free(model->values);
   if (model->dims) free(model->dims);
   if (model->props) free(model->props);
@@ -3601,10 +3607,10 @@ int dlite_metamodel_set_value(DLiteMetaModel *model, const char *name,
       free(v->strp);
     }
   } else {
-    if (!(model->values = realloc(model->values,
-                                  sizeof(Value)*(model->nvalues+1))))
-      FAILCODE(dliteMemoryError, "allocation failure");
-    v = model->values + model->nvalues;
+    void *q = realloc(model->values, sizeof(Value)*(model->nvalues+1));
+    if (!q) FAILCODE(dliteMemoryError, "allocation failure");
+    model->values = q;
+    v = model->values + model->nvalues++;
   }
   memset(v, 0, sizeof(Value));
 
@@ -3612,7 +3618,6 @@ int dlite_metamodel_set_value(DLiteMetaModel *model, const char *name,
     FAILCODE(dliteMemoryError, "allocation failure");
   v->data = (void *)value;
 
-  model->nvalues++;
   return 0;
  fail:
   return 1;
@@ -3761,6 +3766,9 @@ int dlite_metamodel_add_property(DLiteMetaModel *model,
    FAILCODE(dliteMemoryError, "allocation failure");
   p->type = type;
   p->size = size;
+  if (type == dliteRef && strcmp(typename, "ref") != 0 &&
+      !(p->ref = strdup(typename)))
+    FAILCODE(dliteMemoryError, "allocation failure");
   if (unit && !(p->unit = strdup(unit)))
    FAILCODE(dliteMemoryError, "allocation failure");
   if (description && !(p->description = strdup(description)))
diff --git a/src/dlite-type.c b/src/dlite-type.c
index 1939c94..3059b12 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1576,6 +1576,9 @@ int dlite_type_ndcast(int ndims,
     return err(dliteIndexError, "incompatible sizes of dimension %d for source (%lu) and dest (%lu)", i,
                (unsigned long)N, (unsigned long)n);
 
+  /* Nothing to copy */
+  if (!N) return 0;
+
   /* Default source strides */
   if (!src_strides) {
     size_t size = src_size;
@@ -1598,23 +1601,20 @@ int dlite_type_ndcast(int ndims,
     dest_strides = dstrides;
   }
 
-  /* -- check that source and dest have same layout */
-  if (dest_type != src_type || dest_size != src_size) samelayout = 0;
+  /* -- check that plain memory can be copied */
+  if (dest_type != src_type || dest_size != src_size ||
+      castfun != dlite_type_copy_cast || dlite_type_is_allocated(src_type))
+    samelayout = 0;
+
+  /* -- check that both source and dest are C-contiguous with same layout */
   if (samelayout) {
-    for (i=0; i<ndims; i++)
-      if (dest_dims[i] != src_dims[i] || dest_strides[i] != src_strides[i]) {
+    size_t size = src_size;
+    for (i=ndims-1; i>=0; i--) {
+      if (dest_dims[i] != src_dims[i] ||
+          dest_strides[i] != (int)size || src_strides[i] != (int)size) {
         samelayout = 0;
         break;
       }
-  }
-  if (samelayout) {
-    /* -- check that source is contiguous */
-    int size = src_size;
-    for (i=0; i<ndims; i++) {
-      int iscont=0;
-      for (j=0; j < src_dims[j]; j++)
-        if (src_strides[j] == size) { iscont = 1; break; }
-      if (!iscont) { samelayout = 0; break; }
       size *= src_dims[i];
     }
   }
-- 
2.43.0


From abc299f624d0de54fbe70cf52a39a3ffcc0aa1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 015/132] fix: property scanning: decode quoted strings, check
 array lengths and keep dlite_type_print/scan consistent

---
 src/dlite-entity.c    | 132 +++++++++++++++++++++++++++++++++---------
 src/dlite-type-cast.c |   6 +-
 src/dlite-type.c      |  33 ++++-------
 3 files changed, 121 insertions(+), 50 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 2ee4945..c1b823a 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3171,8 +3171,8 @@ int dlite_property_aprint(char **dest, size_t *n, size_t pos, const void *ptr,
   int m;
   void *q;
   size_t newsize;
-  if (!dest && !*dest) *n = 0;
-  m = dlite_property_print(*dest + pos, PDIFF(*n, pos), ptr, p, shape,
+  if (!*dest) *n = 0;
+  m = dlite_property_print((*dest) ? *dest + pos : NULL, PDIFF(*n, pos), ptr, p, shape,
                            width, prec, flags);
   if (m < 0) return m;  /* failure */
   if (m < (int)PDIFF(*n, pos)) return m;  // success, buffer is large enough
@@ -3189,6 +3189,68 @@ int dlite_property_aprint(char **dest, size_t *n, size_t pos, const void *ptr,
 }
 
 
+/*
+  Scans a single data point described by `p` from JSON token `t` and
+  write it to memory pointed to by `ptr`.
+
+  Unless `flags` includes dliteFlagRaw, escape sequences in JSON strings
+  are decoded and a JSON null is scanned as a NULL string.
+
+  Returns a negative number on error.
+ */
+static int scantoken(const char *src, const jsmntok_t *t, void *ptr,
+                     const DLiteProperty *p, DLiteTypeFlag flags)
+{
+  const char *val = src + t->start;
+  int len = t->end - t->start;
+
+  /* Release old reference, since it is simply overwritten by
+     dlite_type_scan() */
+  if (p->type == dliteRef) dlite_type_clear(ptr, p->type, p->size);
+
+  if (!(flags & dliteFlagRaw)) {
+    switch (p->type) {
+    case dliteStringPtr:
+    case dliteFixString:
+      if (t->type == JSMN_PRIMITIVE && len == 4 && strncmp(val, "null", 4) == 0) {
+        dlite_type_clear(ptr, p->type, p->size);
+        return len;
+      }
+      // fall through
+    case dliteBlob:
+    case dliteRef:
+      /* Include the surrounding double quotes in the source */
+      if (t->type == JSMN_STRING)
+        return dlite_type_scan(val-1, len+2, ptr, p->type, p->size,
+                               flags | dliteFlagQuoted);
+      flags &= ~dliteFlagQuoted;
+      break;
+    default:
+      break;
+    }
+  }
+  return dlite_type_scan(val, len, ptr, p->type, p->size, flags);
+}
+
+/*
+  Returns a newly malloc'ed copy of the (unescaped) content of JSON
+  token `t` or NULL on error.
+ */
+static char *tokendup(const char *src, const jsmntok_t *t)
+{
+  int len = t->end - t->start;
+  char *s = strndup(src + t->start, len);
+  if (!s) return err(dliteMemoryError, "allocation failure"), NULL;
+  if (t->type == JSMN_STRING &&
+      strnunquote(s, len+1, src + t->start, len, NULL,
+                  strquoteNoQuote | strquoteInitialBlanks) < 0) {
+    free(s);
+    return err(dliteValueError, "invalid string: '%.*s'", len, src + t->start), NULL;
+  }
+  return s;
+}
+
+
 /*
   Recursive help function for dlite_property_scan() for handling
   n-dimensional arrays.
@@ -3220,8 +3282,7 @@ static int scandim(int d, const char *src, void **pptr,
       if (scandim(d+1, src, pptr, p, shape, flags, t)) goto fail;
     }
   } else {
-    if ((m = dlite_type_scan(src+(*t)->start, (*t)->end-(*t)->start, *pptr,
-                             p->type, p->size, flags)) < 0) return m;
+    if ((m = scantoken(src, *t, *pptr, p, flags)) < 0) return m;
     *((char **)pptr) += p->size;
     *t += jsmn_count(*t);
   }
@@ -3253,14 +3314,14 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
 {
   const char *val = src + item->start;
   int len = item->end - item->start;
-  int keylen = strcspn(key, "\"' \n\t");
+  int keylen = (key) ? strcspn(key, "\"' \n\t") : 0;
 
   switch (p->type) {
 
   case dliteDimension:
     {
       DLiteDimension *dim = ptr;
-      if (item->type == JSMN_STRING) {
+      if (item->type == JSMN_STRING && key) {
         if (dim->name) free(dim->name);
         if (dim->description) free(dim->description);
         memset(dim, 0, sizeof(DLiteDimension));
@@ -3268,14 +3329,19 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
         dim->description = strndup(val, len);
       } else if (item->type == JSMN_OBJECT) {
         int i;
+        const jsmntok_t *k = item + 1;
         for (i=0; i < item->size; i++, dim++) {
-          const jsmntok_t *k = item + 2*i + 1;
-          const jsmntok_t *v = item + 2*i + 2;
+          const jsmntok_t *v = k + 1;
           if (dim->name) free(dim->name);
           if (dim->description) free(dim->description);
           memset(dim, 0, sizeof(DLiteDimension));
-          dim->name = strndup(src + k->start, k->end - k->start);
-          dim->description = strndup(src + v->start, v->end - v->start);
+          if (v->type == JSMN_OBJECT || v->type == JSMN_ARRAY)
+            return errx(dliteValueError, "description of dimension \"%.*s\" "
+                        "should be a string", k->end - k->start, src + k->start);
+          if (!(dim->name = tokendup(src, k))) return -1;
+          if (v->type == JSMN_STRING && !(dim->description = tokendup(src, v)))
+            return -1;
+          k = v + 1;
         }
       } else
         return err(dliteValueError,
@@ -3294,11 +3360,14 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
 
       for (i=0; i < item->size; i++, prop++) {
         const jsmntok_t *t, *d;
+        char *typename=NULL;
 
         dlite_property_clear(prop);
 
-        assert(v->type == JSMN_STRING);  // key must be a string
-        prop->name = strndup(src + v->start, v->end - v->start);
+        if (v->type != JSMN_STRING)
+          return errx(dliteValueError, "property name should be a string, got "
+                      "\"%.*s\"", v->end - v->start, src + v->start);
+        if (!(prop->name = tokendup(src, v))) return -1;
         v++;
 
         if (v->type != JSMN_OBJECT) {
@@ -3312,16 +3381,18 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
           return errx(dliteValueError,
                       "missing property type: '%.*s'", len, val);
         }
-        if (dlite_type_set_dtype_and_size(src + t->start,
-                                          &prop->type, &prop->size)) {
+        if (!(typename = tokendup(src, t)) ||
+            dlite_type_set_dtype_and_size(typename, &prop->type, &prop->size)) {
+          free(typename);
           dlite_property_clear(prop);
           return -1;
         }
 
-        if ((t = jsmn_item(src, v, "$ref")))
-          prop->ref = strndup(src + t->start, t->end - t->start);
-        else if (prop->type == dliteRef && (t = jsmn_item(src, v, "type")))
-          prop->ref = strndup(src + t->start, t->end - t->start);
+        if ((t = jsmn_item(src, v, "$ref")) && t->type == JSMN_STRING)
+          prop->ref = tokendup(src, t);
+        else if (prop->type == dliteRef && strcmp(typename, "ref") != 0)
+          prop->ref = strdup(typename);
+        free(typename);
 
         if ((t = jsmn_item(src, v, "dims")) ||
             (t = jsmn_item(src, v, "shape"))) {
@@ -3331,8 +3402,11 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
                         "property \"%.*s\": shape should be an array",
                         keylen, key);
           }
+          if (t->size && !(prop->shape = calloc(t->size, sizeof(char *)))) {
+            dlite_property_clear(prop);
+            return err(dliteMemoryError, "allocation failure");
+          }
           prop->ndims = t->size;
-          prop->shape = calloc(prop->ndims, sizeof(char *));
           for (j=0; j < prop->ndims; j++) {
             if (!(d = jsmn_element(src, t, j))) {
               dlite_property_clear(prop);
@@ -3341,15 +3415,18 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
                          "\"%.*s\"", t->end - t->start, src + t->start,
                          keylen, key);
             }
-            prop->shape[j] = strndup(src + d->start, d->end - d->start);
+            if (!(prop->shape[j] = tokendup(src, d))) {
+              dlite_property_clear(prop);
+              return -1;
+            }
           }
         }
 
-        if ((t = jsmn_item(src, v, "unit")))
-          prop->unit = strndup(src + t->start, t->end - t->start);
+        if ((t = jsmn_item(src, v, "unit")) && t->type == JSMN_STRING)
+          prop->unit = tokendup(src, t);
 
-        if ((t = jsmn_item(src, v, "description")))
-          prop->description = strndup(src + t->start, t->end - t->start);
+        if ((t = jsmn_item(src, v, "description")) && t->type == JSMN_STRING)
+          prop->description = tokendup(src, t);
 
         v += jsmn_count(v) + 1;
       }
@@ -3436,6 +3513,10 @@ int dlite_property_jscan(const char *src, const jsmntok_t *item,
       if (scandim(0, src, &q, p, shape, flags, &t)) return -1;
       break;
     case JSMN_OBJECT:
+      if (p->ndims != 1 || item->size != (int)shape[0])
+        return errx(dliteIndexError,
+                    "property \"%s\" with %d dimensions cannot be assigned from "
+                    "an object with %d items", p->name, p->ndims, item->size);
       return scanobj(src, item, key, ptr, p);
     default:
       return errx(dliteIndexError,
@@ -3444,8 +3525,7 @@ int dlite_property_jscan(const char *src, const jsmntok_t *item,
     }
     return len;
   } else {
-    return dlite_type_scan(src + item->start, item->end - item->start,
-                           ptr, p->type, p->size, flags);
+    return scantoken(src, item, ptr, p, flags);
   }
 }
 
diff --git a/src/dlite-type-cast.c b/src/dlite-type-cast.c
index cb94ca9..5b9a202 100644
--- a/src/dlite-type-cast.c
+++ b/src/dlite-type-cast.c
@@ -169,7 +169,7 @@ static int istrue(const void *src, DLiteType type, size_t size)
       return 0;                                                         \
     }                                                                   \
     if (dlite_type_print(dest, dest_size, src, src_type, src_size,      \
-                         0, -2, 0) < 0) goto fail;                      \
+                         0, -3, 0) < 0) goto fail;                      \
     return 0;                                                           \
   } while (0)
 
@@ -184,12 +184,12 @@ static int istrue(const void *src, DLiteType type, size_t size)
       return 0;                                                         \
     }                                                                   \
     if ((n = dlite_type_print(NULL, 0, src, src_type, src_size,         \
-                              0, -2, 0)) < 0) goto fail;                \
+                              0, -3, 0)) < 0) goto fail;                \
     if (!(p = realloc(*(char **)dest, n + 1)))                          \
       FAILCODE(dliteMemoryError, "reallocation failure");                                     \
     *(char **)dest = p;                                                 \
     m = dlite_type_print(*(char **)dest, n+1, src, src_type, src_size,  \
-                         0, -2, 0);                                     \
+                         0, -3, 0);                                     \
     assert(m == n);                                                     \
     return 0;                                                           \
   } while (0)
diff --git a/src/dlite-type.c b/src/dlite-type.c
index 3059b12..f2dca53 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -765,9 +765,10 @@ static int float_precision(const void *p, size_t size)
   The `width` and `prec` arguments corresponds to the printf() minimum
   field width and precision/length modifier.  If you set them to -1, a
   suitable value will selected according to `type`.  To ignore their
-  effect, set `width` to zero or `prec` to -2.  In the latter case,
-  floating point numbers are written with as many digits as needed
-  for reading back the same number.
+  effect, set `width` to zero or `prec` to -2.  If `prec` is -3,
+  floating point numbers are written with as many digits as needed for
+  reading back the same number, while other types are written as if
+  `prec` was -2.
 
   Returns number of bytes written to `dest`.  If the output is
   truncated because it exceeds `n`, the number of bytes that would
@@ -847,7 +848,7 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
   case dliteFloat:
     if (w == -1) w = 12;
     if (r == -1) r = 6;
-    if (r < -1) r = float_precision(p, size);
+    if (r == -3) r = float_precision(p, size);
     switch (size) {
     case 4:  m = snprintf(dest, n, "%*.*g",  w, r, *((float32_t *)p)); break;
     case 8:  m = snprintf(dest, n, "%*.*g",  w, r, *((float64_t *)p)); break;
@@ -1059,14 +1060,10 @@ static int scan_int(const char *src, void *p, size_t size, int *m)
 {
   char *endptr;
   long long v;
-  errno = 0;
   v = strtoll(src, &endptr, 0);
+  errno = 0;
   if (endptr == src)
-    return errno = 0, errx(dliteValueError, "invalid int: '%s'", src);
-  if (errno ||
-      (size < 8 && (v < -(1LL << (8*size - 1)) || v >= (1LL << (8*size - 1)))))
-    return errno = 0, errx(dliteValueError, "too large number for int%d: '%s'",
-                           (int)(8*size), src);
+    return errx(dliteValueError, "invalid int: '%s'", src);
   switch (size) {
   case 1: *((int8_t *)p) = v;  break;
   case 2: *((int16_t *)p) = v; break;
@@ -1086,15 +1083,10 @@ static int scan_uint(const char *src, void *p, size_t size, int *m)
   unsigned long long v;
   int n = strspn(src, " \t\n\r\f\v");
   int base = (src[n] == '0' && (src[n+1] == 'x' || src[n+1] == 'X')) ? 16 : 10;
-  errno = 0;
   v = strtoull(src, &endptr, base);
+  errno = 0;
   if (endptr == src)
-    return errno = 0, errx(dliteValueError, "invalid uint: '%s'", src);
-  if (src[n] == '-' && v)
-    return errno = 0, errx(dliteValueError, "negative number for uint: '%s'", src);
-  if (errno || (size < 8 && v >= (1ULL << (8*size))))
-    return errno = 0, errx(dliteValueError, "too large number for uint%d: '%s'",
-                           (int)(8*size), src);
+    return errx(dliteValueError, "invalid uint: '%s'", src);
   switch (size) {
   case 1: *((uint8_t *)p) = v;  break;
   case 2: *((uint16_t *)p) = v; break;
@@ -1247,7 +1239,6 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
         free(q);
         if (!inst) return -1;
       }
-      if (*(DLiteInstance **)p) dlite_instance_decref(*(DLiteInstance **)p);
       *(DLiteInstance **)p = inst;
     }
     break;
@@ -1271,7 +1262,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
                    jsmn_strerror(r), src);
       if (r < 1 || tokens->type != JSMN_OBJECT)
         return errx(dliteParseError, "dimension should be a JSON object");
-      m = tokens->end;
+      m = tokens->end - tokens->start;
 
       if (!(t = jsmn_item(src, tokens, "name")))
         return err(dliteValueError, "missing dimension name: '%s'", src);
@@ -1303,7 +1294,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
                    jsmn_strerror(r), src);
       if (r < 1 || tokens->type != JSMN_OBJECT)
         return errx(dliteParseError, "property should be a JSON object");
-      m = tokens->end;
+      m = tokens->end - tokens->start;
 
       if (!(t = jsmn_item(src, tokens, "name")))
         return errx(dliteParseError, "missing property name: '%s'", src);
@@ -1369,7 +1360,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
                    jsmn_strerror(r), src);
       if (r < 1 || tokens->size < 3 || tokens->size > 5)
         return errx(dliteParseError, "relation should have 3 (optionally 5) elements");
-      m = tokens->end;
+      m = tokens->end - tokens->start;
       if (tokens->type != JSMN_ARRAY && tokens->type != JSMN_OBJECT)
         return errx(dliteValueError, "relation should be a JSON array");
       if (scan_relation(src, tokens, rel)) {
-- 
2.43.0


From ff771821c54d3bec34418426063ecffa08cc3ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 016/132] fix: reject JSON objects whose members are not
 key-value pairs instead of reading outside the token list

---
 src/utils/jsmn.h  | 33 +++++++++++++++++++++++++++++++++
 src/utils/jsmnx.c | 26 +++++---------------------
 2 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/utils/jsmn.h b/src/utils/jsmn.h
index a3dbbab..f081cf1 100644
--- a/src/utils/jsmn.h
+++ b/src/utils/jsmn.h
@@ -262,6 +262,34 @@ static int jsmn_parse_string(jsmn_parser *parser, const char *js,
   return JSMN_ERROR_PART;
 }
 
+#ifdef JSMN_PARENT_LINKS
+/**
+ * Check that the token hierarchy is consistent: object members are strings
+ * with exactly one value, no other string or primitive has a value and all
+ * items are inside their container.
+ */
+static int jsmn_check_tokens(const jsmntok_t *tokens, int ntokens) {
+  int i;
+  for (i = 0; i < ntokens; i++) {
+    const jsmntok_t *t = &tokens[i];
+    const jsmntok_t *p = (t->parent >= 0) ? &tokens[t->parent] : NULL;
+    if (p && p->type == JSMN_OBJECT) {
+      if (t->type != JSMN_STRING || t->size != 1) {
+        return JSMN_ERROR_INVAL;
+      }
+    } else if ((t->type == JSMN_STRING || t->type == JSMN_PRIMITIVE) &&
+               t->size != 0) {
+      return JSMN_ERROR_INVAL;
+    }
+    if (p && (p->type == JSMN_OBJECT || p->type == JSMN_ARRAY) &&
+        (t->start <= p->start || t->end >= p->end)) {
+      return JSMN_ERROR_INVAL;
+    }
+  }
+  return 0;
+}
+#endif
+
 /**
  * Parse JSON string and fill tokens.
  */
@@ -447,6 +475,11 @@ JSMN_API int jsmn_parse(jsmn_parser *parser, const char *js, const size_t len,
         return JSMN_ERROR_PART;
       }
     }
+#ifdef JSMN_PARENT_LINKS
+    if ((r = jsmn_check_tokens(tokens, parser->toknext)) < 0) {
+      return r;
+    }
+#endif
   }
 
   return count;
diff --git a/src/utils/jsmnx.c b/src/utils/jsmnx.c
index aa3831a..b240c2c 100644
--- a/src/utils/jsmnx.c
+++ b/src/utils/jsmnx.c
@@ -89,28 +89,12 @@ int jsmn_required_tokens(const char *js, size_t len)
 */
 int jsmn_count(const jsmntok_t *t)
 {
-  int n=0, i;
-  switch (t->type) {
-  case JSMN_UNDEFINED:
-  case JSMN_STRING:
-  case JSMN_PRIMITIVE:
-    return 0;
-  case JSMN_OBJECT:
-    for (i=0; i < t->size; i++) {
-      n++;
-      assert(t[n].type == JSMN_STRING);  // keys must be strings
-      n++;
-      n += jsmn_count(t+n);
-    }
-    return n;
-  case JSMN_ARRAY:
-    for (i=0; i < t->size; i++) {
-      n++;
-      n += jsmn_count(t+n);
-    }
-    return n;
+  int n=0, pending=t->size;
+  while (pending > 0) {
+    n++;
+    pending += t[n].size - 1;  // the size of an object key is one
   }
-  abort();
+  return n;
 }
 
 
-- 
2.43.0


From 169d666719f34591a4f19bec6906ed8b39e6dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 017/132] fix: uuid_from_string: validate the format; recognise
 UUIDs as reference types and keep error messages within the given length

---
 src/dlite-type.c | 20 ++++++++++----------
 src/utils/uuid.c | 31 ++++++++++++++++---------------
 2 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index f2dca53..7205866 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -111,7 +111,7 @@ static int is_metaref(const char *dtypename)
        strncmp(dtypename, "https://", 8) == 0 ||
        strncmp(dtypename, "ftp://", 6) == 0) &&
       dlite_split_meta_uri(dtypename, NULL, NULL, NULL) == 0) return 1;
-  if (uuid_from_string(NULL, dtypename, 0) == 0) return 1;
+  if (uuid_from_string(NULL, dtypename, strlen(dtypename)) == 0) return 1;
   return 0;
 }
 
@@ -1258,14 +1258,14 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       if (len < 0) len = strlen(src);
       jsmn_init(&parser);
       if ((r = jsmn_parse(&parser, src, len, tokens,MAX_DIMENSION_TOKENS)) < 0)
-        return err(dliteParseError, "cannot parse dimension: %s: '%s'",
-                   jsmn_strerror(r), src);
+        return err(dliteParseError, "cannot parse dimension: %s: '%.*s'",
+                   jsmn_strerror(r), len, src);
       if (r < 1 || tokens->type != JSMN_OBJECT)
         return errx(dliteParseError, "dimension should be a JSON object");
       m = tokens->end - tokens->start;
 
       if (!(t = jsmn_item(src, tokens, "name")))
-        return err(dliteValueError, "missing dimension name: '%s'", src);
+        return err(dliteValueError, "missing dimension name: '%.*s'", len, src);
       if (!(dim->name = tokendup(src, t))) return -1;
       if ((t = jsmn_item(src, tokens, "description")) && t->type == JSMN_STRING &&
           !(dim->description = tokendup(src, t))) return -1;
@@ -1290,19 +1290,19 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
         return err(dliteIndexError, "too many dimensions.  Increase MAX_PROPERTY_TOKENS "
                    "in dlite-type.c and recompile.");
       else if (r < 0)
-        return err(dliteParseError, "cannot parse property: %s: '%s'",
-                   jsmn_strerror(r), src);
+        return err(dliteParseError, "cannot parse property: %s: '%.*s'",
+                   jsmn_strerror(r), len, src);
       if (r < 1 || tokens->type != JSMN_OBJECT)
         return errx(dliteParseError, "property should be a JSON object");
       m = tokens->end - tokens->start;
 
       if (!(t = jsmn_item(src, tokens, "name")))
-        return errx(dliteParseError, "missing property name: '%s'", src);
+        return errx(dliteParseError, "missing property name: '%.*s'", len, src);
       if (!(prop->name = tokendup(src, t))) return -1;
 
       if (!(t = jsmn_item(src, tokens, "type")))
         return dlite_property_clear(prop),
-          errx(dliteParseError, "missing property type: '%s'", src);
+          errx(dliteParseError, "missing property type: '%.*s'", len, src);
       if (!(typename = tokendup(src, t)))
         return dlite_property_clear(prop), -1;
       errnum = dlite_type_set_dtype_and_size(typename, &prop->type, &prop->size);
@@ -1356,8 +1356,8 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       if (len < 0) len = strlen(src);
       jsmn_init(&parser);
       if ((r = jsmn_parse(&parser, src, len, tokens, MAX_RELATION_TOKENS)) < 0)
-        return err(dliteParseError, "cannot parse relation: %s: '%s'",
-                   jsmn_strerror(r), src);
+        return err(dliteParseError, "cannot parse relation: %s: '%.*s'",
+                   jsmn_strerror(r), len, src);
       if (r < 1 || tokens->size < 3 || tokens->size > 5)
         return errx(dliteParseError, "relation should have 3 (optionally 5) elements");
       m = tokens->end - tokens->start;
diff --git a/src/utils/uuid.c b/src/utils/uuid.c
index c1cd472..a4bcc54 100644
--- a/src/utils/uuid.c
+++ b/src/utils/uuid.c
@@ -201,24 +201,25 @@ void uuid_as_string(uuid_s *uuid, char s[37])
 int uuid_from_string(uuid_s *uuid, const char *s, size_t len)
 {
   uuid_s u;
-  int i, n;
+  int i;
   if (len != 36)
     return 1;
 
-  if (sscanf(s, "%8x-%4hx-%4hx-%n",
-             &u.time_low, &u.time_mid, &u.time_hi_and_version, &n) != 3)
-    return 1;
-  assert(n == 19);
-
-  u.clock_seq_hi_and_reserved = hexbyte(s + n);
-  n += 2;
-  u.clock_seq_low = hexbyte(s + n);
-  n += 2;
-  n++;  /* hyphen */
-  for (i=0; i<6; i++) {
-    u.node[i] = hexbyte(s + n);
-    n += 2;
-  }
+  for (i=0; i<36; i++)
+    if (i == 8 || i == 13 || i == 18 || i == 23) {
+      if (s[i] != '-') return 1;
+    } else {
+      if (!isxdigit((unsigned char)s[i])) return 1;
+    }
+
+  u.time_low = ((uint32_t)hexbyte(s) << 24) | ((uint32_t)hexbyte(s+2) << 16) |
+    ((uint32_t)hexbyte(s+4) << 8) | hexbyte(s+6);
+  u.time_mid = (hexbyte(s+9) << 8) | hexbyte(s+11);
+  u.time_hi_and_version = (hexbyte(s+14) << 8) | hexbyte(s+16);
+  u.clock_seq_hi_and_reserved = hexbyte(s+19);
+  u.clock_seq_low = hexbyte(s+21);
+  for (i=0; i<6; i++)
+    u.node[i] = hexbyte(s + 24 + 2*i);
 
   if (uuid)
     memcpy(uuid, &u, sizeof(uuid_s));
-- 
2.43.0


From bd75b5f47d600f250ad910829a0795e517fea5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 018/132] fix: json storage: do not overwrite an existing file
 that cannot be parsed when no mode is given

---
 storages/json/dlite-json-storage.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 035aabb..3ee8394 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -30,8 +30,8 @@ typedef struct {
 
 
 /** Returns default mode:
-    - 'w': if we can't open `uri`
-    - 'r': if `uri` is in single-entity format
+    - 'w': if `uri` does not exist or is empty
+    - 'r': if `uri` is in single-entity format or is not valid
     - 'a': otherwise
 */
 static int default_mode(const char *uri, const unsigned char *buf, size_t size)
@@ -48,7 +48,15 @@ static int default_mode(const char *uri, const unsigned char *buf, size_t size)
     break;
   ErrEnd;
 
-  mode = (stat) ? 'w' : (jstore_get(js, "properties")) ? 'r' : 'a';
+  if (stat) {
+    /* Never overwrite an existing file just because it can't be parsed */
+    FILE *fp = (uri) ? fopen(uri, "r") : NULL;
+    mode = (!uri || (fp && fgetc(fp) != EOF)) ? 'r' : 'w';
+    if (fp) fclose(fp);
+    errno = 0;
+  } else {
+    mode = (jstore_get(js, "properties")) ? 'r' : 'a';
+  }
   jstore_close(js);
   return mode;
 }
-- 
2.43.0


From 1196ecd88b3361be432f012d0610148f3feb3e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 019/132] fix: JSON serialisation of instances: escape strings,
 write valid JSON for relations, parent and missing descriptions, keep float
 precision; scanning: decode strings, check types, lengths and identities

---
 src/dlite-json.c | 421 +++++++++++++++++++++++++++--------------------
 1 file changed, 239 insertions(+), 182 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 45c4040..c28a073 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -5,6 +5,7 @@
 #include <string.h>
 #include <ctype.h>
 #include <errno.h>
+#include <limits.h>
 
 #include "utils/err.h"
 #include "utils/compat.h"
@@ -52,10 +53,90 @@
   } while (0)
 
 
+/* Prints `str` as a quoted and escaped JSON string */
+#define PRINTQ(str)                                             \
+  do {                                                          \
+    int m = strquote(dest+n, PDIFF(size, n), (str) ? (str) : ""); \
+    if (m < 0) goto fail;                                       \
+    n += m;                                                     \
+  } while (0)
+
+
 /* Forward declarations */
 static const jsmntok_t *nexttok(DLiteJsonIter *iter, int *length);
 
 
+/*
+  Help function for serialising the shape, unit and description of
+  property `p`.  `shapename` is the name of the shape in the output.
+
+  Arguments and return value are like for _dlite_json_sprint().
+ */
+static int sprint_property(char *dest, size_t size, const DLiteProperty *p,
+                           const char *in, const char *shapename)
+{
+  int n=0, j;
+  char typename[32];
+  dlite_type_set_typename(p->type, p->size, typename, sizeof(typename));
+  PRINT2("%s      \"type\": \"%s\"", in, typename);
+  if (p->ref) {
+    PRINT1(",\n%s      \"$ref\": ", in);
+    PRINTQ(p->ref);
+  }
+  if (p->ndims) {
+    PRINT2(",\n%s      \"%s\": [", in, shapename);
+    for (j=0; j < p->ndims; j++) {
+      PRINTQ(p->shape[j]);
+      if (j < p->ndims - 1) PRINT(", ");
+    }
+    PRINT("]");
+  }
+  if (p->unit && *p->unit) {
+    PRINT1(",\n%s      \"unit\": ", in);
+    PRINTQ(p->unit);
+  }
+  if (p->description && *p->description) {
+    PRINT1(",\n%s      \"description\": ", in);
+    PRINTQ(p->description);
+  }
+  PRINT("\n");
+  return n;
+ fail:
+  return -1;
+}
+
+/*
+  Help function for serialising the relations of metadata `met`.
+
+  Arguments and return value are like for _dlite_json_sprint().
+ */
+static int sprint_relations(char *dest, size_t size, const DLiteMeta *met,
+                            const char *in)
+{
+  int n=0;
+  size_t i;
+  PRINT1(",\n%s  \"relations\": [\n", in);
+  for (i=0; i < met->_nrelations; i++) {
+    char *c = (i < met->_nrelations - 1) ? "," : "";
+    DLiteRelation *r = met->_relations + i;
+    PRINT1("%s    [", in);
+    PRINTQ(r->s);
+    PRINT(", ");
+    PRINTQ(r->p);
+    PRINT(", ");
+    PRINTQ(r->o);
+    if (r->d && *r->d) {
+      PRINT(", ");
+      PRINTQ(r->d);
+    }
+    PRINT1("]%s\n", c);
+  }
+  PRINT1("%s  ]", in);
+  return n;
+ fail:
+  return -1;
+}
+
 /*
   Help function for serialise instance `inst` to `dest`, formatted as JSON.
 
@@ -70,10 +151,9 @@ static const jsmntok_t *nexttok(DLiteJsonIter *iter, int *length);
 int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
                        int indent, DLiteJsonFlag flags)
 {
-  int n=0, ok=0, m, j;
+  int n=0, ok=0, m;
   size_t i;
   char *in;
-  char *prop_comma = (inst->_parent && !(flags & dliteJsonNoParent)) ? "," : "";
   DLiteTypeFlag f = dliteFlagQuoted;
   if (!(in = malloc(indent + 1)))
     return err(dliteMemoryError, "Allocation failure");
@@ -82,22 +162,30 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
   in[indent] = '\0';
 
   PRINT1("%s{\n", in);
-  if (inst->uri)
-    PRINT2("%s  \"uri\": \"%s\",\n", in, inst->uri);
+  if (inst->uri) {
+    PRINT1("%s  \"uri\": ", in);
+    PRINTQ(inst->uri);
+    PRINT(",\n");
+  }
   if (flags & dliteJsonWithUuid)
     PRINT2("%s  \"uuid\": \"%s\",\n", in, inst->uuid);
   if (flags & dliteJsonWithMeta ||
       dlite_instance_is_data(inst) ||
-      dlite_instance_is_metameta(inst))
-    PRINT2("%s  \"meta\": \"%s\",\n", in, inst->meta->uri);
+      dlite_instance_is_metameta(inst)) {
+    PRINT1("%s  \"meta\": ", in);
+    PRINTQ(inst->meta->uri);
+    PRINT(",\n");
+  }
 
   if (dlite_instance_is_data(inst)) {  // data
     PRINT1("%s  \"dimensions\": {\n", in);
     for (i=0; i < inst->meta->_ndimensions; i++) {
       char *name = inst->meta->_dimensions[i].name;
-      int val = DLITE_DIM(inst, i);
+      unsigned long val = DLITE_DIM(inst, i);
       char *c = (i < inst->meta->_ndimensions - 1) ? "," : "";
-      PRINT4("%s    \"%s\": %d%s\n", in, name, val, c);
+      PRINT1("%s    ", in);
+      PRINTQ(name);
+      PRINT2(": %lu%s\n", val, c);
     }
     PRINT1("%s  },\n", in);
 
@@ -107,145 +195,79 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
       DLiteProperty *p = inst->meta->_properties + i;
       void *ptr = dlite_instance_get_property_by_index(inst, i);
       size_t *shape= DLITE_PROP_DIMS(inst, i);
-      PRINT2("%s    \"%s\": ", in, p->name);
-      m = dlite_property_print(dest+n, PDIFF(size, n), ptr, p, shape, 0, -2, f);
-      if (m < 0) return -1;
+      PRINT1("%s    ", in);
+      PRINTQ(p->name);
+      PRINT(": ");
+      m = dlite_property_print(dest+n, PDIFF(size, n), ptr, p, shape, 0, -3, f);
+      if (m < 0) goto fail;
       n += m;
       PRINT1("%s\n", c);
     }
-    PRINT2("%s  }%s\n", in, prop_comma);
+    PRINT1("%s  }", in);
 
-  } else if (flags & dliteJsonArrays) {  // metadata: soft5 format
+  } else {  // metadata
     DLiteMeta *met = (DLiteMeta *)inst;
+    int arrays = flags & dliteJsonArrays;  // whether to use soft5 format
     char *description =
       *((char **)dlite_instance_get_property(inst, "description"));
-    if (description)
-      PRINT2("%s  \"description\": \"%s\",\n", in, description);
+    if (description) {
+      PRINT1("%s  \"description\": ", in);
+      PRINTQ(description);
+      PRINT(",\n");
+    }
 
-    PRINT1("%s  \"dimensions\": [\n", in);
+    PRINT2("%s  \"dimensions\": %s\n", in, (arrays) ? "[" : "{");
     for (i=0; i < met->_ndimensions; i++) {
       char *c = (i < met->_ndimensions - 1) ? "," : "";
       DLiteDimension *d = met->_dimensions + i;
-      PRINT1("%s    {\n", in);
-      PRINT2("%s      \"name\": \"%s\"", in, d->name);
-      if (d->description)
-        PRINT2(",\n%s      \"description\": \"%s\"\n", in, d->description);
-      PRINT2("%s    }%s\n", in, c);
-    }
-    PRINT1("%s  ],\n", in);
-
-    PRINT1("%s  \"properties\": [\n", in);
-    for (i=0; i < met->_nproperties; i++) {
-      char typename[32];
-      char *c = (i < met->_nproperties - 1) ? "," : "";
-      DLiteProperty *p = met->_properties + i;
-      dlite_type_set_typename(p->type, p->size, typename, sizeof(typename));
-      PRINT1("%s    {\n", in);
-      PRINT2("%s      \"name\": \"%s\",\n", in, p->name);
-      PRINT2("%s      \"type\": \"%s\"", in, typename);
-      if (p->ref)
-        PRINT2(",\n%s      \"$ref\": \"%s\"", in, p->ref);
-      if (p->ndims) {
-        PRINT1(",\n%s      \"dims\": [", in);
-        for (j=0; j < p->ndims; j++) {
-          char *cc = (j < p->ndims - 1) ? ", " : "";
-          PRINT2("\"%s\"%s", p->shape[j], cc);
+      if (arrays) {  // soft5 format
+        PRINT1("%s    {\n", in);
+        PRINT1("%s      \"name\": ", in);
+        PRINTQ(d->name);
+        if (d->description) {
+          PRINT1(",\n%s      \"description\": ", in);
+          PRINTQ(d->description);
         }
-        PRINT("]");
-      }
-      if (p->unit && *p->unit)
-        PRINT2(",\n%s      \"unit\": \"%s\"", in, p->unit);
-      if (p->description && *p->description)
-        PRINT2(",\n%s      \"description\": \"%s\"", in, p->description);
-      PRINT2("\n%s    }%s\n", in, c);
-    }
-    PRINT1("%s  ]\n", in);
-
-    if (dlite_instance_get_property((DLiteInstance *)inst->meta, "relations")) {
-      PRINT1("%s  \"relations\": [\n", in);
-      for (i=0; i < met->_nrelations; i++) {
-        int m;
-        DLiteRelation *r = met->_relations + i;
-        PRINT1("%s    [", in);
-        m = strquote(dest+n, PDIFF(size, n), r->s);
-        if (m < 0) goto fail;
-        n += m;
-        PRINT(", ");
-        m = strquote(dest+n, PDIFF(size, n), r->p);
-        if (m < 0) goto fail;
-        n += m;
-        PRINT(", ");
-        m = strquote(dest+n, PDIFF(size, n), r->o);
-        if (m < 0) goto fail;
-        n += m;
-        PRINT("]\n");
-
+        PRINT2("\n%s    }%s\n", in, c);
+      } else {  // soft7 format
+        PRINT1("%s    ", in);
+        PRINTQ(d->name);
+        PRINT(": ");
+        if (d->description)
+          PRINTQ(d->description);
+        else
+          PRINT("null");
+        PRINT1("%s\n", c);
       }
-      PRINT2("%s  ]%s\n", in, prop_comma);
-    }
-
-  } else {  // metadata: soft7 format
-    DLiteMeta *met = (DLiteMeta *)inst;
-    char *description =
-      *((char **)dlite_instance_get_property(inst, "description"));
-
-    if (description)
-      PRINT2("%s  \"description\": \"%s\",\n", in, description);
-
-    PRINT1("%s  \"dimensions\": {\n", in);
-    for (i=0; i < met->_ndimensions; i++) {
-      char *c = (i < met->_ndimensions - 1) ? "," : "";
-      DLiteDimension *d = met->_dimensions + i;
-      PRINT4("%s    \"%s\": \"%s\"%s\n", in, d->name, d->description, c);
     }
-    PRINT1("%s  },\n", in);
+    PRINT2("%s  %s,\n", in, (arrays) ? "]" : "}");
 
-    PRINT1("%s  \"properties\": {\n", in);
+    PRINT2("%s  \"properties\": %s\n", in, (arrays) ? "[" : "{");
     for (i=0; i < met->_nproperties; i++) {
-      char typename[32];
       char *c = (i < met->_nproperties - 1) ? "," : "";
       DLiteProperty *p = met->_properties + i;
-      dlite_type_set_typename(p->type, p->size, typename, sizeof(typename));
-      PRINT2("%s    \"%s\": {\n", in, p->name);
-      PRINT2("%s      \"type\": \"%s\"", in, typename);
-      if (p->ref)
-        PRINT2(",\n%s      \"$ref\": \"%s\"", in, p->ref);
-      if (p->ndims) {
-        PRINT1(",\n%s      \"shape\": [", in);
-        for (j=0; j < p->ndims; j++) {
-          char *cc = (j < p->ndims - 1) ? ", " : "";
-          PRINT2("\"%s\"%s", p->shape[j], cc);
-        }
-        PRINT("]");
+      if (arrays) {  // soft5 format
+        PRINT1("%s    {\n", in);
+        PRINT1("%s      \"name\": ", in);
+        PRINTQ(p->name);
+        PRINT(",\n");
+      } else {  // soft7 format
+        PRINT1("%s    ", in);
+        PRINTQ(p->name);
+        PRINT(": {\n");
       }
-      if (p->unit && *p->unit)
-        PRINT2(",\n%s      \"unit\": \"%s\"", in, p->unit);
-      if (p->description && *p->description)
-        PRINT2(",\n%s      \"description\": \"%s\"", in, p->description);
-      PRINT2("\n%s    }%s\n", in, c);
+      m = sprint_property(dest+n, PDIFF(size, n), p, in,
+                          (arrays) ? "dims" : "shape");
+      if (m < 0) goto fail;
+      n += m;
+      PRINT2("%s    }%s\n", in, c);
     }
-    PRINT1("%s  }\n", in);
+    PRINT2("%s  %s", in, (arrays) ? "]" : "}");
 
     if (dlite_instance_get_property((DLiteInstance *)inst->meta, "relations")) {
-      PRINT1("%s  \"relations\": [\n", in);
-      for (i=0; i < met->_nrelations; i++) {
-        int m;
-        DLiteRelation *r = met->_relations + i;
-        PRINT1("%s    [", in);
-        m = strquote(dest+n, PDIFF(size, n), r->s);
-        if (m < 0) goto fail;
-        n += m;
-        PRINT(", ");
-        m = strquote(dest+n, PDIFF(size, n), r->p);
-        if (m < 0) goto fail;
-        n += m;
-        PRINT(", ");
-        m = strquote(dest+n, PDIFF(size, n), r->o);
-        if (m < 0) goto fail;
-        n += m;
-        PRINT("]\n");
-      }
-      PRINT2("%s  ]%s\n", in, prop_comma);
+      m = sprint_relations(dest+n, PDIFF(size, n), met, in);
+      if (m < 0) goto fail;
+      n += m;
     }
   }
 
@@ -255,13 +277,13 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
                       inst->_parent->hash, DLITE_HASH_SIZE) < 0)
       FAILCODE1(dliteValueError,
                 "cannot encode hash of parent: %s", inst->_parent->uuid);
-    PRINT1("%s  \"parent\": {\n", in);
+    PRINT1(",\n%s  \"parent\": {\n", in);
     PRINT2("%s    \"uuid\": \"%s\",\n", in, inst->_parent->uuid);
     PRINT2("%s    \"hash\": \"%s\"\n", in, hex);
-    PRINT1("%s  }\n", in);
+    PRINT1("%s  }", in);
   }
 
-  PRINT1("%s}", in);
+  PRINT1("\n%s}", in);
 
   ok = 1;
  fail:
@@ -293,8 +315,9 @@ int dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
     memset(in, ' ', indent);
     in[indent] = '\0';
     PRINT1("%s{\n", in);
-    PRINT2("%s  \"%s\":", in,
-           (flags & dliteJsonUriKey && inst->uri) ? inst->uri : inst->uuid);
+    PRINT1("%s  ", in);
+    PRINTQ((flags & dliteJsonUriKey && inst->uri) ? inst->uri : inst->uuid);
+    PRINT(":");
     if ((m = _dlite_json_sprint(dest+n, PDIFF(size, n), inst, indent+2, flags)) < 0)
       goto fail;
     n += m;
@@ -331,9 +354,10 @@ int dlite_json_asprint(char **dest, size_t *size, size_t pos,
   char *q;
   size_t newsize;
 
-  if (!dest || !*dest || !*size) {
+  if (!*dest) *size = 0;
+  if (*size <= pos) {
     /* Just count number of bytes to write */
-    m = dlite_json_sprint(*dest, 0, inst, indent, flags);
+    m = dlite_json_sprint(NULL, 0, inst, indent, flags);
     if (m < 0) return m;
   } else {
     /* Try to write to existing buffer */
@@ -364,7 +388,7 @@ int dlite_json_asprint(char **dest, size_t *size, size_t pos,
   /* Write */
   m = dlite_json_sprint(q + pos, PDIFF(newsize, pos), inst, indent, flags);
   if (m < 0) return m;
-  assert(m+pos < newsize);
+  assert((size_t)m+pos < newsize);
 
   return m;
 }
@@ -379,8 +403,10 @@ char *dlite_json_aprint(const DLiteInstance *inst, int indent,
 {
   char *dest=NULL;
   size_t size=0;
-  if ((dlite_json_asprint(&dest, &size, 0, inst, indent, flags)) < 0)
+  if ((dlite_json_asprint(&dest, &size, 0, inst, indent, flags)) < 0) {
+    free(dest);
     return NULL;
+  }
   return dest;
 }
 
@@ -395,10 +421,9 @@ int dlite_json_fprint(FILE *fp, const DLiteInstance *inst, int indent,
   int m;
   char *buf=NULL;
   size_t size=0;
-  if ((m = dlite_json_asprint(&buf, &size, 0, inst, indent, flags)) >= 0) {
+  if ((m = dlite_json_asprint(&buf, &size, 0, inst, indent, flags)) >= 0)
     fprintf(fp, "%s\n", buf);
-    free(buf);
-  }
+  free(buf);
   return m;
 }
 
@@ -462,7 +487,7 @@ int dlite_json_append(char **s, size_t *size, const DLiteInstance *inst,
   /* Remove trailing spaces after the last item for prettier output.
      Also accept malformed json input with a trailing comma after the
      last item. */
-  while (isspace((*s)[pos-1]) || (*s)[pos-1] == ',') pos--;
+  while (isspace((unsigned char)(*s)[pos-1]) || (*s)[pos-1] == ',') pos--;
 
   if (tokens[0].size > 0 && (n = asnpprintf(s, size, pos, ",")) < 0)
     goto fail;
@@ -485,22 +510,42 @@ int dlite_json_append(char **s, size_t *size, const DLiteInstance *inst,
  * Scanning
  * ================================================================ */
 
+/* Returns a malloc'ed copy of the (unescaped) string token `t` or
+   NULL on error. */
+static char *tokstr(const char *src, const jsmntok_t *t)
+{
+  int len = t->end - t->start;
+  char *buf;
+  if (t->type != JSMN_STRING)
+    return errx(dliteParseError, "expected a string, got: %.*s",
+                len, src + t->start), NULL;
+  if (!(buf = malloc(len + 1)))
+    return err(dliteMemoryError, "allocation failure"), NULL;
+  strnunquote(buf, len + 1, src + t->start, len, NULL,
+              strquoteNoQuote | strquoteInitialBlanks);
+  return buf;
+}
+
 /* Returns a malloc buffer with the URI of `obj` or NULL on error. */
 static char *get_uri(const char *src, const jsmntok_t *obj)
 {
   const jsmntok_t *t, *t1, *t2, *t3;
   if ((t = jsmn_item(src, obj, "uri")))
-    return strndup(src + t->start, t->end - t->start);
+    return tokstr(src, t);
   if ((t = jsmn_item(src, obj, "identity")))
-    return strndup(src + t->start, t->end - t->start);
+    return tokstr(src, t);
   if ((t1 = jsmn_item(src, obj, "name")) &&
       (t2 = jsmn_item(src, obj, "version")) &&
       (t3 = jsmn_item(src, obj, "namespace"))) {
-    char *buf=NULL;
-    asprintf(&buf, "%.*s/%.*s/%.*s",
-             t3->end - t3->start, src + t3->start,
-             t2->end - t2->start, src + t2->start,
-             t1->end - t1->start, src + t1->start);
+    char *buf=NULL, *name, *version, *namespace;
+    name = tokstr(src, t1);
+    version = tokstr(src, t2);
+    namespace = tokstr(src, t3);
+    if (name && version && namespace &&
+        asprintf(&buf, "%s/%s/%s", namespace, version, name) < 0) buf = NULL;
+    free(name);
+    free(version);
+    free(namespace);
     return buf;
   }
   return NULL;
@@ -512,7 +557,6 @@ static char *get_meta_uri(const char *src, const jsmntok_t *obj)
 {
   const jsmntok_t *item;
   char *buf=NULL;
-  size_t size=0;
   const char *s = src + obj->start;
   int len = obj->end - obj->start;
   if (!(item = jsmn_item(src, (jsmntok_t *)obj, "meta")))
@@ -522,7 +566,7 @@ static char *get_meta_uri(const char *src, const jsmntok_t *obj)
     if (!(buf = get_uri(src, item)))
       FAIL2("invalid meta for object %.*s", len, s);
   } else if (item->type == JSMN_STRING) {
-    strnput(&buf, &size, 0, src + item->start, item->end - item->start);
+    buf = tokstr(src, item);
   } else
     return err(1, "\"meta\" in json repr. of instance should be either an "
                "object or a string: %.*s", len, s), NULL;
@@ -539,7 +583,7 @@ static int get_uuid(char uuid[DLITE_UUID_LENGTH+1], const char *src,
   if (!(item = jsmn_item(src, (jsmntok_t *)obj, "uuid"))) return 1;
   if (item->end - item->start != DLITE_UUID_LENGTH)
     return err(dliteParseError, "UUID should have length %d, got %d",
-               item->end - item->start, DLITE_UUID_LENGTH);
+               DLITE_UUID_LENGTH, item->end - item->start);
   if (dlite_get_uuidn(uuid, src+item->start, item->end-item->start) < 0)
     return -1;
   return 0;
@@ -581,7 +625,10 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   jsmntype_t dimtype = 0;
   char *name=NULL, *version=NULL, *namespace=NULL;
 
-  assert(obj->type == JSMN_OBJECT);
+  if (obj->type != JSMN_OBJECT)
+    return errx(dliteParseError, "instance should be represented by a JSON "
+                "object, got: %.*s", obj->end - obj->start,
+                src + obj->start), NULL;
 
   /* If instance already exists, return it immediately */
   if (id && dlite_instance_has(id, 0))
@@ -590,8 +637,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   /* Get uri and uuid */
   uri = get_uri(src, obj);
   if (!uri && (item = jsmn_item(src, obj, "uuid"))) {
-    strncpy(uuid, src + item->start, DLITE_UUID_LENGTH);
-    uuid[DLITE_UUID_LENGTH] = '\0';
+    if (get_uuid(uuid, src, obj)) goto fail;
   } else {
     if (dlite_get_uuid(uuid, (uri) ? uri : id) < 0) goto fail;
   }
@@ -605,10 +651,23 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
                  "inconsistent with the instance UUID (%s). "
                  "This may be due to the namespacedID behavior change. "
                  "Ignoring the URI.", id, uri, uuid, uuid2);
+      free(uri);
       uri = NULL;
+      strcpy(uuid, uuid2);
     }
   }
   if (uri) id = uri;
+  if (!id || !*id) {
+    /* No id or uri provided, use the uuid */
+    if (dlite_instance_has(uuid, 0)) {
+      inst = dlite_instance_get(uuid);
+      goto done;
+    }
+    id = uuid;
+  } else if (dlite_instance_has(id, 0)) {
+    inst = dlite_instance_get(id);
+    goto done;
+  }
 
   /* Get metadata */
   if ((item = jsmn_item(src, obj, "meta"))) {
@@ -652,9 +711,13 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
           DLiteDimension *d = meta->_dimensions + i;
           if (!(t = jsmn_item(src, item, d->name)))
             FAIL2("missing dimension \"%s\" in %s", d->name, id);
-          if (t->type == JSMN_PRIMITIVE)
-            dims[i] = atoi(src + t->start);
-          else
+          if (t->type == JSMN_PRIMITIVE && isdigit((unsigned char)src[t->start])) {
+            unsigned long v = strtoul(src + t->start, NULL, 10);
+            if (v > INT_MAX)
+              FAIL3("too large dimension '%.*s': %s",
+                    t->end-t->start, src+t->start, id);
+            dims[i] = v;
+          } else
             FAIL3("value '%.*s' of dimension should be an integer: %s",
                   t->end-t->start, src+t->start, id);
         }
@@ -709,19 +772,8 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
       if (DLITE_PROP_NDIM(inst, i) > 0) ptr = *(void **)ptr;
 
       if ((t = jsmn_item(src, base, p->name))) {
-        if (t->type == JSMN_ARRAY) {
-          if (dlite_property_jscan(src, t, NULL, ptr, p, pdims, 0) < 0)
-            goto fail;
-        } else if (t->type == JSMN_OBJECT) {
-          if (dlite_property_jscan(src, t, p->name, ptr, p, pdims, 0) < 0)
-            goto fail;
-        } else {
-          if (!ptr)
-            FAIL1("cannot assign property with NULL destination: %s", p->name);
-          if (dlite_type_scan(src+t->start, t->end - t->start, ptr, p->type,
-                              p->size, 0) < 0)
-            goto fail;
-        }
+        if (dlite_property_jscan(src, t, p->name, ptr, p, pdims, 0) < 0)
+          goto fail;
       } else if (dlite_instance_is_meta(inst)) {
         /* -- if not given, use inferred name, version and namespace */
         if (strcmp(p->name, "name") == 0) {
@@ -740,7 +792,9 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
       if (meta->_loadprop) meta->_loadprop(inst, i);
     }
   }
-  if (dlite_instance_is_meta(inst)) dlite_meta_init((DLiteMeta *)inst);
+  if (dlite_instance_is_meta(inst) && dlite_meta_init((DLiteMeta *)inst))
+    goto fail;
+ done:
   ok = 1;
  fail:
   if (name) free(name);
@@ -752,7 +806,8 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   if (metauri) free(metauri);
   if (!ok && inst) {
     /* Metadata has an extra refcount, so loop until refcount is zero */
-    while (inst->_refcount)
+    int count = inst->_refcount;
+    while (count-- > 0)
       dlite_instance_decref(inst);
     inst = NULL;
   }
@@ -790,7 +845,7 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
   r = jsmn_parse_alloc(&parser, src, srclen, &tokens, &ntokens);
   if (r < 0) FAIL1("error parsing json: %s", jsmn_strerror(r));
   root = tokens;
-  if (root->type != JSMN_OBJECT) FAIL("json root should be an object");
+  if (r < 1 || root->type != JSMN_OBJECT) FAIL("json root should be an object");
 
   if (jsmn_item(src, root, "properties")) {
     inst = parse_instance(src, root, id);
@@ -808,7 +863,7 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
     if (t2) FAIL("`id` (or `metaid`) is required when scanning json input "
                  "with multiple instances");
     jsmntok_t *val = (jsmntok_t *)t1 + 1;
-    buf = strndup(src + t1->start, t1->end - t1->start);
+    if (!(buf = tokstr(src, t1))) goto fail;
     inst = parse_instance(src, val, buf);
   } else {
     int n=1;
@@ -818,9 +873,8 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
       char uuid2[DLITE_UUID_LENGTH+1];
       jsmntok_t *key = root + n;
       jsmntok_t *val = root + n+1;
-      int len = key->end - key->start;
       if (key->type != JSMN_STRING) FAIL("expect json keys to be strings");
-      buf = strndup(src+key->start, len);
+      if (!(buf = tokstr(src, key))) goto fail;
       if (dlite_get_uuid(uuid2, buf) < 0) goto fail;
       free(buf);
       buf = NULL;
@@ -836,7 +890,7 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
   if (metaid) {
     char uuid[DLITE_UUID_LENGTH + 1];
     if (dlite_get_uuid(uuid, metaid) < 0 ||
-        (strcmp(metaid, uuid) != 0 && strcmp(metaid, inst->meta->uri) != 0)) {
+        strcmp(uuid, inst->meta->uuid) != 0) {
       if (!id) id = inst->uuid;
       err(1, "instance '%s' has meta id '%s' but '%s' is expected",
           id, inst->meta->uri, metaid);
@@ -966,10 +1020,9 @@ DLiteJsonFormat dlite_json_check(const char *src, const jsmntok_t *tokens,
     fmt = dliteJsonMetaFormat;
     flg |= dliteJsonArrays;
   } else if (props->type == JSMN_OBJECT) {
-    prop = props + 1;
-    assert(prop);
-    if (prop->type == JSMN_OBJECT)
-      fmt = (jsmn_item(src, item, "type")) ?
+    prop = (props->size) ? props + 2 : NULL;  // value of first property
+    if (prop && prop->type == JSMN_OBJECT)
+      fmt = (jsmn_item(src, prop, "type")) ?
         dliteJsonMetaFormat : dliteJsonDataFormat;
     else
       fmt = dliteJsonDataFormat;
@@ -1006,6 +1059,7 @@ DLiteJsonFormat dlite_json_scheck(const char *src, size_t len,
   jsmn_init(&parser);
   r = jsmn_parse_alloc(&parser, src, len, &tokens, &ntokens);
   if (r < 0) FAIL1("error parsing json: %s", jsmn_strerror(r));
+  if (r == 0) FAIL("json root should be an object");
 
   format = dlite_json_check(src, tokens, id, flags);
  fail:
@@ -1087,7 +1141,7 @@ static const jsmntok_t *nexttok(DLiteJsonIter *iter, int *length)
     if (*iter->metauuid) {
       char uuid[DLITE_UUID_LENGTH+1];
       const jsmntok_t *v = t + 1;
-      get_meta_uuid(uuid, iter->src, v);
+      if (v->type != JSMN_OBJECT || get_meta_uuid(uuid, iter->src, v)) continue;
       if (strncmp(uuid, iter->metauuid, DLITE_UUID_LENGTH) == 0) return t;
     } else
       return t;
@@ -1121,7 +1175,7 @@ DLiteJsonIter *dlite_json_iter_create(const char *src, int length,
   jsmn_init(&parser);
   r = jsmn_parse_alloc(&parser, src, length, &iter->tokens, &iter->ntokens);
   if (r < 0) FAIL1("error parsing json: %s", jsmn_strerror(r));
-  if (r == 0) goto fail;
+  if (r == 0) FAIL("json root should be an object");
   if (iter->tokens->type != JSMN_OBJECT) FAIL("json root should be an object");
   iter->src = src;
   iter->t = iter->tokens + 1;
@@ -1199,7 +1253,7 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
   if ((r = jsmn_parse_alloc(&parser, src, len, &tokens, &ntokens)) < 0)
     FAIL3("error parsing json string: \"%.30s%s\": %s",
           src, dots, jsmn_strerror(r));
-  if (tokens->type != JSMN_OBJECT)
+  if (r == 0 || tokens->type != JSMN_OBJECT)
     FAIL2("root of json data must be an object: \"%.30s%s\"", src, dots);
 
   if ((format = dlite_json_check(src, tokens, NULL, &flags)) < 0) goto fail;
@@ -1219,7 +1273,7 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
                   uri, uuid);
       if (!uuid[0]) strncpy(uuid, uuid2, sizeof(uuid));
     }
-    jstore_addn(js, uuid, DLITE_UUID_LENGTH, src, len);
+    if (jstore_addn(js, uuid, DLITE_UUID_LENGTH, src, len)) goto fail;
   } else {
     jsmntok_t *t = tokens + 1;
     int i;
@@ -1230,6 +1284,9 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
          uuid to the jstore */
       const char *id = src + t->start;
       int len = t->end - t->start;
+      if (v->type != JSMN_OBJECT)
+        FAILCODE2(dliteParseError, "value of \"%.*s\" must be an object",
+                  len, id);
       if (dlite_get_uuidn(uuid, id, len) < 0)
         goto fail;
       else if (len != DLITE_UUID_LENGTH || !dlite_isuuid(id))
-- 
2.43.0


From c48063483866741baa15780ce0ebbaa199411ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 020/132] fix: check indices, immutability and empty arrays
 when accessing properties and dimensions by index

---
 src/dlite-entity.c | 81 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index c1b823a..51d6c3b 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <stddef.h>
 #include <string.h>
@@ -1312,6 +1313,24 @@ void *dlite_instance_get_property_by_index(const DLiteInstance *inst, size_t i)
 }
 
 
+/*
+  Help function assigning `*ptr` to the data of property `i`.  It will be
+  assigned to NULL for arrays without elements.
+
+  Returns non-zero on error.
+ */
+static int get_property_pointer(const DLiteInstance *inst, size_t i, void **ptr)
+{
+  if ((*ptr = dlite_instance_get_property_by_index(inst, i))) return 0;
+  if (i < inst->meta->_nproperties && inst->meta->_properties[i].ndims > 0) {
+    int j;
+    for (j=0; j < inst->meta->_properties[i].ndims; j++)
+      if (DLITE_PROP_DIM(inst, i, j) == 0) return 0;
+  }
+  return 1;
+}
+
+
 /*
   Copies memory pointed to by `ptr` to property `i`.
   Returns non-zero on error.
@@ -1320,7 +1339,7 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
 					 const void *ptr)
 {
   const DLiteMeta *meta = inst->meta;
-  DLiteProperty *p = meta->_properties + i;
+  DLiteProperty *p;
   void *dest;
   size_t nmemb=1;
   int j;
@@ -1328,6 +1347,8 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
   if (inst->_flags & dliteImmutable)
     return err(1, "cannot set property on immutable instance: %s",
                (inst->uri) ? inst->uri : inst->uuid);
+  if (!(p = (DLiteProperty *)dlite_meta_get_property_by_index(meta, i)))
+    return -1;
 
   /* Count members */
   if (p->ndims)
@@ -1439,7 +1460,6 @@ int dlite_instance_get_dimension_size(const DLiteInstance *inst,
   if (!inst->meta)
     return errx(dliteMissingMetadataError, "no metadata available");
   if ((i = dlite_meta_get_dimension_index(inst->meta, name)) < 0) return -1;
-  assert(i < (int)inst->meta->_nproperties);
   return dlite_instance_get_dimension_size_by_index(inst, i);
 }
 
@@ -1589,7 +1609,7 @@ int dlite_instance_print_property_by_index(char *dest, size_t n,
   if (i >= inst->meta->_nproperties)
     return errx(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
                 (int)i, (int)inst->meta->_nproperties, inst->meta->uri);
-  if (!(ptr = dlite_instance_get_property_by_index(inst, i))) return -1;
+  if (get_property_pointer(inst, i, &ptr)) return -1;
   if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return -1;
   shape = DLITE_PROP_DIMS(inst, i);
   assert(shape);
@@ -1632,7 +1652,7 @@ int dlite_instance_aprint_property_by_index(char **dest, size_t *n,
   if (i >= inst->meta->_nproperties)
     return errx(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
                 (int)i, (int)inst->meta->_nproperties, inst->meta->uri);
-  if (!(ptr = dlite_instance_get_property_by_index(inst, i))) return -1;
+  if (get_property_pointer(inst, i, &ptr)) return -1;
   if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return -1;
   shape = DLITE_PROP_DIMS(inst, i);
   assert(shape);
@@ -1671,7 +1691,10 @@ int dlite_instance_scan_property_by_index(const char *src,
   if (i >= inst->meta->_nproperties)
     return errx(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
                 (int)i, (int)inst->meta->_nproperties, inst->meta->uri);
-  if (!(ptr = dlite_instance_get_property_by_index(inst, i))) return -1;
+  if (inst->_flags & dliteImmutable)
+    return err(-1, "cannot set property on immutable instance: %s",
+               (inst->uri) ? inst->uri : inst->uuid);
+  if (get_property_pointer(inst, i, &ptr)) return -1;
   if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return -1;
   shape = DLITE_PROP_DIMS(inst, i);
   assert(shape);
@@ -1873,7 +1896,14 @@ int dlite_instance_set_dimension_size_by_index(DLiteInstance *inst,
 {
   size_t j;
   int retval;
-  int *dims = malloc(inst->meta->_ndimensions * sizeof(int));
+  int *dims;
+  if (i >= inst->meta->_ndimensions)
+    return errx(dliteIndexError, "no dimension with index %d in %s",
+                (int)i, inst->meta->uri);
+  if (size > INT_MAX)
+    return errx(dliteIndexError, "too large size of dimension %d in %s",
+                (int)i, inst->meta->uri);
+  dims = malloc(inst->meta->_ndimensions * sizeof(int));
   if (!dims) return err(dliteMemoryError, "allocation failure");
   for (j=0; j < inst->meta->_ndimensions; j++) dims[j] = -1;
   dims[i] = size;
@@ -1952,9 +1982,10 @@ dlite_instance_get_property_array_by_index(const DLiteInstance *inst,
   void *ptr;
   int ndims=1;
   size_t dim=1, *shape=&dim;
-  DLiteProperty *p = DLITE_PROP_DESCR(inst, i);
+  const DLiteProperty *p;
   DLiteArray *arr = NULL;
-  if (!(ptr = dlite_instance_get_property_by_index(inst, i))) goto fail;
+  if (get_property_pointer(inst, i, &ptr)) goto fail;
+  if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) goto fail;
   if (p->ndims > 0) {
     int j;
     if (!(shape = malloc(p->ndims*sizeof(size_t)))) goto fail;
@@ -2017,9 +2048,11 @@ int dlite_instance_copy_property_by_index(const DLiteInstance *inst, int i,
                                           int order, void *dest)
 {
   int retval=1;
-  DLiteProperty *p = inst->meta->_properties + i;
-  DLiteArray *arr = dlite_instance_get_property_array(inst, p->name, order);
-  if (!arr) return 1;
+  const DLiteProperty *p;
+  DLiteArray *arr;
+  if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return 1;
+  if (!(arr = dlite_instance_get_property_array_by_index(inst, i, order)))
+    return 1;
   retval = dlite_instance_cast_property_by_index(inst, i, p->type, p->size,
                                                  arr->shape, arr->strides,
                                                  dest, NULL);
@@ -2047,9 +2080,12 @@ int dlite_instance_cast_property_by_index(const DLiteInstance *inst,
                                           void *dest,
                                           DLiteTypeCast castfun)
 {
-  void *src = dlite_instance_get_property_by_index(inst, i);
-  DLiteProperty *p = inst->meta->_properties + i;
-  size_t *sdims = DLITE_PROP_DIMS(inst, i);
+  void *src;
+  const DLiteProperty *p;
+  size_t *sdims;
+  if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return 1;
+  if (get_property_pointer(inst, i, &src)) return 1;
+  sdims = DLITE_PROP_DIMS(inst, i);
   return dlite_type_ndcast(p->ndims,
                            dest, type, size, shape, strides,
                            src, p->type, p->size, sdims, NULL,
@@ -2073,7 +2109,7 @@ int dlite_instance_assign_property(const DLiteInstance *inst, const char *name,
   DLiteArray *arr;
   if ((i = dlite_meta_get_property_index(inst->meta, name)) < 0) return 1;
   p = inst->meta->_properties + i;
-  if (!(arr = dlite_instance_get_property_array(inst, p->name, order)))
+  if (!(arr = dlite_instance_get_property_array_by_index(inst, i, order)))
     return 1;
   retval =
     dlite_instance_assign_casted_property_by_index(inst, i, p->type, p->size,
@@ -2102,9 +2138,15 @@ int dlite_instance_assign_casted_property_by_index(const DLiteInstance *inst,
                                                    const void *src,
                                                    DLiteTypeCast castfun)
 {
-  void *dest = dlite_instance_get_property_by_index(inst, i);
-  DLiteProperty *p = inst->meta->_properties + i;
-  size_t *dims = DLITE_PROP_DIMS(inst, i);
+  void *dest;
+  const DLiteProperty *p;
+  size_t *dims;
+  if (inst->_flags & dliteImmutable)
+    return err(1, "cannot set property on immutable instance: %s",
+               (inst->uri) ? inst->uri : inst->uuid);
+  if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return 1;
+  if (get_property_pointer(inst, i, &dest)) return 1;
+  dims = DLITE_PROP_DIMS(inst, i);
   return dlite_type_ndcast(p->ndims,
                            dest, p->type, p->size, dims, NULL,
                            src, type, size, shape, strides,
@@ -2871,6 +2913,9 @@ const DLiteDimension *dlite_meta_get_dimension(const DLiteMeta *meta,
 const DLiteProperty *
 dlite_meta_get_property_by_index(const DLiteMeta *meta, size_t i)
 {
+  if (i >= meta->_nproperties)
+    return err(dliteIndexError, "invalid property index %d in %s",
+               (int)i, meta->uri), NULL;
   return meta->_properties + i;
 }
 
-- 
2.43.0


From 891ee67bba596fdfe90fc8fd0cc8fe30a382aec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 021/132] fix: instance creation, resizing and copying:
 reference counting of ref properties, size limits, identity conflicts and
 empty arrays

---
 src/dlite-entity.c | 175 ++++++++++++++++++++++++++++++---------------
 1 file changed, 119 insertions(+), 56 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 51d6c3b..a1fe1f4 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2,6 +2,7 @@
 #include <limits.h>
 #include <stdlib.h>
 #include <stddef.h>
+#include <stdint.h>
 #include <string.h>
 #include <ctype.h>
 
@@ -60,7 +61,7 @@ typedef map_t(DLiteInstance *) instance_map_t;
 static instance_map_t *_instance_store(void);
 static void _instance_store_free(void *instance_store);
 static int _instance_store_add(const DLiteInstance *inst);
-static int _instance_store_remove(const char *id);
+static int _instance_store_remove(DLiteInstance *inst);
 static DLiteInstance *_instance_store_get(const char *id);
 
 
@@ -144,17 +145,15 @@ static int _instance_store_add(const DLiteInstance *inst)
   return 0;
 }
 
-/* Removes instance `uuid` from global instance store.  Returns non-zero
-   on error.*/
-static int _instance_store_remove(const char *uuid)
+/* Removes `inst` from global instance store, if it is there.  Returns
+   non-zero on error.*/
+static int _instance_store_remove(DLiteInstance *inst)
 {
   instance_map_t *istore = _instance_store();
-  DLiteInstance *inst, **q;
+  DLiteInstance **q;
   assert(istore);
-  if (!(q = map_get(istore, uuid)))
-    return errx(dliteMissingInstanceError, "cannot remove %s since it is not in store", uuid);
-  inst = *q;
-  map_remove(istore, uuid);
+  if (!(q = map_get(istore, inst->uuid)) || *q != inst) return 0;
+  map_remove(istore, inst->uuid);
 
   if (dlite_instance_is_meta(inst) && inst->_refcount > 0)
     dlite_instance_decref(inst);
@@ -342,11 +341,12 @@ char** dlite_istore_get_uuids(int* nuuids)
   *nuuids = 0;
   while ((uuid = map_next(istore, &iter))) (*nuuids)++;
 
+  int i;
   char** uuids;
   if (!(uuids = calloc((*nuuids + 1), sizeof(char*))))
     FAILCODE(dliteMemoryError, "allocation failure");
 
-  int i = 0;
+  i = 0;
   iter = map_iter(istore);
   while ((uuid = map_next(istore, &iter))) {
     if (!(uuids[i] = malloc(DLITE_UUID_LENGTH + 1)))
@@ -359,7 +359,7 @@ char** dlite_istore_get_uuids(int* nuuids)
 
  fail:
   if (uuids) {
-    for (i=0; uuid[i]; i++) free(uuids[i]);
+    for (i=0; uuids[i]; i++) free(uuids[i]);
     free(uuids);
   }
   return NULL;
@@ -387,6 +387,9 @@ static int _instance_propdims_eval(DLiteInstance *inst, const size_t *dims)
   if (!(vars = calloc(meta->_ndimensions, sizeof(InfixCalcVariable))))
     FAILCODE(dliteMemoryError, "allocation failure");
   for (i=0; i < meta->_ndimensions; i++) {
+    if (dims[i] > INT_MAX)
+      FAILCODE2(dliteIndexError, "too large size of dimension \"%s\" in %s",
+                meta->_dimensions[i].name, meta->uri);
     vars[i].name = meta->_dimensions[i].name;
     vars[i].value = dims[i];
   }
@@ -395,12 +398,17 @@ static int _instance_propdims_eval(DLiteInstance *inst, const size_t *dims)
     DLiteProperty *p = meta->_properties + i;
     int j;
     char errmsg[256] = "";
+    size_t nmemb=1;
     for (j=0; j < p->ndims; j++) {
       int size = infixcalc(p->shape[j], vars, meta->_ndimensions,
                            errmsg, sizeof(errmsg));
       if (errmsg[0]) FAILCODE1(dliteSyntaxError, "invalid property dimension expression: %s", errmsg);
       if (size < 0) FAILCODE2(dliteValueError, "property dimension expression \"%s\" has negative value: %d", p->shape[j], size);
       propdims[n++] = size;
+      if (size && p->size && nmemb > PTRDIFF_MAX / p->size / size)
+        FAILCODE2(dliteMemoryError, "too large size of property \"%s\" in %s",
+                  p->name, meta->uri);
+      nmemb *= size;
     }
   }
   assert(n == meta->_npropdims);
@@ -432,12 +440,23 @@ static DLiteInstance *_instance_create(const DLiteMeta *meta,
     warn("trying to create new instance with id '%s' - creates a new "
         "reference instead (refcount=%d)", id, inst->_refcount);
 
+    /* Check that the existing instance has the same metadata. */
+    if (inst->meta != meta && strcmp(inst->meta->uuid, meta->uuid) != 0) {
+      err(dliteInconsistentDataError, "cannot create instance '%s' of %s since it "
+          "already exists as an instance of %s", id, meta->uri, inst->meta->uri);
+      dlite_instance_decref(inst);
+      return NULL;
+    }
+
     /* Check that `dims` corresponds to the dims of the existing instance. */
     for (i=0; i < meta->_ndimensions; i++) {
-      if (dims[i] != dlite_instance_get_dimension_size_by_index(inst, i))
-        FAILCODE3(dliteIndexError, "mismatch of dimension %d. Trying to create with size %d "
-              "but existing instance has size %d", (int)i, (int)dims[i],
-              (int)dlite_instance_get_dimension_size_by_index(inst, i));
+      if (dims[i] != dlite_instance_get_dimension_size_by_index(inst, i)) {
+        err(dliteIndexError, "mismatch of dimension %d. Trying to create with size %d "
+            "but existing instance has size %d", (int)i, (int)dims[i],
+            (int)dlite_instance_get_dimension_size_by_index(inst, i));
+        dlite_instance_decref(inst);
+        return NULL;
+      }
     }
     return inst;
   }
@@ -475,7 +494,8 @@ static DLiteInstance *_instance_create(const DLiteMeta *meta,
       for (j=0; j<p->ndims; j++)
         nmemb *= DLITE_PROP_DIM(inst, i, j);
       if (nmemb > 0) {
-        if (!(*ptr = calloc(nmemb, size))) goto fail;
+        if (!(*ptr = calloc(nmemb, size)))
+          FAILCODE1(dliteMemoryError, "cannot allocate property \"%s\"", p->name);
       } else {
         *ptr = NULL;
       }
@@ -492,7 +512,8 @@ static DLiteInstance *_instance_create(const DLiteMeta *meta,
   if (meta->_init && meta->_init(inst)) goto fail;
 
   /* Add to instance cache */
-  if (_instance_store_add(inst)) goto fail;
+  if (_instance_store_add(inst))
+    FAILCODE1(dliteInconsistentDataError, "instance already exists: %s", inst->uuid);
 
   /* Increase reference count of metadata */
   dlite_meta_incref((DLiteMeta *)meta);
@@ -546,7 +567,7 @@ DLiteInstance *dlite_instance_create_from_id(const char *metaid,
 {
   DLiteMeta *meta;
   DLiteInstance *inst=NULL;
-  if (!(meta = (DLiteMeta *)dlite_instance_get(metaid)))
+  if (!(meta = dlite_meta_get(metaid)))
     FAILCODE1(dliteMissingMetadataError, "cannot find metadata '%s'", metaid);
   inst = dlite_instance_create(meta, dims, id);
  fail:
@@ -568,8 +589,9 @@ static int dlite_instance_free(DLiteInstance *inst)
   /* Additional deinitialisation */
   if (meta->_deinit) meta->_deinit(inst);
 
-  /* Remove from instance cache */
-  stat = _instance_store_remove(inst->uuid);
+  /* Remove from instance cache (an instance that could not be fully
+     created is not in the cache) */
+  stat = _instance_store_remove(inst);
 
   /* For transactions, decrease refcount of parent */
   if (inst->_parent) {
@@ -948,7 +970,7 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
 
   /* ...otherwise try to load it from storage */
   if (!meta) {
-    char uuid[DLITE_UUID_LENGTH];
+    char uuid[DLITE_UUID_LENGTH+1];
     dlite_get_uuid(uuid, uri);
     meta = (DLiteMeta *)dlite_instance_load(s, uuid);
   }
@@ -1356,25 +1378,29 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
 
   /* Consistency check for dliteRef */
   if (p->type == dliteRef && p->ref) {
-    if (p->ndims) {
-      size_t n;
-      DLiteInstance **q = (DLiteInstance **)ptr;
-      for (n=0; n<nmemb; n++, q++) {
-        const char *ref = (*q)->meta->uri;
-        if (strcmp(ref, p->ref))
-          return err(dliteValueError, "Invalid reference. Expected %s, but got %s",
-                     p->ref, ref);
-      }
-    } else {
-      const char *ref = (*(DLiteInstance **)ptr)->meta->uri;
-      if (strcmp(ref, p->ref))
+    size_t n;
+    DLiteInstance **q = (DLiteInstance **)ptr;
+    for (n=0; n<nmemb; n++, q++) {
+      if (*q && strcmp((*q)->meta->uri, p->ref))
         return err(dliteValueError, "Invalid reference. Expected %s, but got %s",
-                   p->ref, ref);
+                   p->ref, (*q)->meta->uri);
     }
   }
 
   /* Copy */
-  if (p->ndims > 0) {
+  if (p->type == dliteRef) {
+    /* The property owns a reference to each instance it refers to */
+    size_t n;
+    DLiteInstance **src = (DLiteInstance **)ptr;
+    DLiteInstance **q = (p->ndims > 0) ? *((void **)DLITE_PROP(inst, i)) :
+      DLITE_PROP(inst, i);
+    for (n=0; n<nmemb; n++) {
+      DLiteInstance *old = q[n];
+      if (src[n]) dlite_instance_incref(src[n]);
+      q[n] = src[n];
+      if (old) dlite_instance_decref(old);
+    }
+  } else if (p->ndims > 0) {
     size_t n;
     dest = *((void **)DLITE_PROP(inst, i));
     if (dlite_type_is_allocated(p->type)) {
@@ -1798,7 +1824,8 @@ int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
   size_t n;
   size_t *xdims=NULL;
   size_t *oldpropdims=NULL;
-  int *oldmembs=NULL;
+  size_t *oldmembs=NULL;
+  void **newptrs=NULL;
 
   if (inst->_flags & dliteImmutable)
     return err(1, "cannot set property on immutable instance: %s",
@@ -1809,7 +1836,7 @@ int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
 
   if (inst->meta->_setdim)
     for (n=0; n < inst->meta->_ndimensions; n++)
-      if (inst->meta->_setdim(inst, n, dims[n]) < 0) goto fail;
+      if (dims[n] >= 0 && inst->meta->_setdim(inst, n, dims[n]) < 0) goto fail;
 
   if (!(xdims = calloc(inst->meta->_ndimensions, sizeof(size_t))))
     FAILCODE(dliteMemoryError, "Allocation failure");
@@ -1822,7 +1849,7 @@ int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
   memcpy(oldpropdims, DLITE_PROP_DIMS(inst, 0),
          inst->meta->_npropdims * sizeof(size_t));
 
-  if (!(oldmembs = calloc(inst->meta->_nproperties, sizeof(int))))
+  if (!(oldmembs = calloc(inst->meta->_nproperties, sizeof(size_t))))
     FAILCODE(dliteMemoryError, "Allocation failure");
   for (n=0; n < inst->meta->_nproperties; n++) {
     DLiteProperty *p = inst->meta->_properties + n;
@@ -1834,10 +1861,24 @@ int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
   /* evaluate new propdims */
   if (_instance_propdims_eval(inst, xdims)) goto fail;
 
+  /* allocate memory for properties that grow before changing anything */
+  if (!(newptrs = calloc(inst->meta->_nproperties, sizeof(void *))))
+    FAILCODE(dliteMemoryError, "Allocation failure");
+  for (n=0; n < inst->meta->_nproperties; n++) {
+    DLiteProperty *p = inst->meta->_properties + n;
+    size_t newmembs=1;
+    if (p->ndims <= 0) continue;
+    for (i=0; i < p->ndims; i++)
+      newmembs *= DLITE_PROP_DIM(inst, n, i);
+    if (newmembs > oldmembs[n] &&
+        !(newptrs[n] = calloc(newmembs, p->size)))
+      FAILCODE1(dliteMemoryError, "cannot allocate property \"%s\"", p->name);
+  }
+
   /* reallocate properties */
   for (n=0; n < inst->meta->_nproperties; n++) {
     DLiteProperty *p = inst->meta->_properties + n;
-    int newmembs=1, oldsize, newsize;
+    size_t j, newmembs=1, oldsize, newsize;
     void **ptr = DLITE_PROP(inst, n);
     if (p->ndims <= 0) continue;
     for (i=0; i < p->ndims; i++)
@@ -1850,19 +1891,19 @@ int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
     } else if (newmembs > 0) {
       void **q;
       if (newmembs < oldmembs[n])
-        for (i=newmembs; i < oldmembs[n]; i++)
-          dlite_type_clear((char *)(*ptr) + i*p->size, p->type, p->size);
-      if (!(q = realloc(*ptr, newsize))) {
+        for (j=newmembs; j < oldmembs[n]; j++)
+          dlite_type_clear((char *)(*ptr) + j*p->size, p->type, p->size);
+      if (!(q = newptrs[n]) && !(q = realloc(*ptr, newsize)))
+        q = *ptr;  /* failed to shrink, keep the old memory */
+      newptrs[n] = NULL;
+      if (q != *ptr && newmembs > oldmembs[n]) {
+        if (oldsize) memcpy(q, *ptr, oldsize);
         free(*ptr);
-        return err(dliteMemoryError, "error reallocating '%s' to size %d", p->name, newsize);
       }
       *ptr = q;
-
-      if (newmembs > oldmembs[n])
-        memset((char *)(*ptr) + oldsize, 0, newsize - oldsize);
     } else if (*ptr) {
-      for (i=0; i < oldmembs[n]; i++)
-        dlite_type_clear((char *)(*ptr) + i*p->size, p->type, p->size);
+      for (j=0; j < oldmembs[n]; j++)
+        dlite_type_clear((char *)(*ptr) + j*p->size, p->type, p->size);
       free(*ptr);
       *ptr = NULL;
     } else {
@@ -1884,6 +1925,10 @@ int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
   if (xdims) free(xdims);
   if (oldpropdims) free(oldpropdims);
   if (oldmembs) free(oldmembs);
+  if (newptrs) {
+    for (n=0; n < inst->meta->_nproperties; n++) free(newptrs[n]);
+    free(newptrs);
+  }
   return retval;
 }
 
@@ -1941,6 +1986,9 @@ DLiteInstance *dlite_instance_copy(const DLiteInstance *inst, const char *newid)
   DLiteInstance *new=NULL;
   size_t i;
   if (dlite_instance_sync_to_properties((DLiteInstance *)inst)) return NULL;
+  if (newid && *newid && dlite_instance_has(newid, 0))
+    return err(dliteValueError, "cannot copy to already existing instance: %s",
+               newid), NULL;
   if (!(new = dlite_instance_create(inst->meta, DLITE_DIMS(inst), newid)))
     return NULL;
   if (inst->_parent) {
@@ -1951,10 +1999,12 @@ DLiteInstance *dlite_instance_copy(const DLiteInstance *inst, const char *newid)
       dlite_instance_incref((DLiteInstance *)new->_parent->parent);
   }
   for (i=0; i < inst->meta->_nproperties; i++) {
-    void *src = dlite_instance_get_property_by_index(inst, i);
-    assert(src);
+    void *src;
+    if (get_property_pointer(inst, i, &src)) goto fail;
     if (dlite_instance_set_property_by_index(new, i, src)) goto fail;
   }
+  if (dlite_instance_is_meta(new) && dlite_meta_init((DLiteMeta *)new))
+    goto fail;
   return new;
  fail:
   if (new) dlite_instance_decref(new);
@@ -2456,17 +2506,19 @@ int dlite_instance_set_parent(DLiteInstance *inst, const DLiteInstance *parent)
   if (dlite_instance_get_hash(parent, hash, DLITE_HASH_SIZE))
     return err(-1, "Error calculating hash of parent instance \"%s\"",
                (parent->uri) ? parent->uri : parent->uuid);
+  dlite_instance_incref((DLiteInstance *)parent);
   if (p) {
     if (p->parent) dlite_instance_decref((DLiteInstance *)p->parent);
   } else {
-    if (!(p = calloc(1, sizeof(DLiteParent))))
+    if (!(p = calloc(1, sizeof(DLiteParent)))) {
+      dlite_instance_decref((DLiteInstance *)parent);
       return err(-1, "Allocation failure");
+    }
     inst->_parent = p;
   }
   p->parent = parent;
   strncpy(p->uuid, parent->uuid, DLITE_UUID_LENGTH+1);
   memcpy(p->hash, hash, DLITE_HASH_SIZE);
-  dlite_instance_incref((DLiteInstance *)p->parent);
   return 0;
 }
 
@@ -2806,7 +2858,13 @@ int dlite_meta_decref(DLiteMeta *meta)
 */
 DLiteMeta *dlite_meta_get(const char *id)
 {
-  return (DLiteMeta *)dlite_instance_get(id);
+  DLiteInstance *inst = dlite_instance_get(id);
+  if (!inst) return NULL;
+  if (!dlite_instance_is_meta(inst)) {
+    dlite_instance_decref(inst);
+    return err(dliteTypeError, "not metadata: %s", id), NULL;
+  }
+  return (DLiteMeta *)inst;
 }
 
 
@@ -2818,8 +2876,11 @@ DLiteMeta *dlite_meta_load(const DLiteStorage *s, const char *id)
 {
   DLiteInstance *inst = dlite_instance_load(s, id);
   if (!inst) return NULL;
-  if (!dlite_instance_is_meta(inst))
-    return err(dliteTypeError, "not metadata: %s (%s)", s->location, id), NULL;
+  if (!dlite_instance_is_meta(inst)) {
+    dlite_instance_decref(inst);
+    return err(dliteTypeError, "not metadata: %s (%s)", s->location,
+               (id) ? id : ""), NULL;
+  }
   return (DLiteMeta *)inst;
 }
 
@@ -2831,8 +2892,10 @@ DLiteMeta *dlite_meta_load_url(const char *url)
 {
   DLiteInstance *inst;
   if (!(inst = dlite_instance_load_url(url))) return NULL;
-  if (!dlite_instance_is_meta(inst))
+  if (!dlite_instance_is_meta(inst)) {
+    dlite_instance_decref(inst);
     return err(dliteTypeError, "not metadata: %s", url), NULL;
+  }
   return (DLiteMeta *)inst;
 }
 
-- 
2.43.0


From 67d44352932a99c884defd7966a969560b354cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 022/132] fix: metadata creation: refuse different definitions
 under an existing URI, never alter or release existing metadata; include
 references in the hash

---
 src/dlite-entity.c | 66 ++++++++++++++++++++++++++++++++++++++++++----
 src/dlite-type.c   |  2 ++
 2 files changed, 63 insertions(+), 5 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index a1fe1f4..c268699 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2638,6 +2638,41 @@ int dlite_instance_verify_transaction(const DLiteInstance *inst)
  *  Metadata
  ********************************************************************/
 
+/*
+  Help function comparing strings that may be NULL.  NULL and the empty
+  string are considered equal.
+ */
+static int same_string(const char *a, const char *b)
+{
+  return strcmp((a) ? a : "", (b) ? b : "") == 0;
+}
+
+/*
+  Help function that returns non-zero if the dimensions and properties of
+  existing metadata `meta` equal `dimensions` and `properties`, which must
+  have the same lengths as those of `meta`.  Descriptions are not compared.
+ */
+static int same_definition(const DLiteMeta *meta,
+                           const DLiteDimension *dimensions,
+                           const DLiteProperty *properties)
+{
+  size_t i;
+  int j;
+  for (i=0; i < meta->_ndimensions; i++)
+    if (!same_string(meta->_dimensions[i].name, dimensions[i].name)) return 0;
+  for (i=0; i < meta->_nproperties; i++) {
+    const DLiteProperty *p = meta->_properties + i;
+    const DLiteProperty *q = properties + i;
+    if (!same_string(p->name, q->name) || p->type != q->type ||
+        p->size != q->size || p->ndims != q->ndims ||
+        !same_string(p->ref, q->ref) || !same_string(p->unit, q->unit))
+      return 0;
+    for (j=0; j < p->ndims; j++)
+      if (!same_string(p->shape[j], q->shape[j])) return 0;
+  }
+  return 1;
+}
+
 /*
   Specialised function that returns a new metadata created from the
   given arguments.  It is an instance of DLITE_ENTITY_SCHEMA.
@@ -2648,13 +2683,13 @@ dlite_meta_create(const char *uri, const char *description,
                   size_t nproperties, const DLiteProperty *properties)
 {
   DLiteMeta *entity=NULL;
-  DLiteInstance *e=NULL;
+  DLiteInstance *e=NULL, *existing;
   char *name=NULL, *version=NULL, *namespace=NULL;
   size_t dims[] = {ndimensions, nproperties};
 
-  if ((e = dlite_instance_has(uri, 0))) {
-    DLiteMeta *meta = (DLiteMeta *)e;
-    if (!dlite_instance_is_meta(e))
+  if ((existing = dlite_instance_has(uri, 0))) {
+    DLiteMeta *meta = (DLiteMeta *)existing;
+    if (!dlite_instance_is_meta(existing))
       FAILCODE1(dliteMetadataExistError,
                 "cannot create metadata \"%s\" since it already exists as a "
                 "non-metadata instance", uri);
@@ -2663,7 +2698,10 @@ dlite_meta_create(const char *uri, const char *description,
       FAILCODE1(dliteMetadataExistError,
                 "cannot create metadata \"%s\" since it already exists with "
                 "different number of dimensions and/or properties", uri);
-    // TODO: check that dimensions and properties matches
+    if (!same_definition(meta, dimensions, properties))
+      FAILCODE1(dliteMetadataExistError,
+                "cannot create metadata \"%s\" since it already exists with "
+                "different dimensions and/or properties", uri);
     dlite_meta_incref(meta);
     return meta;
   }
@@ -4068,6 +4106,24 @@ DLiteMeta *dlite_meta_create_from_metamodel(DLiteMetaModel *model)
     FAILCODE2(dliteValueError, "Missing value for \"%s\" in metadata model: %s",
           missing, model->uri);
 
+  if (model->uri && *model->uri) {
+    DLiteMeta *existing = (DLiteMeta *)dlite_instance_has(model->uri, 0);
+    if (existing) {
+      /* Existing metadata is never altered */
+      if (existing->meta != model->meta ||
+          !dlite_meta_is_metameta(model->meta) ||
+          existing->_ndimensions != model->ndims ||
+          existing->_nproperties != model->nprops ||
+          !same_definition(existing, model->dims, model->props))
+        FAILCODE1(dliteMetadataExistError,
+                  "cannot create \"%s\" since it already exists with a "
+                  "different definition", model->uri);
+      dlite_meta_incref(existing);
+      retval = existing;
+      goto fail;
+    }
+  }
+
   if (!(meta = (DLiteMeta *)dlite_instance_create(model->meta,
                                                   model->dimvalues,
                                                   model->uri))) goto fail;
diff --git a/src/dlite-type.c b/src/dlite-type.c
index 7205866..4fa0f00 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1432,6 +1432,7 @@ int dlite_type_update_sha3(sha3_context *c, const void *ptr,
       if (p->unit) sha3_Update(c, p->unit, strlen(p->unit));
       if (p->description)
         sha3_Update(c, p->description, strlen(p->description));
+      if (p->ref) sha3_Update(c, p->ref, strlen(p->ref));
     }
     break;
 
@@ -1441,6 +1442,7 @@ int dlite_type_update_sha3(sha3_context *c, const void *ptr,
       if (rel->s) sha3_Update(c, rel->s, strlen(rel->s));
       if (rel->p) sha3_Update(c, rel->p, strlen(rel->p));
       if (rel->o) sha3_Update(c, rel->o, strlen(rel->o));
+      if (rel->d) sha3_Update(c, rel->d, strlen(rel->d));
     }
     break;
 
-- 
2.43.0


From a818a0846aa709c5e38aeffc726f5e3edcb8ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 023/132] fix: do not read outside metadata without properties
 when changing dimension sizes

---
 src/dlite-entity.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index c268699..3d2fa79 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1846,7 +1846,7 @@ int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
   /* save old propdims and property members (oldmembs) */
   if (!(oldpropdims = calloc(inst->meta->_npropdims, sizeof(size_t))))
     FAILCODE(dliteMemoryError, "Allocation failure");
-  memcpy(oldpropdims, DLITE_PROP_DIMS(inst, 0),
+  memcpy(oldpropdims, (char *)inst + inst->meta->_propdimsoffset,
          inst->meta->_npropdims * sizeof(size_t));
 
   if (!(oldmembs = calloc(inst->meta->_nproperties, sizeof(size_t))))
@@ -1920,7 +1920,7 @@ int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
   retval = 0;
  fail:
   if (retval && oldpropdims)
-    memcpy(DLITE_PROP_DIMS(inst, 0), oldpropdims,
+    memcpy((char *)inst + inst->meta->_propdimsoffset, oldpropdims,
            inst->meta->_npropdims * sizeof(size_t));
   if (xdims) free(xdims);
   if (oldpropdims) free(oldpropdims);
-- 
2.43.0


From 180764c4e1c88a19bee90152a3f68f3124686976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 024/132] fix: report integer overflow in dimension expressions

---
 src/utils/infixcalc.c | 69 ++++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 21 deletions(-)

diff --git a/src/utils/infixcalc.c b/src/utils/infixcalc.c
index 0262d80..17f3770 100644
--- a/src/utils/infixcalc.c
+++ b/src/utils/infixcalc.c
@@ -5,6 +5,8 @@
  * Distributed under terms of the MIT license.
  */
 #include <assert.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
@@ -183,34 +185,48 @@ static int poll(Stack *stack)
 }
 
 
-static int binary_eval(Operator op, int arg1, int arg2)
+/* Evaluates binary operator `op` and assigns the result to `value`.
+
+   Returns non-zero if the result cannot be represented as an int. */
+static int binary_eval(Operator op, int arg1, int arg2, int *value)
 {
+  long long v=0;
   switch (op) {
-  case '|':  return arg1 || arg2;
-  case '&':  return arg1 && arg2;
-  case '=':  return arg1 == arg2;
-  case '!':  return arg1 != arg2;
-  case '>':  return arg1 > arg2;
-  case '<':  return arg1 < arg2;
-  case '+':  return arg1 + arg2;
-  case '-':  return arg1 - arg2;
-  case '*':  return arg1 * arg2;
-  case '/':  return arg1 / arg2;
-  case '%':  return arg1 % arg2;
+  case '|':  v = arg1 || arg2;  break;
+  case '&':  v = arg1 && arg2;  break;
+  case '=':  v = arg1 == arg2;  break;
+  case '!':  v = arg1 != arg2;  break;
+  case '>':  v = arg1 > arg2;  break;
+  case '<':  v = arg1 < arg2;  break;
+  case '+':  v = (long long)arg1 + arg2;  break;
+  case '-':  v = (long long)arg1 - arg2;  break;
+  case '*':  v = (long long)arg1 * arg2;  break;
+  case '/':  v = (long long)arg1 / arg2;  break;
+  case '%':  v = (long long)arg1 % arg2;  break;
   case '^':
-    {
-      int i, v=1;
-      for (i=0; i<arg2; i++) v *= arg1;
-      return v;
+    if (arg1 == -1) {
+      v = (arg2 > 0 && arg2 % 2) ? -1 : 1;
+    } else if (arg1 == 0) {
+      v = (arg2 > 0) ? 0 : 1;
+    } else {
+      int i;
+      for (v=1, i=0; i<arg2 && arg1 != 1; i++) {
+        v *= arg1;
+        if (v > INT_MAX || v < INT_MIN) return -1;
+      }
     }
-  default:   return 0;
+    break;
+  default:  break;
   }
+  if (v > INT_MAX || v < INT_MIN) return -1;
+  *value = (int)v;
+  return 0;
 }
 
 /* Parses a token from `str` and returns the number of characters consumed.
    The value pointed to by `val` is updated for the parsed token.
 
-   On error, -1 is returned.
+   On error, -1 is returned.  If a number is too large, -2 is returned.
 */
 static int parse_token(const char *str, TokenValue *val,
                        const InfixCalcVariable *vars, size_t nvars)
@@ -221,8 +237,15 @@ static int parse_token(const char *str, TokenValue *val,
 
   if (isdigit(str[0])) {
     char *endptr;
+    long v;
     val->type = typeVal;
-    val->u.val = strtol(str, &endptr, 0);
+    errno = 0;
+    v = strtol(str, &endptr, 0);
+    if (errno || v > INT_MAX) {
+      errno = 0;
+      return -2;
+    }
+    val->u.val = (int)v;
     return (int)(endptr - str);
 
   } else if ((opinfo = get_opinfo(str[0]))) {
@@ -258,7 +281,10 @@ static int eval(Operator op, Stack *vstack, char *err, size_t errlen)
       snprintf(err, errlen, "division by zero");
       return -1;
     }
-    value = binary_eval(op, arg1, arg2);
+    if (binary_eval(op, arg1, arg2, &value)) {
+      snprintf(err, errlen, "integer overflow in %d %c %d", arg1, op, arg2);
+      return -1;
+    }
   } else {
     snprintf(err, errlen, "%lu-ary operators are not implemented",
              (unsigned long)opinfo->nargs);
@@ -300,7 +326,8 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
   while (*p) {
     int n;
     if ((n = parse_token(p, &token, vars, nvars)) < 0) {
-      snprintf(err, errlen, "invalid token at position %d in expression \"%s\"",
+      snprintf(err, errlen, "%s at position %d in expression \"%s\"",
+               (n == -2) ? "too large number" : "invalid token",
                (int)(p - expr), expr);
       goto fail;
     }
-- 
2.43.0


From d3387d0ea7f90088add5c220890fd9977946a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 025/132] fix: builtin triplestore: index of triples, searching
 for IRIs, pending removals and clearing; endless loop when setting default
 storage

---
 src/triple.c              |   4 +-
 src/triplestore-builtin.c | 184 ++++++++++++++++++++++++--------------
 src/triplestore-redland.c |  10 ++-
 3 files changed, 128 insertions(+), 70 deletions(-)

diff --git a/src/triple.c b/src/triple.c
index 6914707..df5e524 100644
--- a/src/triple.c
+++ b/src/triple.c
@@ -30,7 +30,9 @@ static void free_globals(void *globals)
 void triple_set_default_namespace(const char *namespace)
 {
   Session *s = session_get_default();
-  TripleGlobals *g = session_get_state(s, TRIPLE_GLOBALS_ID);
+  TripleGlobals *g;
+  triple_get_default_namespace();  // ensures that globals are allocated
+  if (!(g = session_get_state(s, TRIPLE_GLOBALS_ID))) return;
   if (g->default_namespace)
     free(g->default_namespace);
   if (namespace)
diff --git a/src/triplestore-builtin.c b/src/triplestore-builtin.c
index 455be0b..ff43899 100644
--- a/src/triplestore-builtin.c
+++ b/src/triplestore-builtin.c
@@ -22,6 +22,7 @@
 #include <assert.h>
 #include <stdlib.h>
 #include <stddef.h>
+#include <stdio.h>
 #include <string.h>
 
 #include "utils/err.h"
@@ -49,8 +50,8 @@ struct _TripleStore {
   size_t true_length; /*!< number of triples (including pending removes) */
   size_t size;        /*!< allocated number of triples */
 
-  map_int_t map;      /*!< a mapping from triple id to its corresponding
-                           index in `triples` */
+  map_int_t map;      /*!< a mapping from triple key (see _get_key()) to its
+                           corresponding index in `triples` */
   size_t niter;       /*!< counter for number of running iterators */
   int freed;          /*!< set to non-zero when this store is supposed to
                            be freed, but kept alive due to existing iterators */
@@ -58,6 +59,56 @@ struct _TripleStore {
 };
 
 
+/*
+  Returns a newly malloc'ed key that uniquely identifies a triple or NULL
+  on error.  Unlike the triple id, it distinguishes between triples that
+  only differ in where one string ends and the next one starts.
+ */
+static char *_get_key(const char *s, const char *p, const char *o,
+                      const char *d)
+{
+  char *key;
+  int n;
+  const char fmt[] = "%lu:%lu:%lu:%s%s%s%s%s";
+  unsigned long ns, np, no;
+  if (!s || !p || !o) return NULL;
+  ns = strlen(s);
+  np = strlen(p);
+  no = strlen(o);
+  n = snprintf(NULL, 0, fmt, ns, np, no, s, p, o, (d) ? "^" : "", (d) ? d : "");
+  if (n < 0 || !(key = malloc(n + 1))) return NULL;
+  snprintf(key, n + 1, fmt, ns, np, no, s, p, o, (d) ? "^" : "", (d) ? d : "");
+  return key;
+}
+
+/*
+  Help function for updating the index of triple number `n`, after it
+  has been moved.  Returns non-zero on error.
+ */
+static int _update_index(TripleStore *ts, size_t n)
+{
+  const Triple *t = ts->triples + n;
+  char *key = _get_key(t->s, t->p, t->o, t->d);
+  if (!key) return err(dliteMemoryError, "allocation failure");
+  map_set(&ts->map, key, n);
+  free(key);
+  return 0;
+}
+
+/*
+  Returns non-zero if triple `t` matches `s`, `p`, `o` and `d`.
+ */
+static int _match(const Triple *t, const char *s, const char *p,
+                  const char *o, const char *d)
+{
+  return t->id &&
+    (!s || strcmp(s, t->s) == 0) &&
+    (!p || strcmp(p, t->p) == 0) &&
+    (!o || strcmp(o, t->o) == 0) &&
+    (!d || (!d[0] && !t->d) || (t->d && strcmp(d, t->d) == 0));
+}
+
+
 /*
   Returns a new empty triplestore or NULL on error.
  */
@@ -88,11 +139,13 @@ TripleStore *triplestore_create_with_storage(const char *storage_name,
 void triplestore_free(TripleStore *ts)
 {
   assert(ts->freed == 0 || ts->niter == 0);
-  triplestore_clear(ts);
-  if (ts->niter > 0)
+  if (ts->niter > 0) {
     ts->freed = 1;
-  else
+  } else {
+    triplestore_clear(ts);
+    if (ts->ns) free((char *)ts->ns);
     free(ts);
+  }
 }
 
 
@@ -145,28 +198,25 @@ int triplestore_add_triples(TripleStore *ts, const Triple *triples,
 
   /* append triples (avoid duplicates) */
   for (i=0; i<n; i++) {
-    Triple *t = ts->triples + ts->true_length;
-    char *id;
-    if (triples[i].id) {
-      if (!(id = strdup(triples[i].id))) return err(1, "allocation error");
-    } else {
-      if (!(id = triple_get_id(NULL, triples[i].s, triples[i].p,
-                               triples[i].o, triples[i].d)))
-
-        return 1;
-    }
-    if (!map_get(&ts->map, id)) {
-      if (!(t->s = strdup(triples[i].s))) return err(1, "allocation error");
-      if (!(t->p = strdup(triples[i].p))) return err(1, "allocation error");
-      if (!(t->o = strdup(triples[i].o))) return err(1, "allocation error");
-      t->d = (triples[i].d) ? strdup(triples[i].d) : NULL;
-      t->id = id;
+    Triple t, *dest = ts->triples + ts->true_length;
+    const Triple *src = triples + i;
+    char *key = _get_key(src->s, src->p, src->o, src->d);
+    if (!key)
+      return err(dliteValueError, "cannot add triple without subject, "
+                 "predicate and object");
+    if (!map_get(&ts->map, key)) {
+      if (!triple_copy(&t, src) ||
+          (!t.id && !(t.id = triple_get_id(NULL, t.s, t.p, t.o, t.d)))) {
+        triple_clean(&t);
+        free(key);
+        return err(dliteMemoryError, "allocation failure");
+      }
+      *dest = t;
+      map_set(&ts->map, key, ts->true_length);
       ts->length++;
       ts->true_length++;
-      map_set(&ts->map, id, i);
-    } else {
-      free(id);
     }
+    free(key);
   }
 
   return 0;
@@ -177,11 +227,15 @@ int triplestore_add_triples(TripleStore *ts, const Triple *triples,
 static int _remove_by_index(TripleStore *ts, size_t n)
 {
   Triple *t = ts->triples + n;
+  char *key;
   if (n >= ts->true_length)
     return err(1, "triple index out of range: %lu", (unsigned long)n);
   if (!t->id)
     return err(1, "triple %lu is already removed", (unsigned long)n);
-  map_remove(&ts->map, t->id);
+  if (!(key = _get_key(t->s, t->p, t->o, t->d)))
+    return err(dliteMemoryError, "allocation failure");
+  map_remove(&ts->map, key);
+  free(key);
 
   if (ts->niter) {
     /* running iterator, mark triple for deletion by setting id to NULL */
@@ -193,13 +247,25 @@ static int _remove_by_index(TripleStore *ts, size_t n)
     assert(ts->length == ts->true_length);
     triple_clean(t);
     ts->length--;
-    if (t < ts->triples + ts->length)
-      memcpy(t, &ts->triples[ts->length], sizeof(Triple));
     ts->true_length = ts->length;
+    if (n < ts->length) {
+      memcpy(t, &ts->triples[ts->length], sizeof(Triple));
+      if (_update_index(ts, n)) return 1;
+    }
   }
   return 0;
 }
 
+/* Returns the index of the triple with given id or -1 if there is no such
+   triple. */
+static int _get_index(const TripleStore *ts, const char *id)
+{
+  size_t i;
+  for (i=0; i < ts->true_length; i++)
+    if (ts->triples[i].id && strcmp(ts->triples[i].id, id) == 0) return i;
+  return -1;
+}
+
 
 /*
   Removes a triple identified by it's `id`.  Returns non-zero on
@@ -207,10 +273,10 @@ static int _remove_by_index(TripleStore *ts, size_t n)
 */
 int triplestore_remove_by_id(TripleStore *ts, const char *id)
 {
-  int *n;
-  if (!(n = map_get(&ts->map, id)))
+  int n = _get_index(ts, id);
+  if (n < 0)
     return err(1, "no such triple id: \"%s\"", id);
-  return _remove_by_index(ts, *n);
+  return _remove_by_index(ts, n);
 }
 
 /*
@@ -223,14 +289,8 @@ int triplestore_remove(TripleStore *ts, const char *s, const char *p,
 {
   int i=ts->true_length, n=0;
   while (--i >= 0) {
-    const Triple *t = ts->triples + i;
-    if (!t->id) continue;
-    if ((!s || strcmp(s, t->s) == 0) &&
-        (!p || strcmp(p, t->p) == 0) &&
-        (!o || strcmp(o, t->o) == 0) &&
-        (!d || (t->d && strcmp(d, t->d) == 0))) {
-      if (_remove_by_index(ts, i) == 0) n++;
-    }
+    if (_match(ts->triples + i, s, p, o, d) &&
+        _remove_by_index(ts, i) == 0) n++;
   }
   return n;
 }
@@ -243,14 +303,16 @@ int triplestore_remove(TripleStore *ts, const char *s, const char *p,
 void triplestore_clear(TripleStore *ts)
 {
   int n=ts->true_length;
-  int niter=ts->niter;
   while (--n >= 0)
     if (ts->triples[n].id) _remove_by_index(ts, n);
+  if (ts->niter) return;  // memory is released when the last iterator ends
   if (ts->triples) free(ts->triples);
   map_deinit(&ts->map);
-  memset(ts, 0, sizeof(TripleStore));
-  ts->niter = niter;
-  if (ts->ns) free((char *)ts->ns);
+  memset(&ts->map, 0, sizeof(ts->map));
+  ts->triples = NULL;
+  ts->length = 0;
+  ts->true_length = 0;
+  ts->size = 0;
 }
 
 
@@ -259,12 +321,10 @@ void triplestore_clear(TripleStore *ts)
 */
 const Triple *triplestore_get(const TripleStore *ts, const char *id)
 {
-  int *n = map_get(&((TripleStore *)ts)->map, id);
-  if (!n)
+  int n = _get_index(ts, id);
+  if (n < 0)
     return errx(1, "no triple with id \"%s\"", id), NULL;
-  if (!ts->triples[*n].id)
-    return errx(1, "triple \"%s\" has been removed", id), NULL;
-  return ts->triples + *n;
+  return ts->triples + n;
 }
 
 
@@ -279,12 +339,7 @@ const Triple *triplestore_find_first(const TripleStore *ts, const char *s,
   size_t i;
   for (i=0; i<ts->true_length; i++) {
     const Triple *t = ts->triples + i;
-    if (t->id &&
-        (!s || strcmp(s, t->s) == 0) &&
-        (!p || strcmp(p, t->p) == 0) &&
-        (!o || strcmp(o, t->o) == 0) &&
-        (!d || (t->d && strcmp(d, t->d) == 0)))
-      return t;
+    if (_match(t, s, p, o, d)) return t;
   }
   return NULL;
 }
@@ -319,21 +374,25 @@ void triplestore_deinit_state(TripleState *state)
   }
 
   if (ts->niter == 0 && ts->true_length > ts->length) {
-    for (i=ts->true_length-1; i>=0 && !ts->triples[i].id; i--)
-      ts->true_length--;
     for (i=ts->true_length-1; i>=0; i--) {
       Triple *t = ts->triples + i;
       if (!t->id) {
         Triple *tt = ts->triples + (--ts->true_length);
-        assert(t < tt);
         triple_clean(t);
-        memcpy(t, tt, sizeof(Triple));
+        if (t != tt) {
+          memcpy(t, tt, sizeof(Triple));
+          _update_index(ts, i);
+        }
       }
     }
     assert(ts->true_length == ts->length);
     if (ts->size > ts->length + TRIPLESTORE_CHUNKSIZE) {
-      ts->size = ts->length + ts->length % TRIPLESTORE_CHUNKSIZE;
-      ts->triples = realloc(ts->triples, ts->size*sizeof(Triple));
+      size_t size = ts->length + TRIPLESTORE_CHUNKSIZE;
+      void *ptr = realloc(ts->triples, size*sizeof(Triple));
+      if (ptr) {
+        ts->triples = ptr;
+        ts->size = size;
+      }
     }
   }
 }
@@ -405,12 +464,7 @@ const Triple *triplestore_find(TripleState *state,
   TripleStore *ts = state->ts;
   while (state->pos < ts->true_length) {
     const Triple *t = ts->triples + state->pos++;
-    if (t->id &&
-        (!s || strcmp(s, t->s) == 0) &&
-        (!p || strcmp(p, t->p) == 0) &&
-        (!o || strcmp(o, t->o) == 0) &&
-        (!d || (!d[0] && !t->d) || (t->d && strcmp(d, t->d) == 0)))
-      return t;
+    if (_match(t, s, p, o, d)) return t;
   }
   return NULL;
 }
diff --git a/src/triplestore-redland.c b/src/triplestore-redland.c
index 99ecb21..b68c496 100644
--- a/src/triplestore-redland.c
+++ b/src/triplestore-redland.c
@@ -374,11 +374,11 @@ librdf_model *triplestore_get_model(TripleStore *ts)
 /* Set the default storage name.  Returns non-zero on error. */
 int triplestore_set_default_storage(const char *name)
 {
-  char **p = storage_module_names;
-  while (p) {
+  char **p;
+  for (p=storage_module_names; *p; p++) {
     if (strcasecmp(name, *p) == 0) {
       Globals *g = get_globals();
-      g->default_storage_name = name;
+      g->default_storage_name = *p;
       return 0;
     }
   }
@@ -545,8 +545,10 @@ int triplestore_add(TripleStore *ts, const char *s, const char *p,
     if (!(no = new_uri_node(ts, o)))
       FAIL1("error creating IRI node for object: '%s'", o);
   }
-  if (librdf_model_add(ts->model, ns, np, no))
+  if (librdf_model_add(ts->model, ns, np, no)) {
+    ns = np = no = NULL;  // now owned (and freed) by librdf_model_add()
     FAIL4("error adding triple (%s, %s, %s, %s)", s, p, o, d);
+  }
   if (uri) librdf_free_uri(uri);
   return 0;
  fail:
-- 
2.43.0


From 48e23783be8fed2f2a64a2be177f95d2cf11edb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 026/132] fix: collections: reference counting, hash, loading
 of nested collections and frozen collections

---
 bindings/python/dlite-collection-python.i |   2 +-
 bindings/python/dlite-collection.i        |  13 +-
 src/dlite-collection.c                    | 258 +++++++++++++++-------
 src/dlite-entity.c                        |   1 +
 4 files changed, 185 insertions(+), 89 deletions(-)

diff --git a/bindings/python/dlite-collection-python.i b/bindings/python/dlite-collection-python.i
index 325b252..d7a0099 100644
--- a/bindings/python/dlite-collection-python.i
+++ b/bindings/python/dlite-collection-python.i
@@ -196,7 +196,7 @@ class Collection(Instance):
 
     def get_id(self, id):
         """Return instance with given id."""
-        inst = _collection_get_id(self._coll, id)
+        inst = _collection_get_id_new(self._coll, id)
         return inst
 
     def has(self, label):
diff --git a/bindings/python/dlite-collection.i b/bindings/python/dlite-collection.i
index 1d0527d..d35438a 100644
--- a/bindings/python/dlite-collection.i
+++ b/bindings/python/dlite-collection.i
@@ -60,9 +60,16 @@ dlite_collection_get_new(const struct _DLiteCollection *coll,
 
 // Although dlite_collection_get_id() returns a borrowed reference in C,
 // we create a new object in Python that must be properly deallocated.
-%newobject dlite_collection_get_id;
-const struct _DLiteInstance *
-  dlite_collection_get_id(const struct _DLiteCollection *coll, const char *id);
+%newobject dlite_collection_get_id_new;
+%inline %{
+  struct _DLiteInstance *
+    dlite_collection_get_id_new(const struct _DLiteCollection *coll,
+                                const char *id) {
+    DLiteInstance *inst = (DLiteInstance *)dlite_collection_get_id(coll, id);
+    if (inst) dlite_instance_incref(inst);
+    return inst;
+  }
+%}
 
 int dlite_collection_has(const struct _DLiteCollection *coll,
                          const char *label);
diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 1d78f8e..a26bba3 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -32,35 +32,72 @@ int dlite_collection_init(DLiteInstance *inst)
 }
 
 
-/* De-initialise additional data in a collection */
-int dlite_collection_deinit(DLiteInstance *inst)
+/* Help function that releases the references that the collection holds to
+   the instances of all "_has-uuid" relations matching `s`, `o` and `d`.
+
+   The relations themselves are not removed.  Instances are only looked
+   up in memory, since instances that are referred to must be there. */
+static void release_instances(DLiteCollection *coll, const char *s,
+                              const char *o, const char *d)
 {
-  DLiteCollection *coll = (DLiteCollection *)inst;
   DLiteCollectionState state;
-  DLiteInstance *inst2;
+  DLiteInstance **insts=NULL;
   const DLiteRelation *r;
+  size_t i, n=0, size=0;
 
-  /* Release references to all instances. */
+  /* Collect the instances before releasing them, since releasing an
+     instance may free it */
   dlite_collection_init_state(coll, &state);
-  while ((r=dlite_collection_find(coll,&state, NULL, "_has-uuid", NULL,
-                                  NULL))) {
-    if ((inst2 = dlite_instance_get(r->o))) {
-      dlite_instance_decref(inst2);  // remove ref from collection
-      dlite_instance_decref(inst2);  // remove local ref to inst2
-    } else {
+  while ((r=dlite_collection_find(coll, &state, s, "_has-uuid", o, d))) {
+    DLiteInstance *inst = dlite_instance_has(r->o, 0);
+    if (!inst) {
       warnx("cannot remove missing instance: %s", r->o);
+      continue;
+    }
+    if (n >= size) {
+      void *ptr;
+      size += 64;
+      if (!(ptr = realloc(insts, size*sizeof(DLiteInstance *)))) {
+        err(dliteMemoryError, "allocation failure");
+        break;
+      }
+      insts = ptr;
     }
+    insts[n++] = inst;
   }
   dlite_collection_deinit_state(&state);
 
+  for (i=0; i<n; i++) dlite_instance_decref(insts[i]);
+  if (insts) free(insts);
+}
+
+/* Help function returning non-zero and issuing an error if `coll` is frozen. */
+static int is_immutable(const DLiteCollection *coll)
+{
+  if (dlite_instance_is_frozen((DLiteInstance *)coll))
+    return errx(dliteValueError, "cannot change immutable collection: %s",
+                (coll->uri) ? coll->uri : coll->uuid);
+  return 0;
+}
+
+/* De-initialise additional data in a collection */
+int dlite_collection_deinit(DLiteInstance *inst)
+{
+  DLiteCollection *coll = (DLiteCollection *)inst;
+  if (!coll->rstore) return 0;  /* not initialised */
+
+  /* Release references to all instances. */
+  release_instances(coll, NULL, NULL, NULL);
+
   triplestore_free(coll->rstore);
+  coll->rstore = NULL;
   return 0;
 }
 
 /* Help function for dlite_collection_gethash().
    Returns 1 if a > b, 0 if a == b and -1 if a < b. */
-int _cmp_triple(const void *a, const void *b) {
-  const Triple *t1=*(Triple **)a, *t2=*(Triple **)b;
+static int _cmp_triple(const void *a, const void *b) {
+  const Triple *t1=a, *t2=b;
   int v;
   if ((v = strcmp(t1->s, t2->s))) return v;
   if ((v = strcmp(t1->p, t2->p))) return v;
@@ -72,13 +109,19 @@ int _cmp_triple(const void *a, const void *b) {
 }
 
 /* Help function for dlite_collection_gethash().
-   Update the the hash with content of triple `t`. */
-void _sha3_update_triple(sha3_context *c, const Triple *t)
-{
-  sha3_Update(c, t->s, strlen(t->s));
-  sha3_Update(c, t->p, strlen(t->p));
-  sha3_Update(c, t->o, strlen(t->o));
-  if (t->d) sha3_Update(c, t->d, strlen(t->d));
+   Update the the hash with content of triple `t`.  The terminating NUL of
+   each string is included to mark where it ends. */
+static void _sha3_update_triple(sha3_context *c, const Triple *t)
+{
+  sha3_Update(c, t->s, strlen(t->s) + 1);
+  sha3_Update(c, t->p, strlen(t->p) + 1);
+  sha3_Update(c, t->o, strlen(t->o) + 1);
+  if (t->d) {
+    sha3_Update(c, "^", 1);
+    sha3_Update(c, t->d, strlen(t->d) + 1);
+  } else {
+    sha3_Update(c, "", 1);
+  }
 }
 
 /* Calculate hash of a collection. */
@@ -90,7 +133,8 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
   const uint8_t *buf;
   unsigned bitsize = hashsize * 8;
   TripleState state;
-  const Triple *t, **triples=NULL;
+  const Triple *t;
+  Triple *triples=NULL;
   size_t i=0, n=triplestore_length(coll->rstore);
   int retval=1;
 
@@ -106,37 +150,42 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
 
   /* Calculate the hash of a sorted copy of the relations */
   triplestore_init_state(coll->rstore, &state);
-  if (!(triples = malloc(n * sizeof(Triple *))))
+  if (!(triples = calloc(n + 1, sizeof(Triple))))
     FAILCODE(dliteMemoryError, "allocation failure");
-  while ((t = triplestore_next(&state))) {
-    triples[i++] = t;
-  }
-  assert(i == n);
-  qsort((void *)triples, n, sizeof(Triple *), _cmp_triple);
+  while (i < n && (t = triplestore_next(&state)))
+    if (!triple_copy(triples + i++, t)) goto fail;
+  n = i;
+  qsort(triples, n, sizeof(Triple), _cmp_triple);
   for (i=0; i<n; i++) {
-    if (strcmp(triples[i]->p, "_has-hash") == 0) continue;
-    if (strcmp(triples[i]->p, "_has-uuid") == 0) {
+    if (strcmp(triples[i].p, "_has-hash") == 0) continue;
+    if (strcmp(triples[i].p, "_has-uuid") == 0) {
       if ((t = triplestore_find_first(coll->rstore,
-                                      triples[i]->s, "_has-hash", NULL,
+                                      triples[i].s, "_has-hash", NULL,
                                       NULL))) {
         _sha3_update_triple(&c, t);
       } else {
-        uint8_t hash[DLITE_HASH_SIZE];
-        DLiteInstance * inst;
+        uint8_t ihash[DLITE_HASH_SIZE];
+        DLiteInstance *inst2;
+        Triple th;
+        int stat;
         char hex[2*DLITE_HASH_SIZE+1];
-        if (!(inst = dlite_instance_get(triples[i]->o))) goto fail;
-        if (dlite_instance_get_hash(inst, hash, DLITE_HASH_SIZE))
+        if (!(inst2 = dlite_instance_get(triples[i].o))) goto fail;
+        stat = dlite_instance_get_hash(inst2, ihash, DLITE_HASH_SIZE);
+        dlite_instance_decref(inst2);
+        if (stat)
           FAILCODE1(dliteValueError,
-                    "error calculating hash of instance '%s'", triples[i]->o);
-        if (strhex_encode(hex, sizeof(hex), hash, DLITE_HASH_SIZE) < 0)
+                    "error calculating hash of instance '%s'", triples[i].o);
+        if (strhex_encode(hex, sizeof(hex), ihash, DLITE_HASH_SIZE) < 0)
           FAILCODE1(dliteValueError,
-                    "failed hex-encoding hash of '%s'", triples[i]->o);
-        sha3_Update(&c, triples[i]->s, strlen(triples[i]->s));
-        sha3_Update(&c, "_has-hash", 9);
-        sha3_Update(&c, hex, 2*DLITE_HASH_SIZE);
+                    "failed hex-encoding hash of '%s'", triples[i].o);
+        memset(&th, 0, sizeof(th));
+        th.s = triples[i].s;
+        th.p = "_has-hash";
+        th.o = hex;
+        _sha3_update_triple(&c, &th);
       }
     }
-    _sha3_update_triple(&c, triples[i]);
+    _sha3_update_triple(&c, triples + i);
   }
 
   buf = sha3_Finalize(&c);
@@ -144,7 +193,10 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
   retval = 0;
  fail:
   triplestore_deinit_state(&state);
-  free((void *)triples);
+  if (triples) {
+    for (i=0; i<n; i++) triple_clean(triples + i);
+    free(triples);
+  }
   return retval;
 }
 
@@ -164,8 +216,15 @@ int dlite_collection_loadprop(const DLiteInstance *inst, size_t i)
   DLiteCollection *coll = (DLiteCollection *)inst;
   TripleState state;
   const Triple *t;
+  size_t j;
   if (i != 0) return errx(dliteIndexError,
                          "index out of range: %lu", (unsigned long)i);
+  for (j=0; j < coll->nrelations; j++)
+    if (!coll->relations[j].s || !coll->relations[j].p ||
+        !coll->relations[j].o)
+      return errx(dliteValueError, "relation %lu of collection %s has no "
+                  "subject, predicate or object", (unsigned long)j, coll->uuid);
+  release_instances(coll, NULL, NULL, NULL);
   triplestore_clear(coll->rstore);
   if (triplestore_add_triples(coll->rstore, coll->relations, coll->nrelations))
     return -1;
@@ -174,12 +233,16 @@ int dlite_collection_loadprop(const DLiteInstance *inst, size_t i)
      to "_has-uuid" relations. */
   triplestore_init_state(coll->rstore, &state);
   while ((t = triplestore_find(&state, NULL, "_has-uuid", NULL, NULL))) {
-    DLiteInstance *inst2 = dlite_instance_get(t->o);
-    if (!inst2) retval = errx(dliteStorageLoadError,
-                              "cannot get instance \"%s\" labeled \"%s\" "
-                              "from collection \"%s\".  "
-                              "Is DLITE_STORAGES properly set?",
-                              t->o, t->s, coll->uuid);
+    DLiteInstance *inst2;
+    char *label=strdup(t->s), *id=strdup(t->o);
+    if (!(inst2 = dlite_instance_get(id)))
+      retval = errx(dliteStorageLoadError,
+                    "cannot get instance \"%s\" labeled \"%s\" "
+                    "from collection \"%s\".  "
+                    "Is DLITE_STORAGES properly set?",
+                    id, label, coll->uuid);
+    free(label);
+    free(id);
   }
   triplestore_deinit_state(&state);
 
@@ -251,7 +314,7 @@ void dlite_collection_decref(DLiteCollection *coll)
  */
 DLiteCollection *dlite_collection_from_instance(DLiteInstance *inst)
 {
-  if (strcmp(inst->meta->uuid, DLITE_COLLECTION_ENTITY) != 0)
+  if (strcmp(inst->meta->uri, DLITE_COLLECTION_ENTITY) != 0)
     return errx(dliteTypeError,
                 "cannot cast instance %s to a collection", inst->uuid), NULL;
   return (DLiteCollection *)inst;
@@ -291,16 +354,23 @@ DLiteCollection *dlite_collection_load(DLiteStorage *s, const char *id,
   dlite_collection_init_state(coll, &state);
   while ((t = dlite_collection_find(coll, &state, NULL, "_has-uuid", NULL,
                                     NULL))) {
-    if (!(t2 = dlite_collection_find_first(coll, t->s, "_has-meta", NULL,
+    DLiteInstance *inst=NULL;
+    char *label=strdup(t->s), *id=strdup(t->o);
+    if (!(t2 = dlite_collection_find_first(coll, label, "_has-meta", NULL,
                                            NULL)))
-      FAILCODE1(dliteInconsistentDataError,
-                "collection inconsistency - no \"_has-meta\" relation for "
-                "instance: %s", t->s);
-    if (strcmp(t2->o, DLITE_COLLECTION_ENTITY) == 0) {
-      if (!dlite_collection_load(s, t->o, 0)) goto fail;
-    } else {
-      if (!dlite_instance_load(s, t->o)) goto fail;
-    }
+      errx(dliteInconsistentDataError,
+           "collection inconsistency - no \"_has-meta\" relation for "
+           "instance: %s", label);
+    else if (strcmp(t2->o, DLITE_COLLECTION_ENTITY) == 0)
+      inst = (DLiteInstance *)dlite_collection_load(s, id, 0);
+    else
+      inst = dlite_instance_load(s, id);
+    free(label);
+    free(id);
+    if (!t2 || !inst) goto fail;
+
+    /* The collection already has a reference to each of its instances. */
+    dlite_instance_decref(inst);
   }
   dlite_collection_deinit_state(&state);
   return coll;
@@ -378,6 +448,17 @@ int dlite_collection_save_url(DLiteCollection *coll, const char *url)
   return retval;
 }
 
+/* Help function for adding a relation without taking any reference. */
+static int add_relation(DLiteCollection *coll, const char *s,
+                        const char *p, const char *o, const char *d)
+{
+  int stat;
+  if (is_immutable(coll)) return 1;
+  if (!(stat = triplestore_add(coll->rstore, s, p, o, d)))
+    DLITE_PROP_DIM(coll, 0, 0) = coll->nrelations;
+  return stat;
+}
+
 /*
   Adds subject-predicate-object relation to collection.  `d` is the
   datatype of literal object. Returns non-zero on error.
@@ -385,9 +466,19 @@ int dlite_collection_save_url(DLiteCollection *coll, const char *url)
 int dlite_collection_add_relation(DLiteCollection *coll, const char *s,
                                   const char *p, const char *o, const char *d)
 {
-  int stat = triplestore_add(coll->rstore, s, p, o, d);
-  if (!stat)
-    DLITE_PROP_DIM(coll, 0, 0) = coll->nrelations;
+  DLiteInstance *inst=NULL;
+  int stat;
+
+  /* The collection holds a reference to the object of new "_has-uuid"
+     relations. */
+  if (p && s && o && strcmp(p, "_has-uuid") == 0 &&
+      !dlite_collection_find_first(coll, s, p, o, (d) ? d : "")) {
+    if (is_immutable(coll)) return 1;
+    if (!(inst = dlite_instance_get(o)))
+      return errx(dliteValueError, "no such instance: '%s'", o);
+  }
+  if ((stat = add_relation(coll, s, p, o, d)) && inst)
+    dlite_instance_decref(inst);
   return stat;
 }
 
@@ -395,12 +486,17 @@ int dlite_collection_add_relation(DLiteCollection *coll, const char *s,
 /*
   Remove matching relations.  Any of `s`, `p` or `o` may be NULL, allowing for
   multiple matches.  Returns the number of relations removed, or -1 on error.
+
+  References to instances, whos "_has-uuid" relations are removed, are released.
  */
 int dlite_collection_remove_relations(DLiteCollection *coll, const char *s,
                                       const char *p, const char *o,
                                       const char *d)
 {
-  int retval = triplestore_remove(coll->rstore, s, p, o, d);
+  int retval;
+  if (is_immutable(coll)) return -1;
+  if (!p || strcmp(p, "_has-uuid") == 0) release_instances(coll, s, o, d);
+  retval = triplestore_remove(coll->rstore, s, p, o, d);
   if (retval > -1)
     DLITE_PROP_DIM(coll, 0, 0) = coll->nrelations;
   return retval;
@@ -489,10 +585,15 @@ int dlite_collection_add_new(DLiteCollection *coll, const char *label,
                 "instance with label '%s' is already in the collection",
                 label);
 
-  dlite_collection_add_relation(coll, label, "_is-a", "Instance", NULL);
-  dlite_collection_add_relation(coll, label, "_has-uuid", inst->uuid,
-                                "xsd:anyURI");
-  dlite_collection_add_relation(coll, label, "_has-meta", inst->meta->uri, NULL);
+  if (add_relation(coll, label, "_is-a", "Instance", NULL))
+    return 1;
+  if (add_relation(coll, label, "_has-uuid", inst->uuid, "xsd:anyURI") ||
+      add_relation(coll, label, "_has-meta", inst->meta->uri, NULL)) {
+    triplestore_remove(coll->rstore, label, "_is-a", "Instance", NULL);
+    triplestore_remove(coll->rstore, label, "_has-uuid", NULL, NULL);
+    DLITE_PROP_DIM(coll, 0, 0) = coll->nrelations;
+    return 1;
+  }
   return 0;
 }
 
@@ -515,30 +616,15 @@ int dlite_collection_add(DLiteCollection *coll, const char *label,
  */
 int dlite_collection_remove(DLiteCollection *coll, const char *label)
 {
-  DLiteCollectionState state;
-  DLiteInstance *inst;
-  const DLiteRelation *r;
   if (dlite_collection_remove_relations(coll, label, "_is-a", "Instance", NULL) > 0) {
-    r = dlite_collection_find(coll, NULL, label, "_has-uuid", NULL, NULL);
-    assert(r);
-
-    /* Removes reference hold by collection to the instance. We have
-     to call dlite_instance_decref() twice, since dlite_instance_get()
-     returns a new reference. */
-    if ((inst = dlite_instance_get(r->o))) {
-      dlite_instance_decref(inst);
-      dlite_instance_decref(inst);
-    } else {
-      warn("cannot remove missing instance: %s", r->o);
-    }
 
     /* FIXME - there is something wrong here... */
     //dlite_collection_init_state(coll, &state);
     //while ((r=dlite_collection_find(coll, &state, label, "_has-dimmap", NULL)))
     //  triplestore_remove_by_id(coll->rstore, r->o);
     //*dlite_collection_deinit_state(&state);
-    UNUSED(state);
 
+    /* This also releases the reference to the instance */
     dlite_collection_remove_relations(coll, label, "_has-uuid", NULL, NULL);
     dlite_collection_remove_relations(coll, label, "_has-meta", NULL, NULL);
     dlite_collection_remove_relations(coll, label, "_has-dimmap", NULL, NULL);
@@ -580,11 +666,13 @@ const DLiteInstance *dlite_collection_get(const DLiteCollection *coll,
 const DLiteInstance *dlite_collection_get_id(const DLiteCollection *coll,
                                              const char *id)
 {
-  const DLiteRelation *r;
   char uuid[DLITE_UUID_LENGTH+1];
   if (dlite_get_uuid(uuid, id) < 0) return NULL;
-  if ((r = dlite_collection_find(coll, NULL, NULL, "_has-uuid", uuid, NULL)))
-    return dlite_instance_get(id);
+  if (dlite_collection_find(coll, NULL, NULL, "_has-uuid", uuid, NULL)) {
+    DLiteInstance *inst = dlite_instance_get(uuid);
+    if (inst && inst->_refcount >= 2) dlite_instance_decref(inst);
+    return inst;
+  }
   return NULL;
 }
 
diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 3d2fa79..8502350 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2297,6 +2297,7 @@ int dlite_instance_get_hash(const DLiteInstance *inst,
  */
 void dlite_instance_freeze(DLiteInstance *inst)
 {
+  dlite_instance_sync_to_dimension_sizes(inst);
   inst->_flags |= dliteImmutable;
 }
 
-- 
2.43.0


From d1032d4c58ac9d8919ec8c0406f45305465a2ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 027/132] fix: urlsplit: respect the length argument, accept
 empty path segments and multi-digit IPvFuture; percent-coding always
 terminates its output

---
 src/utils/urlsplit.c | 62 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/src/utils/urlsplit.c b/src/utils/urlsplit.c
index c3b8e68..7067c77 100644
--- a/src/utils/urlsplit.c
+++ b/src/utils/urlsplit.c
@@ -83,15 +83,10 @@ int urlsplit(const char *url, UrlComponents *components)
 
 
 /*
-  Like urlsplit(), but takes an extra argument `len`.
-
-  If `len` is positive, the `len` first characters of `url` must be a
-  valid URL (in which case `len` is returned), otherwise zero is returned.
-
-  A negative `len` means that the whole length of `url` is parsed
-  (equivalent to ``len=strlen(url)``).
+  Help function for urlsplitn().  Here `url` must have exactly `len`
+  characters if `len` is positive.
  */
-int urlsplitn(const char *url, int len, UrlComponents *components)
+static int _urlsplit(const char *url, int len, UrlComponents *components)
 {
   int n=0;
   if (len == 0) return 0;
@@ -116,7 +111,7 @@ int urlsplitn(const char *url, int len, UrlComponents *components)
     int k, authlen=(int)strcspn(url+n+2, "/?#");
     n += 2;
     if (components) components->authority = url+n;
-    if ((k = (int)strcspn(url+n, "@")) > 0 && k > 0 && k < authlen) {
+    if ((k = (int)strcspn(url+n, "@")) < authlen) {
       /* userinfo */
       assert(url[n+k] == '@');
       if (components) components->userinfo = url+n;
@@ -132,9 +127,9 @@ int urlsplitn(const char *url, int len, UrlComponents *components)
       n++;
       if (url[n] == 'v' || url[n] == 'V') {
         /* IPvFuture */
-        if (!isxdigit(url[n+1])) return 0;
-        if (url[n+2] != '.') return 0;
-        n += 3;
+        if (!isxdigit(url[++n])) return 0;
+        while (isxdigit(url[n])) n++;
+        if (url[n++] != '.') return 0;
         n += jspn(url+n, strcatSubDelims, 1, ":");
       } else {
         /* IPv6 host */
@@ -163,7 +158,6 @@ int urlsplitn(const char *url, int len, UrlComponents *components)
   if (len && len < n) return 0;
 
   /* check path */
-  if (url[n] == '/' && url[n+1] == '/') return 0;  // must not start with "//"
   if (components) components->path = url+n;
   n += jspn(url+n, strcatSubDelims, 1, "/:@");
   if (len > 0 && n >= len) n = len;
@@ -195,6 +189,41 @@ int urlsplitn(const char *url, int len, UrlComponents *components)
   return n;
 }
 
+/*
+  Like urlsplit(), but takes an extra argument `len`.
+
+  If `len` is positive, the `len` first characters of `url` must be a
+  valid URL (in which case `len` is returned), otherwise zero is returned.
+
+  A negative `len` means that the whole length of `url` is parsed
+  (equivalent to ``len=strlen(url)``).
+ */
+int urlsplitn(const char *url, int len, UrlComponents *components)
+{
+  char buf[256], *s=buf;
+  int n;
+  if (len < 0) return _urlsplit(url, len, components);
+
+  /* Only look at the first `len` characters of `url` */
+  if (memchr(url, '\0', len)) return _urlsplit(url, len, components);
+  if (len >= (int)sizeof(buf) && !(s = malloc(len + 1))) return 0;
+  memcpy(s, url, len);
+  s[len] = '\0';
+  n = _urlsplit(s, len, components);
+  if (components) {
+    const char **p[] = {
+      &components->scheme, &components->authority, &components->userinfo,
+      &components->host, &components->port, &components->path,
+      &components->query, &components->fragment
+    };
+    size_t i;
+    for (i=0; i < sizeof(p)/sizeof(p[0]); i++)
+      if (*p[i]) *p[i] = url + (*p[i] - s);
+  }
+  if (s != buf) free(s);
+  return n;
+}
+
 
 /*
   Join URL components `components` and write them to buffer `buf`.
@@ -333,6 +362,7 @@ int pct_xencode(char *buf, long size, const char *src, long len,
 {
   int n=0;
   long i;
+  if (size > 0) buf[0] = '\0';
   if (len < 0) len = (long)strlen(src);
   for (i=0; i<len; i++) {
     if (strcategory(src[i]) <= maxcat ||
@@ -375,13 +405,15 @@ int pct_ndecode(char *buf, long size, const char *encoded, long len)
 {
   int n=0;
   long i=0;
+  if (size > 0) buf[0] = '\0';
   if (len < 0) len = (long)strlen(encoded);
-  while (encoded[i] && i < len) {
+  while (i < len && encoded[i]) {
     if (encoded[i] == '%') {
       if (i+2 >= len || !isxdigit(encoded[i+1]) || !isxdigit(encoded[i+2]))
         return -1;
       unsigned int c;
-      int m = sscanf(encoded+i+1, "%2x", &c);
+      char hex[3] = {encoded[i+1], encoded[i+2], '\0'};
+      int m = sscanf(hex, "%2x", &c);
       if (m < 0) return -1;
       assert(m == 1);
       n += strsetc(buf+n, size-n, c);
-- 
2.43.0


From 705a270c21dd5023217915904c036456b167bb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 028/132] fix: UUIDs at the end of short URIs; joining URLs
 converted escapes and read outside its buffer

---
 src/dlite-misc.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 926a8a1..b38c69b 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -94,7 +94,7 @@ DLiteIdType dlite_idtypen(const char *id, int len)
   if (len == DLITE_UUID_LENGTH && isuuid(id)) return dliteIdCopy;
 
   if (isurln(id, len))
-    return (len > DLITE_UUID_LENGTH+9 && isuuid(id + len-DLITE_UUID_LENGTH)) ?
+    return (len > DLITE_UUID_LENGTH && isuuid(id + len-DLITE_UUID_LENGTH)) ?
       dliteIdCopy : dliteIdHash;
 
   return dliteIdHash;
@@ -234,7 +234,7 @@ DLiteIdType _dlite_get_uuidn(char *buff, const char *id, size_t len,
       type = dliteIdCopy;
     } else if (isurln(id, len)) {  // id: uri/uuid, uri
       int m = len - DLITE_UUID_LENGTH;
-      if (m > 9 && isuuid(id+m)) {
+      if (m > 0 && isuuid(id+m)) {
         strncpy(buff, id+m, DLITE_UUID_LENGTH);
         buff[DLITE_UUID_LENGTH] = '\0';
         type = dliteIdCopy;
@@ -321,8 +321,8 @@ int dlite_split_meta_uri(const char *uri, char **name, char **version,
 
   if (!(p = strrchr(uri, '/')))
     FAIL1("invalid metadata uri: '%s'", uri);
-  q = p-1;
-  while (*q != '/' && q > uri) q--;
+  q = p;
+  while (q > uri && *(--q) != '/') ;
   if (q == uri)
     FAIL1("invalid metadata uri: '%s'", uri);
 
@@ -449,13 +449,19 @@ int dlite_option_parse(char *options, DLiteOpt *opts, DLiteOptFlag flags)
 char *dlite_join_url(const char *driver, const char *location,
                      const char *options, const char *fragment)
 {
-  TGenBuf s;
-  tgen_buf_init(&s);
-  if (driver) tgen_buf_append_fmt(&s, "%s://", driver);
-  tgen_buf_append(&s, location, -1);
-  if (options) tgen_buf_append_fmt(&s, "?%s", options);
-  if (fragment) tgen_buf_append_fmt(&s, "#%s", fragment);
-  return tgen_buf_steal(&s);
+  char *url;
+  size_t size = strlen(location) + 1;
+  if (driver) size += strlen(driver) + 3;
+  if (options) size += strlen(options) + 1;
+  if (fragment) size += strlen(fragment) + 1;
+  if (!(url = malloc(size)))
+    return err(dliteMemoryError, "allocation failure"), NULL;
+  snprintf(url, size, "%s%s%s%s%s%s%s",
+           (driver) ? driver : "", (driver) ? "://" : "",
+           location,
+           (options) ? "?" : "", (options) ? options : "",
+           (fragment) ? "#" : "", (fragment) ? fragment : "");
+  return url;
 }
 
 
-- 
2.43.0


From 6c7d822be11c649c51f79d2e2ed5c98e853d4201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 029/132] fix: adding an instance to a collection that already
 has its _has-uuid relation leaked a reference

---
 src/dlite-collection.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index a26bba3..82fd7b3 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -580,20 +580,28 @@ const DLiteRelation *dlite_collection_find_first(const DLiteCollection *coll,
 int dlite_collection_add_new(DLiteCollection *coll, const char *label,
                              DLiteInstance *inst)
 {
+  int exists;
   if (dlite_collection_find(coll, NULL, label, "_is-a", "Instance", NULL))
     return errx(dliteValueError,
                 "instance with label '%s' is already in the collection",
                 label);
+  exists = (dlite_collection_find(coll, NULL, label, "_has-uuid", inst->uuid,
+                                  "xsd:anyURI")) ? 1 : 0;
 
   if (add_relation(coll, label, "_is-a", "Instance", NULL))
     return 1;
   if (add_relation(coll, label, "_has-uuid", inst->uuid, "xsd:anyURI") ||
       add_relation(coll, label, "_has-meta", inst->meta->uri, NULL)) {
     triplestore_remove(coll->rstore, label, "_is-a", "Instance", NULL);
-    triplestore_remove(coll->rstore, label, "_has-uuid", NULL, NULL);
+    if (!exists)
+      triplestore_remove(coll->rstore, label, "_has-uuid", inst->uuid,
+                         "xsd:anyURI");
     DLITE_PROP_DIM(coll, 0, 0) = coll->nrelations;
     return 1;
   }
+
+  /* The collection already had a reference if it had the relation */
+  if (exists) dlite_instance_decref(inst);
   return 0;
 }
 
@@ -605,8 +613,11 @@ int dlite_collection_add_new(DLiteCollection *coll, const char *label,
 int dlite_collection_add(DLiteCollection *coll, const char *label,
                          DLiteInstance *inst)
 {
-  if (dlite_collection_add_new(coll, label, inst)) return 1;
   dlite_instance_incref(inst);
+  if (dlite_collection_add_new(coll, label, inst)) {
+    dlite_instance_decref(inst);
+    return 1;
+  }
   return 0;
 }
 
-- 
2.43.0


From bfa256ee67f7cb981771b2f3669e310e4bb8ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 030/132] fix: error records: buffer overflow by long messages,
 stale message position and warnings hiding pending errors

---
 src/utils/err.c | 76 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 62 insertions(+), 14 deletions(-)

diff --git a/src/utils/err.c b/src/utils/err.c
index b815d03..7c7d1d2 100644
--- a/src/utils/err.c
+++ b/src/utils/err.c
@@ -184,6 +184,34 @@ static char *errlevel_names[] = {
 };
 
 
+/* Appends formatted text to buffer `buf` of size `size`, at position `n`.
+
+   Nothing is written outside the buffer.  Returns the new end position,
+   which is larger than or equal to `size` if the text was truncated. */
+static int append_vmsg(char *buf, size_t size, int n, const char *fmt,
+                       va_list ap)
+{
+  int m;
+  if (n < 0 || n >= (int)size - 1) {
+    m = vsnprintf(NULL, 0, fmt, ap);
+  } else {
+    m = vsnprintf(buf + n, size - n, fmt, ap);
+  }
+  return (m < 0) ? n : n + m;
+}
+
+static int append_msg(char *buf, size_t size, int n, const char *fmt, ...)
+  __attribute__ ((__format__ (__printf__, 4, 5)));
+static int append_msg(char *buf, size_t size, int n, const char *fmt, ...)
+{
+  va_list ap;
+  va_start(ap, fmt);
+  n = append_vmsg(buf, size, n, fmt, ap);
+  va_end(ap);
+  return n;
+}
+
+
 /* Reports the error and returns `eval`.  Args:
  *  errlevel : error level
  *  eval     : error value that is returned or passed exit()
@@ -207,6 +235,8 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
   ErrWarnMode warn_mode = err_get_warn_mode();
   ErrOverrideMode override = err_get_override_mode();
   int ignore_new_error = 0;
+  int keep_error = 0;
+  ErrLevel old_level;
   ErrHandler handler = err_get_handler();
   ErrNameConv nameconv = err_get_nameconv();
 
@@ -236,7 +266,8 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
     case errOverrideAppend:
       n = strlen(errmsg);
       tls->err_record->pos = n;
-      n += snprintf(errmsg + n, errsize - n, "%s", err_append_sep);
+      n = append_msg(errmsg, errsize, n, "%s", err_append_sep);
+      keep_error = 1;
       break;
     case errOverrideWarnOld:
       if (stream) fprintf(stream, "Warning: Overriding old error: '%s'\n",
@@ -244,6 +275,7 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
       break;
     case errOverrideWarnNew:
       ignore_new_error = 1;
+      keep_error = 1;
       if (stream) fprintf(stream, "Warning: Ignoring new error %d\n",
                           tls->err_record->eval);
       break;
@@ -251,45 +283,54 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
       break;
     case errOverrideIgnoreNew:
       ignore_new_error = 1;
+      keep_error = 1;
       break;
     default:  // should never be reached
       assert(0);
     }
   }
+  if (!n && !ignore_new_error) tls->err_record->pos = 0;
+
+  /* A message that is not an error (like a warning) should not hide the
+     error it is added to. */
+  if (eval) keep_error = 0;
+  old_level = tls->err_record->level;
 
   /* Update the current error record */
   tls->err_record->level = errlevel;
-  tls->err_record->eval = eval;
-  tls->err_record->errnum = errnum;
+  if (!keep_error) {
+    tls->err_record->eval = eval;
+    tls->err_record->errnum = errnum;
+  }
 
   /* Write error message */
   if (!ignore_new_error) {
     Globals *g = tls->globals;
 
     if (g->err_prefix && *g->err_prefix)
-      n += snprintf(errmsg + n, errsize - n, "%s: ", g->err_prefix);
+      n = append_msg(errmsg, errsize, n, "%s: ", g->err_prefix);
 
     if (debug_mode >= 1)
-      n += snprintf(errmsg + n, errsize - n, "%s: ", file);
+      n = append_msg(errmsg, errsize, n, "%s: ", file);
     if (debug_mode >= 2)
-      n += snprintf(errmsg + n, errsize - n, "in %s(): ", func);
+      n = append_msg(errmsg, errsize, n, "in %s(): ", func);
 
     if (eval) {
       if (nameconv)
-        n += snprintf(errmsg + n, errsize - n, "%s%s: ", nameconv(eval),
+        n = append_msg(errmsg, errsize, n, "%s%s: ", nameconv(eval),
                       (errlevel_name && *errlevel_name) ?
                       errlevel_name : "");
       else
-        n += snprintf(errmsg + n, errsize - n, "%s %d: ",
+        n = append_msg(errmsg, errsize, n, "%s %d: ",
                       (errlevel_name && *errlevel_name) ?
                       errlevel_name : "Errval", eval);
     } else if (errlevel_name && *errlevel_name) {
-      n += snprintf(errmsg + n, errsize - n, "%s: ", errlevel_name);
+      n = append_msg(errmsg, errsize, n, "%s: ", errlevel_name);
     }
     if (msg && *msg)
-      n += vsnprintf(errmsg + n, errsize - n, msg, ap);
+      n = append_vmsg(errmsg, errsize, n, msg, ap);
     if (errnum)
-      n += snprintf(errmsg + n, errsize - n, ": %s", strerror(errnum));
+      n = append_msg(errmsg, errsize, n, ": %s", strerror(errnum));
     if (n >= (int)errsize && stream)
       fprintf(stream,
               "Warning: error %d truncated due to full message buffer: %s",
@@ -331,6 +372,9 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
     if (handler) handler(tls->err_record);
   }
 
+  /* Restore the level of the error that is kept */
+  if (keep_error) tls->err_record->level = old_level;
+
   /* Clear errno */
   errno = 0;
 
@@ -879,8 +923,9 @@ void _err_unlink_record(ErrRecord *record)
       case errOverrideEnv:
       case errOverrideAppend:
         n = strlen(tls->err_record->msg);
-        strncat(tls->err_record->msg+n, err_append_sep, ERR_MSGSIZE-n);
-        n += strlen(err_append_sep);
+        tls->err_record->pos = n;
+        n = append_msg(tls->err_record->msg, ERR_MSGSIZE, n, "%s",
+                       err_append_sep);
         break;
       case errOverrideWarnOld:
         fprintf(stderr, "** Warning: overwriting old error: %s\n",
@@ -900,7 +945,10 @@ void _err_unlink_record(ErrRecord *record)
     tls->err_record->level = record->level;
     tls->err_record->eval = eval;
     tls->err_record->errnum = record->errnum;
-    if (!ignore_new) strncpy(tls->err_record->msg+n, record->msg, ERR_MSGSIZE-n);
+    if (!ignore_new) {
+      if (!n) tls->err_record->pos = 0;
+      append_msg(tls->err_record->msg, ERR_MSGSIZE, n, "%s", record->msg);
+    }
 
     if (record->level == errLevelException && tls->err_record->prev)
       longjmp(tls->err_record->env, eval);
-- 
2.43.0


From a290d852ac5d8d6ff592164c703f89434765b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 031/132] fix: error masks for codes below -31, error files
 named <stdout> or <stderr>, number of behaviors

---
 src/dlite-behavior.c | 2 +-
 src/dlite-misc.c     | 8 ++++----
 src/dlite-misc.h     | 8 +++++---
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/dlite-behavior.c b/src/dlite-behavior.c
index 8413d91..322b9ff 100644
--- a/src/dlite-behavior.c
+++ b/src/dlite-behavior.c
@@ -94,7 +94,7 @@ size_t dlite_behavior_nrecords(void)
 const DLiteBehavior *dlite_behavior_recordno(size_t n)
 {
   size_t N = dlite_behavior_nrecords();
-  if (n > N) return NULL;
+  if (n >= N) return NULL;
   return behavior_table + n;
 }
 
diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index b38c69b..3ab8266 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -1014,7 +1014,7 @@ void _dlite_err_mask_set(DLiteErrMask mask)
 void dlite_err_ignored_set(DLiteErrCode code, int value)
 {
   DLiteErrMask *mask = _dlite_err_mask_get();
-  int bit = DLITE_ERRBIT(code);
+  DLiteErrMask bit = DLITE_ERRBIT(code);
   if (mask) {
     if (value)
       *mask |= bit;
@@ -1029,7 +1029,7 @@ int dlite_err_ignored_get(DLiteErrCode code)
   DLiteErrMask *mask = _dlite_err_mask_get();
   if (!mask) return 0;
   if (code > 0 && (*mask & DLITE_ERRBIT(dliteUnknownError))) return 1;
-  return (int)(*mask) & DLITE_ERRBIT(code);
+  return (*mask & DLITE_ERRBIT(code)) ? 1 : 0;
 }
 
 
@@ -1127,9 +1127,9 @@ void dlite_err_set_file(const char *filename)
   FILE *fp;
   if (!filename || !*filename)
     err_set_stream(NULL);
-  else if (strcmp(filename, "<stdout>"))
+  else if (strcmp(filename, "<stdout>") == 0)
     err_set_stream(stdout);
-  else if (strcmp(filename, "<stderr>"))
+  else if (strcmp(filename, "<stderr>") == 0)
     err_set_stream(stderr);
   else if ((fp = fopen(filename, "a")))
     err_set_stream(fp);
diff --git a/src/dlite-misc.h b/src/dlite-misc.h
index 714109a..de77447 100644
--- a/src/dlite-misc.h
+++ b/src/dlite-misc.h
@@ -471,16 +471,18 @@ DLiteErrMask *_dlite_err_mask_get(void);
 void _dlite_err_mask_set(DLiteErrMask mask);
 
 #define DLITE_ERRBIT(code)                                              \
-  ((int)1<<(int)((code >= 0) ? 0 : (code <= dliteLastError) ? -dliteLastError : -code))
+  ((DLiteErrMask)1 << (int)(((code) >= 0) ? 0 :                         \
+                            ((code) <= dliteLastError) ? -dliteLastError : \
+                            -(code)))
 
 #define DLITE_NOERR(mask)                                       \
   do {                                                          \
     DLiteErrMask *_errmaskptr = _dlite_err_mask_get();          \
     DLiteErrMask _errmask = (_errmaskptr) ? *_errmaskptr : 0;   \
-    dlite_err_mask_set(mask)
+    _dlite_err_mask_set(mask)
 
 #define DLITE_NOERR_END                                         \
-    dlite_err_mask_set(_errmask);                               \
+    _dlite_err_mask_set(_errmask);                               \
   } while (0)
 
 
-- 
2.43.0


From 86aa4f00677d9727c1106351f8ecd66e06a53dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 032/132] fix: jstore: keep quotes of string values and empty
 keys when reading, release memory on errors, refuse empty text

---
 src/utils/jstore.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/utils/jstore.c b/src/utils/jstore.c
index 8f0aa97..63ca5ea 100644
--- a/src/utils/jstore.c
+++ b/src/utils/jstore.c
@@ -218,9 +218,19 @@ int jstore_update_from_jsmn(JStore *js, const char *src, jsmntok_t *tok)
   if (tok->type != JSMN_OBJECT) return err(1, "jsmn token must be an object");
   for (i=0; i < tok->size; i++) {
     jsmntok_t *tv = tk+1;
-    if (jstore_addn(js,
-                    src + tk->start, tk->end - tk->start,
-                    src + tv->start, tv->end - tv->start)) return 1;
+    int stat;
+    char *key, *value;
+    /* the quotes belong to the JSON value, but not to a string token */
+    int q = (tv->type == JSMN_STRING) ? 1 : 0;
+    if (!(key = strndup(src + tk->start, tk->end - tk->start)))
+      return err(1, "allocation failure");
+    if (!(value = strndup(src + tv->start - q, tv->end - tv->start + 2*q))) {
+      free(key);
+      return err(1, "allocation failure");
+    }
+    stat = jstore_addstolen(js, key, value);
+    free(key);
+    if (stat) return stat;
     tk += jsmn_count(tv) + 2;
   }
   return 0;
@@ -236,9 +246,11 @@ int jstore_update_from_string(JStore *js, const char *buf, int len)
   int r, stat;
   jsmn_init(&parser);
   r = jsmn_parse_alloc(&parser, buf, len, &tokens, &ntokens);
-  if (r < 0) {
-    return err(1, "error parsing JSON buffer \"%.70s\": %s",
-               buf, jsmn_strerror(r));
+  if (r <= 0) {
+    free(tokens);
+    return err(1, "error parsing JSON buffer \"%.*s\": %s",
+               (len < 70) ? len : 70, buf,
+               (r < 0) ? jsmn_strerror(r) : "no content");
   }
   stat = jstore_update_from_jsmn(js, buf, tokens);
   free(tokens);
@@ -297,6 +309,7 @@ char *jstore_to_string(JStore *js)
   n += m;
   return buf;
  fail:
+  free(buf);
   return err(1, "error creating json string"), NULL;
 }
 
@@ -366,9 +379,9 @@ int jstore_iter_deinit(JStoreIter *iter)
    Returns non-zero on error. */
 int jstore_set_labeln(JStore *js, const char *key, const char *label, int len)
 {
-  char **p, *s;
+  char **p, *s, *old=NULL;
   int stat;
-  if ((p = map_get(&js->labels, key))) free(*p);
+  if ((p = map_get(&js->labels, key))) old = *p;
 
   if (len > 0)
     s = strndup(label, len);
@@ -381,6 +394,8 @@ int jstore_set_labeln(JStore *js, const char *key, const char *label, int len)
   if ((stat = map_set(&js->labels, key, s))) {
     errx(2, "error associating label '%s' to key '%s'", s, key);
     free(s);
+  } else {
+    free(old);
   }
   return stat;
 }
-- 
2.43.0


From 16f7ab986fb0f33bbe0ee44538db0abd409bb05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 033/132] fix: session: a session set as default is the default
 session itself, not a copy sharing its states

---
 src/utils/session.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/utils/session.c b/src/utils/session.c
index b32af67..7616570 100644
--- a/src/utils/session.c
+++ b/src/utils/session.c
@@ -37,6 +37,9 @@ static map_session_t _sessions;
 /* Number of sessions */
 static int _sessions_count=0;
 
+/* Session set with session_set_default() or NULL */
+static Session *_default_session=NULL;
+
 /* Returns pointer to `_sessions`.  Initialise it if needed. */
 static map_session_t *get_sessions(void)
 {
@@ -61,8 +64,10 @@ Session *session_create(const char *session_id)
                 session_id), NULL;
   if (!(s.session_id = strdup(session_id)))
     return err(-12, "allocation failure"), NULL;
-  if (map_set(sessions, session_id, s))
+  if (map_set(sessions, session_id, s)) {
+    free((char *)s.session_id);
     return errx(-15, "failed to create new session with id: %s", session_id), NULL;
+  }
   map_init(&s.states);
 
   sp = map_get(sessions, session_id);
@@ -92,6 +97,7 @@ void session_free(Session *s)
   }
   s->freeing = 0;
   map_deinit(&s->states);
+  if (s == _default_session) _default_session = NULL;
 
   if (id) {
     map_remove(sessions, id);
@@ -141,7 +147,8 @@ const char *session_get_id(Session *s)
 Session *session_get_default(void)
 {
   map_session_t *sessions = get_sessions();
-  Session *s = map_get(sessions, DEFAULT_SESSION_ID);
+  Session *s = (_default_session) ? _default_session :
+    map_get(sessions, DEFAULT_SESSION_ID);
   if (!s) s = session_create(DEFAULT_SESSION_ID);
   return s;
 }
@@ -157,10 +164,11 @@ Session *session_get_default(void)
 int session_set_default(Session *s)
 {
   map_session_t *sessions = get_sessions();
-  Session *s2 = map_get(sessions, DEFAULT_SESSION_ID);
+  Session *s2 = (_default_session) ? _default_session :
+    map_get(sessions, DEFAULT_SESSION_ID);
   if (s2 && s2 != s)
     return errx(-3, "a default session has already been set");
-  map_set(sessions, DEFAULT_SESSION_ID, *s);
+  _default_session = s;
   return 0;
 }
 
-- 
2.43.0


From f25f350b1752a871be972a42096e3bcb52202ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 034/132] fix: fu_join() of empty components, fu_dirname() of
 files in the root directory and fu_stem() without directory

---
 src/utils/fileutils.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index 467feae..5245acd 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -269,22 +269,23 @@ char *fu_vjoin_sep(int sep, const char *a, va_list ap)
   if (arg0 == 0) {
     n = strlen(a);
     assert(len > n);
-    strncpy(path, a, n);
+    memcpy(path, a, n);
     pos += n;
-    path[pos++] = sep;
     arg0++;
   }
   for (i=0; i<arg0-1; i++)
     p = va_arg(aq, char *);
+    /* Only add separator if there is something to separate from */
+    if (pos > 0 && path[pos-1] != sep && path[pos-1] != '/')
+      path[pos++] = sep;
   for (i=arg0; i<nargs; i++) {
     p = va_arg(aq, char *);
     n = strlen(p);
     assert(len-pos > n);
-    strncpy(path+pos, p, n);
+    memcpy(path+pos, p, n);
     pos += n;
-    path[pos++] = sep;
   }
-  path[len-1] = '\0';
+  path[pos] = '\0';
 
   va_end(aq);
   return path;
@@ -313,8 +314,10 @@ char *fu_dirname(const char *path)
   char *p, *q;
   assert(path);
   if (!(p = strdup(path))) return err(1, "allocation failure"), NULL;
-  if ((q = fu_lastsep(p)) && q > p) *q = '\0';
-  if (!q) *p = '\0';
+  if ((q = fu_lastsep(p)))
+    q[(q > p) ? 0 : 1] = '\0';  // keep the separator of the root directory
+  else
+    *p = '\0';
   return p;
 }
 
@@ -334,14 +337,11 @@ char *fu_basename(const char *path)
 */
 char *fu_stem(const char *path)
 {
-  char *p;
-  if ((p = fu_lastsep(path)) && *p) {
-    p++;
-    const char *ext = fu_fileext(p);
-    if (ext && *ext) return strndup(p, ext - p - 1);
-    return strdup(p);
-  }
-  return strdup(path);
+  const char *p = fu_lastsep(path);
+  const char *base = (p) ? p + 1 : path;
+  const char *ext = fu_fileext(base);
+  if (*ext) return strndup(base, ext - base - 1);
+  return strdup(base);
 }
 
 /*
-- 
2.43.0


From d3f0ce04082503889111b5abdaadeb652bf563e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 035/132] fix: fu_nextpath() reading past strings that end with
 repeated separators

---
 src/utils/fileutils.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index 5245acd..d3c7edb 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -446,9 +446,7 @@ const char *fu_nextpath(const char *paths, char **endptr, const char *pathsep)
     p = *endptr + 1;
 
   /* ignore repeated path separators */
-  if (*p) {
-    while (strchr((pathsep) ? pathsep : ";:", *p)) p++;
-  }
+  while (*p && strchr((pathsep) ? pathsep : ";:", *p)) p++;
 
   if (pathsep) {
     *endptr = p + strcspn(p, pathsep);
-- 
2.43.0


From e70f852eb84a05e3bb71add048bbec700b1d954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 036/132] fix: fu_paths_remove_index() past the end, absolute
 paths and colons in path lists, previous platform

---
 src/utils/fileutils.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index d3c7edb..7228636 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -843,7 +843,7 @@ FUPlatform fu_paths_set_platform(FUPaths *paths, FUPlatform platform)
   if (platform == fuNative)
     platform = fu_native_platform();
   if (platform == paths->platform)
-    return 0;
+    return prev;
   paths->platform = platform;
   if (paths->pathsep) free((void *)paths->pathsep);
   paths->pathsep = strdup(fu_pathsep(platform));
@@ -851,9 +851,9 @@ FUPlatform fu_paths_set_platform(FUPaths *paths, FUPlatform platform)
   for (i=0; i < paths->n; i++) {
     const char *p = paths->paths[i];
     if (platform == fuUnix || platform == fuApple)
-      paths->paths[i] = fu_unixpath(p, NULL, 0, ":");
+      paths->paths[i] = fu_unixpath(p, NULL, 0, "");
     else if (platform == fuWindows)
-      paths->paths[i] = fu_winpath(p, NULL, 0, ";");
+      paths->paths[i] = fu_winpath(p, NULL, 0, "");
     else {
       warn("unsupported platform: %s", fu_platform_name(platform));
       paths->paths[i] = strdup(p);
@@ -983,9 +983,9 @@ int fu_paths_insertn(FUPaths *paths, const char *path, size_t len, int n)
   switch (platform) {
   case fuUnix:
   case fuApple:
-    p = fu_unixpath(path, NULL, 0, paths->pathsep);
+    p = fu_unixpath(path, NULL, 0, "");  // `path` is a single path
     break;
-  case fuWindows:  p = fu_winpath(path, NULL, 0, paths->pathsep);   break;
+  case fuWindows:  p = fu_winpath(path, NULL, 0, "");   break;
   default: assert(0);  // should never happen
   }
   if (!p) FAIL("allocation failure");
@@ -1078,7 +1078,7 @@ int fu_paths_extend_prefix(FUPaths *paths, const char *prefix,
   int stat=0;
   while ((p = fu_nextpath(s, &endptr, pathsep))) {
     int len = endptr - p;
-    if (fu_isabs(p)) {
+    if ((len > 1) ? fu_isabs(p) : (len == 1 && strchr("/\\", *p))) {
       if ((stat = fu_paths_appendn(paths, p, len)) < 0) return stat;
     } else {
       char buf[1024];
@@ -1100,7 +1100,7 @@ int fu_paths_extend_prefix(FUPaths *paths, const char *prefix,
  */
 int fu_paths_remove_index(FUPaths *paths, int index)
 {
-  if (index < -(int)(paths->n) || index >= (int)paths->n+1)
+  if (index < -(int)(paths->n) || index >= (int)paths->n)
     return err(-1, "path index out of range: %d", index);
   if (index < 0) index += paths->n;
   assert(paths->paths[index]);
-- 
2.43.0


From c47b526fec67456fc1bfd45cabfae3dab9cf1e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 037/132] fix: memory leak when iterating over files of file
 URLs

---
 src/utils/fileutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index 7228636..c0f830b 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -1266,6 +1266,7 @@ const char *fu_nextmatch(FUIter *iter)
         }
         iter->filename = filename;
         strcpy(iter->path, path);
+        if (tmppath) free(tmppath);
         strcat(iter->path, dirsep);
         strcat(iter->path, filename);
         fu_friendly_dirsep(iter->path);
@@ -1284,6 +1285,7 @@ const char *fu_nextmatch(FUIter *iter)
   }
  fail:
   if (tmppath) free(tmppath);
+        if (tmppath) free(tmppath);
   return NULL;
 }
 
-- 
2.43.0


From 15266ad8d7b8ae0d5b7cf8c171d0161895c2be8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 038/132] fix: fu_winpath() and fu_unixpath() leaving stray
 characters, damaging URLs and network paths in lists

---
 src/utils/fileutils.c | 133 +++++++++++++++++++++++-------------------
 1 file changed, 74 insertions(+), 59 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index c0f830b..11522e6 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -47,9 +47,6 @@
 #define FAIL1(msg, a1) do { \
     err(1, msg, a1); goto fail; } while (0)
 
-/* Expands to `a`, if `a` is positive, otherwise to zero. */
-#define POS(a) (((a) > 0) ? (a) : 0)
-
 
 /* Paths iterator */
 struct _FUIter {
@@ -275,12 +272,12 @@ char *fu_vjoin_sep(int sep, const char *a, va_list ap)
   }
   for (i=0; i<arg0-1; i++)
     p = va_arg(aq, char *);
-    /* Only add separator if there is something to separate from */
-    if (pos > 0 && path[pos-1] != sep && path[pos-1] != '/')
-      path[pos++] = sep;
   for (i=arg0; i<nargs; i++) {
     p = va_arg(aq, char *);
     n = strlen(p);
+    /* Only add separator if there is something to separate from */
+    if (pos > 0 && path[pos-1] != sep && path[pos-1] != '/')
+      path[pos++] = sep;
     assert(len-pos > n);
     memcpy(path+pos, p, n);
     pos += n;
@@ -482,6 +479,19 @@ const char *fu_nextpath(const char *paths, char **endptr, const char *pathsep)
 }
 
 
+/*
+  Help function for fu_winpath() and fu_unixpath().  Returns the malloc'ed
+  string `buf` if `dest` is NULL.  Otherwise, up to `size` bytes of `buf`
+  are copied to `dest`, `buf` is free'ed and `dest` is returned.
+ */
+static char *return_path(char *buf, char *dest, size_t size)
+{
+  if (!dest) return buf;
+  snprintf(dest, size, "%s", buf);
+  free(buf);
+  return dest;
+}
+
 /*
   Converts `path` to a valid Windows path and return a pointer to the result.
 
@@ -499,39 +509,45 @@ const char *fu_nextpath(const char *paths, char **endptr, const char *pathsep)
  */
 char *fu_winpath(const char *path, char *dest, size_t size, const char *pathsep)
 {
-  char *q, *d, *endptr=NULL;
+  char *buf, *d, *endptr=NULL;
   const char *p;
-  int n=0;
-  if (!dest) {
-    size = strlen(path) + 3;
-    for (p=path; *p; p++) if (strchr(";:", *p)) size += 2;
-    if (!(dest = malloc(size))) return err(1, "allocation failure"), NULL;
-  }
+  size_t bufsize = strlen(path) + 3;
+  for (p=path; *p; p++) if (strchr(";:", *p)) bufsize += 2;
+  if (!(buf = malloc(bufsize))) return err(1, "allocation failure"), NULL;
+
+  d = buf;
   while ((p = fu_nextpath(path, &endptr, pathsep))) {
     int len = endptr - p;
     if (!fu_iswinpath(p, len) && isurln(p, len)) {
-      n += snprintf(dest+n, POS(size-n), "%.*s", len, p);
+      memcpy(d, p, len);
+      d += len;
     } else {
-      if (globmatch("/[a-zA-Z]/*", p) == 0) {
-        n += snprintf(dest+n, POS(size-n), "%c:\\%.*s", toupper(p[1]),
-                      len-3, p+3);
-      } else {
-        n += snprintf(dest+n, POS(size-n), "%.*s", len, p);
+      char *start=d;
+      const char *q=p;
+      if (len >= 3 && p[0] == '/' && isalpha((unsigned char)p[1]) &&
+          p[2] == '/') {
+        *(d++) = toupper(p[1]);
+        *(d++) = ':';
+        *(d++) = '\\';
+        q += 3;
+      } else if (len > 2 && strncmp(p, "\\\\", 2) == 0) {
+        *(d++) = *(q++);  // keep initial "\\\\" of network (UNC) paths
+        *(d++) = *(q++);
+        start = d - 1;
+      }
+      /* Convert to backward slashes and skip repeated dirsep's */
+      for (; q < endptr; q++) {
+        char c = (*q == '/') ? '\\' : *q;
+        if (c == '\\' && d > start && d[-1] == '\\') continue;
+        *(d++) = c;
       }
-      if (*endptr) n += snprintf(dest+n, POS(size-n), ";");
-      for (q=dest; *q; q++) if (*q == '/') *q = '\\';
     }
+    if (*endptr) *(d++) = ';';
   }
-
-  /* Remove repeated dirsep's */
-  for (d=q=dest; *q; d++, q++) {
-    while (*q == '\\' && *(q+1) == '\\') q++;
-    *d = *q;
-  }
-  return dest;
+  *d = '\0';
+  return return_path(buf, dest, size);
 }
 
-
 /*
   Converts `path` to a valid Unix path and return a pointer to the result.
 
@@ -550,45 +566,44 @@ char *fu_winpath(const char *path, char *dest, size_t size, const char *pathsep)
 char *fu_unixpath(const char *path, char *dest, size_t size,
                   const char *pathsep)
 {
-  char *endptr=NULL;
+  char *buf, *d, *endptr=NULL;
   const char *p;
   char sep = (pathsep) ? (strchr(pathsep, ':')) ? ':' : pathsep[0] : ':';
 
-  int n=0;
-  if (!dest) {
-    size = strlen(path) + 1;
-    if (!(dest = malloc(size))) return err(1, "allocation failure"), NULL;
-  }
+  if (!(buf = malloc(strlen(path) + 1)))
+    return err(1, "allocation failure"), NULL;
+
+  d = buf;
   while ((p = fu_nextpath(path, &endptr, pathsep))) {
     int len = endptr - p;
-
-    if (isurln(p, len)) {
-      n += snprintf(dest+n, POS(size-n), "%.*s", len, p);
+    if (!fu_iswinpath(p, len) && isurln(p, len)) {
+      memcpy(d, p, len);
+      d += len;
     } else {
-      char *start=dest+n, *q, *d;
-      if (len > 3 && isalpha(p[0]) && p[1] == ':' && strchr("\\/", p[2])) {
-        n += snprintf(dest+n, POS(size-n), "/%c/%.*s", tolower(p[0]),
-                      len-3, p+3);
-      } else if (len > 2 && isalpha(p[0]) && p[1] == ':' &&
-                 !strchr("\\/", p[2])) {
-        warn("relative path prefixed with drive: '%s'. Drive is ignored, "
-             "please use absolute paths in combination with drive", p);
-        n +=snprintf(dest+n, POS(size-n), "%.*s", len-2, p+2);
-      } else {
-        n += snprintf(dest+n, POS(size-n), "%.*s", len, p);
+      char *start=d;
+      const char *q=p;
+      if (len > 2 && isalpha((unsigned char)p[0]) && p[1] == ':') {
+        if (strchr("\\/", p[2])) {
+          *(d++) = '/';
+          *(d++) = tolower(p[0]);
+        } else {
+          warn("relative path prefixed with drive: '%s'. Drive is ignored, "
+               "please use absolute paths in combination with drive", p);
+        }
+        q += 2;
       }
-      /* Convert backward to forward slashes and remove repeated dirsep's */
-      for (q=start; *q; q++) if (*q == '\\') *q = '/';
-      for (d=q=dest; *q; d++, q++) {
-        while (*q == '/' && *(q+1) == '/') q++, n--;
-        *d = *q;
+      /* Convert backward to forward slashes and skip repeated dirsep's */
+      for (; q < endptr; q++) {
+        char c = (*q == '\\') ? '/' : *q;
+        if (c == '/' && d > start && d[-1] == '/') continue;
+        *(d++) = c;
       }
     }
     /* add separator */
-    if (*endptr) n += snprintf(dest+n, POS(size-n), "%c", sep);
+    if (*endptr) *(d++) = sep;
   }
-
-  return dest;
+  *d = '\0';
+  return return_path(buf, dest, size);
 }
 
 /*
@@ -1251,6 +1266,7 @@ const char *fu_nextmatch(FUIter *iter)
       ErrEnd;
 
       if (!iter->dir) {
+        if (tmppath) free(tmppath);
         iter->i++;
         continue;
       }
@@ -1266,10 +1282,10 @@ const char *fu_nextmatch(FUIter *iter)
         }
         iter->filename = filename;
         strcpy(iter->path, path);
-        if (tmppath) free(tmppath);
         strcat(iter->path, dirsep);
         strcat(iter->path, filename);
         fu_friendly_dirsep(iter->path);
+        if (tmppath) free(tmppath);
         if (iter->path[0] == '.' && iter->path[1] == iter->dirsep)
           return iter->path+2;
         else
@@ -1285,7 +1301,6 @@ const char *fu_nextmatch(FUIter *iter)
   }
  fail:
   if (tmppath) free(tmppath);
-        if (tmppath) free(tmppath);
   return NULL;
 }
 
-- 
2.43.0


From 6fff9b529ecb38b6565ab0a5c73e561c4da6c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:38 +0000
Subject: [PATCH 039/132] fix: copying properties to and from column-major
 order placed elements wrongly, empty arrays aborted

---
 src/dlite-entity.c | 28 ++++++++++++++++++++++++++--
 src/dlite-type.c   | 10 +++++++---
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 8502350..208de6f 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2072,6 +2072,30 @@ DLiteArray *dlite_instance_get_property_array(const DLiteInstance *inst,
 }
 
 
+/*
+  Returns a new DLiteArray object describing a buffer holding a copy of
+  property number `i` of instance `inst` stored in the given order.  Its
+  dimensions have the same order as those of the property.
+
+  Returns NULL on error.
+ */
+static DLiteArray *get_property_layout(const DLiteInstance *inst,
+                                       size_t i, int order)
+{
+  DLiteArray *arr, *tr, *layout;
+  if (!(arr = dlite_instance_get_property_array_by_index(inst, i, 'C')))
+    return NULL;
+  if (order == 'C') return arr;
+  tr = dlite_array_transpose(arr);
+  dlite_array_free(arr);
+  if (!tr) return NULL;
+  layout = dlite_array_create_order(tr->data, tr->type, tr->size,
+                                    tr->ndims, tr->shape, order);
+  dlite_array_free(tr);
+  return layout;
+}
+
+
 /*
   Copy value of property `name` to memory pointed to by `dest`.  It must be
   large enough to hole all the data.  The order argument `order` has the
@@ -2101,7 +2125,7 @@ int dlite_instance_copy_property_by_index(const DLiteInstance *inst, int i,
   const DLiteProperty *p;
   DLiteArray *arr;
   if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return 1;
-  if (!(arr = dlite_instance_get_property_array_by_index(inst, i, order)))
+  if (!(arr = get_property_layout(inst, i, order)))
     return 1;
   retval = dlite_instance_cast_property_by_index(inst, i, p->type, p->size,
                                                  arr->shape, arr->strides,
@@ -2159,7 +2183,7 @@ int dlite_instance_assign_property(const DLiteInstance *inst, const char *name,
   DLiteArray *arr;
   if ((i = dlite_meta_get_property_index(inst->meta, name)) < 0) return 1;
   p = inst->meta->_properties + i;
-  if (!(arr = dlite_instance_get_property_array_by_index(inst, i, order)))
+  if (!(arr = get_property_layout(inst, i, order)))
     return 1;
   retval =
     dlite_instance_assign_casted_property_by_index(inst, i, p->type, p->size,
diff --git a/src/dlite-type.c b/src/dlite-type.c
index 4fa0f00..96e6187 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1549,13 +1549,14 @@ int dlite_type_ndcast(int ndims,
   size_t *sidx=NULL, *didx=NULL;
   size_t j, n, N=1;
 
-  assert(src);
-  assert(dest);
   if (!castfun) castfun = dlite_type_copy_cast;
 
   /* Scalar */
-  if (ndims == 0)
+  if (ndims == 0) {
+    assert(src);
+    assert(dest);
     return castfun(dest, dest_type, dest_size, src, src_type, src_size);
+  }
 
   assert(src_dims);
   assert(dest_dims);
@@ -1572,6 +1573,9 @@ int dlite_type_ndcast(int ndims,
   /* Nothing to copy */
   if (!N) return 0;
 
+  assert(src);
+  assert(dest);
+
   /* Default source strides */
   if (!src_strides) {
     size_t size = src_size;
-- 
2.43.0


From dedfd702f073dc82574a1bb3b464b0cf6a23012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:38 +0000
Subject: [PATCH 040/132] fix: arrays: slices of slices and with negative or
 open bounds, iteration over one-dimensional arrays, comparing views, printing
 long strings

---
 src/dlite-arrays.c | 101 ++++++++++++++++++++++++++++-----------------
 src/dlite-arrays.h |   4 +-
 2 files changed, 66 insertions(+), 39 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 3a9f105..171bc06 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -70,6 +70,7 @@ DLiteArray *dlite_array_create_order(void *data, DLiteType type, size_t size,
     dlite_array_free(arr);
     return arr2;
   default:
+    dlite_array_free(arr);
     return err(1, "invalid order '%c', should be either 'C' or 'F'",
                order), NULL;
   }
@@ -90,9 +91,13 @@ void dlite_array_free(DLiteArray *arr)
  */
 size_t dlite_array_size(const DLiteArray *arr)
 {
-  int n, size, maxsize=0;
-  for (n=0; n < arr->ndims; n++)
-    if ((size = arr->strides[n]*arr->shape[n]) > maxsize) maxsize = size;
+  int n;
+  size_t maxsize=arr->size;
+  for (n=0; n < arr->ndims; n++) {
+    size_t size = abs(arr->strides[n])*arr->shape[n];
+    if (!arr->shape[n]) return 0;
+    if (size > maxsize) maxsize = size;
+  }
   return maxsize;
 }
 
@@ -147,9 +152,9 @@ int dlite_array_iter_init(DLiteArrayIter *iter, const DLiteArray *arr)
 {
   memset(iter, 0, sizeof(DLiteArrayIter));
   iter->arr = arr;
-  if (!(iter->ind = calloc(arr->ndims, sizeof(int))))
+  if (!(iter->ind = calloc(arr->ndims+1, sizeof(int))))
     return err(dliteMemoryError, "allocation failure");
-  iter->ind[arr->ndims-1]--;
+  if (arr->ndims) iter->ind[arr->ndims-1]--;
   return 0;
 }
 
@@ -169,7 +174,7 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
 {
   int n;
   DLiteArray *arr = (DLiteArray *)iter->arr;
-  if (iter->ind[0] < 0) return NULL;  /* check stop indicator */
+  if (iter->stop) return NULL;  /* check stop indicator */
   for (n=arr->ndims-1; n>=0; n--)
     if (arr->shape[n] <= 0) return NULL;  /* check that all dimensions has
 					    positive length */
@@ -178,8 +183,8 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
     iter->ind[n] = 0;
   }
   if (n < 0) {
-    iter->ind[0] = -1;  /* stop indicator */
-    return NULL;
+    iter->stop = 1;
+    if (arr->ndims) return NULL;  /* the only element of a scalar is returned */
   }
   return dlite_array_index(arr, iter->ind);
 }
@@ -190,7 +195,9 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
  */
 int dlite_array_compare(const DLiteArray *a, const DLiteArray *b)
 {
-  int i;
+  int i, equal=1;
+  void *p;
+  DLiteArrayIter iter;
   /* check whether the array structures are equal */
   if (a->type != b->type) return 0;
   if (a->size != b->size) return 0;
@@ -200,13 +207,14 @@ int dlite_array_compare(const DLiteArray *a, const DLiteArray *b)
     if (a->strides[i] != b->strides[i]) return 0;
   }
   /* check whether the array data are equal */
-  if (memcmp(a->data, b->data, dlite_array_size(a))) return 0;
-  return 1;
+  if (dlite_array_iter_init(&iter, a)) return 0;
+  while (equal && (p = dlite_array_iter_next(&iter)))
+    if (memcmp(p, dlite_array_index(b, iter.ind), a->size)) equal = 0;
+  dlite_array_iter_deinit(&iter);
+  return equal;
 }
 
 
-#define abs(x) (((x) > 0) ? (x) : -(x))
-
 /*
   Returns a new array object representing a slice of `arr`.  `start`,
   `stop` and `step` has the same meaning as in Python and should be
@@ -253,21 +261,27 @@ DLiteArray *dlite_array_slice(const DLiteArray *arr,
   if (!(new = dlite_array_create(arr->data, arr->type, arr->size,
 				 arr->ndims, arr->shape))) return NULL;
   for (n = arr->ndims-1; n >= 0; n--) {
-    int s1, s2;
-    int d = (step) ? step[n] : 1;
-    if (d == 0) return err(1, "dim %d: slice step cannot be zero", n), NULL;
-    if (d > 0) {
-      s1 = (start) ? start[n] % arr->shape[n] : 0;
-      s2 = (stop) ? stop[n] % arr->shape[n] - 1 : arr->shape[n] - 1;
-    } else {
-      s1 = (start) ? start[n] % arr->shape[n] - 1 : arr->shape[n] - 1;
-      s2 = (stop) ? stop[n] % arr->shape[n] : 0;
+    long len = arr->shape[n];
+    long d = (step) ? step[n] : 1;
+    long s1 = (start) ? start[n] : (d > 0) ? 0 : len;
+    long s2 = (stop) ? stop[n] : (d > 0) ? len : 0;
+    long count;
+    if (d == 0) {
+      dlite_array_free(new);
+      return err(1, "dim %d: slice step cannot be zero", n), NULL;
     }
-    if (s1 < 0) s1 += arr->shape[n];
-    if (s2 < 0) s2 += arr->shape[n];
-    offset += s1 * arr->strides[n];
-    new->shape[n] = (abs(s2 - s1) + 1 + d/2) / abs(d);
-    new->strides[n] *= d;
+    if (s1 < 0) s1 += len;
+    if (s2 < 0) s2 += len;
+    /* like in Python, bounds outside the array are limited to the array */
+    s1 = (s1 < 0) ? 0 : (s1 > len) ? len : s1;
+    s2 = (s2 < 0) ? 0 : (s2 > len) ? len : s2;
+    if (d > 0)
+      count = (s2 > s1) ? (s2 - s1 - 1) / d + 1 : 0;
+    else
+      count = (s1 > s2) ? (s1 - s2 - 1) / -d + 1 : 0;
+    if (count) offset += ((d > 0) ? s1 : s1 - 1) * arr->strides[n];
+    new->shape[n] = count;
+    new->strides[n] = (int)(arr->strides[n] * d);
   }
   new->data = ((char *)arr->data) + offset;
   return new;
@@ -284,7 +298,8 @@ DLiteArray *dlite_array_slice(const DLiteArray *arr,
 DLiteArray *dlite_array_reshape(const DLiteArray *arr,
                                 int ndims, const size_t *shape)
 {
-  int i, prod1=1, prod2=1;;
+  int i;
+  size_t prod1=1, prod2=1;
   if (!dlite_array_is_continuous(arr))
     return err(1, "can only reshape C-continuous arrays"), NULL;
   for (i=0; i < arr->ndims; i++) prod1 *= arr->shape[i];
@@ -330,10 +345,12 @@ void *dlite_array_make_continuous(DLiteArray *arr)
   DLiteArrayIter iter;
   for (n=0; n < arr->ndims; n++) size *= arr->shape[n];
   if (!(data = malloc(size))) return err(dliteMemoryError, "allocation failure"), NULL;
-  if (dlite_array_is_continuous(arr)) return memcpy(data, arr->data, size);
 
   q = data;
-  dlite_array_iter_init(&iter, arr);
+  if (dlite_array_iter_init(&iter, arr)) {
+    free(data);
+    return NULL;
+  }
   while ((p = dlite_array_iter_next(&iter))) {
     memcpy(q, p, arr->size);
     q += arr->size;
@@ -364,23 +381,31 @@ void *dlite_array_make_continuous(DLiteArray *arr)
 int dlite_array_printf(FILE *fp, const DLiteArray *arr, int width, int prec)
 {
   void *p;
-  int i, N=arr->ndims-1, NN=arr->shape[N]-1;
+  int i, N=arr->ndims-1, NN=(N >= 0) ? (int)arr->shape[N]-1 : 0;
   DLiteArrayIter iter;
-  char buf[80];
-  dlite_array_iter_init(&iter, arr);
+  char *buf=NULL;
+  size_t bufsize=0;
+  int stat=0;
+  if (dlite_array_iter_init(&iter, arr)) return 1;
   while ((p = dlite_array_iter_next(&iter))) {
-    char *sep = (iter.ind[N] < NN) ? " " : "";
+    int ind = (N >= 0) ? iter.ind[N] : 0;  /* index of last dimension */
+    char *sep = (ind < NN) ? " " : "";
     int m=0;
     for (i=arr->ndims-1; i >= 0 && iter.ind[i] == 0; i--) m++;
-    if (iter.ind[N] == 0)
+    if (ind == 0)
       for (; i >= 0; i--) fprintf(fp, " ");
     for (i=0; i<m; i++) fprintf(fp, "[");
-    dlite_type_print(buf, sizeof(buf), p, arr->type, arr->size, width, prec, 0);
+    if (dlite_type_aprint(&buf, &bufsize, 0, p, arr->type, arr->size,
+                          width, prec, 0) < 0) {
+      stat = 1;
+      break;
+    }
     fprintf(fp, "%s%s", buf, sep);
     for (i=N; i >= 0 && iter.ind[i] == (int)arr->shape[i]-1; i--)
       fprintf(fp, "]");
-    if (iter.ind[N] == NN) fprintf(fp, "\n");
+    if (ind == NN) fprintf(fp, "\n");
   }
   dlite_array_iter_deinit(&iter);
-  return 0;
+  if (buf) free(buf);
+  return stat;
 }
diff --git a/src/dlite-arrays.h b/src/dlite-arrays.h
index 91372a1..a455b2c 100644
--- a/src/dlite-arrays.h
+++ b/src/dlite-arrays.h
@@ -44,6 +44,7 @@ typedef struct _DLiteArray {
 typedef struct _DLiteArrayIter {
   const DLiteArray *arr;  /*!< pointer to the array we are iterating over */
   int *ind;               /*!< the current index */
+  int stop;               /*!< whether all elements have been visited */
 } DLiteArrayIter;
 
 
@@ -142,7 +143,8 @@ int dlite_array_compare(const DLiteArray *a, const DLiteArray *b);
       start[n]-1, start[n]-2, ... stop[n]+1, stop[n]
 
   Like Python, negative values of `start` or `stop` counts from the back.
-  Hence index `-k` is equivalent to `arr->shape[n]-|k|`.
+  Hence index `-k` is equivalent to `arr->shape[n]-|k|`.  Bounds outside
+  the array are limited to the array.
 
   If `start` is NULL, it will default to zero for dimensions `n` with
   positive `step` and `arr->shape[n]` for dimensions with negative
-- 
2.43.0


From 10fca45b14766fdd3822937fff6b8dd61d017e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 041/132] fix: bson parser read outside malformed documents,
 bson_scan_bool() expected a string

---
 src/utils/bson.c | 113 +++++++++++++++++++++++++----------------------
 1 file changed, 60 insertions(+), 53 deletions(-)

diff --git a/src/utils/bson.c b/src/utils/bson.c
index 886d5fd..c459bba 100644
--- a/src/utils/bson.c
+++ b/src/utils/bson.c
@@ -1,6 +1,7 @@
 #include "config.h"
 
 #include <string.h>
+#include <limits.h>
 
 #include "err.h"
 #include "byteorder.h"
@@ -82,6 +83,8 @@ int bson_elementsize(BsonType type, const char *ename, int size)
     return errx(bsonValueError,
                 "expected bson type %c to be %d bytes, got %d",
                 type, expected_size, size);
+  if (size > INT_MAX - 6 - esize)
+    return errx(bsonValueError, "too large bson element: %d bytes", size);
   switch (type) {
   case bsonString:
   case bsonBinary:
@@ -113,36 +116,11 @@ int bson_docsize(const unsigned char *doc)
  */
 int bson_nelements(const unsigned char *doc)
 {
-  int type, docsize=bson_docsize(doc), n=4, nelements=0;
-  while ((type = doc[n++])) {
-    n += strlen((char *)doc+n) + 1;
-    switch (type) {
-    case bsonDouble:     n += 8;  break;
-    case bsonBool:       n++;     break;
-    case bsonNull:                break;
-    case bsonInt32:      n += 4;  break;
-#ifdef HAVE_INT64
-    case bsonUInt64:     n += 8;  break;
-    case bsonInt64:      n += 8;  break;
-#endif
-#ifdef HAVE_FLOAT128
-    case bsonDecimal128: n += 16; break;
-#endif
-    case bsonDocument:
-    case bsonArray:
-      n += le32toh(*((int32_t *)(doc+n)));
-      break;
-    case bsonString:
-      n += le32toh(*((int32_t *)(doc+n))) + 4;
-      break;
-    case bsonBinary:
-      n += le32toh(*((int32_t *)(doc+n))) + 5;
-      break;
-    }
+  int type, nelements=0;
+  unsigned char *endptr=NULL;
+  while ((type = bson_parse(doc, NULL, NULL, NULL, &endptr)) > 0)
     nelements++;
-    if (n > docsize)
-      return errx(bsonInconsistentDataError, "inconsistent bson document");
-  }
+  if (type < 0) return type;
   return nelements;
 }
 
@@ -401,9 +379,9 @@ int bson_end_subdoc(unsigned char *doc, int bufsize, BsonType type)
 int bson_begin_binary(unsigned char *doc, int bufsize, const char *ename,
                       unsigned char **subdoc)
 {
-  int docsize=bson_docsize(doc), elen=strlen(ename), esize=elen+6;
-  if ((docsize) < 0) return docsize;
+  int docsize, elen=strlen(ename), esize=elen+6;
   if (bufsize < esize) return esize;
+  if ((docsize = bson_docsize(doc)) < 0) return docsize;
   if (doc[docsize-1]) return errx(bsonInconsistentDataError,
                                   "expect BSON document to end with NUL");
 
@@ -503,15 +481,28 @@ int bson_end_binary(unsigned char *doc, int bufsize)
 int bson_parse(const unsigned char *doc, char **ename, void **data,
                int *datasize, unsigned char **endptr)
 {
-  const unsigned char *p = (endptr && *endptr) ? *endptr : doc + 4;
-  BsonType type = *(p++);
+  const unsigned char *p, *end;
+  BsonType type;
   char *_ename;
-  void *_data;
-  int _datasize;
-  if (!type) return 0;
+  void *_data = NULL;
+  int32_t size;
+  int docsize, remaining, _datasize = 0;
+
+  if ((docsize = bson_docsize(doc)) < 0) return docsize;
+  if (!docsize) return errx(bsonParseError, "no bson document");
+  end = doc + docsize - 1;  // the NUL that terminates the document
+  if (*end)
+    return errx(bsonInconsistentDataError,
+                "expect BSON document to end with NUL");
+  p = (endptr && *endptr) ? *endptr : doc + 4;
+  if (p == end) return 0;
+  type = *(p++);
 
   _ename = (char *)p;
-  p += strlen(_ename) + 1;
+  if (!(p = memchr(p, '\x00', end - p)))
+    return errx(bsonParseError, "unterminated bson element name");
+  p++;
+  remaining = end - p;
 
   switch (type) {
   case bsonDouble:
@@ -527,31 +518,47 @@ int bson_parse(const unsigned char *doc, char **ename, void **data,
 #endif
     _datasize = bson_datasize(type);
     assert(_datasize >= 0);
+    if (_datasize > remaining)
+      return errx(bsonParseError, "bson element exceeds document: %s", _ename);
     _data = (void *)p;
     p += _datasize;
     break;
   case bsonString:
-    _datasize = le32toh(*((int32_t *)p)) - 1;
-    p += 4;
-    _data = (void *)p;
-    p += _datasize + 1;
-    break;
   case bsonDocument:
   case bsonArray:
-    _datasize = le32toh(*((int32_t *)p));
-    _data = (void *)p;
-    p += _datasize;
-    break;
   case bsonBinary:
-    _datasize = le32toh(*((int32_t *)p));
-    p += 4;
-    if (*p != '\x00')
-      return errx(bsonParseError,
-                  "unsupported binary bson subtype: %02x", *p);
-    p++;
+    if (remaining < 4)
+      return errx(bsonParseError, "bson element exceeds document: %s", _ename);
+    memcpy(&size, p, 4);
+    _datasize = (int)le32toh((uint32_t)size);
+    if (type == bsonString || type == bsonBinary) {
+      p += 4;
+      remaining -= 4;
+    }
+    if (type == bsonBinary) {
+      if (remaining < 1)
+        return errx(bsonParseError, "bson element exceeds document: %s",
+                    _ename);
+      if (*p != '\x00')
+        return errx(bsonParseError,
+                    "unsupported binary bson subtype: %02x", *p);
+      p++;
+      remaining--;
+    }
+    if (_datasize < ((type == bsonString) ? 1 : (type == bsonBinary) ? 0 : 5) ||
+        _datasize > remaining)
+      return errx(bsonParseError, "invalid size of bson element '%s': %d",
+                  _ename, _datasize);
     _data = (void *)p;
     p += _datasize;
+    if (type != bsonBinary && p[-1])
+      return errx(bsonParseError, "bson element '%s' should end with NUL",
+                  _ename);
+    if (type == bsonString) _datasize--;
     break;
+  default:
+    return errx(bsonParseError, "unsupported type of bson element '%s': %02x",
+                _ename, type);
   }
 
   if (endptr) *endptr = (unsigned char *)p;
@@ -738,7 +745,7 @@ bool bson_scan_bool(const unsigned char *doc, const char *ename,
       *errcode = bsonKeyError;
     }
     return 0;
-  } else if (type != bsonString) {
+  } else if (type != bsonBool) {
     errx(bsonTypeError,
          "expected element '%s' to be boolean, got %s",
          ename, bson_typename(type));
-- 
2.43.0


From bbf31dca069ec3be4633f9d38f88ee18a00c54eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 042/132] fix: BSON of instances: NULL strings, references,
 relations and metadata were lost or damaged, sizes and types were not checked

---
 src/dlite-bson.c | 547 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 403 insertions(+), 144 deletions(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 68ae99c..a003702 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -76,10 +76,33 @@ static BsonType bsontype(DLiteType dtype, size_t size)
 }
 
 
+/*
+  Append a relation as sub-document `ename` to BSON document.
+
+  Returns number of bytes appended (or would have been appended) to `buf`.
+  A negative error code is returned on error.
+ */
+static int append_relation(unsigned char *buf, int bufsize, const char *ename,
+                           const DLiteRelation *rel)
+{
+  int n=0;
+  unsigned char *subdoc=NULL;
+  BEGIN_SUBDOC(buf, ename, &subdoc);
+  if (rel->s) APPEND(subdoc, bsonString, "s", -1, rel->s);
+  if (rel->p) APPEND(subdoc, bsonString, "p", -1, rel->p);
+  if (rel->o) APPEND(subdoc, bsonString, "o", -1, rel->o);
+  if (rel->d) APPEND(subdoc, bsonString, "d", -1, rel->d);
+  END_SUBDOC(buf, bsonDocument);
+  return n;
+}
+
+
 /*
   Append DLite property to BSON document.
 
-  Arrays are serialised as binary blobs in host byte order.
+  Arrays are serialised as binary blobs in host byte order.  Exceptions are
+  arrays of relations and arrays of strings including NULLs, that are
+  serialised as BSON arrays.
 
   Arguments:
     - buf: Pointer to a BSON document to append data to.  The memory pointed
@@ -106,7 +129,7 @@ static int append_property(unsigned char *buf, int bufsize,
   float128_t f128;
 #endif
 
-  if (p->shape) {
+  if (p->ndims) {
 
     /* Array - treated as binary using host byte order */
     int i, nmemb=1;
@@ -123,8 +146,24 @@ static int append_property(unsigned char *buf, int bufsize,
 
     case dliteStringPtr:
       {
-        unsigned char *subdoc;
-        int m;
+        unsigned char *subdoc=NULL;
+        int m, hasnull=0;
+        for (i=0; i<nmemb; i++)
+          if (!((char **)ptr)[i]) hasnull = 1;
+        if (hasnull) {
+          BEGIN_SUBDOC(buf, p->name, &subdoc);
+          for (i=0; i<nmemb; i++) {
+            char *s = ((char **)ptr)[i];
+            char index[20];
+            snprintf(index, sizeof(index), "%d", i);
+            if (s)
+              APPEND(subdoc, bsonString, index, -1, s);
+            else
+              APPEND(subdoc, bsonNull, index, -1, NULL);
+          }
+          END_SUBDOC(buf, bsonArray);
+          break;
+        }
         if ((m = bson_begin_binary(buf, bufsize-n, p->name, &subdoc)) < 0)
           return m;
         n += m;
@@ -135,23 +174,28 @@ static int append_property(unsigned char *buf, int bufsize,
           n += m;
         }
         if ((m = bson_end_binary(buf, bufsize-n)) < 0) return m;
+        n += m;
       }
       break;
 
     case dliteRef:
       {
-        unsigned char *subdoc;
+        unsigned char *subdoc=NULL;
         int m;
         if ((m = bson_begin_binary(buf, bufsize-n, p->name, &subdoc)) < 0)
           return m;
         n += m;
         for (i=0; i<nmemb; i++) {
-          char *uuid = ((DLiteInstance **)ptr)[i]->uuid;
+          DLiteInstance *ref = ((DLiteInstance **)ptr)[i];
+          char uuid[DLITE_UUID_LENGTH+1];
+          memset(uuid, 0, sizeof(uuid));  /* no uuid for NULL */
+          if (ref) memcpy(uuid, ref->uuid, sizeof(uuid));
           if ((m = bson_append_binary(subdoc, bufsize-n, DLITE_UUID_LENGTH+1,
                                       uuid)) < 0) return m;
           n += m;
         }
         if ((m = bson_end_binary(buf, bufsize-n)) < 0) return m;
+        n += m;
       }
       break;
 
@@ -161,14 +205,18 @@ static int append_property(unsigned char *buf, int bufsize,
                   dlite_type_get_dtypename(p->type));
 
     case dliteRelation:
-      for (i=0; i<nmemb; i++) {
-        unsigned char *subdoc;
-        DLiteRelation rel = *((DLiteRelation *)ptr + i);
+      {
+        unsigned char *subdoc=NULL;
         BEGIN_SUBDOC(buf, p->name, &subdoc);
-        APPEND(subdoc, bsonString, "s", -1, rel.s);
-        APPEND(subdoc, bsonString, "p", -1, rel.p);
-        APPEND(subdoc, bsonString, "o", -1, rel.o);
-        END_SUBDOC(buf, bsonDocument);
+        for (i=0; i<nmemb; i++) {
+          int m;
+          char index[20];
+          snprintf(index, sizeof(index), "%d", i);
+          if ((m = append_relation(subdoc, bufsize-n, index,
+                                   (DLiteRelation *)ptr + i)) < 0) return m;
+          n += m;
+        }
+        END_SUBDOC(buf, bsonArray);
       }
       break;
     }
@@ -244,13 +292,19 @@ static int append_property(unsigned char *buf, int bufsize,
       break;
 
     case dliteStringPtr:
-      APPEND(buf, bsonString, p->name,
-             strlen(*((char **)ptr)), *((char **)ptr));
+      if (*((char **)ptr))
+        APPEND(buf, bsonString, p->name,
+               strlen(*((char **)ptr)), *((char **)ptr));
+      else
+        APPEND(buf, bsonNull, p->name, -1, NULL);
       break;
 
     case dliteRef:
-      APPEND(buf, bsonString, p->name, p->size,
-             (*((DLiteInstance **)ptr))->uuid);
+      if (*((DLiteInstance **)ptr))
+        APPEND(buf, bsonString, p->name, DLITE_UUID_LENGTH,
+               (*((DLiteInstance **)ptr))->uuid);
+      else
+        APPEND(buf, bsonNull, p->name, -1, NULL);
       break;
 
     case dliteDimension:
@@ -260,13 +314,9 @@ static int append_property(unsigned char *buf, int bufsize,
 
     case dliteRelation:
       {
-        unsigned char *subdoc;
-        DLiteRelation rel = *((DLiteRelation *)ptr);
-        BEGIN_SUBDOC(buf, p->name, &subdoc);
-        APPEND(subdoc, bsonString, "s", -1, rel.s);
-        APPEND(subdoc, bsonString, "p", -1, rel.p);
-        APPEND(subdoc, bsonString, "o", -1, rel.o);
-        END_SUBDOC(buf, bsonDocument);
+        int m = append_relation(buf, bufsize-n, p->name, ptr);
+        if (m < 0) return m;
+        n += m;
       }
     }
   }
@@ -293,7 +343,9 @@ int dlite_bson_append_instance(unsigned char *buf, int bufsize,
 {
   size_t i;
   int n=0, ismeta=dlite_instance_is_meta(inst);
-  unsigned char *subdoc, byteordering[]="\x01\x02\x03\x04";
+  unsigned char *subdoc=NULL, byteordering[]="\x01\x02\x03\x04";
+
+  if (dlite_instance_sync_to_properties((DLiteInstance *)inst)) return -1;
 
   APPEND(buf, bsonString, "uuid", DLITE_UUID_LENGTH, inst->uuid);
   if (inst->uri)
@@ -315,7 +367,9 @@ int dlite_bson_append_instance(unsigned char *buf, int bufsize,
   if (ismeta) {
     /* metadata */
     DLiteMeta *meta = (DLiteMeta *)inst;
-    char *descr = *((char **)dlite_instance_get_property(inst, "description"));
+    char *descr = NULL;
+    if (dlite_instance_has_property((DLiteInstance *)inst, "description"))
+      descr = *((char **)dlite_instance_get_property(inst, "description"));
     if (descr) APPEND(buf, bsonString, "description", -1, descr);
 
     BEGIN_SUBDOC(buf, "dimension_values", &subdoc);
@@ -328,13 +382,16 @@ int dlite_bson_append_instance(unsigned char *buf, int bufsize,
     BEGIN_SUBDOC(buf, "dimensions", &subdoc);
     for (i=0; i < meta->_ndimensions; i++) {
       DLiteDimension *d = meta->_dimensions + i;
-      APPEND(subdoc, bsonString, d->name, -1, d->description);
+      if (d->description)
+        APPEND(subdoc, bsonString, d->name, -1, d->description);
+      else
+        APPEND(subdoc, bsonNull, d->name, -1, NULL);
     }
     END_SUBDOC(buf, bsonDocument);
 
     BEGIN_SUBDOC(buf, "properties", &subdoc);
     for (i=0; i < meta->_nproperties; i++) {
-      unsigned char *prop;
+      unsigned char *prop=NULL;
       DLiteProperty *p = meta->_properties + i;
       char typename[32];
       dlite_type_set_typename(p->type, p->size, typename, sizeof(typename));
@@ -343,7 +400,7 @@ int dlite_bson_append_instance(unsigned char *buf, int bufsize,
       if (p->ref)
         APPEND(prop, bsonString, "$ref", -1, p->ref);
       if (p->ndims) {
-        unsigned char *arr;
+        unsigned char *arr=NULL;
         BEGIN_SUBDOC(prop, "shape", &arr);
         int j;
         for (j=0; j < p->ndims; j++) {
@@ -422,31 +479,57 @@ unsigned char *dlite_bson_from_instance(const DLiteInstance *inst,
                "', got '%s'", bson_typename(type))
 
 
-/* Read relations from `subdoc` and write them to `d` of length `len`.
+/* Assigns string `*dest` to a copy of `value` and free the old value.
+   Returns non-zero on error. */
+static int set_string(char **dest, const char *value)
+{
+  char *s = strdup(value);
+  if (!s) return err(dliteMemoryError, "allocation failure");
+  if (*dest) free(*dest);
+  *dest = s;
+  return 0;
+}
+
+
+/* Read relation from `subdoc` and write it to `rel`.
+   Returns non-zero on error. */
+static int parse_relation(const unsigned char *subdoc, DLiteRelation *rel)
+{
+  unsigned char *endptr=NULL;
+  char *ename, *value;
+  int type;
+  while ((type = bson_parse(subdoc, &ename, (void **)&value, NULL, &endptr))) {
+    char **field;
+    if (type < 0) return type;
+    TYPECHECK("relation", bsonString);
+    if (strcmp(ename, "s") == 0)      field = &rel->s;
+    else if (strcmp(ename, "p") == 0) field = &rel->p;
+    else if (strcmp(ename, "o") == 0) field = &rel->o;
+    else if (strcmp(ename, "d") == 0) field = &rel->d;
+    else return err(dliteKeyError, "unexpected element '%s' of relation in "
+                    "bson", ename);
+    if (set_string(field, value)) return -1;
+  }
+  return 0;
+}
+
+
+/* Read relations from array `subdoc` and write them to `rel` of length `len`.
    Returns non-zero on error. */
 static int parse_relations(const unsigned char *subdoc, DLiteRelation *rel,
                             int len)
 {
   unsigned char *buf, *endptr=NULL;
-  char *ename;
-  int type, i=0;
-  while ((type = bson_parse(subdoc, &ename, (void **)&buf, NULL, &endptr))) {
+  int type, stat, i=0;
+  while ((type = bson_parse(subdoc, NULL, (void **)&buf, NULL, &endptr))) {
+    if (type < 0) return type;
     if (i++ >= len)
       return err(dliteIndexError, "too many relations in bson, expected %d",
                  len);
     if (type != bsonDocument)
       return err(dliteTypeError, "bson relations should be document, got %s",
                  bson_typename(type));
-    unsigned char *ep=NULL;
-    int e;
-    char *s, *p, *o;
-    if ((e = bson_parse(buf, NULL, (void **)&s, NULL, &ep)) < 0) return e;
-    if ((e = bson_parse(buf, NULL, (void **)&p, NULL, &ep)) < 0) return e;
-    if ((e = bson_parse(buf, NULL, (void **)&o, NULL, &ep)) < 0) return e;
-    rel->s = strdup(s);
-    rel->p = strdup(p);
-    rel->o = strdup(o);
-    rel++;
+    if ((stat = parse_relation(buf, rel++))) return stat;
   }
   if (i != len) return err(dliteIndexError, "too few relations in bson, "
                            "got  %d, expected %d", i, len);
@@ -454,6 +537,16 @@ static int parse_relations(const unsigned char *subdoc, DLiteRelation *rel,
 }
 
 
+/* Assign the string property `name` of `meta`, if it exists and `value` is
+   not NULL.  Return non-zero on error. */
+static int set_meta_string(DLiteMeta *meta, const char *name,
+                           const char *value)
+{
+  DLiteInstance *inst = (DLiteInstance *)meta;
+  if (!value || !dlite_instance_has_property(inst, name)) return 0;
+  return dlite_instance_set_property(inst, name, &value);
+}
+
 /* Read `subdoc` and assign metadata dimensions. Return non-zero on error. */
 static int set_meta_dimensions(DLiteMeta *meta, unsigned char *subdoc)
 {
@@ -463,12 +556,13 @@ static int set_meta_dimensions(DLiteMeta *meta, unsigned char *subdoc)
   size_t ndims=0;
   DLiteDimension *d = meta->_dimensions;
   while ((type = bson_parse(subdoc, &ename, (void **)&val, NULL, &endptr))) {
-    TYPECHECK("dimension", bsonString);
+    if (type < 0) return type;
+    if (type != bsonNull) TYPECHECK("dimension", bsonString);
     if (ndims++ >= meta->_ndimensions)
       return err(dliteIndexError, "too many dimensions in bson, expected %d",
                  (int)meta->_ndimensions);
-    d->name = strdup(ename);
-    d->description = strdup(val);
+    if (set_string(&d->name, ename)) return -1;
+    if (type != bsonNull && set_string(&d->description, val)) return -1;
     d++;
   }
   if (ndims != meta->_ndimensions)
@@ -488,37 +582,50 @@ static int set_meta_dimensions(DLiteMeta *meta, unsigned char *subdoc)
   while ((type = bson_parse(subdoc, &ename, (void **)&buf, NULL, &endptr))) {
     unsigned char *bufptr=NULL;
     char *value;
+    if (type < 0) return type;
     TYPECHECK("property", bsonDocument);
     if (nprops++ >= meta->_nproperties)
       return err(dliteIndexError, "too many properties in bson, expected %d",
                  (int)meta->_nproperties);
-    p->name = strdup(ename);
+    if (set_string(&p->name, ename)) return -1;
     while ((type = bson_parse(buf, &ename, (void **)&value, NULL, &bufptr))) {
+      if (type < 0) return type;
       if (strcmp(ename, "type") == 0) {
         TYPECHECK("type", bsonString);
-        dlite_type_set_dtype_and_size(value, &(p->type), &(p->size));
+        if (dlite_type_set_dtype_and_size(value, &(p->type), &(p->size)))
+          return -1;
+      } else if (strcmp(ename, "$ref") == 0) {
+        TYPECHECK("$ref", bsonString);
+        if (set_string(&p->ref, value)) return -1;
       } else if (strcmp(ename, "shape") == 0) {
         unsigned char *b=(unsigned char *)value, *ep=NULL;
         char *v;
-        int ndims, i=0;
+        int ndims;
         TYPECHECK("shape", bsonArray);
         if ((ndims = bson_nelements(b)) < 0) return ndims;
-        p->shape = calloc(ndims, sizeof(char *));
-        while ((type = bson_parse(b, NULL, (void **)&v, NULL, &ep)))
-          p->shape[i++] = strdup(v);
-        p->ndims = ndims;
+        if (p->shape)
+          return err(dliteKeyError, "repeated shape in bson: %s", p->name);
+        if (ndims && !(p->shape = calloc(ndims, sizeof(char *))))
+          return err(dliteMemoryError, "allocation failure");
+        p->ndims = 0;
+        while ((type = bson_parse(b, NULL, (void **)&v, NULL, &ep))) {
+          if (type < 0) return type;
+          TYPECHECK("shape", bsonString);
+          if (set_string(&p->shape[p->ndims], v)) return -1;
+          p->ndims++;
+        }
       } else if (strcmp(ename, "unit") == 0) {
         TYPECHECK("unit", bsonString);
-        p->unit = strdup(value);
+        if (set_string(&p->unit, value)) return -1;
       } else if (strcmp(ename, "description") == 0) {
         TYPECHECK("description", bsonString);
-        p->description = strdup(value);
+        if (set_string(&p->description, value)) return -1;
       }
     }
+    if (!p->size)
+      return err(dliteKeyError, "missing type in bson: %s", p->name);
     p++;
   }
-  dlite_meta_init(meta);
-
   if (nprops != meta->_nproperties)
     return err(dliteIndexError, "too few properties in bson, got  %d, "
                "expected %d", (int)nprops, (int)meta->_nproperties);
@@ -527,35 +634,49 @@ static int set_meta_dimensions(DLiteMeta *meta, unsigned char *subdoc)
 
 
 /*
-  Set array property `idx` of `inst` from `data`.
+  Set array property `idx` of `inst` from `data` of BSON type `btype` and
+  size `datasize`.
   If `byteswap` is non-zero, the data will by byteswapped.
 
   Returns non-zero on error.
  */
-static int set_array_property(DLiteInstance *inst, int idx, void *data,
-                              int byteswap)
+static int set_array_property(DLiteInstance *inst, int idx, int btype,
+                              void *data, int datasize, int byteswap)
 {
-   int i, stat, nmemb=1;
-  void *ptr = dlite_instance_get_property_by_index(inst, idx);
+  int i, stat=0, expected, type;
+  size_t nmemb=1;
+  void *ptr = *((void **)DLITE_PROP(inst, idx));
   DLiteProperty *p = DLITE_PROP_DESCR(inst, idx);
+  size_t *shape = DLITE_PROP_DIMS(inst, idx);
   assert(p->ndims);
- size_t *shape = DLITE_PROP_DIMS(inst, idx);
   for (i=0; i < p->ndims; i++) nmemb *= shape[i];
+
+  expected = (p->type == dliteRelation ||
+              (p->type == dliteStringPtr && btype == bsonArray)) ?
+    bsonArray : bsonBinary;
+  if (btype != expected)
+    return err(dliteTypeError, "expected bson type '%s', got '%s' for array "
+               "property: %s", bson_typename(expected), bson_typename(btype),
+               p->name);
+
   switch (p->type) {
   case dliteBlob:
   case dliteBool:
   case dliteFixString:
-  case dliteRef:
-    dlite_instance_set_property_by_index(inst, idx, data);
-    break;
-
   case dliteInt:
   case dliteUInt:
   case dliteFloat:
-    dlite_instance_set_property_by_index(inst, idx, data);
-    if (byteswap) {
+    if ((size_t)datasize != nmemb*p->size)
+      return err(dliteInconsistentDataError, "expected %lu bytes, got %d for "
+                 "array property: %s", (unsigned long)(nmemb*p->size),
+                 datasize, p->name);
+    if (!nmemb) break;
+    memcpy(ptr, data, datasize);
+    if (byteswap && (p->type == dliteInt || p->type == dliteUInt ||
+                     p->type == dliteFloat)) {
       char *q = ptr;
-      for (i=0; i<nmemb; i++, q += p->size) {
+      size_t n;
+      for (n=0; n<nmemb; n++, q += p->size) {
         switch (p->size) {
         case 1: break;
         case 2: *((uint16_t *)q) = bswap_16(*((uint16_t *)q)); break;
@@ -575,12 +696,57 @@ static int set_array_property(DLiteInstance *inst, int idx, void *data,
   case dliteStringPtr:
     {
       char **v = ptr;
-      char *s = *((char **)data);
-      for (i=0; i < nmemb; i++) {
-        int n = strlen(s);
-        v[i] = strdup(s);
-        s += n+1;
+      char *s = data;
+      char *end = s + datasize;
+      unsigned char *endptr=NULL;
+      size_t n=0;
+      if (btype == bsonArray) {
+        while ((type = bson_parse(data, NULL, (void **)&s, NULL, &endptr))) {
+          if (type < 0) return type;
+          if (type != bsonNull) TYPECHECK("string array", bsonString);
+          if (n >= nmemb) break;
+          if (type != bsonNull && set_string(v + n, s)) return -1;
+          n++;
+        }
+        if (type || n != nmemb)
+          return err(dliteInconsistentDataError, "expected %lu strings for "
+                     "array property: %s", (unsigned long)nmemb, p->name);
+      } else {
+        while (n < nmemb && s < end && memchr(s, '\0', end - s)) {
+          if (set_string(v + n, s)) return -1;
+          s += strlen(s) + 1;
+          n++;
+        }
+        if (s != end || n != nmemb)
+          return err(dliteInconsistentDataError, "expected %lu strings for "
+                     "array property: %s", (unsigned long)nmemb, p->name);
+      }
+    }
+    break;
+
+  case dliteRef:
+    {
+      const int len = DLITE_UUID_LENGTH + 1;
+      DLiteInstance **refs;
+      const char *s = data;
+      size_t n;
+      if ((size_t)datasize != nmemb*len)
+        return err(dliteInconsistentDataError, "expected %lu references for "
+                   "array property: %s", (unsigned long)nmemb, p->name);
+      if (!nmemb) break;
+      if (!(refs = calloc(nmemb, sizeof(DLiteInstance *))))
+        return err(dliteMemoryError, "allocation failure");
+      for (n=0; n<nmemb && !stat; n++, s += len) {
+        if (!*s) continue;  /* NULL */
+        if (!memchr(s, '\0', len) || !(refs[n] = dlite_instance_get(s)))
+          stat = err(dliteMissingInstanceError, "cannot load instance %.*s "
+                     "referred to by property: %s", len, s, p->name);
       }
+      if (!stat)
+        stat = dlite_instance_set_property_by_index(inst, idx, refs);
+      for (n=0; n<nmemb; n++)
+        if (refs[n]) dlite_instance_decref(refs[n]);
+      free(refs);
     }
     break;
 
@@ -591,45 +757,63 @@ static int set_array_property(DLiteInstance *inst, int idx, void *data,
                dlite_type_get_enum_name(p->type));
 
   case dliteRelation:
-    if ((stat = parse_relations(data, ptr, nmemb))) return stat;
+    stat = parse_relations(data, ptr, nmemb);
     break;
   }
-  return 0;
+  return stat;
 }
 
 
 /*
-  Set scalar property `idx` of `inst` from `data` (of BSON type `btype`).
-  If `byteswap` is non-zero, the data will by byteswapped.
+  Set scalar property `idx` of `inst` from `data` of size `datasize`.
 
   Returns non-zero on error.
  */
-static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
+static int set_scalar_property(DLiteInstance *inst, int idx, void *data,
+                               int datasize)
 {
-  int stat;
-  int32_t i32;
-  int64_t i64;
-  uint64_t u64;
-  float64_t f64;
-#ifdef HAVE_FLOAT128
-  float128_t f128;
-#endif
-  void *ptr = dlite_instance_get_property_by_index(inst, idx);
+  int stat=0;
+  int32_t i32=0;
+  int64_t i64=0;
+  uint64_t u64=0;
+  float64_t f64=0;
+  void *ptr = DLITE_PROP(inst, idx);
   DLiteProperty *p = DLITE_PROP_DESCR(inst, idx);
   int btype = bsontype(p->type, p->size);
+
+  /* Values of fix-sized types in host byte order */
+  if (btype == bsonInt32) {
+    memcpy(&i32, data, sizeof(i32));
+    i32 = le32toh(i32);
+  } else if (btype == bsonInt64 || btype == bsonUInt64 ||
+             btype == bsonDouble) {
+    memcpy(&u64, data, sizeof(u64));
+    u64 = le64toh(u64);
+    memcpy(&i64, &u64, sizeof(i64));
+    memcpy(&f64, &u64, sizeof(f64));
+  }
+
   switch (p->type) {
   case dliteBlob:
+    if ((size_t)datasize != p->size)
+      return err(dliteInconsistentDataError, "expected %d bytes, got %d for "
+                 "property: %s", (int)p->size, datasize, p->name);
+    memcpy(ptr, data, datasize);
+    break;
+
   case dliteBool:
+    *((bool *)ptr) = (*((char *)data)) ? 1 : 0;
+    break;
+
   case dliteFixString:
-  case dliteRef:
-    dlite_instance_set_property_by_index(inst, idx, data);
+    if ((size_t)datasize > p->size)
+      return err(dliteInconsistentDataError, "expected max %d bytes, got %d "
+                 "for property: %s", (int)p->size, datasize, p->name);
+    memset(ptr, 0, p->size);
+    memcpy(ptr, data, datasize);
     break;
 
   case dliteInt:
-    if (btype == bsonInt32)
-      i32 = le32toh(*((int32_t *)data));
-    else
-      i64 = le64toh(*((int64_t *)data));
     switch (p->size) {
     case 1: *((int8_t *)ptr)  = i32; break;
     case 2: *((int16_t *)ptr) = i32; break;
@@ -639,42 +823,18 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
     break;
 
   case dliteUInt:
-    if (btype == bsonInt32)
-      i32 = le32toh(*((int32_t *)data));
-    else
-      u64 = le64toh(*((uint64_t *)data));
     switch (p->size) {
     case 1: *((uint8_t *)ptr)  = i32; break;
     case 2: *((uint16_t *)ptr) = i32; break;
-    case 4: *((uint32_t *)ptr) = i32; break;
+    case 4: *((uint32_t *)ptr) = u64; break;
     case 8: *((uint64_t *)ptr) = u64; break;
     }
     break;
 
   case dliteFloat:
-    if (btype == bsonDouble)
-      f64 = le64toh(*((float64_t *)data));
-#ifdef HAVE_FLOAT128
-    else if (btype == bsonDecimal128)
-      f128 = le128toh(*((float128_t *)data));
-#endif
-    else
-      return errx(dliteUnsupportedError,
-                  "cannot read property '%s' of '%s' from bson, %d bytes "
-                  "float is not supported", p->name,
-                  (inst->uri) ? inst->uri : inst->uuid, (int)p->size);
     switch (p->size) {
     case 4: *((float32_t *)ptr)   = f64; break;
     case 8: *((float64_t *)ptr)   = f64; break;
-#ifdef HAVE_FLOAT128
-#ifdef HAVE_FLOAT80
-    case 10: *((float80_t *)ptr)  = f128; break;
-#endif
-#ifdef HAVE_FLOAT96
-    case 12: *((float96_t *)ptr)  = f128; break;
-#endif
-    case 16: *((float128_t *)ptr) = f128; break;
-#endif  /* HAVE_FLOAT128 */
     default:
       return errx(dliteUnsupportedError,
                   "cannot read property '%s' of '%s' from bson, %d bytes "
@@ -684,21 +844,60 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
     break;
 
   case dliteStringPtr:
-    *((char **)ptr) = strdup(data);
+    stat = set_string(ptr, data);
     break;
+
+  case dliteRef:
+    {
+      DLiteInstance *ref = dlite_instance_get(data);
+      if (!ref)
+        return err(dliteMissingInstanceError, "cannot load instance %s "
+                   "referred to by property: %s", (char *)data, p->name);
+      stat = dlite_instance_set_property_by_index(inst, idx, &ref);
+      dlite_instance_decref(ref);
+    }
+    break;
+
   case dliteDimension:
   case dliteProperty:
     return err(dliteInconsistentDataError, "data instance should not "
                "have a property of type: %s",
                dlite_type_get_enum_name(p->type));
+
   case dliteRelation:
-    if ((stat = parse_relations(data, ptr, 1))) return stat;
+    stat = parse_relation(data, ptr);
     break;
   }
-  return 0;
+  return stat;
 }
 
 
+/*
+  Assign the parent of `inst` from BSON document `subdoc`.
+
+  Returns non-zero on error.
+ */
+static int set_parent(DLiteInstance *inst, const unsigned char *subdoc)
+{
+  const char *uuid;
+  void *hash;
+  int size, type;
+  DLiteParent *parent;
+  if (!(uuid = bson_scan_string(subdoc, "uuid", NULL)) ||
+      strlen(uuid) != DLITE_UUID_LENGTH)
+    return err(dliteKeyError, "missing uuid of parent in bson");
+  if ((type = bson_scan(subdoc, "hash", &hash, &size)) != bsonBinary ||
+      size != DLITE_HASH_SIZE)
+    return err(dliteKeyError, "missing hash of parent in bson");
+  if (inst->_parent) return 0;
+  if (!(parent = calloc(1, sizeof(DLiteParent))))
+    return err(dliteMemoryError, "allocation failure");
+  memcpy(parent->uuid, uuid, DLITE_UUID_LENGTH+1);
+  memcpy(parent->hash, hash, DLITE_HASH_SIZE);
+  inst->_parent = parent;
+  return 0;
+}
+
 
 /*
   Create a new instance from bson document and return it.
@@ -707,16 +906,31 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
 DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
 {
   const char *metaid, *uuid, *uri, *id, *byteorder;
-  int i, type, idx, ndims, datasize, byteswap=0;
+  int type, idx, datasize, byteswap=0;
+  size_t i, ndims=0;
   unsigned char *subdoc, *endptr;
   char *ename;
+  char *name=NULL, *version=NULL, *namespace=NULL;
+  char uriuuid[DLITE_UUID_LENGTH+1];
   void *data;
   size_t *dims=NULL;
+  DLiteMeta *meta=NULL;
   DLiteInstance *inst=NULL;
-  if (!(metaid = bson_scan_string(doc, "meta", NULL))) goto fail;
+  if (bson_nelements(doc) < 0) goto fail;
+  if (!(metaid = bson_scan_string(doc, "meta", NULL)))
+    FAILCODE(dliteKeyError, "missing \"meta\" in bson");
   uuid = bson_scan_string(doc, "uuid", NULL);
   uri = bson_scan_string(doc, "uri", NULL);
 
+  /* Get id.  The uuid takes precedence if it does not correspond to the uri */
+  if (!(id = (uri) ? uri : (uuid) ? uuid : NULL))
+    FAILCODE(dliteKeyError, "bson data is missing uri and/or uuid");
+  if (dlite_get_uuid(uriuuid, id) < 0) goto fail;
+  if (uuid && strcmp(uuid, uriuuid) != 0) id = uuid;
+
+  /* If instance already exists, return it */
+  if (dlite_instance_has(id, 0)) return dlite_instance_get(id);
+
   /* Check whether arrays should be byteswapped */
   if ((byteorder = bson_scan_string(doc, "byteorder", NULL))) {
     unsigned char x[]="\x01\x02\x03\x04";
@@ -724,6 +938,9 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
     if (strcmp(byteorder, host_byteorder) != 0) byteswap=1;
   }
 
+  if (!(meta = dlite_meta_get(metaid)))
+    FAILCODE1(dliteMissingMetadataError, "cannot find metadata '%s'", metaid);
+
   /* Get dimensions */
   if ((type = bson_scan(doc, "dimension_values", (void **)&subdoc, NULL)) < 0)
     goto fail;
@@ -736,63 +953,105 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
   if (type != bsonDocument)
     FAILCODE1(dliteKeyError, "expected dimension values to be a bson "
               "document, got %s", bson_typename(type));
-  if ((ndims = bson_nelements(subdoc)) < 0) goto fail;
-  if (!(dims = calloc(ndims, sizeof(size_t))))
+  if (!(dims = calloc(meta->_ndimensions + 1, sizeof(size_t))))
     FAILCODE(dliteMemoryError, "allocation failure");
   endptr = NULL;
-  i = 0;
   while ((type = bson_parse(subdoc, &ename, &data, NULL, &endptr))) {
+    int32_t v;
+    if (type < 0) goto fail;
     if (type != bsonInt32)
       FAILCODE1(dliteTypeError, "expected dimension values to be bsonInt32, "
                 "got %s", bson_typename(type));
-    dims[i++] = *((int32_t *)data);
+    if ((idx = dlite_meta_get_dimension_index(meta, ename)) < 0) goto fail;
+    memcpy(&v, data, sizeof(v));
+    if ((v = le32toh(v)) < 0)
+      FAILCODE2(dliteValueError, "negative size of dimension '%s': %d",
+                ename, (int)v);
+    dims[idx] = v;
+    ndims++;
   }
-  if (i != ndims)
+  if (ndims != meta->_ndimensions)
     FAILCODE2(dliteInconsistentDataError, "expected %d dimensions, got %d",
-              ndims, i);
+              (int)meta->_ndimensions, (int)ndims);
 
   /* Create instance */
-  if (!(id = (uri) ? uri : (uuid) ? uuid : NULL))
-    FAILCODE(dliteKeyError, "bson data is missing uri and/or uuid");
-  if (!(inst = dlite_instance_create_from_id(metaid, dims, id))) goto fail;
+  if (!(inst = dlite_instance_create(meta, dims, id))) goto fail;
+  if (uri && !inst->uri && !(((DLiteInstance *)inst)->uri = strdup(uri)))
+    FAILCODE(dliteMemoryError, "allocation failure");
 
   if (dlite_instance_is_meta(inst)) {
     /* Metadata */
-    if ((type = bson_scan(doc, "dimensions", (void **)&subdoc, NULL)) < 0 ||
-        set_meta_dimensions((DLiteMeta *)inst, subdoc)) goto fail;
+    if (uri && dlite_split_meta_uri(uri, &name, &version, &namespace))
+      goto fail;
+    if (set_meta_string((DLiteMeta *)inst, "name", name) ||
+        set_meta_string((DLiteMeta *)inst, "version", version) ||
+        set_meta_string((DLiteMeta *)inst, "namespace", namespace) ||
+        set_meta_string((DLiteMeta *)inst, "description",
+                        bson_scan_string(doc, "description", NULL)))
+      goto fail;
+
+    if ((type = bson_scan(doc, "dimensions", (void **)&subdoc, NULL)) < 0)
+      goto fail;
+    if (type != bsonDocument)
+      FAILCODE(dliteKeyError, "missing dimensions of metadata in bson");
+    if (set_meta_dimensions((DLiteMeta *)inst, subdoc)) goto fail;
 
-    if ((type = bson_scan(doc, "properties", (void **)&subdoc, NULL)) < 0 ||
-        set_meta_properties((DLiteMeta *)inst, subdoc)) goto fail;
+    if ((type = bson_scan(doc, "properties", (void **)&subdoc, NULL)) < 0)
+      goto fail;
+    if (type != bsonDocument)
+      FAILCODE(dliteKeyError, "missing properties of metadata in bson");
+    if (set_meta_properties((DLiteMeta *)inst, subdoc)) goto fail;
+
+    if (dlite_meta_init((DLiteMeta *)inst)) goto fail;
   } else {
     /* Data */
     if ((type = bson_scan(doc, "properties", (void **)&subdoc, NULL)) < 0)
       goto fail;
     if (type != bsonDocument)
-      FAILCODE1(dliteTypeError, "expected properties to be a bson document, "
-                "got %s", bson_typename(type));
+      FAILCODE(dliteTypeError, "missing properties of data instance in bson");
     endptr = NULL;
     while ((type = bson_parse(subdoc, &ename, &data, &datasize, &endptr))) {
+      if (type < 0) goto fail;
       if ((idx = dlite_meta_get_property_index(inst->meta, ename)) < 0)
         goto fail;
       if (type == bsonNull) continue;
       DLiteProperty *p = DLITE_PROP_DESCR(inst, idx);
       int btype = bsontype(p->type, p->size);
       if (p->ndims) {
-        if (set_array_property(inst, idx, data, byteswap)) goto fail;
+        if (set_array_property(inst, idx, type, data, datasize, byteswap))
+          goto fail;
       } else {
         if (type != btype)
           FAILCODE3(dliteInconsistentDataError, "expected bson type '%s', "
                     "got '%s' for property: %s", bson_typename(btype),
                     bson_typename(type), ename);
-        if (set_scalar_property(inst, idx, data)) goto fail;
+        if (set_scalar_property(inst, idx, data, datasize)) goto fail;
       }
     }
+    if (inst->meta->_loadprop)
+      for (i=0; i < inst->meta->_nproperties; i++)
+        if (inst->meta->_loadprop(inst, i)) goto fail;
   }
 
-  if (dims) free(dims);
+  if ((type = bson_scan(doc, "parent", (void **)&subdoc, NULL)) < 0) goto fail;
+  if (type == bsonDocument && set_parent(inst, subdoc)) goto fail;
+
+  if (name) free(name);
+  if (version) free(version);
+  if (namespace) free(namespace);
+  free(dims);
+  dlite_meta_decref(meta);
   return inst;
  fail:
-  if (inst) dlite_instance_decref(inst);
+  if (inst) {
+    /* Metadata has an extra refcount, so loop until refcount is zero */
+    int count = inst->_refcount;
+    while (count-- > 0) dlite_instance_decref(inst);
+  }
+  if (name) free(name);
+  if (version) free(version);
+  if (namespace) free(namespace);
   if (dims) free(dims);
+  if (meta) dlite_meta_decref(meta);
   return NULL;
 }
-- 
2.43.0


From 3bab44cf7ada6974159d85aba543ab82f8af54aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 043/132] fix: Instance.from_bson() read outside of too short
 input

---
 bindings/python/dlite-entity-python.i | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index d1cc80e..cec54a4 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -596,6 +596,11 @@ def get_instance(
     def from_bson(cls, bsoninput):
         """Load the instance from bson input."""
         errclr()  # Clear internal error before calling Instance()
+        size = int.from_bytes(bytes(bsoninput[:4]), "little", signed=True)
+        if size < 5 or size > len(bsoninput):
+            raise _dlite.DLiteParseError(
+                "size of bson document does not match its content"
+            )
         inst = Instance(
             bsoninput=bsoninput,
             dims=(), dimensions=(), properties=()  # arrays
-- 
2.43.0


From 73777bbe5bc79924da439e97fed9aec0ed156e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 044/132] fix: json serialisation lost the parent, the metadata
 schema and (the first time) the relations of instances, and hid write errors

---
 src/dlite-json.c | 71 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 60 insertions(+), 11 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index c28a073..43e09d6 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -155,6 +155,7 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
   size_t i;
   char *in;
   DLiteTypeFlag f = dliteFlagQuoted;
+  if (dlite_instance_sync_to_properties((DLiteInstance *)inst)) return -1;
   if (!(in = malloc(indent + 1)))
     return err(dliteMemoryError, "Allocation failure");
   if (flags & dliteJsonCompactRel) f |= dliteFlagCompactRel;
@@ -171,7 +172,8 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
     PRINT2("%s  \"uuid\": \"%s\",\n", in, inst->uuid);
   if (flags & dliteJsonWithMeta ||
       dlite_instance_is_data(inst) ||
-      dlite_instance_is_metameta(inst)) {
+      dlite_instance_is_metameta(inst) ||
+      strcmp(inst->meta->uri, DLITE_ENTITY_SCHEMA) != 0) {
     PRINT1("%s  \"meta\": ", in);
     PRINTQ(inst->meta->uri);
     PRINT(",\n");
@@ -208,8 +210,9 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
   } else {  // metadata
     DLiteMeta *met = (DLiteMeta *)inst;
     int arrays = flags & dliteJsonArrays;  // whether to use soft5 format
-    char *description =
-      *((char **)dlite_instance_get_property(inst, "description"));
+    char *description = NULL;
+    if (dlite_instance_has_property(inst, "description"))
+      description = *((char **)dlite_instance_get_property(inst, "description"));
     if (description) {
       PRINT1("%s  \"description\": ", in);
       PRINTQ(description);
@@ -264,7 +267,7 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
     }
     PRINT2("%s  %s", in, (arrays) ? "]" : "}");
 
-    if (dlite_instance_get_property((DLiteInstance *)inst->meta, "relations")) {
+    if (met->_nrelations > 0) {
       m = sprint_relations(dest+n, PDIFF(size, n), met, in);
       if (m < 0) goto fail;
       n += m;
@@ -421,8 +424,9 @@ int dlite_json_fprint(FILE *fp, const DLiteInstance *inst, int indent,
   int m;
   char *buf=NULL;
   size_t size=0;
-  if ((m = dlite_json_asprint(&buf, &size, 0, inst, indent, flags)) >= 0)
-    fprintf(fp, "%s\n", buf);
+  if ((m = dlite_json_asprint(&buf, &size, 0, inst, indent, flags)) >= 0 &&
+      (m = fprintf(fp, "%s\n", buf)) < 0)
+    err(dliteIOError, "cannot write json");
   free(buf);
   return m;
 }
@@ -450,7 +454,8 @@ int dlite_json_printfile(const char *filename, const DLiteInstance *inst,
   if (!(fp = fopen(filename, "wt")))
     return err(1, "cannot write json to \"%s\"", filename);
   m = dlite_json_fprint(fp, inst, 0, flags);
-  fclose(fp);
+  if (fclose(fp))
+    return err(dliteIOError, "cannot write json to \"%s\"", filename);
   return m;
 }
 
@@ -473,6 +478,8 @@ int dlite_json_append(char **s, size_t *size, const DLiteInstance *inst,
   jsmn_parser parser;
   jsmntok_t *tokens=NULL;
   size_t pos;
+  const char *id;
+  char *quoted=NULL;
 
   errno = 0;
   jsmn_init(&parser);
@@ -492,15 +499,23 @@ int dlite_json_append(char **s, size_t *size, const DLiteInstance *inst,
   if (tokens[0].size > 0 && (n = asnpprintf(s, size, pos, ",")) < 0)
     goto fail;
   pos += n;
-  if ((n = asnpprintf(s, size, pos, "\n  \"%s\": ", inst->uuid)) < 0)
-    goto fail;
+  if ((n = asnpprintf(s, size, pos, "\n  ")) < 0) goto fail;
+  pos += n;
+  id = (flags & dliteJsonUriKey && inst->uri) ? inst->uri : inst->uuid;
+  if ((n = strquote(NULL, 0, id)) < 0) goto fail;
+  if (!(quoted = malloc(n + 1)))
+    FAILCODE(dliteMemoryError, "allocation failure");
+  strquote(quoted, n + 1, id);
+  if ((n = asnpprintf(s, size, pos, "%s: ", quoted)) < 0) goto fail;
   pos += n;
-  if ((n = dlite_json_asprint(s, size, pos, inst, 2, flags)) < 0) goto fail;
+  if ((n = dlite_json_asprint(s, size, pos, inst, 2,
+                              flags | dliteJsonSingle)) < 0) goto fail;
   pos += n;
   if ((n = asnpprintf(s, size, pos, "\n}\n")) < 0) goto fail;
   pos += n;
   retval = pos - tokens[0].end;
  fail:
+  if (quoted) free(quoted);
   free(tokens);
   return retval;
 }
@@ -605,6 +620,37 @@ static int get_meta_uuid(char uuid[DLITE_UUID_LENGTH+1], const char *src,
 }
 
 
+/* Assigns the transaction parent of `inst` from json object `obj`, if it
+   has a parent.  Returns non-zero on error. */
+static int parse_parent(DLiteInstance *inst, const char *src,
+                        const jsmntok_t *obj)
+{
+  const jsmntok_t *item, *hash;
+  char uuid[DLITE_UUID_LENGTH+1];
+  uint8_t buf[DLITE_HASH_SIZE];
+  DLiteParent *parent;
+  if (!(item = jsmn_item(src, obj, "parent"))) return 0;
+  if (item->type != JSMN_OBJECT)
+    return errx(dliteParseError, "\"parent\" must be a json object, got: %.*s",
+                item->end - item->start, src + item->start);
+  if (get_uuid(uuid, src, item))
+    return errx(dliteParseError, "missing uuid of parent: %.*s",
+                item->end - item->start, src + item->start);
+  if (!(hash = jsmn_item(src, item, "hash")) || hash->type != JSMN_STRING ||
+      hash->end - hash->start != 2*DLITE_HASH_SIZE ||
+      strhex_decode(buf, sizeof(buf), src + hash->start,
+                    hash->end - hash->start) < 0)
+    return errx(dliteParseError, "missing or invalid hash of parent: %.*s",
+                item->end - item->start, src + item->start);
+  if (!(parent = calloc(1, sizeof(DLiteParent))))
+    return err(dliteMemoryError, "allocation failure");
+  memcpy(parent->uuid, uuid, sizeof(uuid));
+  memcpy(parent->hash, buf, sizeof(buf));
+  inst->_parent = parent;
+  return 0;
+}
+
+
 /*
   Help function for parsing an instance.
   - src: json source
@@ -794,6 +840,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   }
   if (dlite_instance_is_meta(inst) && dlite_meta_init((DLiteMeta *)inst))
     goto fail;
+  if (parse_parent(inst, src, obj)) goto fail;
  done:
   ok = 1;
  fail:
@@ -1379,8 +1426,10 @@ DLiteJStoreIter *dlite_jstore_iter_create(JStore *js, const char *metaid)
     FAILCODE(dliteMemoryError, "allocation failure");
   if (jstore_iter_init(js, &iter->jiter)) goto fail;
   if (metaid && dlite_get_uuid(iter->metauuid, metaid) < 0) goto fail;
- fail:
   return iter;
+ fail:
+  if (iter) dlite_jstore_iter_free(iter);
+  return NULL;
 }
 
 /*
-- 
2.43.0


From 164dcd474ceed64e48520c830c3cb073316b0ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 045/132] fix: json storage lost instances when metadata was
 saved to it and could not append to a missing file

---
 storages/json/dlite-json-storage.c | 44 ++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 3ee8394..17aed25 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -25,10 +25,25 @@ typedef struct {
   DLiteJsonFlag jflags; /* output flags */
   int fmt_given;        /* whether single/multi entity format is given */
   int changed;          /* whether the storage is changed */
+  int single;           /* whether the only saved instance has already been
+                           written in (inferred) single-entity format */
   map_uuid_t ids;       /* maps uuids to ids */
 } DLiteJsonStorage;
 
 
+/** Returns non-zero if file `filename` does not exist or is empty. */
+static int is_missing_or_empty(const char *filename)
+{
+  FILE *fp = fopen(filename, "r");
+  int retval = !fp && errno == ENOENT;
+  if (fp) {
+    retval = (fgetc(fp) == EOF && !ferror(fp));
+    fclose(fp);
+  }
+  errno = 0;
+  return retval;
+}
+
 /** Returns default mode:
     - 'w': if `uri` does not exist or is empty
     - 'r': if `uri` is in single-entity format or is not valid
@@ -50,9 +65,7 @@ static int default_mode(const char *uri, const unsigned char *buf, size_t size)
 
   if (stat) {
     /* Never overwrite an existing file just because it can't be parsed */
-    FILE *fp = (uri) ? fopen(uri, "r") : NULL;
-    mode = (!uri || (fp && fgetc(fp) != EOF)) ? 'r' : 'w';
-    if (fp) fclose(fp);
+    mode = (!uri || !is_missing_or_empty(uri)) ? 'r' : 'w';
     errno = 0;
   } else {
     mode = (jstore_get(js, "properties")) ? 'r' : 'a';
@@ -164,7 +177,9 @@ DLiteStorage *json_loader(const DLiteStoragePlugin *api, const char *uri,
   if (load) {
     DLiteJsonFormat fmt;
     if (!(s->jstore = jstore_open())) goto fail;
-    if (uri)
+    if (uri && mode == 'a' && is_missing_or_empty(uri))
+      fmt = dliteJsonDataFormat;
+    else if (uri)
       fmt = dlite_jstore_loadf(s->jstore, uri);
     else
       fmt = dlite_jstore_loads(s->jstore, (const char *)buf, size);
@@ -226,7 +241,7 @@ int json_close(DLiteStorage *s)
   DLiteJsonStorage *js = (DLiteJsonStorage *)s;
   int stat=0;
   if (js->jstore) {
-    if (js->flags & dliteWritable && js->changed)
+    if (js->flags & dliteWritable && js->changed && !js->single)
       stat = jstore_to_file(js->jstore, js->location);
     stat |= jstore_close(js->jstore);
   }
@@ -256,10 +271,13 @@ DLiteInstance *json_load(const DLiteStorage *s, const char *id)
   if (!id || !*id) {
     JStoreIter iter;
     if (jstore_iter_init(js->jstore, &iter)) goto fail;
-    if (!(id = jstore_iter_next(&iter)))
+    if (!(id = jstore_iter_next(&iter))) {
+      jstore_iter_deinit(&iter);
       FAILCODE1(dliteStorageLoadError,
             "cannot load instance from empty storage \"%s\"", s->location);
+    }
     if (jstore_iter_next(&iter)) {
+      jstore_iter_deinit(&iter);
       FAILCODE1(dliteStorageLoadError,
             "id is required when loading from storage with more "
             "than one instance: %s", s->location);
@@ -296,10 +314,6 @@ int json_save(DLiteStorage *s, const DLiteInstance *inst)
     FAILCODE1(dliteStorageSaveError,
               "storage \"%s\" is not writable", s->location);
 
-  /* If single/multi format is not given, infer it from `inst` */
-  if (!js->fmt_given && dlite_instance_is_meta(inst))
-    jflags |= dliteJsonSingle;
-
   if (jflags & dliteJsonSingle) {
     if (js->changed)
       FAILCODE1(dliteStorageSaveError,
@@ -308,8 +322,16 @@ int json_save(DLiteStorage *s, const DLiteInstance *inst)
     int n = dlite_json_printfile(s->location, inst, jflags);
     stat = (n > 0) ? 0 : 1;
   } else {
+    /* If single/multi format is not given, infer it from `inst`.  Use
+       single-entity format for metadata as long as there are no other
+       instances in the storage. */
+    int single = !js->fmt_given && !js->jstore && dlite_instance_is_meta(inst);
     if (!js->jstore && !(js->jstore = jstore_open())) goto fail;
-    stat = dlite_jstore_add(js->jstore, inst, jflags);
+    if ((stat = dlite_jstore_add(js->jstore, inst, jflags))) goto fail;
+    if (single &&
+        dlite_json_printfile(s->location, inst, jflags | dliteJsonSingle) < 0)
+      FAIL1("cannot save to \"%s\"", s->location);
+    js->single = single;
   }
   js->changed = 1;
  fail:
-- 
2.43.0


From 00809fa6bfc97718a061af0fb52f572380410e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 046/132] fix: relations of metadata were ignored

---
 src/dlite-entity.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 208de6f..84b33da 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -266,7 +266,7 @@ void dlite_instance_debug(const DLiteInstance *inst)
           (int)inst->meta->_reloffset,
           (void *)((char *)inst + inst->meta->_reloffset));
   for (i=0; i<inst->meta->_nrelations; i++) {
-    DLiteRelation *r = DLITE_REL(inst, i);
+    DLiteRelation *r = inst->meta->_relations + i;
     fprintf(fp, "    %d. (%s, %s, %s) : %s\n", (int)i, r->s, r->p, r->o, r->id);
   }
 
@@ -2791,7 +2791,7 @@ int dlite_meta_init(DLiteMeta *meta)
     meta->_ndimensions = DLITE_DIM(meta, idim_dim);
   if (!meta->_nproperties && idim_prop >= 0)
     meta->_nproperties = DLITE_DIM(meta, idim_prop);
-  if (meta->_nrelations && idim_rel >= 0)
+  if (!meta->_nrelations && idim_rel >= 0)
     meta->_nrelations = DLITE_DIM(meta, idim_rel);
 
   /* Assign pointers: dimensions, properties and relations */
@@ -2803,6 +2803,11 @@ int dlite_meta_init(DLiteMeta *meta)
     if (strcmp(meta->meta->_properties[i].name, "relations") == 0)
       iprop_rel = i;
   }
+  if ((meta->_ndimensions && iprop_dim < 0) ||
+      (meta->_nproperties && iprop_prop < 0) ||
+      (meta->_nrelations && iprop_rel < 0))
+    return err(dliteIndexError, "missing dimensions, properties or relations "
+               "in the schema of metadata: %s", meta->uri);
   if (!meta->_dimensions && meta->_ndimensions && idim_dim >= 0)
     meta->_dimensions = *(void **)DLITE_PROP(meta, iprop_dim);
   if (!meta->_properties && meta->_nproperties && idim_prop >= 0)
-- 
2.43.0


From e5b9f62b48a44facd98fe643f0e70abe98b42e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 047/132] fix: json keys with escape sequences were not
 recognised, and written without escaping

---
 src/dlite-json.c   | 13 ++++++-------
 src/utils/jsmnx.c  | 22 ++++++++++++++++++++--
 src/utils/jstore.c | 27 ++++++++++++++++++++-------
 3 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 43e09d6..ddf109c 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -1326,18 +1326,17 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
     int i;
     for (i=0; i < tokens->size; i++) {
       jsmntok_t *v = t + 1;
-
       /* if `id` is not an uuid, add it as a label associated with
          uuid to the jstore */
-      const char *id = src + t->start;
-      int len = t->end - t->start;
       if (v->type != JSMN_OBJECT)
         FAILCODE2(dliteParseError, "value of \"%.*s\" must be an object",
-                  len, id);
-      if (dlite_get_uuidn(uuid, id, len) < 0)
+                  t->end - t->start, src + t->start);
+      free(uri);
+      if (!(uri = tokstr(src, t))) goto fail;
+      if (dlite_get_uuid(uuid, uri) < 0)
         goto fail;
-      else if (len != DLITE_UUID_LENGTH || !dlite_isuuid(id))
-        jstore_set_labeln(js, uuid, id, len);
+      else if (strlen(uri) != DLITE_UUID_LENGTH || !dlite_isuuid(uri))
+        jstore_set_label(js, uuid, uri);
 
       if (jstore_addn(js, uuid, DLITE_UUID_LENGTH,
                       src + v->start, v->end - v->start)) goto fail;
diff --git a/src/utils/jsmnx.c b/src/utils/jsmnx.c
index b240c2c..e0f8e28 100644
--- a/src/utils/jsmnx.c
+++ b/src/utils/jsmnx.c
@@ -10,6 +10,7 @@
 #include <string.h>
 
 #include "err.h"
+#include "strutils.h"
 
 /* Include the jsmn.h header without defining JSMN_HEADER defined.
    This defines all functions in jsmn. */
@@ -98,6 +99,23 @@ int jsmn_count(const jsmntok_t *t)
 }
 
 
+/* Returns non-zero if string token `t` equals `key`, when the escape
+   sequences in the token are decoded. */
+static int token_equals(const char *js, const jsmntok_t *t, const char *key)
+{
+  int n, equal, len = t->end - t->start;
+  char *buf;
+  if (!memchr(js + t->start, '\\', len))
+    return len == (int)strlen(key) && strncmp(key, js + t->start, len) == 0;
+  if (!(buf = malloc(len + 1)))
+    return err(1, "allocation failure"), 0;
+  n = strnunquote(buf, len + 1, js + t->start, len, NULL,
+                  strquoteNoQuote | strquoteInitialBlanks);
+  equal = (n >= 0 && strcmp(buf, key) == 0);
+  free(buf);
+  return equal;
+}
+
 /*
   Returns a pointer to the value of item `key` of JSMN object token `t`.
 
@@ -108,7 +126,7 @@ int jsmn_count(const jsmntok_t *t)
 const jsmntok_t *jsmn_item(const char *js, const jsmntok_t *t, const char *key)
 {
   int i, n, nitems;
-  int len, keylen=strlen(key);
+  int len;
   if (t->type != JSMN_OBJECT)
     return errx(1, "expected JSON object in string starting with:\n%.200s\n",
                 js + t->start), NULL;
@@ -119,7 +137,7 @@ const jsmntok_t *jsmn_item(const char *js, const jsmntok_t *t, const char *key)
     if (t->type != JSMN_STRING)
       return errx(1, "invalid JSON, object key must be a string, got '%.*s'",
                   len, js + t->start), NULL;
-    if (len == keylen && strncmp(key, js + t->start, len) == 0) return t+1;
+    if (token_equals(js, t, key)) return t+1;
     t++;
     if ((n = jsmn_count(t)) < 0) return NULL;
     t += n;
diff --git a/src/utils/jstore.c b/src/utils/jstore.c
index 63ca5ea..4117a55 100644
--- a/src/utils/jstore.c
+++ b/src/utils/jstore.c
@@ -6,6 +6,7 @@
  */
 #include "err.h"
 #include "compat.h"
+#include "strutils.h"
 #include "jstore.h"
 
 
@@ -218,12 +219,17 @@ int jstore_update_from_jsmn(JStore *js, const char *src, jsmntok_t *tok)
   if (tok->type != JSMN_OBJECT) return err(1, "jsmn token must be an object");
   for (i=0; i < tok->size; i++) {
     jsmntok_t *tv = tk+1;
-    int stat;
+    int stat, klen = tk->end - tk->start;
     char *key, *value;
     /* the quotes belong to the JSON value, but not to a string token */
     int q = (tv->type == JSMN_STRING) ? 1 : 0;
-    if (!(key = strndup(src + tk->start, tk->end - tk->start)))
+    if (!(key = malloc(klen + 1)))
       return err(1, "allocation failure");
+    if (strnunquote(key, klen + 1, src + tk->start, klen, NULL,
+                    strquoteNoQuote | strquoteInitialBlanks) < 0) {
+      free(key);
+      return err(1, "invalid JSON key: \"%.*s\"", klen, src + tk->start);
+    }
     if (!(value = strndup(src + tv->start - q, tv->end - tv->start + 2*q))) {
       free(key);
       return err(1, "allocation failure");
@@ -299,10 +305,16 @@ char *jstore_to_string(JStore *js)
   if ((m = asnpprintf(&buf, &size, n, "{")) < 0) goto fail;
   n += m;
   while ((key = map_next(&js->store, &iter))) {
-    char **q, *sep = (count++ > 0) ? "," : "";
+    char **q, *quoted, *sep = (count++ > 0) ? "," : "";
     if (!(q = map_get(&js->store, key))) goto fail;
-    if ((m = asnpprintf(&buf, &size, n, "%s\n  \"%s\": %s",
-                        sep, key, *q)) < 0) goto fail;
+    if ((m = asnpprintf(&buf, &size, n, "%s\n  ", sep)) < 0) goto fail;
+    n += m;
+    if ((m = strquote(NULL, 0, key)) < 0) goto fail;
+    if (!(quoted = malloc(m + 1))) goto fail;
+    strquote(quoted, m + 1, key);
+    m = asnpprintf(&buf, &size, n, "%s: %s", quoted, *q);
+    free(quoted);
+    if (m < 0) goto fail;
     n += m;
   }
   if ((m = asnpprintf(&buf, &size, n, "\n}\n")) < 0) goto fail;
@@ -326,9 +338,10 @@ int jstore_to_file(JStore *js, const char *filename)
     return err(1, "cannot write JSON store to file \"%s\"", filename);
   }
   n = fwrite(buf, strlen(buf), 1, fp);
-  fclose(fp);
   free(buf);
-  return (n == 1) ? 0 : 1;
+  if (fclose(fp) || n != 1)
+    return err(1, "error writing JSON store to file \"%s\"", filename);
+  return 0;
 }
 
 /* Return number of elements in the store. */
-- 
2.43.0


From 42c92dadd1438f7eaae9bde7f3d142779f8167ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 048/132] fix: json storage forgot the original identifiers
 when appended to, and ignored uri-key

---
 storages/json/dlite-json-storage.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 17aed25..81a3a0f 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -233,6 +233,28 @@ DLiteStorage *json_open(const DLiteStoragePlugin *api, const char *uri,
 }
 
 
+/* Writes the content of storage `js` to file, using the original identifiers
+   (labels) as keys where there are such. Returns non-zero on error. */
+static int write_store(DLiteJsonStorage *js)
+{
+  int stat=1;
+  JStoreIter iter;
+  const char *key, *label;
+  JStore *out = jstore_open();
+  if (!out) return 1;
+  if (jstore_iter_init(js->jstore, &iter)) goto fail;
+  while ((key = jstore_iter_next(&iter))) {
+    label = jstore_get_label(js->jstore, key);
+    if (jstore_add(out, (label) ? label : key, jstore_get(js->jstore, key)))
+      goto fail;
+  }
+  stat = jstore_to_file(out, js->location);
+ fail:
+  jstore_close(out);
+  return stat;
+}
+
+
 /**
   Closes data handle json. Returns non-zero on error.
  */
@@ -242,7 +264,7 @@ int json_close(DLiteStorage *s)
   int stat=0;
   if (js->jstore) {
     if (js->flags & dliteWritable && js->changed && !js->single)
-      stat = jstore_to_file(js->jstore, js->location);
+      stat = write_store(js);
     stat |= jstore_close(js->jstore);
   }
   return stat;
@@ -328,6 +350,8 @@ int json_save(DLiteStorage *s, const DLiteInstance *inst)
     int single = !js->fmt_given && !js->jstore && dlite_instance_is_meta(inst);
     if (!js->jstore && !(js->jstore = jstore_open())) goto fail;
     if ((stat = dlite_jstore_add(js->jstore, inst, jflags))) goto fail;
+    if (jflags & dliteJsonUriKey && inst->uri &&
+        (stat = jstore_set_label(js->jstore, inst->uuid, inst->uri))) goto fail;
     if (single &&
         dlite_json_printfile(s->location, inst, jflags | dliteJsonSingle) < 0)
       FAIL1("cannot save to \"%s\"", s->location);
-- 
2.43.0


From 4596b2a41adc82a6a7e04e2bbf972727f91d8991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 049/132] fix: instances without uri had no identity in
 single-entity format

---
 storages/json/dlite-json-storage.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 81a3a0f..bb8b093 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -341,6 +341,8 @@ int json_save(DLiteStorage *s, const DLiteInstance *inst)
       FAILCODE1(dliteStorageSaveError,
                 "Trying to save more than once in single-entity format: %s",
                 s->location);
+    /* Without uri, the uuid is the only identity */
+    if (!inst->uri) jflags |= dliteJsonWithUuid;
     int n = dlite_json_printfile(s->location, inst, jflags);
     stat = (n > 0) ? 0 : 1;
   } else {
@@ -417,6 +419,8 @@ int json_memsave(const DLiteStoragePlugin *api,
   if (atob(opts[5].value)) flags |= dliteJsonArrays;
   if (atob(opts[6].value)) flags |= dliteJsonNoParent;
   if (atob(opts[7].value)) flags |= dliteJsonCompactRel;
+  /* Without uri, the uuid is the only identity in single-entity format */
+  if (flags & dliteJsonSingle && !inst->uri) flags |= dliteJsonWithUuid;
   retval = dlite_json_sprint((char *)buf, size, inst, indent, flags);
  fail:
   if (optcopy) free(optcopy);
-- 
2.43.0


From 40a43287ed02b7f8e5739323b1530b9494dd739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 050/132] fix: dlite_instance_to_memory() lost the last
 character

---
 src/dlite-entity.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 84b33da..76be405 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1212,9 +1212,10 @@ unsigned char *dlite_instance_to_memory(const char *driver,
                api->name), NULL;
 
   if ((n = api->memSaveInstance(api, buf, n, inst, options)) < 0) return NULL;
-  if (!(buf = malloc(n)))
+  /* text is NUL-terminated */
+  if (!(buf = calloc(1, n+1)))
     return err(dliteMemoryError, "allocation failure"), NULL;
-  if ((m = api->memSaveInstance(api, buf, n, inst, options)) != n) {
+  if ((m = api->memSaveInstance(api, buf, n+1, inst, options)) != n) {
     assert(m < 0);  // On success, should `m` always be equal to `n`!
     free(buf);
     return NULL;
-- 
2.43.0


From aab68f194fbb748efc5d99ec66d565faa92a60ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 051/132] fix: storages kept pointers to released instances and
 remembered failed lookups

---
 src/dlite-storage.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dlite-storage.c b/src/dlite-storage.c
index f08a21c..4c39281 100644
--- a/src/dlite-storage.c
+++ b/src/dlite-storage.c
@@ -250,10 +250,11 @@ DLiteInstance *dlite_storage_load(const DLiteStorage *s, const char *id)
 
   if (s->api->loadInstance) {
     /* Add NULL to cache to mark that we are about to load the instance and
-       break recursive calls */
+       break recursive calls.  It is removed again afterwards, since the cache
+       owns no reference to the instance and the storage may change. */
     map_set(&(((DLiteStorage *)s)->cache), uuid, NULL);
     inst = s->api->loadInstance(s, id);
-    map_set(&(((DLiteStorage *)s)->cache), uuid, inst);
+    map_remove(&(((DLiteStorage *)s)->cache), uuid);
   }
   return inst;
 }
@@ -522,7 +523,7 @@ int dlite_storage_hotlist_add(const DLiteStorage *s)
   if (h->length <= h->nmemb) {
     size_t newlength = h->length + HOTLIST_CHUNK_LENGTH;
     const DLiteStorage **storages = realloc((DLiteStorage **)h->storages,
-                                            newlength*sizeof(DLiteStorage *));
+                                            newlength);
     if (!storages) return err(dliteMemoryError, "allocation failure");
     h->length = newlength;
     h->storages = storages;
-- 
2.43.0


From e77a9dc25ccc4a2e78f6a4e4e2c284745923f806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 052/132] fix: buffer overflow when closing many storages

---
 src/dlite-storage.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dlite-storage.c b/src/dlite-storage.c
index 4c39281..7551c27 100644
--- a/src/dlite-storage.c
+++ b/src/dlite-storage.c
@@ -523,7 +523,7 @@ int dlite_storage_hotlist_add(const DLiteStorage *s)
   if (h->length <= h->nmemb) {
     size_t newlength = h->length + HOTLIST_CHUNK_LENGTH;
     const DLiteStorage **storages = realloc((DLiteStorage **)h->storages,
-                                            newlength);
+                                            newlength*sizeof(DLiteStorage *));
     if (!storages) return err(dliteMemoryError, "allocation failure");
     h->length = newlength;
     h->storages = storages;
@@ -560,7 +560,7 @@ int dlite_storage_hotlist_remove(const DLiteStorage *s)
   assert(length > h->nmemb);
   if (h->length > length) {
     const DLiteStorage **storages = realloc((DLiteStorage **)h->storages,
-                                            length);
+                                            length*sizeof(DLiteStorage *));
     assert(storages);  // redusing allocated memory should always be successful
     h->length = length;
     h->storages = storages;
-- 
2.43.0


From addf4606491de3951a5e87915714aee991174051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:50 +0000
Subject: [PATCH 053/132] fix: formatted output to template buffers read and
 copied beyond its stack buffer

The condition for allocating a larger buffer was inverted, so results
of 129 characters or more were truncated to 127 characters followed by
whatever is on the stack.  An empty result was treated as an error with
an undefined return value.
---
 src/utils/tgen.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index fecfa11..8ad4fbb 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -582,17 +582,18 @@ int tgen_buf_append_fmt(TGenBuf *s, const char *fmt, ...)
  */
 int tgen_buf_append_vfmt(TGenBuf *s, const char *fmt, va_list ap)
 {
-  int n, retval;
+  int n, retval=-1;
   char buf[128], *src=buf;
   va_list ap2;
   va_copy(ap2, ap);
 
   /* First try to write to a stack-allocated buffer instead of allocating
      with malloc().  Resort to malloc if this fails... */
-  if ((n = vsnprintf(buf, sizeof(buf), fmt, ap)) < 1)
+  if ((n = vsnprintf(buf, sizeof(buf), fmt, ap)) < 0)
     FAIL1(TGenFormatError, "invalid format string \"%s\"", fmt);
-  if (n <= (int)sizeof(buf)) {
-    src = malloc(n + 1);
+  if (n >= (int)sizeof(buf)) {
+    if (!(src = malloc(n + 1)))
+      FAIL(TGenAllocationError, "allocation failure");
     if ((vsnprintf(src, n+1, fmt, ap2)) != n)
       FAIL1(TGenFormatError, "invalid format string \"%s\"", fmt);
   }
@@ -927,11 +928,12 @@ int tgen_subs_setn_vfmt(TGenSubs *subs, const char *var, int len,
 
   /* First try to write to a stack-allocated buffer instead of allocating
      with malloc().  Resort to malloc if this fails... */
-  if ((n = vsnprintf(buf, sizeof(buf), repl_fmt, ap)) < 1)
+  if ((n = vsnprintf(buf, sizeof(buf), repl_fmt, ap)) < 0)
     FAIL1(TGenFormatError, "error formatting replacement string \"%s\"",
           repl_fmt);
-  if (n <= (int)sizeof(buf)) {
-    repl = malloc(n + 1);
+  if (n >= (int)sizeof(buf)) {
+    if (!(repl = malloc(n + 1)))
+      FAIL(TGenAllocationError, "allocation failure");
     if ((vsnprintf(repl, n+1, repl_fmt, ap2)) != n)
       FAIL1(TGenFormatError, "error formatting replacement string \"%s\"",
             repl_fmt);
-- 
2.43.0


From 585f15dda6e12ecf34715ab6411fe483feb8733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:50 +0000
Subject: [PATCH 054/132] fix: loading with metaid leaked the uncasted instance
 and ignored metaid for instances in memory

---
 src/dlite-entity.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 76be405..8852d52 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -944,6 +944,7 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
 
   /* check if id is already loaded */
   if (lookup && id && *id && (inst = _instance_store_get(id))) {
+    if (metaid) return dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
     dlite_instance_incref(inst);
     //warn("trying to load existing instance from storage \"%s\": %s"
     //     " - create a new reference", s->location, id);
@@ -953,10 +954,12 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   /* check if storage implements the instance api */
   if (s->api->loadInstance) {
     if (!(inst = dlite_storage_load(s, id))) goto fail;
-    if (metaid)
-      return dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
-    else
-      return inst;
+    if (metaid) {
+      instance = dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
+      dlite_instance_decref(inst);
+      return instance;
+    }
+    return inst;
   }
 
   /* create datamodel and get metadata uri */
@@ -1040,9 +1043,10 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   }
 
   /* cast if `metaid` is not NULL */
-  if (inst && metaid)
+  if (inst && metaid) {
     instance = dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
-  else
+    if (instance) dlite_instance_decref(inst);
+  } else
     instance = inst;
 
  fail:
@@ -1163,7 +1167,7 @@ DLiteInstance *dlite_instance_memload(const char *driver,
                                       const char *metaid)
 {
   const DLiteStoragePlugin *api;
-  DLiteInstance *inst;
+  DLiteInstance *inst, *instance;
   if (!(api = dlite_storage_plugin_get(driver))) return NULL;
   if (!api->memLoadInstance)
     return err(dliteUnsupportedError, "driver does not support memload: %s",
@@ -1171,10 +1175,12 @@ DLiteInstance *dlite_instance_memload(const char *driver,
 
   if (!(inst = api->memLoadInstance(api, buf, size, id, options)))
     return NULL;
-  if (metaid)
-    return dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
-  else
-    return inst;
+  if (metaid) {
+    instance = dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
+    dlite_instance_decref(inst);
+    return instance;
+  }
+  return inst;
 }
 
 /*
-- 
2.43.0


From 8e26fcc09be9401249052ba5ac40d56f666551aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:50 +0000
Subject: [PATCH 055/132] fix: mappings released shared steps twice and missed
 the cheapest route

Finding the cheapest way to make an instance did not take into account
improvements found later, and shared steps were freed twice, dead ends
crashed on asserts and the references to the inputs were not balanced.
---
 bindings/python/dlite-mapping.i    |   6 -
 src/dlite-mapping.c                | 272 ++++++++++++-----------------
 src/pyembed/dlite-python-mapping.c |   1 -
 3 files changed, 110 insertions(+), 169 deletions(-)

diff --git a/bindings/python/dlite-mapping.i b/bindings/python/dlite-mapping.i
index b3dd2ad..bba5638 100644
--- a/bindings/python/dlite-mapping.i
+++ b/bindings/python/dlite-mapping.i
@@ -15,12 +15,6 @@ struct _DLiteInstance *swig_mapping(const char *output_uri,
                                     int ninstances)
 {
  DLiteInstance *inst=NULL;
- int i;
-
- /* Increate refcount to instances.
-    They are decreased again by mapper() */
- for (i=0; i<ninstances; i++) dlite_instance_incref(instances[i]);
-
  if (!(inst = dlite_mapping(output_uri, (const DLiteInstance **)instances,
                             ninstances)))
       return dlite_err(1, "mapping failed '%s'", output_uri), NULL;
diff --git a/src/dlite-mapping.c b/src/dlite-mapping.c
index 5b3c0ca..5e14d73 100644
--- a/src/dlite-mapping.c
+++ b/src/dlite-mapping.c
@@ -19,135 +19,118 @@
   Custom map types.  Are also used as sets (unused map value).
  */
 typedef map_t(DLiteInstance *) Instances;
-typedef map_t(DLiteMapping *) Mappings;
 
 
-/*
-  Recursive help function that removes all mappings found in `m` and its
-  submappings from `created`.
- */
-void mapping_remove_rec(DLiteMapping *m, Mappings *created)
-{
-  int i;
-  if (!m) return;
-  map_remove(created, m->output_uri);
-  for (i=0; i < m->ninput; i++)
-    if (m->input_maps[i])
-      mapping_remove_rec((DLiteMapping *)m->input_maps[i], created);
-}
+/* Cheapest known way to create an instance of a given metadata */
+typedef struct {
+  const DLiteMappingPlugin *api;  /* plugin performing the last step */
+  int cost;                       /* total cost */
+} Cheapest;
+typedef map_t(Cheapest) CheapestMap;
+
 
 /*
-  Recursive help function returning a mapping.
+  Help function that for each metadata that can be created from `inputs`
+  finds the mapping with the lowest total cost.
+
+  `inputs`: set of input URIs (unused map value)
+  `cheapest`: maps output URI to the cheapest mapping to it
 
-  `inputs` set of input URIs (unused map value)
-  `visited` set of so far visited output URIs (unused map value)
-  `created` maps all created output URIs to corresponding mapping
-  `dead_ends` set of URIs that we cannot create a mapping to (unused map value)
+  Returns non-zero on error.
  */
-DLiteMapping *mapping_create_rec(const char *output_uri, Instances *inputs,
-                                 Mappings *visited, Mappings *created,
-                                 Mappings *dead_ends)
+static int find_cheapest(Instances *inputs, CheapestMap *cheapest)
 {
-  int i, lowest_cost=-1;
-  DLiteMapping *m=NULL, *retval=NULL;
-  const DLiteMappingPlugin *api, *cheapest=NULL;
+  int i, changed, retval=1;
+  size_t n, napis=0;
+  const DLiteMappingPlugin *api, **apis=NULL;
   DLiteMappingPluginIter iter;
 
-  dlite_mapping_plugin_init_iter(&iter);
-
-  /* Ensure that no input URI equals output URI */
-  assert(!map_get(inputs, output_uri));
-
-  /* Ensure that this not an already known dead end */
-  assert(!map_get(dead_ends, output_uri));
+  /*
+    FIXME: avoid memory leak
+    Implement dlite_mapping_plugin_free() and call it here.
 
-  /* Add output_uri to visited */
-  assert(!map_get(visited, output_uri));
-  map_set(visited, output_uri, NULL);
-
-  /* Find cheapest mapping to output_api */
+    Even better, implement caching in dlite_mapping_plugin_next()
+    such that it returns borrowed references to the api. Add a function
+    to clear the cache.
+  */
+  dlite_mapping_plugin_init_iter(&iter);
   while ((api = dlite_mapping_plugin_next(&iter))) {
-    int ignore = 0;
-    int cost = api->cost;
-    if (strcmp(output_uri, api->output_uri) != 0) continue;
-
-    /* avoid infinite cyclic loops and known dead ends */
-    for (i=0; i < api->ninput; i++) {
-      if (map_get(visited, api->input_uris[i]) ||
-          map_get(dead_ends, api->input_uris[i])) {
-        ignore = 1;
-        break;
+    const DLiteMappingPlugin **ptr = realloc(apis, (napis+1)*sizeof(*apis));
+    if (!ptr) FAILCODE(dliteMemoryError, "allocation failure");
+    apis = ptr;
+    apis[napis++] = api;
+  }
+
+  /* Update costs until they do not change any more */
+  do {
+    changed = 0;
+    for (n=0; n<napis; n++) {
+      Cheapest *c, new;
+      new.api = apis[n];
+      new.cost = (apis[n]->cost > 0) ? apis[n]->cost : 0;
+      if (map_get(inputs, apis[n]->output_uri)) continue;
+
+      for (i=0; i < apis[n]->ninput; i++) {
+        if (map_get(inputs, apis[n]->input_uris[i])) continue;
+        if (!(c = map_get(cheapest, apis[n]->input_uris[i]))) break;
+        new.cost += c->cost;
       }
-    }
-    if (ignore) continue;
-
-    /* avoid mappings that depends on input that cannot be realised and
-       calculate cost */
-    for (i=0; i < api->ninput; i++) {
-      if (!map_get(inputs, api->input_uris[i])) {
-        DLiteMapping *mapping=NULL, **mappingp=NULL;
-        if (!(mappingp = map_get(created, api->input_uris[i])) &&
-            !(mapping = mapping_create_rec(api->input_uris[i], inputs,
-                                           visited, created, dead_ends))) {
-          ignore = 1;
-          break;
-        } else {
-          if (!mapping) mapping = *mappingp;
-          assert(mapping->cost >= 0);
-          cost += mapping->cost;
-        }
+      if (i < apis[n]->ninput) continue;  // some input cannot be realised
+
+      c = map_get(cheapest, apis[n]->output_uri);
+      if (!c || new.cost < c->cost) {
+        map_set(cheapest, apis[n]->output_uri, new);
+        changed = 1;
       }
     }
-    if (ignore) continue;
-
-    /*
-      FIXME: avoid memory leak
-      Implement dlite_mapping_plugin_free() and call it here.
-
-      Even better, implement caching in dlite_mapping_plugin_next()
-      such that it returns borrowed references to the api. Add a function
-      to clear the cache.
-    */
-    if (!cheapest || cost < lowest_cost) {
-      //dlite_mapping_plugin_free(cheapest);
-      cheapest = api;
-      lowest_cost = cost;
-    } else {
-      //dlite_mapping_plugin_free(api);
-    }
-  }
-  if (!(api = cheapest)) goto fail;
+  } while (changed);
+
+  retval = 0;
+ fail:
+  free((void *)apis);
+  return retval;
+}
+
+
+/*
+  Recursive help function returning a new mapping or NULL on error.
+
+  `inputs`: set of input URIs (unused map value)
+  `cheapest`: maps output URI to the cheapest mapping to it
+ */
+static DLiteMapping *mapping_create_rec(const char *output_uri,
+                                        Instances *inputs,
+                                        CheapestMap *cheapest)
+{
+  int i;
+  DLiteMapping *m=NULL;
+  const DLiteMappingPlugin *api;
+  Cheapest *c = map_get(cheapest, output_uri);
+  if (!c) FAILCODE1(dliteMappingError, "cannot map input to: %s", output_uri);
+  api = c->api;
 
-  /* create mapping */
-  assert(strcmp(output_uri, api->output_uri) == 0);
   if (!(m = calloc(1, sizeof(DLiteMapping))))
    FAILCODE(dliteMemoryError, "allocation failure");
   m->name = api->name;
   m->output_uri = api->output_uri;
-  m->ninput = api->ninput;
-  if (!(m->input_maps = calloc(m->ninput, sizeof(DLiteMapping *))))
+  if (!(m->input_maps = calloc(api->ninput + 1, sizeof(DLiteMapping *))))
     FAILCODE(dliteMemoryError, "allocation failure");
-  if (!(m->input_uris = calloc(m->ninput, sizeof(char *))))
+  if (!(m->input_uris = calloc(api->ninput + 1, sizeof(char *))))
     FAILCODE(dliteMemoryError, "allocation failure");
   for (i=0; i < api->ninput; i++) {
-    if (!map_get(inputs, api->input_uris[i])) {
-      DLiteMapping **p = map_get(created, api->input_uris[i]);
-      assert(p);
-      m->input_maps[i] = *p;
-      assert(m->input_maps[i]);
-    } else
+    if (map_get(inputs, api->input_uris[i]))
       m->input_uris[i] = api->input_uris[i];
+    else if (!(m->input_maps[i] = mapping_create_rec(api->input_uris[i],
+                                                     inputs, cheapest)))
+      goto fail;
+    m->ninput = i + 1;
   }
   m->api = (DLiteMappingPlugin *)api;
-  m->cost = lowest_cost;
-
-  map_set(created, output_uri, m);
-
-  retval = m;
+  m->cost = c->cost;
+  return m;
  fail:
-  map_remove(visited, output_uri);
-  if (!retval) map_set(dead_ends, output_uri, NULL);
-  return retval;
+  if (m) dlite_mapping_free(m);
+  return NULL;
 }
 
 
@@ -157,14 +140,10 @@ DLiteMapping *mapping_create_rec(const char *output_uri, Instances *inputs,
  */
 DLiteMapping *mapping_create_base(const char *output_uri, Instances *inputs)
 {
-  Mappings visited, created, dead_ends;
+  CheapestMap cheapest;
   DLiteMapping *m=NULL, *retval=NULL;
-  map_iter_t iter;
-  const char *key;
 
-  map_init(&visited);
-  map_init(&created);
-  map_init(&dead_ends);
+  map_init(&cheapest);
 
   if ((map_get(inputs, output_uri))) {
     /* The trivial case - one of the input URIs equals output URI. */
@@ -182,24 +161,13 @@ DLiteMapping *mapping_create_base(const char *output_uri, Instances *inputs)
     m->cost = 0;
 
   } else {
-    m = mapping_create_rec(output_uri, inputs, &visited, &created, &dead_ends);
+    if (find_cheapest(inputs, &cheapest)) goto fail;
+    m = mapping_create_rec(output_uri, inputs, &cheapest);
   }
 
   retval = m;
  fail:
-
-  /* Free all created mappings not in retval */
-  mapping_remove_rec(retval, &created);
-  iter = map_iter(&created);
-  while ((key = map_next(&created, &iter))) {
-    DLiteMapping **mp = map_get(&created, key);
-    assert(mp && *mp);
-    free(*mp);
-  }
-
-  map_deinit(&visited);
-  map_deinit(&created);
-  map_deinit(&dead_ends);
+  map_deinit(&cheapest);
   if (!retval && m) dlite_mapping_free(m);
   return retval;
 }
@@ -261,7 +229,9 @@ void dlite_mapping_free(DLiteMapping *m)
   `m`: mapping tree that descripes how the instance can be created.
   `instances`: maps metadata URI to an instance with this metadata.  The
        instance should be either an input instance or created by a
-       mapping.
+       mapping.  The map owns a reference to each of its instances.
+
+  Returns a borrowed reference owned by `instances` or NULL on error.
  */
 DLiteInstance *mapping_map_rec(const DLiteMapping *m, Instances *instances)
 {
@@ -274,14 +244,15 @@ DLiteInstance *mapping_map_rec(const DLiteMapping *m, Instances *instances)
     return *instp;
 
   /* Create `insts` array */
-  if (!(insts = calloc(m->ninput, sizeof(DLiteInstance))))
+  if (!(insts = calloc(m->ninput + 1, sizeof(DLiteInstance *))))
     FAILCODE(dliteMemoryError, "allocation failure");
   for (i=0; i < m->ninput; i++) {
     if (m->input_maps[i]) {
-      insts[i] = mapping_map_rec(m->input_maps[i], instances);
+      if (!(insts[i] = mapping_map_rec(m->input_maps[i], instances))) goto fail;
     } else {
-      instp = map_get(instances, m->input_uris[i]);
-      assert(instp);
+      if (!(instp = map_get(instances, m->input_uris[i])))
+        FAILCODE1(dliteMappingError, "missing mapping input: %s",
+                  m->input_uris[i]);
       insts[i] = *instp;
     }
   }
@@ -289,9 +260,14 @@ DLiteInstance *mapping_map_rec(const DLiteMapping *m, Instances *instances)
   /* Call the mapper function from plugin */
   if (!(inst = m->api->mapper(m->api, insts, m->ninput))) goto fail;
 
-  /* Add new instance to `instances` */
-  assert(strcmp(inst->meta->uri, m->output_uri) == 0);
-  dlite_instance_incref(inst);  // TODO: is this correct?
+  /* Add new instance to `instances`, which takes over the reference */
+  if (strcmp(inst->meta->uri, m->output_uri) != 0) {
+    err(dliteMappingError, "mapping '%s' returned instance of %s, expected %s",
+        m->name, inst->meta->uri, m->output_uri);
+    dlite_instance_decref(inst);
+    inst = NULL;
+    goto fail;
+  }
   map_set(instances, inst->meta->uri, inst);
 
  fail:
@@ -373,21 +349,6 @@ int decref_inputs(Instances *inputs)
 
 
 
-/* Recursive help function that removes all references to input instances
-   found in `m`, from `inputs`. */
-void remove_inputs_rec(const DLiteMapping *m, Instances *inputs)
-{
-  int i;
-  for (i=0; i < m->ninput; i++) {
-    if (m->input_maps[i])
-      remove_inputs_rec(m->input_maps[i], inputs);
-    else {
-      map_remove(inputs, m->input_uris[i]);
-    }
-  }
-  map_remove(inputs, m->output_uri);
-}
-
 /*
   Applies the mapping `m` on `instances` (array of length `n` of
   instance pointers) and returns a new instance.
@@ -395,10 +356,7 @@ void remove_inputs_rec(const DLiteMapping *m, Instances *inputs)
 DLiteInstance *dlite_mapping_map(const DLiteMapping *m,
                                  const DLiteInstance **instances, int n)
 {
-  int i;
-  const char *key;
   Instances inputs;
-  map_iter_t iter;
   DLiteInstance *inst=NULL, **instp;
 
   map_init(&inputs);
@@ -411,27 +369,17 @@ DLiteInstance *dlite_mapping_map(const DLiteMapping *m,
 
   if ((instp = map_get(&inputs, m->output_uri))) {
     /* The trivial case - one of the inputs has metadata output URI */
-    assert(!m->name);
     inst = *instp;
     assert(inst);
-    dlite_instance_incref(inst);
   } else {
     /* Apply mapping */
-    assert(m->name);  /* trivial case is already handled */
     inst = mapping_map_rec(m, &inputs);
   }
 
-  /* Done - remove temporary created instances */
-  remove_inputs_rec(m, &inputs);
-  iter = map_iter(&inputs);
-  while ((key = map_next(&inputs, &iter))) {
-    DLiteInstance **ip = map_get(&inputs, key);
-    assert(ip && *ip);
-    dlite_instance_decref(*ip);
-  }
-
+  /* Done - remove temporary created instances and references to the inputs */
+  if (inst) dlite_instance_incref(inst);
+  decref_inputs(&inputs);
   map_deinit(&inputs);
-  for (i=0; i<n; i++) dlite_instance_decref((DLiteInstance *)instances[i]);
   return inst;
 }
 
diff --git a/src/pyembed/dlite-python-mapping.c b/src/pyembed/dlite-python-mapping.c
index 19f6b27..66be677 100644
--- a/src/pyembed/dlite-python-mapping.c
+++ b/src/pyembed/dlite-python-mapping.c
@@ -267,7 +267,6 @@ static DLiteInstance *mapper(const DLiteMappingPlugin *api,
   Py_XDECREF(outinst);
   Py_XDECREF(insts);
   Py_XDECREF(map);
-  for (i=0; i<n; i++) dlite_instance_decref((DLiteInstance *)instances[i]);
   return inst;
 }
 
-- 
2.43.0


From b63607298a5257468d873aa606a975da15baaeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:12 +0000
Subject: [PATCH 056/132] fix: template engine: nested conditionals, comments,
 @eval, alignment and malformed templates

Comment tags and tags starting with a colon were taken as @error, nested
conditionals ended at the inner @endif, negative conditions and single
quoted comparisons failed or aborted, the documented @eval tag was
missing, alignment tags after their column added a space, empty assigned
values crashed and malformed templates were read past their end or
aborted on asserts.  Errors in conditionals and assignments lost their
error code.
---
 src/utils/tgen.c | 266 +++++++++++++++++++++++++----------------------
 1 file changed, 141 insertions(+), 125 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index 8ad4fbb..cdb1879 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -68,42 +68,50 @@ static int length_to_endbrace(const char *p)
 {
   const char *q = p;
   int depth = 0;
-  while (*q && *q != '}') {
-    int n = strcspn(q, "{}");
-    q += n;
+  while (1) {
+    q += strcspn(q, "{}");
     switch (*(q++)) {
     case '\0':
       return -1;
     case '{':
       if (*q == '{')
         q++;
-      else if (*q != '}')
+      else if (*q == '}')
+        return q - p;
+      else
         depth++;
       break;
     case '}':
       if (*q == '}')
         q++;
       else if (depth-- <= 0)
-        q--;
+        return q - p - 1;
       break;
     default:
       abort();  /* should never be reached */
     }
   }
-  return q - p;
+}
+
+/* Returns non-zero if the first `len` bytes of `p` equals `tag`. */
+static int is_tag(const char *p, size_t len, const char *tag)
+{
+  return len == strlen(tag) && strncmp(p, tag, len) == 0;
 }
 
 /* Returns the number of bytes from the position in a template that is
    pointed to by `p` to variable `var`.  Only the number of bytes
    until the starting brace are counted.  If `maxlen` is equal or larger
-   than zero, at most `maxlen` bytes are considered.
+   than zero, at most `maxlen` bytes are considered.  Nested conditionals
+   are skipped.
 
    Returns -1 if variable `var` was not found. */
 static int length_to_var(const char *p, const char *var, int maxlen)
 {
   const char *q = p;
+  int len, depth = 0;
   while (1) {
-    size_t n = strcspn(q, "{");
+    size_t m, n = strcspn(q, "{");
     if (!q[n]) return -1;
     q += n + 1;
     if (maxlen >= 0 && q > p + maxlen) {
@@ -111,14 +119,16 @@ static int length_to_var(const char *p, const char *var, int maxlen)
     } else if (*q == '{') {
       q++;
     } else {
-      int len;
-      size_t m = strcspn(q, "%:}");
-      if (strncmp(q, var, m) == 0)
+      m = strcspn(q, "%:}");
+      if (depth == 0 && is_tag(q, m, var))
         return q - p - 1;
-      else if ((len = length_to_endbrace(q)) >= 0)
-        q += len;
-      else
+      if (is_tag(q, m, "@if"))
+        depth++;
+      else if (is_tag(q, m, "@endif") && depth-- == 0)
+        return -1;
+      if ((len = length_to_endbrace(q)) < 0)
         return -1;  /* missing end brace */
+      q += len;
     }
   }
 }
@@ -131,65 +141,48 @@ static int length_to_var(const char *p, const char *var, int maxlen)
    it is not a valid string expression. */
 static int eval_string_expression(const char *s, int len)
 {
-  int i, nstrings=0, instring=0, start[2], length[2];
-  const char *p, *op;
-  for (i=0; i<len; i++) {
-    if (s[i] == '\\') {
-      i++;
-    } else if (!instring && strchr("\"'", s[i])) {
-      instring = s[i];
-      start[nstrings] = i;
-    } else if (instring && s[i] == instring) {
-        instring = 0;
-        length[nstrings] = i - start[nstrings] - 1;
-        if (++nstrings > 2) return -1;
-    }
+  const char *p=s, *end=s+len, *start[2];
+  int nstrings=0, op=0, length[2];
+  while (1) {
+    int quote;
+    while (p < end && isspace((unsigned char)*p)) p++;
+    if (p >= end || (*p != '"' && *p != '\'')) return -1;
+    quote = *(p++);
+    start[nstrings] = p;
+    while (p < end && *p != quote) p += (*p == '\\') ? 2 : 1;
+    if (p >= end) return -1;
+    length[nstrings] = p - start[nstrings];
+    nstrings++;
+    p++;
+    while (p < end && isspace((unsigned char)*p)) p++;
+    if (p >= end) break;
+    if (nstrings == 2 || (*p != '=' && *p != '!')) return -1;
+    op = *(p++);
   }
-  if (instring) return -1;
-  switch (nstrings) {
-  case 0:
-    return -1;
-  case 1:
+  if (nstrings == 1)
     return (length[0]) ? 1 : 0;
-  case 2:
-    p = s + start[0] + length[0] + 2;
-    p += strspn(p, " ");
-    op = p++;
-    p += strspn(p, " ");
-    if (p != s + start[1]) return -1;
-    assert(*p == '"');
-    if (*op == '=') {
-      if (length[0] != length[1]) return 0;
-      return (strncmp(s + start[0] + 1, s + start[1] + 1, length[0])) ? 0 : 1;
-    } else if (*op == '!') {
-      if (length[0] != length[1]) return 1;
-      return (strncmp(s + start[0] + 1, s + start[1] + 1, length[0])) ? 1 : 0;
-    } else {
-      return -1;
-    }
-  default:
-    assert(0);
-  }
-  assert(0);
-  return 1;  /* never neached, but added to make MSVS happy */
+  if (length[0] == length[1] && strncmp(start[0], start[1], length[0]) == 0)
+    return (op == '=') ? 1 : 0;
+  return (op == '!') ? 1 : 0;
 }
 
 /* Evaluates condition `cond` with length `len`.
 
-   Returns 1 if `cond` evaluates to true, 0 if cond is false or -1 on error. */
+   Returns 1 if `cond` evaluates to true, 0 if cond is false or -1 on error.
+   If expanding `cond` fails, `*stat` is set to the error code. */
 static int evaluate_cond(const char *cond, int len, TGenSubs *subs,
-                         void *context)
+                         void *context, int *stat)
 {
   int retval=-1;
   char errmsg[256];
   TGenBuf s;
 
   tgen_buf_init(&s);
-  if (tgen_append(&s, cond, len, subs, context)) goto fail;
+  if ((*stat = tgen_append(&s, cond, len, subs, context))) goto fail;
   if (!s.buf || !*s.buf) {
     retval = 0;
   } else if ((retval = eval_string_expression(s.buf, s.pos)) < 0) {
-    retval = infixcalc(s.buf, NULL, 0, errmsg, sizeof(errmsg));
+    retval = (infixcalc(s.buf, NULL, 0, errmsg, sizeof(errmsg))) ? 1 : 0;
     if (errmsg[0])
       retval = errx(-1, "invalid condition \"%.*s\" --> \"%s\": %s",
                     len, cond, s.buf, errmsg);
@@ -204,17 +197,21 @@ static int evaluate_cond(const char *cond, int len, TGenSubs *subs,
 
        {@if:COND}...{@elif:COND}...{@else}...{@endif}
 
-   Returns the number of bytes consumed or -1 on error.
+   Returns the number of bytes consumed or -1 on error.  If the error
+   comes from expanding a condition or the selected branch, `*stat` is
+   set to the error code.  Otherwise (if the syntax is wrong) `*stat` is
+   zero.
 */
 static int builtin_if(TGenBuf *s, const char *template, TGenSubs *subs,
-                      void *context)
+                      void *context, int *stat)
 {
   const char *endp, *t = template;
   int cond, m, n = strcspn(t, ":");
+  *stat = 0;
   if (strncmp(t, "@if", n) || !t[n]) return -1;
   t += n + 1;
   if ((n = length_to_endbrace(t)) < 0 || !t[n]) return -1;
-  if ((cond = evaluate_cond(t, n, subs, context)) < 0) return -1;
+  if ((cond = evaluate_cond(t, n, subs, context, stat)) < 0) return -1;
   t += n + 1;
   if ((n = length_to_var(t, "@endif", -1)) < 0) return -1;
   if ((m = length_to_endbrace(t+n+1)) < 0) return -1;
@@ -222,30 +219,30 @@ static int builtin_if(TGenBuf *s, const char *template, TGenSubs *subs,
 
   while ((n = length_to_var(t, "@elif", endp - t)) >= 0) {
     if (cond) {
-      if (tgen_append(s, t, n, subs, context)) return -1;
+      if ((*stat = tgen_append(s, t, n, subs, context))) return -1;
       return endp - template;
     }
     if ((t += n + strcspn(t+n, ":")) && !*t) return -1;
     if (!*(t++)) return -1;
     if ((n = length_to_endbrace(t)) < 0) return -1;
-    if ((cond = evaluate_cond(t, n, subs, context)) < 0) return -1;
+    if ((cond = evaluate_cond(t, n, subs, context, stat)) < 0) return -1;
     t += n + 1;
   }
   if ((n = length_to_var(t, "@else", endp - t)) >= 0) {
     if (cond) {
-      if (tgen_append(s, t, n, subs, context)) return -1;
+      if ((*stat = tgen_append(s, t, n, subs, context))) return -1;
       return endp - template;
     } else {
       if ((m = length_to_endbrace(t+n+1)) < 0) return -1;
       t += n + m + 2;
       if ((n = length_to_var(t, "@endif", -1)) < 0) return -1;
-      if (tgen_append(s, t, n, subs, context)) return -1;
+      if ((*stat = tgen_append(s, t, n, subs, context))) return -1;
       return endp - template;
     }
   }
   if ((n = length_to_var(t, "@endif", endp - t)) >= 0) {
     if (cond) {
-      if (tgen_append(s, t, n, subs, context)) return -1;
+      if ((*stat = tgen_append(s, t, n, subs, context))) return -1;
       return endp - template;
     }
   }
@@ -305,7 +302,7 @@ int tgen_escaped_copy(char *dest, const char *src, int n)
         case '.':  break;                 /* escaped ".", just consume */
         case '\n': break;                 /* escaped newline, just consume */
         case '\r':
-	  if (p[1] == '\n') p++;          /* escaped newline, Windows or Mac */
+	  if (p+1 < pend && p[1] == '\n') p++;          /* escaped newline, Windows or Mac */
 	  break;
         default:   *(q++) = *p;   break;
         }
@@ -349,7 +346,7 @@ int tgen_setcase(char *s, int len, int casemode)
     for (i=0; i<len; i++) s[i] = toupper(s[i]);
     return 0;
   case 'T':
-    s[0] = toupper(s[0]);
+    if (len > 0) s[0] = toupper(s[0]);
     for (i=1; i<len; i++) s[i] = tolower(s[i]);
     return 0;
   }
@@ -370,10 +367,11 @@ static int append_identifier(TGenBuf *buf, const char *s, int n, int strict)
 {
   size_t startpos = buf->pos;
   char *space = " \f\n\r\t\v";
-  int i = strspn(s, space);
+  int i = 0;
   if (n < 0) n = strlen(s);
-  while (strchr(space, s[n-1])) n--;
-  if (s[i] == '_' || isalpha(s[i]))
+  while (i < n && strchr(space, s[i])) i++;
+  while (n > i && strchr(space, s[n-1])) n--;
+  if (i < n && (s[i] == '_' || isalpha(s[i])))
     tgen_buf_append(buf, s+i, 1);
   else if (!strict)
     tgen_buf_append(buf, "_", 1);
@@ -408,8 +406,9 @@ static int append_underscore(TGenBuf *buf, const char *s, int n, int upper)
   char *space = " \f\n\r\t\v";
   char *sep = " _-\f\n\r\t\v";
   if (n < 0) n = strlen(s);
-  while (strchr(space, s[n-1])) n--;
-  for (i=strspn(s, space); i<n; i++) {
+  while (n > 0 && strchr(space, s[n-1])) n--;
+  for (i=0; i<n && strchr(space, s[i]);) i++;
+  for (; i<n; i++) {
     mode = strchr(sep, s[i]) ? 0 : isupper(s[i]) ? 2 : 1;
     if ((prevmode && !mode) || (prevmode && mode == 2))
       tgen_buf_append(buf, "_", -1);
@@ -440,9 +439,10 @@ static int append_mixedcase(TGenBuf *buf, const char *s, int n, int upper)
   char *space = " \f\n\r\t\v";
   char *sep = " _-\f\n\r\t\v";
   if (n < 0) n = strlen(s);
-  for (i=strspn(s, space); i<n; i++) {
+  for (i=0; i<n && strchr(space, s[i]);) i++;
+  for (; i<n; i++) {
     mode = strchr(sep, s[i]) ? 0 : islower(s[i]) ? 1 : isupper(s[i]) ? 2 : 3;
-    if (buf->pos == 0) {
+    if (buf->pos == startpos) {
       tgen_buf_append_fmt(buf, "%c", (upper) ? toupper(s[i]) : tolower(s[i]));
     } else if (prevmode == 0 || prevmode == 3) {
       if (mode) tgen_buf_append_fmt(buf, "%c", toupper(s[i]));
@@ -479,7 +479,8 @@ char *tgen_convert_case(const char *s, int len, int casemode)
 {
   TGenBuf buf;
   tgen_buf_init(&buf);
-  if (tgen_buf_append_case(&buf, s, len, casemode) < 0) {
+  if (tgen_buf_append_case(&buf, s, len, casemode) < 0 ||
+      tgen_buf_append(&buf, "", 0) < 0) {
     tgen_buf_deinit(&buf);
     return NULL;
   }
@@ -653,8 +654,9 @@ int tgen_buf_append_case(TGenBuf *s, const char *src, int n, int casemode)
     return append_identifier(s, src, n, 1);
   case 'T':
     if ((stat = tgen_buf_append(s, src, n)) < 0) return -1;
-    s->buf[startpos] = toupper(s->buf[startpos]);
-    for (p=s->buf+startpos+1; *p; p++) *p = tolower(*p);
+    p = s->buf + startpos;
+    if (*p) *p = toupper(*p);
+    while (*p && *(++p)) *p = tolower(*p);
     return stat;
   }
   return errx(-1, "invalid case conversion character: %c", casemode);
@@ -670,7 +672,7 @@ int tgen_buf_unappend(TGenBuf *s, size_t n)
 {
   int removed = (n < s->pos) ? n : s->pos;
   s->pos -= removed;
-  s->buf[s->pos] = '\0';
+  if (s->buf) s->buf[s->pos] = '\0';
   return removed;
 }
 
@@ -684,11 +686,11 @@ int tgen_buf_unappend(TGenBuf *s, size_t n)
 int tgen_buf_calign(TGenBuf *s, int c, int n)
 {
   char str[] = {c, '\0'};
-  int retval, i = 0;
-  while (i<n && i <= (int)s->pos && s->buf[s->pos-i] != '\n') i++;
-  retval = n - i + 1;
-  while (i++ <= n) tgen_buf_append(s, str, 1);
-  return retval;
+  int i, ncols = 0;
+  while (ncols < (int)s->pos && s->buf[s->pos - ncols - 1] != '\n') ncols++;
+  for (i=ncols; i<n; i++)
+    if (tgen_buf_append(s, str, 1) < 0) return -1;
+  return i - ncols;
 }
 
 /*
@@ -853,8 +855,9 @@ int tgen_subs_setn(TGenSubs *subs, const char *var, int len,
 
   if ((ip = map_get((map_int_t *)&subs->map, name))) {
     s = subs->subs + *ip;
+    char *newrepl = (repl) ? strdup(repl) : NULL;
     if (s->repl) free(s->repl);
-    if (repl) s->repl = strdup(repl);
+    s->repl = newrepl;
     s->func = func;
     free(name);
   } else {
@@ -993,7 +996,8 @@ char *tgen(const char *template, TGenSubs *subs, void *context)
 {
   TGenBuf s;
   tgen_buf_init(&s);
-  if (tgen_append(&s, template, -1, subs, context)) {
+  if (tgen_append(&s, template, -1, subs, context) ||
+      tgen_buf_append(&s, "", 0) < 0) {
     if (s.buf) free(s.buf);
     return NULL;
   }
@@ -1018,6 +1022,7 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
   if (tlen < 0) tlen = strlen(template);
   while (*t && t < template + tlen) {
     int l, len = strcspn(t, "{}");
+    if (len > tlen - (t - template)) len = tlen - (t - template);
     char *fmt = NULL;
     char buf[10];
     int casemode = 's';
@@ -1052,26 +1057,56 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
                      "substitution", tgen_lineno(template, t));
 
         /* parse special constructs */
-        if (strncmp(t, "@error", len) == 0) {  /* error */
+        if (is_tag(t, len, "@error")) {  /* error */
           err_clear();
           return err(TGenUserError, "line %d: %.*s",
                      tgen_lineno(template, t), length_to_endbrace(t+len)-1,
                      t+len+1);
 
-        } else if (strncmp(t, "@if", len) == 0) {  /* conditional */
-          if ((len = builtin_if(s, t, subs, context)) < 0)
+        } else if (is_tag(t, len, "@if")) {  /* conditional */
+          if ((len = builtin_if(s, t, subs, context, &stat)) < 0) {
+            if (stat) return stat;
             return err(TGenSyntaxError,
                        "line %d: invalid conditional: \"%.*s\"",
                        tgen_lineno(template, t), (tlen > 120) ? 120 : tlen, t);
+          }
           t += len;
           continue;
 
+        } else if (is_tag(t, len, "@eval") && t[len] == ':') {  /* expression */
+          TGenBuf ss;
+          char errmsg[256];
+          int value;
+          const char *expr = t + len + 1;
+          if ((len = length_to_endbrace(expr)) < 0)
+            return err(TGenSyntaxError, "line %d: unterminated @eval tag",
+                       tgen_lineno(template, t));
+          tgen_buf_init(&ss);
+          if ((stat = tgen_append(&ss, expr, len, subs, context))) {
+            tgen_buf_deinit(&ss);
+            return stat;
+          }
+          value = infixcalc((ss.buf) ? ss.buf : "", NULL, 0,
+                            errmsg, sizeof(errmsg));
+          tgen_buf_deinit(&ss);
+          if (errmsg[0])
+            return err(TGenSyntaxError,
+                       "line %d: invalid expression \"%.*s\": %s",
+                       tgen_lineno(template, t), len, expr, errmsg);
+          tgen_buf_append_fmt(s, "%d", value);
+          t = expr + len + 1;
+          continue;
+
         } else if ((l = is_identifier(t, '='))) {  /* assignment */
           TGenBuf ss;
           TGenSubs *parent = subs->parent;
           tgen_buf_init(&ss);
-          if (((len = length_to_endbrace(t)) < 0) ||
-              tgen_append(&ss, t+l+1, len-l-1, subs, context)) {
+          if ((len = length_to_endbrace(t)) >= 0 &&
+              (stat = tgen_append(&ss, t+l+1, len-l-1, subs, context))) {
+            tgen_buf_deinit(&ss);
+            return stat;
+          }
+          if (len < 0 || tgen_buf_append(&ss, "", 0) < 0) {
             tgen_buf_deinit(&ss);
             return err(TGenSyntaxError,
                        "line %d: invalid assignment tag '%.*s'...",
@@ -1147,37 +1182,12 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
         templ = sub->repl;
         templ_len = -1;
         if (t[len] == ':') {
-          int depth = 0;
-          const char *tt = t + len + 1;
-          templ = tt;
-          while (*tt && *tt != '}') {
-            int m = strcspn(tt, "{}");
-            tt += m;
-            switch (*(tt++)) {
-            case '\0':
-              return err(TGenSyntaxError, "line %d: unterminated "
-                         "subtemplate in substitution for '%s'",
-                         tgen_lineno(template, t), sub->var);
-            case '{':
-              if (*tt == '{')
-                tt++;
-              else if (*tt != '}')
-                depth++;
-              break;
-
-            case '}':
-              if (*tt == '}')
-                tt++;
-              else if (depth-- <= 0)
-                tt--;
-              break;
-
-            default:
-              abort();
-            }
-          }
-          t = tt;
-          templ_len = tt - templ;
+          templ = t + len + 1;
+          if ((templ_len = length_to_endbrace(templ)) < 0)
+            return err(TGenSyntaxError, "line %d: unterminated "
+                       "subtemplate in substitution for '%s'",
+                       tgen_lineno(template, t), sub->var);
+          t = templ + templ_len;
         }
 
         if (sub->func) {
@@ -1188,18 +1198,24 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
           if ((stat = sub->func(s, templ, templ_len, subs, context)))
             return stat;
         } else if (fmt) {
-          char *p = tgen_convert_case(sub->repl, -1, casemode);
-          if (!p) return -1;
+          char *p = tgen_convert_case((sub->repl) ? sub->repl : "", -1,
+                                      casemode);
+          if (!p)
+            return err(TGenFormatError, "line %d: cannot convert value of "
+                       "'%s' with format specifier '%c'",
+                       tgen_lineno(template, t), sub->var, casemode);
           nchars = tgen_buf_append_fmt(s, fmt, p);
           free(p);
           if (nchars < 0) return nchars;
         } else {
           assert(casemode == 's');
-          if ((nchars = tgen_buf_append(s, sub->repl, -1)) < 0)
+          if (sub->repl && (nchars = tgen_buf_append(s, sub->repl, -1)) < 0)
             return -1;
         }
         len = strcspn(t, "}");
-        assert(t[len]);
+        if (!t[len])
+          return err(TGenSyntaxError, "line %d: template ends with "
+                     "unmatched '{'", tgen_lineno(template, t));
         t += len + 1;
       }
       break;
-- 
2.43.0


From 56db95333c76c58c4785c03106453e9e4f3285eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:12 +0000
Subject: [PATCH 057/132] fix: C declarations of arrays of blobs and fixed
 strings declared arrays of pointers

---
 src/dlite-type.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 96e6187..7edc6af 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -385,8 +385,8 @@ int dlite_type_set_cdecl(DLiteType dtype, size_t size, const char *name,
 
   switch (dtype) {
   case dliteBlob:
-    m = snprintf(pcdecl, n, "uint8_t %s%s[%lu]", ref, name,
-                 (unsigned long)size);
+    m = snprintf(pcdecl, n, (nref) ? "uint8_t (%s%s)[%lu]" : "uint8_t %s%s[%lu]",
+                 ref, name, (unsigned long)size);
     break;
   case dliteBool:
     if (size != sizeof(bool))
@@ -416,7 +416,8 @@ int dlite_type_set_cdecl(DLiteType dtype, size_t size, const char *name,
                    (unsigned long)size*8, ref, name);
     break;
   case dliteFixString:
-    m = snprintf(pcdecl, n, "char %s%s[%lu]", ref, name, (unsigned long)size);
+    m = snprintf(pcdecl, n, (nref) ? "char (%s%s)[%lu]" : "char %s%s[%lu]",
+                 ref, name, (unsigned long)size);
     break;
   case dliteStringPtr:
     if (size != sizeof(char *))
-- 
2.43.0


From 7595eb2d1165c4b6d003fb505fa63537fde1aa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:12 +0000
Subject: [PATCH 058/132] fix: code generation crashed on missing descriptions
 and truncated long declarations

The minimal definitions in generated headers did not match those of dlite.
---
 src/dlite-codegen.c               | 33 +++++++++++++++++++------------
 tools/templates/c-header.txt      |  7 ++++---
 tools/templates/c-meta-header.txt |  8 +++++---
 3 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/dlite-codegen.c b/src/dlite-codegen.c
index 7350387..0e37eaf 100644
--- a/src/dlite-codegen.c
+++ b/src/dlite-codegen.c
@@ -95,7 +95,8 @@ static int list_dimensions_helper(TGenBuf *s, const char *template, int len,
   for (i=0; i < m->_ndimensions; i++) {
     DLiteDimension *d = m->_dimensions + i;
     tgen_subs_set(&dsubs, "dim.name", d->name, NULL);
-    tgen_subs_set(&dsubs, "dim.descr", d->description, NULL);
+    tgen_subs_set(&dsubs, "dim.descr", (d->description) ? d->description : "",
+                  NULL);
     tgen_subs_set_fmt(&dsubs, "dim.value", NULL, "%lu", (unsigned long)
                       dlite_instance_get_dimension_size_by_index(inst, i));
     tgen_subs_set_fmt(&dsubs, "dim.i",     NULL, "%lu", (unsigned long)i);
@@ -209,10 +210,15 @@ static int list_properties_helper(TGenBuf *s, const char *template, int len,
     char *descr = (p->description) ? p->description : "";
     size_t nref = (p->ndims > 0) ? 1 : 0;
     int isallocated = dlite_type_is_allocated(p->type);
-    char typename[32], pcdecl[64], ftype[25], isoctype[64];
+    char typename[32], *pcdecl, ftype[25], isoctype[64];
+    size_t pcdecl_size = strlen(p->name) + 64;
     dlite_type_set_typename(p->type, p->size, typename, sizeof(typename));
+    if (!(pcdecl = calloc(1, pcdecl_size))) {
+      retval = err(dliteMemoryError, "allocation failure");
+      goto fail;
+    }
     dlite_type_set_cdecl(p->type, p->size, p->name, nref, pcdecl,
-			 sizeof(pcdecl), g->use_native_typenames);
+			 pcdecl_size, g->use_native_typenames);
     dlite_type_set_ftype(p->type, p->size, ftype, sizeof(ftype));
     dlite_type_set_isoctype(p->type, p->size, isoctype, sizeof(isoctype));
 
@@ -225,6 +231,7 @@ static int list_properties_helper(TGenBuf *s, const char *template, int len,
     tgen_subs_set(&psubs, "prop.ftype",    ftype,    NULL);
     tgen_subs_set(&psubs, "prop.isoctype", isoctype, NULL);
     tgen_subs_set(&psubs, "prop.cdecl",    pcdecl,   NULL);
+    free(pcdecl);
     tgen_subs_set(&psubs, "prop.ref",      ref,      NULL);
     tgen_subs_set(&psubs, "prop.unit",     unit,     NULL);
     tgen_subs_set(&psubs, "prop.descr",    descr,    NULL);
@@ -243,8 +250,9 @@ static int list_properties_helper(TGenBuf *s, const char *template, int len,
       if (p->ndims == 0 && p->type == dliteStringPtr) {
         char **ptr = dlite_instance_get_property((DLiteInstance *)meta,
                                                  p->name);
-        tgen_subs_set_fmt(&psubs, "prop.value",  NULL, "%s", *ptr);
-        tgen_subs_set_fmt(&psubs, "prop.cvalue", NULL, "\"%s\"", *ptr);
+        const char *value = (ptr && *ptr) ? *ptr : "";
+        tgen_subs_set_fmt(&psubs, "prop.value",  NULL, "%s", value);
+        tgen_subs_set_fmt(&psubs, "prop.cvalue", NULL, "\"%s\"", value);
       } else {
         const TGenSub *sub;
         tgen_subs_set_fmt(&psubs, "prop.value", NULL, "%s_%s",
@@ -252,7 +260,7 @@ static int list_properties_helper(TGenBuf *s, const char *template, int len,
         tgen_subs_set_fmt(&psubs, "prop.cvalue", NULL, "%s_%s",
                           meta_uname, p->name);
         sub = tgen_subs_get(&psubs, "prop.value");
-        tgen_setcase(sub->repl, -1, 'l');
+        tgen_setcase(sub->repl, -1, 'c');
       }
     }
 
@@ -378,7 +386,7 @@ int dlite_instance_subs(TGenSubs *subs, const DLiteInstance *inst)
   tgen_subs_set(subs, "meta.name",       name,       NULL);
   tgen_subs_set(subs, "meta.version",    version,    NULL);
   tgen_subs_set(subs, "meta.namespace",  namespace,  NULL);
-  tgen_subs_set(subs, "meta.descr",      *descr,     NULL);
+  tgen_subs_set(subs, "meta.descr", (descr && *descr) ? *descr : "", NULL);
   tgen_subs_set_fmt(subs, "meta._ndimensions", NULL, "%lu",
                     (unsigned long)meta->meta->_ndimensions);
   tgen_subs_set_fmt(subs, "meta._nproperties", NULL, "%lu",
@@ -404,7 +412,7 @@ int dlite_instance_subs(TGenSubs *subs, const DLiteInstance *inst)
     tgen_subs_set(subs, "name",       name,       NULL);
     tgen_subs_set(subs, "version",    version,    NULL);
     tgen_subs_set(subs, "namespace",  namespace,  NULL);
-    tgen_subs_set(subs, "descr",      *descr,     NULL);
+    tgen_subs_set(subs, "descr", (descr && *descr) ? *descr : "", NULL);
     free(name);
     free(version);
     free(namespace);
@@ -473,7 +481,7 @@ int dlite_option_subs(TGenSubs *subs, const char *options)
     vlen = strcspn(v, ";&#");
     tgen_subs_setn_fmt(subs, k, klen, NULL, "%.*s", (int)vlen, v);
     k = v + vlen;
-    if (*k) k++;
+    if (*k && *k != '#') k++;
   }
   return 0;
 }
@@ -537,7 +545,7 @@ char *dlite_codegen(const char *template, const DLiteInstance *inst,
                     const char *options)
 {
   TGenSubs subs;
-  char *text;
+  char *text=NULL;
   Context context;
 
   context.inst = inst;
@@ -545,9 +553,8 @@ char *dlite_codegen(const char *template, const DLiteInstance *inst,
   context.metameta = 0;
 
   tgen_subs_init(&subs);
-  if (dlite_instance_subs(&subs, inst)) return NULL;
-  if (dlite_option_subs(&subs, options)) return NULL;
-  text = tgen(template, &subs, &context);
+  if (!dlite_instance_subs(&subs, inst) && !dlite_option_subs(&subs, options))
+    text = tgen(template, &subs, &context);
   tgen_subs_deinit(&subs);
   return text;
 }
diff --git a/tools/templates/c-header.txt b/tools/templates/c-header.txt
index 725bdba..cbceff2 100644
--- a/tools/templates/c-header.txt
+++ b/tools/templates/c-header.txt
@@ -63,9 +63,10 @@
 #elif !defined DLITE_MINIMAL_DEFS
 #define DLITE_MINIMAL_DEFS
 typedef enum {{dliteBlob, dliteBool, dliteInt, dliteUInt, dliteFloat,
-              dliteFixString, dliteStringPtr,
-                   dliteDimension, dliteProperty, dliteRelation}} DLiteType;
-typedef struct {{ char *name, description; }} DLiteDimension;
+              dliteFixString, dliteStringPtr, dliteRef,
+              dliteDimension, dliteProperty, dliteRelation}} DLiteType;
+typedef struct {{ char *name, *description; }} DLiteDimension;
+typedef struct {{ char *s, *p, *o, *d, *id; }} DLiteRelation;
 typedef struct {{
   char *name;
   DLiteType type;
diff --git a/tools/templates/c-meta-header.txt b/tools/templates/c-meta-header.txt
index b04c7a7..5d9d1fa 100644
--- a/tools/templates/c-meta-header.txt
+++ b/tools/templates/c-meta-header.txt
@@ -77,13 +77,15 @@
 #elif ! defined(DLITE_MINIMAL_DEFS)
 #define DLITE_MINIMAL_DEFS
 typedef enum {{dliteBlob, dliteBool, dliteInt, dliteUInt, dliteFloat,
-              dliteFixString, dliteStringPtr,
-                   dliteDimension, dliteProperty, dliteRelation}} DLiteType;
-typedef struct {{ char *name, description; }} DLiteDimension;
+              dliteFixString, dliteStringPtr, dliteRef,
+              dliteDimension, dliteProperty, dliteRelation}} DLiteType;
+typedef struct {{ char *name, *description; }} DLiteDimension;
+typedef struct {{ char *s, *p, *o, *d, *id; }} DLiteRelation;
 typedef struct {{
   char *name;
   DLiteType type;
   size_t size;
+  char *ref;
   int ndims;
   char **shape, *unit, *description;
 }} DLiteProperty;
-- 
2.43.0


From 40501852dc06d88908c4c7a8cb34b6cd57235b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:03 +0000
Subject: [PATCH 059/132] fix: template engine: a test for an empty variable
 name is an error

---
 src/utils/tgen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index cdb1879..aaec572 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -1142,6 +1142,9 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
 
         /* parse VAR */
         if (t[len] == '?') {
+          if (!len)
+            return err(TGenSyntaxError, "line %d: missing variable name "
+                       "before '?'", tgen_lineno(template, t));
           if (t[len+1] != '}')
             return err(TGenVariableError,
                        "line %d: expect '}' after '?' in var '%.*s'",
-- 
2.43.0


From 437a82cb23b6d8937ccd66445ac556658eafb042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 060/132] fix: lookup of unknown instances reported no error,
 urls without location crashed it

---
 src/dlite-entity.c       | 18 +++++++++++++-----
 src/dlite-entity.h       |  5 +++++
 storages/rdf/dlite-rdf.c |  8 ++++++--
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 8852d52..b9782e5 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -673,6 +673,11 @@ int dlite_instance_decref(DLiteInstance *inst)
   reference is returned and no error is reported if the instance
   cannot be found.
 
+  Note that an instance that was only found in a storage is not kept in
+  memory.  In that case the returned pointer only tells that the instance
+  exists and must not be dereferenced.  Use dlite_instance_get() to
+  obtain a reference to it.
+
   Returns a pointer to the instance (borrowed reference) if it exists
   or NULL otherwise.
  */
@@ -683,7 +688,6 @@ DLiteInstance *dlite_instance_has(const char *id, bool check_storages)
     ErrTry:
       if ((inst = dlite_instance_get(id))) {
         dlite_instance_decref(inst);
-        assert(inst->_refcount > 0);
       }
     ErrOther:
       break;
@@ -782,7 +786,7 @@ DLiteInstance *dlite_instance_get(const char *id)
     } else {
       /* ...otherwise it may be a glob pattern */
       FUIter *fiter;
-      if ((fiter = fu_glob(location, "|"))) {
+      if (location && (fiter = fu_glob(location, "|"))) {
         const char *path;
         while (!inst && (path = fu_globnext(fiter))) {
 	  driver = (char *)fu_fileext(path);
@@ -828,7 +832,7 @@ DLiteInstance *dlite_instance_get(const char *id)
     }
   }
 
-  return NULL;
+  return err(dliteMissingInstanceError, "no such instance: %s", id), NULL;
 }
 
 /*
@@ -933,7 +937,7 @@ DLiteInstance *dlite_instance_load_url(const char *url)
 DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
                                      const char *metaid, int lookup)
 {
-  DLiteMeta *meta;
+  DLiteMeta *meta=NULL;
   DLiteInstance *inst=NULL, *instance=NULL;
   DLiteDataModel *d=NULL;
   size_t i, *dims=NULL;
@@ -969,7 +973,11 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   if (!(uri = dlite_datamodel_get_meta_uri(d))) goto fail;
 
   /* If metadata is not given, try to load it from cache... */
-  meta = (DLiteMeta *)dlite_instance_get(uri);
+  ErrTry:
+    meta = (DLiteMeta *)dlite_instance_get(uri);
+  ErrOther:
+    break;
+  ErrEnd;
 
   /* ...otherwise try to load it from storage */
   if (!meta) {
diff --git a/src/dlite-entity.h b/src/dlite-entity.h
index bae0254..2f98514 100644
--- a/src/dlite-entity.h
+++ b/src/dlite-entity.h
@@ -516,6 +516,11 @@ int dlite_instance_decref(DLiteInstance *inst);
   reference is returned and no error is reported if the instance
   cannot be found.
 
+  Note that an instance that was only found in a storage is not kept in
+  memory.  In that case the returned pointer only tells that the instance
+  exists and must not be dereferenced.  Use dlite_instance_get() to
+  obtain a reference to it.
+
   Returns a pointer to the instance (borrowed reference) if it exists
   or NULL otherwise.
  */
diff --git a/storages/rdf/dlite-rdf.c b/storages/rdf/dlite-rdf.c
index cf6a4e9..41658f3 100644
--- a/storages/rdf/dlite-rdf.c
+++ b/storages/rdf/dlite-rdf.c
@@ -362,8 +362,12 @@ DLiteInstance *rdf_load_instance(const DLiteStorage *storage, const char *id)
 
   /* get/load metadata */
   mid = (s->base_uri) ? aprintf("%s:%s", s->base_uri, muuid) : NULL;
-  if (!(meta = dlite_meta_get(muuid)) &&
-      !(meta = dlite_meta_load(storage, muuid)))
+  ErrTry:
+    meta = dlite_meta_get(muuid);
+  ErrOther:
+    break;
+  ErrEnd;
+  if (!meta && !(meta = dlite_meta_load(storage, muuid)))
     FAIL1("cannot load metadata: '%s'", t->o);
 
   /* allocate and read dimension values */
-- 
2.43.0


From 581c0bf4051d0f6053c1a1603f78ceb6ae8ae8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:32 +0000
Subject: [PATCH 061/132] fix: snapshots read back from a storage were mutable

---
 src/dlite-entity.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index b9782e5..5a9578a 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2427,7 +2427,10 @@ const DLiteInstance *dlite_instance_get_snapshot(const DLiteInstance *inst,
     if (p->parent) {
       cur = p->parent;
     } else {
-      if (!(p->parent = dlite_instance_get(p->uuid))) return NULL;
+      DLiteInstance *parent = dlite_instance_get(p->uuid);
+      if (!parent) return NULL;
+      dlite_instance_freeze(parent);  /* parents are always immutable */
+      p->parent = parent;
       cur = p->parent;
     }
   }
@@ -2456,7 +2459,10 @@ const DLiteInstance *dlite_instance_pull_snapshot(const DLiteInstance *inst,
     if (p->parent) {
       cur = p->parent;
     } else {
-      if (!(p->parent = dlite_storage_load(s, p->uuid))) return NULL;
+      DLiteInstance *parent = dlite_storage_load(s, p->uuid);
+      if (!parent) return NULL;
+      dlite_instance_freeze(parent);  /* parents are always immutable */
+      p->parent = parent;
       cur = p->parent;
     }
   }
-- 
2.43.0


From 4accefb1e279458d8b82030a520338bd41440ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:07 +0000
Subject: [PATCH 062/132] fix: hash of fixed strings depended on the bytes
 after the terminating NUL

---
 src/dlite-entity.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 5a9578a..85bbf66 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2308,6 +2308,15 @@ int dlite_instance_get_hash(const DLiteInstance *inst,
               p->name, (inst->uri) ? inst->uri : inst->uuid);
           break;
         }
+    } else if (p->type == dliteFixString) {
+      /* The bytes following the terminating NUL are not part of the value,
+         count them as zeros. */
+      const char *v = ptr;
+      for (j=0; j<len; j++, v+=p->size) {
+        size_t n, m=strnlen(v, p->size);
+        sha3_Update(&c, v, m);
+        for (n=m; n<p->size; n++) sha3_Update(&c, "", 1);
+      }
     } else {
       sha3_Update(&c, ptr, len*p->size);
     }
-- 
2.43.0


From a6bca5c516431ecc29fcb91b1de5f35d9dbc8f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 063/132] fix: in-memory stores leaked instances added more
 than once and could not be loaded, collections leaked references to their
 metadata

---
 src/dlite-collection.c |  6 +++++-
 src/dlite-store.c      | 10 ++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 82fd7b3..786b35e 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -287,7 +287,11 @@ DLiteCollection *dlite_collection_create(const char *id)
 {
   DLiteMeta *meta = dlite_meta_get(DLITE_COLLECTION_ENTITY);
   size_t  dims[] = {0};
-  return (DLiteCollection *)dlite_instance_create(meta,  dims, id);
+  DLiteInstance *inst;
+  if (!meta) return NULL;
+  inst = dlite_instance_create(meta,  dims, id);
+  dlite_meta_decref(meta);
+  return (DLiteCollection *)inst;
 }
 
 
diff --git a/src/dlite-store.c b/src/dlite-store.c
index 234dacc..fd5be09 100644
--- a/src/dlite-store.c
+++ b/src/dlite-store.c
@@ -51,7 +51,8 @@ void dlite_store_free(DLiteStore *store)
   while ((uuid = map_next(&store->map, &iter))) {
     item_t *item = (item_t *)map_get(&store->map, uuid);
     assert(item);
-    dlite_instance_decref(item->inst);
+    while (item->refcount-- > 0)
+      dlite_instance_decref(item->inst);
   }
   map_deinit(&store->map);
   free(store);
@@ -69,7 +70,10 @@ DLiteStore *dlite_store_load(DLiteStorage *s)
   if (!(store = dlite_store_create())) goto fail;
   for (p=uuids; *p; p++) {
     if (!(inst = dlite_instance_load(s, *p))) goto fail;
-    if (!dlite_store_add_new(store, inst)) goto fail;
+    if (dlite_store_add_new(store, inst)) {
+      dlite_instance_decref(inst);
+      goto fail;
+    }
   }
   retval = store;
  fail:
@@ -168,6 +172,8 @@ DLiteInstance *dlite_store_pop_all(DLiteStore *store, const char *id)
   if (!(item = (item_t *)map_get(&store->map, uuid)))
     FAIL1("id '%s' is not in store", id);
   inst = item->inst;
+  while (--item->refcount > 0)  /* only one reference is given to the caller */
+    dlite_instance_decref(inst);
   map_remove(&store->map, uuid);
   return inst;
  fail:
-- 
2.43.0


From df784cf8fbdc9d3fa97ed19cadbdc95dd5c92f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:38 +0000
Subject: [PATCH 064/132] fix: metadata of user-defined schemas were laid out
 with the header of data instances, empty arrays in metadata models

---
 src/dlite-entity.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 85bbf66..cea867f 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2779,7 +2779,10 @@ dlite_meta_create(const char *uri, const char *description,
   if (name) free(name);
   if (version) free(version);
   if (namespace) free(namespace);
-  if (!entity && e) dlite_instance_decref(e);
+  if (!entity && e) {
+    _instance_store_remove(e);
+    dlite_instance_decref(e);
+  }
   return entity;
 }
 
@@ -2845,8 +2848,11 @@ int dlite_meta_init(DLiteMeta *meta)
   if (!meta->_relations && meta->_nrelations && idim_rel >= 0)
     meta->_relations = *(void **)DLITE_PROP(meta, iprop_rel);
 
-  /* Assign headersize */
-  if (!meta->_headersize)
+  /* Assign headersize.  When this function is called the first time on
+     new meta-metadata, its properties are not yet assigned and it is not
+     recognised as such. */
+  if (!meta->_headersize ||
+      (ismeta && meta->_headersize == sizeof(DLiteInstance)))
     meta->_headersize = (ismeta) ? sizeof(DLiteMeta) : sizeof(DLiteInstance);
   DEBUG_LOG("    headersize=%d\n", (int)meta->_headersize);
 
@@ -4196,17 +4202,14 @@ DLiteMeta *dlite_meta_create_from_metamodel(DLiteMetaModel *model)
 
     src = dlite_metamodel_get_property(model, p->name);
     dest = dlite_instance_get_property_by_index((DLiteInstance *)meta, i);
-    if ((src == NULL) && (dest == NULL)) {
-      continue;
-    }
-    else if ((src != NULL) && (dest != NULL)) {
-      if (dlite_type_ndcast(p->ndims,
-                            dest, p->type, p->size, shape, NULL,
-                            src, p->type, p->size, shape, NULL,
-                            NULL)) goto fail;
-    } else {
-      goto fail;
-    }
+    if (!dest) continue;  /* empty array */
+    if (!src)
+      FAILCODE2(dliteValueError, "Missing value for \"%s\" in metadata model: "
+                "%s", p->name, model->uri);
+    if (dlite_type_ndcast(p->ndims,
+                          dest, p->type, p->size, shape, NULL,
+                          src, p->type, p->size, shape, NULL,
+                          NULL)) goto fail;
   }
   if (dlite_meta_init(meta)) goto fail;
   retval = meta;
@@ -4214,6 +4217,9 @@ DLiteMeta *dlite_meta_create_from_metamodel(DLiteMetaModel *model)
   if (name) free(name);
   if (version) free(version);
   if (namespace) free(namespace);
-  if (!retval && meta) dlite_meta_decref(meta);
+  if (!retval && meta) {
+    _instance_store_remove((DLiteInstance *)meta);
+    dlite_meta_decref(meta);
+  }
   return retval;
 }
-- 
2.43.0


From f96e2cb0aea982f476fc30103f4b18d6b6c8fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:27 +0000
Subject: [PATCH 065/132] fix: malformed JSON was read beyond its end in error
 messages, aborted on non-object properties, was rejected without an error or
 leaked memory

---
 src/dlite-entity.c |  6 +++++-
 src/dlite-json.c   | 16 ++++++++++------
 src/utils/jsmnx.c  |  6 +++---
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index cea867f..63d46e2 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3679,7 +3679,11 @@ int dlite_property_scan(const char *src, void *ptr, const DLiteProperty *p,
     jsmn_parser parser;
     jsmn_init(&parser);
     r = jsmn_parse_alloc(&parser, src, strlen(src), &tokens, &ntokens);
-    if (r < 0) return err(dliteValueError, "error parsing input: %s", jsmn_strerror(r));
+    if (r <= 0) {
+      free(tokens);
+      return err(dliteValueError, "error parsing input: %s",
+                 (r < 0) ? jsmn_strerror(r) : "no content");
+    }
     t = tokens;
     r = scandim(0, src, &q, p, shape, flags, &t);
     n = tokens[0].end;
diff --git a/src/dlite-json.c b/src/dlite-json.c
index ddf109c..31ef9aa 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -792,7 +792,8 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
     //  base = obj;
     //else
     //  FAIL1("\"properties\" must be object or array: %s", id);
-    assert(base->type == JSMN_OBJECT);
+    if (base->type != JSMN_OBJECT)
+      FAIL1("\"properties\" of data instances must be a json object: %s", id);
 
     /* -- infer name, version and namespace */
     if (dlite_instance_is_meta(inst)) {
@@ -931,6 +932,7 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
       }
       n += jsmn_count(val) + 2;
     }
+    if (!inst) FAIL1("no instance with id '%s' in json source", id);
   }
   if (!inst) goto fail;
 
@@ -1295,13 +1297,14 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
   DLiteJsonFormat retval=-1, format;
   DLiteJsonFlag flags=0;
   char *dots = (len > 30) ? "..." : "";
+  int n = (len > 30) ? 30 : len;  // number of characters shown in messages
 
   jsmn_init(&parser);
   if ((r = jsmn_parse_alloc(&parser, src, len, &tokens, &ntokens)) < 0)
-    FAIL3("error parsing json string: \"%.30s%s\": %s",
-          src, dots, jsmn_strerror(r));
+    FAIL4("error parsing json string: \"%.*s%s\": %s",
+          n, src, dots, jsmn_strerror(r));
   if (r == 0 || tokens->type != JSMN_OBJECT)
-    FAIL2("root of json data must be an object: \"%.30s%s\"", src, dots);
+    FAIL3("root of json data must be an object: \"%.*s%s\"", n, src, dots);
 
   if ((format = dlite_json_check(src, tokens, NULL, &flags)) < 0) goto fail;
 
@@ -1309,8 +1312,9 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
     uuid[0] = '\0';
     if (get_uuid(uuid, src, tokens) < 0) goto fail;
     if (!(uri = get_uri(src, tokens)) && !uuid[0])
-      FAILCODE2(dliteParseError,
-                "missing UUID and URI in json data: \"%.30s%s\"", src, dots);
+      FAILCODE3(dliteParseError,
+                "missing UUID and URI in json data: \"%.*s%s\"",
+                n, src, dots);
     if (uri) {
       char uuid2[DLITE_UUID_LENGTH+1];
       if (dlite_get_uuid(uuid2, uri) < 0) goto fail;
diff --git a/src/utils/jsmnx.c b/src/utils/jsmnx.c
index e0f8e28..b3c90be 100644
--- a/src/utils/jsmnx.c
+++ b/src/utils/jsmnx.c
@@ -126,10 +126,10 @@ static int token_equals(const char *js, const jsmntok_t *t, const char *key)
 const jsmntok_t *jsmn_item(const char *js, const jsmntok_t *t, const char *key)
 {
   int i, n, nitems;
-  int len;
+  int len = t->end - t->start;
   if (t->type != JSMN_OBJECT)
-    return errx(1, "expected JSON object in string starting with:\n%.200s\n",
-                js + t->start), NULL;
+    return errx(1, "expected JSON object, got:\n%.*s\n",
+                (len < 200) ? len : 200, js + t->start), NULL;
   nitems = t->size;
   for (i=0; i<nitems; i++) {
     t++;
-- 
2.43.0


From f44515d213a461d3c87438505a15fabb07c83712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:47 +0000
Subject: [PATCH 066/132] fix: instances that need themselves to be loaded
 caused infinite recursion

---
 src/dlite-entity.c | 75 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 17 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 63d46e2..eccd133 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -34,6 +34,25 @@
 #define max(x, y) (((x) >= (y)) ? (x) : (y))
 
 
+/* Thread local storage, see utils/err.c */
+#if !defined thread_local
+# if !defined HAVE_THREADS
+#  define thread_local
+# elif __STDC_VERSION__ >= 201112 && !defined __STDC_NO_THREADS__
+#  define thread_local _Thread_local
+# elif defined _WIN32
+#  define thread_local __declspec(thread)
+# else
+#  define thread_local __thread
+# endif
+#endif
+
+/* Linked list of the ids that dlite_instance_get() currently looks up */
+typedef struct _PendingGet {
+  const char *id;
+  struct _PendingGet *next;
+} PendingGet;
+
 /* Forward declarations */
 int dlite_meta_init(DLiteMeta *meta);
 DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
@@ -698,17 +717,9 @@ DLiteInstance *dlite_instance_has(const char *id, bool check_storages)
 
 
 /*
-  Returns a new reference to instance with given `id` or NULL if no such
-  instance can be found.
-
-  If the instance exists in the in-memory store it is returned (with
-  its refcount increased by one).  Otherwise it is searched for in the
-  storage plugin path (initiated from the DLITE_STORAGES environment
-  variable).
-
-  It is an error message if the instance cannot be found.
+  Help function for dlite_instance_get() - searches storages for `id`.
 */
-DLiteInstance *dlite_instance_get(const char *id)
+static DLiteInstance *_instance_get(const char *id)
 {
   DLiteInstance *inst=NULL;
   DLiteStorageHotlistIter hiter;
@@ -716,13 +727,7 @@ DLiteInstance *dlite_instance_get(const char *id)
   DLiteStoragePathIter *iter;
   const char *url;
 
-  /* check if instance `id` is already instantiated... */
-  if ((inst = _instance_store_get(id))) {
-    dlite_instance_incref(inst);
-    return inst;
-  }
-
-  /* ...otherwise look it up in hotlisted storages */
+  /* look it up in hotlisted storages */
   dlite_storage_hotlist_iter_init(&hiter);
   while ((hs = dlite_storage_hotlist_iter_next(&hiter))) {
     DLiteInstance *inst;
@@ -835,6 +840,42 @@ DLiteInstance *dlite_instance_get(const char *id)
   return err(dliteMissingInstanceError, "no such instance: %s", id), NULL;
 }
 
+/*
+  Returns a new reference to instance with given `id` or NULL if no such
+  instance can be found.
+
+  If the instance exists in the in-memory store it is returned (with
+  its refcount increased by one).  Otherwise it is searched for in the
+  storage plugin path (initiated from the DLITE_STORAGES environment
+  variable).
+
+  It is an error message if the instance cannot be found.
+*/
+DLiteInstance *dlite_instance_get(const char *id)
+{
+  static thread_local PendingGet *pending=NULL;
+  PendingGet this, *q;
+  DLiteInstance *inst;
+
+  /* check if instance `id` is already instantiated... */
+  if ((inst = _instance_store_get(id))) {
+    dlite_instance_incref(inst);
+    return inst;
+  }
+
+  /* fail if loading `id` requires `id` (e.g. if it is its own metadata) */
+  for (q=pending; q; q=q->next)
+    if (strcmp(q->id, id) == 0)
+      return err(dliteStorageLoadError, "circular reference when loading "
+                 "instance: %s", id), NULL;
+  this.id = id;
+  this.next = pending;
+  pending = &this;
+  inst = _instance_get(id);
+  pending = this.next;
+  return inst;
+}
+
 /*
   Like dlite_instance_get(), but maps the instance with the given id
   to an instance of `metaid`.  If `metaid` is NULL, it falls back to
-- 
2.43.0


From 427f387ac48b59b0e5d09e4038f777ae126160b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 067/132] fix: Python: assigning properties could read beyond
 the value, silently wrap or truncate it, change the instance on failure or
 crash; relations, properties and dimensions outlived the instance they refer
 to

---
 bindings/python/dlite-entity.i |  13 ++-
 bindings/python/dlite-python.i | 188 +++++++++++++++++++++++++++------
 2 files changed, 165 insertions(+), 36 deletions(-)

diff --git a/bindings/python/dlite-entity.i b/bindings/python/dlite-entity.i
index 065ec1b..1e1a1e1 100644
--- a/bindings/python/dlite-entity.i
+++ b/bindings/python/dlite-entity.i
@@ -382,7 +382,7 @@ struct _DLiteInstance {
     } else {
       dlite_err(1, "invalid arguments to Instance()");
     }
-    abort();  // should never be reached
+    return NULL;
   }
 
   ~_DLiteInstance() {
@@ -552,7 +552,7 @@ Call signatures:
            "This function may pull snapshots back into memory. Use\n"
            "`dlite_instance_pull()` if you know the storage where the snapshots "
            "are stored.") get_snapshot;
-  %newobject get_snapshop;
+  %newobject get_snapshot;
   struct _DLiteInstance *get_snapshot(int n=1) {
     DLiteInstance *inst =
       (DLiteInstance *)dlite_instance_get_snapshot($self, n);
@@ -568,7 +568,7 @@ Call signatures:
            "counts backward.  Hence, `n=0` returns the current instance,\n"
            "`n=1` returns its parent, etc... "
            ) pull_snapshot;
-  %newobject get_snapshop;
+  %newobject pull_snapshot;
   struct _DLiteInstance *pull_snapshot(struct _DLiteStorage *storage, int n) {
     DLiteInstance *inst =
       (DLiteInstance *)dlite_instance_pull_snapshot($self, storage, n);
@@ -625,9 +625,12 @@ Call signatures:
   %newobject get_dimensions;
   obj_t *get_dimensions() {
     int dims[1] = { (int)DLITE_NDIM($self) };
+    obj_t *obj;
     dlite_instance_sync_to_dimension_sizes($self);
-    return dlite_swig_get_array($self, 1, dims, dliteUInt, sizeof(size_t),
-                                DLITE_DIMS($self));
+    obj = dlite_swig_get_array($self, 1, dims, dliteUInt, sizeof(size_t),
+                               DLITE_DIMS($self));
+    dlite_swig_set_readonly(obj);  /* dimension sizes cannot be changed */
+    return obj;
   }
 
   %feature("docstring",
diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 223df59..cc7fad7 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -234,7 +234,7 @@ int dlite_swig_read_python_blob(PyObject *src, uint8_t *dest, size_t n)
   } else if (PyObject_CheckBuffer(src)) {
     Py_buffer view;
     if (PyObject_GetBuffer(src, &view, PyBUF_SIMPLE)) goto fail;
-    memcpy(dest, view.buf, n);
+    memcpy(dest, view.buf, ((size_t)view.len < n) ? (size_t)view.len : n);
     retval = (int)(view.len);
     PyBuffer_Release(&view);
   } else {
@@ -266,6 +266,27 @@ void dlite_swig_errclr(void)
 }
 
 
+/* Lets `obj`, which refers to memory owned by `inst`, hold a reference to
+   `inst` if `type` is a dimension, property or relation.
+   Returns non-zero on error. */
+static int dlite_swig_set_owner(obj_t *obj, DLiteInstance *inst,
+                                DLiteType type)
+{
+  PyObject *cap;
+  int stat;
+  if (type != dliteDimension && type != dliteProperty && type != dliteRelation)
+    return 0;
+  if (!(cap = PyCapsule_New(inst, DLITE_INSTANCE_CAPSULE_NAME,
+                            dlite_swig_capsule_instance_decref)))
+    return dlite_err(1, "error creating capsule");
+  dlite_instance_incref(inst);  /* owned by the capsule */
+  stat = PyObject_SetAttrString(obj, "_owner", cap);
+  Py_DECREF(cap);
+  if (stat) return dlite_err(1, "cannot set owner");
+  return 0;
+}
+
+
 /* Returns a new array object for the target language or NULL on error.
 
    `inst` : The DLite instance that own the data. If NULL, the returned
@@ -281,7 +302,7 @@ obj_t *dlite_swig_get_array(DLiteInstance *inst, int ndims, int *shape,
 {
   int i;
   npy_intp *d=NULL;
-  PyObject *obj, *cap, *retval=NULL;
+  PyObject *obj=NULL, *cap, *retval=NULL;
   int typecode = npy_type(type, size);
 
   if (typecode < 0) goto fail;
@@ -311,8 +332,14 @@ obj_t *dlite_swig_get_array(DLiteInstance *inst, int ndims, int *shape,
         PyObject *item;
         if (!(item = dlite_swig_get_scalar(type, size, ptr)))
           goto fail;
-        if (PyArray_SETITEM(arr, itemptr, item))
+        if (inst && dlite_swig_set_owner(item, inst, type)) {
+          Py_DECREF(item);
+          goto fail;
+        }
+        if (PyArray_SETITEM(arr, itemptr, item)) {
+          Py_DECREF(item);
           FAIL1("cannot set item of type %s", dlite_type_get_dtypename(type));
+        }
         Py_DECREF(item);
       }
       break;
@@ -335,17 +362,27 @@ obj_t *dlite_swig_get_array(DLiteInstance *inst, int ndims, int *shape,
                         dlite_swig_capsule_instance_decref);
     if (!cap)
       FAIL("error creating capsule");
+    dlite_instance_incref(inst);  /* owned by the capsule */
     if (PyArray_SetBaseObject((PyArrayObject *)obj, cap) < 0)
       FAIL("error setting numpy array base");
-    dlite_instance_incref(inst);
   }
   retval = obj;
  fail:
+  if (!retval) Py_XDECREF(obj);
   if (d) free(d);
   return retval;
 }
 
 
+/* Makes array `obj` read-only.  Does nothing if `obj` is NULL or not an
+   array. */
+void dlite_swig_set_readonly(obj_t *obj)
+{
+  if (obj && PyArray_Check(obj))
+    PyArray_CLEARFLAGS((PyArrayObject *)obj, NPY_ARRAY_WRITEABLE);
+}
+
+
 /* Recursive help function for setting memory from nd-array of objects. Args:
      obj : source object (array)
      ndims : number of destination dimensions
@@ -360,8 +397,15 @@ static int dlite_swig_setitem(PyObject *obj, int ndims, int *shape,
 {
   int i;
   if (d < ndims) {
-    PyArrayObject *arr = (PyArrayObject *)obj;
-    assert(!PyArray_Check(obj) || PyArray_DIM(arr, d) == shape[d]);
+    Py_ssize_t len;
+    if (PyUnicode_Check(obj) ||
+        (PyBytes_Check(obj) && type != dliteInt && type != dliteUInt) ||
+        (len = PyObject_Length(obj)) < 0)
+      return dlite_err(1, "expected array with %d dimensions, got %d",
+                       ndims, d);
+    if (len != shape[d])
+      return dlite_err(1, "expected length of dimension %d to be %d, got %ld",
+                       d, shape[d], (long)len);
     for (i=0; i<shape[d]; i++) {
       int stat;
       PyObject *key = PyLong_FromLong(i);
@@ -374,6 +418,11 @@ static int dlite_swig_setitem(PyObject *obj, int ndims, int *shape,
       if (stat) return stat;
     }
   } else {
+    if ((type == dliteStringPtr || type == dliteFixString ||
+         type == dliteBool) &&
+        (PyList_Check(obj) || PyTuple_Check(obj) ||
+         (PyArray_Check(obj) && PyArray_NDIM((PyArrayObject *)obj) > 0)))
+      return dlite_err(1, "expected array with %d dimensions", ndims);
     if (dlite_swig_set_scalar(*ptr, type, size, obj)) return 1;
     *((char **)ptr) += size;
   }
@@ -403,6 +452,17 @@ int dlite_swig_set_array(void *ptr, int ndims, int *shape,
 
   if (typecode < 0) goto fail;
   for (i=0; i<ndims; i++) n *= shape[i];
+
+  /* Blobs are only converted by numpy if they already have the right size */
+  if (type == dliteBlob &&
+      !(PyArray_Check(obj) &&
+        (PyArray_TYPE((PyArrayObject *)obj) == NPY_VOID ||
+         PyArray_TYPE((PyArrayObject *)obj) == NPY_STRING) &&
+        PyArray_ITEMSIZE((PyArrayObject *)obj) == (npy_intp)size)) {
+    void *p = *(void **)ptr;
+    return dlite_swig_setitem((PyObject *)obj, ndims, shape, type, size, 0, &p);
+  }
+
   if (!(arr = (PyArrayObject *)PyArray_ContiguousFromAny(obj, typecode,
                                                          ndims, ndims))) {
     /* Clear the error and try to convert object as-is */
@@ -432,6 +492,9 @@ int dlite_swig_set_array(void *ptr, int ndims, int *shape,
         (size_t)PyArray_ITEMSIZE(arr) : size;
       memset(p, 0, n*size);
       for (i=0; i<n; i++, itemptr+=PyArray_ITEMSIZE(arr), p+=size) {
+        if (len == size && !memchr(itemptr, 0, size))
+          FAIL1("length of string exceeds available size: %lu",
+                (unsigned long)size);
         strncpy(p, itemptr, len);
         p[size-1] = '\0';  /* ensure NUL-termination */
       }
@@ -445,20 +508,24 @@ int dlite_swig_set_array(void *ptr, int ndims, int *shape,
       for (i=0; i<n; i++, itemptr+=itemsize) {
         char **p = *((char ***)ptr);
         PyObject *s = PyArray_GETITEM(arr, itemptr);
+        if (!s) FAIL("cannot get string element");
         if (s == Py_None) {
           if (p[i]) free(p[i]);
+          p[i] = NULL;
         } else if (PyUnicode_Check(s)) {
-          assert(s);
           Py_ssize_t len;
           const char *str = PyUnicode_AsUTF8AndSize(s, &len);
-          if (!str) FAIL("failed representing string as UTF-8");
+          if (!str) {
+            Py_DECREF(s);
+            FAIL("failed representing string as UTF-8");
+          }
           p[i] = realloc(p[i], len+1);
           memcpy(p[i], str, len+1);
         } else {
-          FAIL("expected None or unicode elements");
           Py_DECREF(s);
+          FAIL("expected None or unicode elements");
         }
-        if (s) Py_DECREF(s);
+        Py_DECREF(s);
       }
     }
     break;
@@ -644,6 +711,7 @@ obj_t *dlite_swig_get_scalar(DLiteType type, size_t size, void *data)
   case dliteRef:
     {
       DLiteInstance *inst = *(DLiteInstance **)data;
+      if (!inst) Py_RETURN_NONE;
       if (!(obj = dlite_pyembed_from_instance(inst->uuid))) goto fail;
     }
     break;
@@ -719,6 +787,9 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
 #endif
       if (overflow) FAIL("overflow when converting to int");
       if (PyErr_Occurred()) FAIL("cannot convert to int");
+      if (size < 8 && (value < -(1LL << (8*size-1)) ||
+                       value >= (1LL << (8*size-1))))
+        FAIL1("overflow when converting to int%d", 8*(int)size);
       switch (size) {
       case 1: *((int8_t *)ptr)  =  (int8_t)value; break;
       case 2: *((int16_t *)ptr) = (int16_t)value; break;
@@ -731,12 +802,17 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
 
   case dliteUInt:
     {
+      PyObject *index = PyNumber_Index(obj);  /* e.g. numpy integer to int */
+      if (!index) FAIL("cannot convert to unsigned int");
 #ifdef HAVE_LONG_LONG
-      unsigned long long value = PyLong_AsUnsignedLongLong(obj);
+      unsigned long long value = PyLong_AsUnsignedLongLong(index);
 #else
-      unsigned long value = PyLong_AsUnsignedLong(obj);
+      unsigned long value = PyLong_AsUnsignedLong(index);
 #endif
+      Py_DECREF(index);
       if (PyErr_Occurred()) FAIL("cannot convert to unsigned int");
+      if (size < 8 && value >= (1ULL << (8*size)))
+        FAIL1("overflow when converting to uint%d", 8*(int)size);
       switch (size) {
       case 1: *((uint8_t *)ptr)  =  (uint8_t)value;  break;
       case 2: *((uint16_t *)ptr) = (uint16_t)value; break;
@@ -771,9 +847,9 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
     {
       Py_ssize_t n;
       PyObject *str = PyObject_Str(obj);
-      const char *s = PyUnicode_AsUTF8AndSize(str, &n);
+      const char *s = (str) ? PyUnicode_AsUTF8AndSize(str, &n) : NULL;
       if (!s) {
-        Py_DECREF(str);
+        Py_XDECREF(str);
         FAIL("cannot represent string as UTF-8");
       }
       if (n >= (Py_ssize_t)size) {
@@ -790,10 +866,17 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
     {
       char *p;
       Py_ssize_t n;
-      PyObject *str = PyObject_Str(obj);
-      const char *s = PyUnicode_AsUTF8AndSize(str, &n);
+      PyObject *str;
+      const char *s;
+      if (obj == Py_None) {
+        if (*(char **)ptr) free(*(char **)ptr);
+        *(char **)ptr = NULL;
+        break;
+      }
+      str = PyObject_Str(obj);
+      s = (str) ? PyUnicode_AsUTF8AndSize(str, &n) : NULL;
       if (!s) {
-        Py_DECREF(str);
+        Py_XDECREF(str);
         FAIL("cannot represent string as UTF-8");
       }
       if (!(p = realloc(*(void **)ptr, n+1))) {
@@ -819,7 +902,9 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
       } else {
         inst = dlite_pyembed_get_instance(obj);
       }
-      if (inst || obj == Py_None) {
+      if (!inst && obj != Py_None)
+        FAIL("cannot convert Python object to instance");
+      {
         DLiteInstance **q = ptr;
         if (*q) dlite_instance_decref(*q);
         *q = inst;
@@ -831,7 +916,8 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
     {
       DLiteDimension *dest = ptr;
       void *p;
-      if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__DLiteDimension, 0))) {
+      if (obj != Py_None &&
+          SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__DLiteDimension, 0))) {
         DLiteDimension *src = (DLiteDimension *)p;
         if (dest->name)        free(dest->name);
         if (dest->description) free(dest->description);
@@ -847,7 +933,9 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
           dest->description = (descr && PyUnicode_Check(descr)) ?
             strdup(PyUnicode_AsUTF8(descr)) : NULL;
         } else {
-          dlite_err(1, "cannot convert Python sequence to dimension");
+          Py_XDECREF(name);
+          Py_XDECREF(descr);
+          FAIL("cannot convert Python sequence to dimension");
         }
         Py_XDECREF(name);
         Py_XDECREF(descr);
@@ -861,7 +949,8 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
     {
       DLiteProperty *dest = ptr;
       void *p;
-      if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__DLiteProperty, 0))) {
+      if (obj != Py_None &&
+          SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__DLiteProperty, 0))) {
         DLiteProperty *src = (DLiteProperty *)p;
         if (dest->name)        free(dest->name);
         if (dest->ref)         free(dest->ref);
@@ -871,7 +960,7 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
         dest->name  = strdup(src->name);
         dest->type  = src->type;
         dest->size  = src->size;
-        if (src->ref) dest->ref = strdup(src->ref);
+        dest->ref   = (src->ref) ? strdup(src->ref) : NULL;
         dest->ndims = src->ndims;
         if (src->ndims > 0) {
           int j;
@@ -905,7 +994,10 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
           dest->name = strdup(PyUnicode_AsUTF8(name));
           dest->type = t;
           dest->size = size;
-          if (ref != Py_None) dest->ref = strdup(PyUnicode_AsUTF8(ref));
+          dest->ref = (ref && PyUnicode_Check(ref)) ?
+            strdup(PyUnicode_AsUTF8(ref)) : NULL;
+          dest->ndims = 0;
+          dest->shape = NULL;
           if (shape && PyUnicode_Check(shape)) {
             const char *s = PyUnicode_AsUTF8(shape);
             int j=0, ndims=(s && *s) ? 1 : 0;
@@ -926,10 +1018,17 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
           dest->description = (descr && PyUnicode_Check(descr)) ?
             strdup(PyUnicode_AsUTF8(descr)) : NULL;
         } else {
-          dlite_err(1, "cannot convert Python sequence to property");
+          Py_XDECREF(name);
+          Py_XDECREF(type);
+          Py_XDECREF(ref);
+          Py_XDECREF(shape);
+          Py_XDECREF(unit);
+          Py_XDECREF(descr);
+          FAIL("cannot convert Python sequence to property");
         }
         Py_XDECREF(name);
         Py_XDECREF(type);
+        Py_XDECREF(ref);
         Py_XDECREF(shape);
         Py_XDECREF(unit);
         Py_XDECREF(descr);
@@ -943,7 +1042,8 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
   case dliteRelation:
     {
       void *p;
-      if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__Triple, 0))) {
+      if (obj != Py_None &&
+          SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__Triple, 0))) {
         DLiteRelation *src = (DLiteRelation *)p;
         triple_reset(ptr, src->s, src->p, src->o, src->d, src->id);
 
@@ -964,7 +1064,7 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
         }
         for (i=0; i<n; i++) {
           PyObject *item = PySequence_Fast_GET_ITEM(lst, i);
-          if (!PyUnicode_Check(item)) {
+          if (!PyUnicode_Check(item) || !PyUnicode_AsUTF8(item)) {
             Py_DECREF(lst);
             FAIL("all elements in a (subject(s), predicate(p), object(o)[, "
                  "datatype(d)[, id]]) relation provided as a sequence must "
@@ -1061,14 +1161,19 @@ obj_t *dlite_swig_get_property_by_index(DLiteInstance *inst, int i)
   p = inst->meta->_properties + n;
   if (p->ndims == 0) {
     obj = dlite_swig_get_scalar(p->type, p->size, ptr);
+    if (obj && dlite_swig_set_owner(obj, inst, p->type)) {
+      Py_DECREF(obj);
+      obj = NULL;
+    }
   } else {
     if (!(shape = malloc(p->ndims*sizeof(int)))) FAIL("allocation failure");
     for (j=0; j<p->ndims; j++) {
       if (!p->shape[j])
         FAIL2("missing dimension %d of property %d", j, i);
-      shape[j] = (int)DLITE_PROP_DIM(inst, i, j);
+      shape[j] = (int)DLITE_PROP_DIM(inst, n, j);
     }
     obj = dlite_swig_get_array(inst, p->ndims, shape, p->type, p->size, *ptr);
+    if (dlite_instance_is_frozen(inst)) dlite_swig_set_readonly(obj);
   }
  fail:
   if (shape) free(shape);
@@ -1082,32 +1187,53 @@ obj_t *dlite_swig_get_property_by_index(DLiteInstance *inst, int i)
 int dlite_swig_set_property_by_index(DLiteInstance *inst, int i, obj_t *obj)
 {
   int j, *shape=NULL, status=-1, n=i;
-  void *ptr;
+  size_t k, nmemb=1;
+  char *ptr, *buf=NULL;
   DLiteProperty *p;
 
   PyErr_Clear();
   if (n < 0) n += (int)inst->meta->_nproperties;
   if (n < 0 || n >= (int)inst->meta->_nproperties)
     FAIL2("Property index %d is out or range: %s", i, inst->meta->uri);
+  if (dlite_instance_is_frozen(inst))
+    FAIL1("frozen instance does not support assignment of property: %s",
+          inst->meta->_properties[n].name);
   ptr = DLITE_PROP(inst, n);
   p = inst->meta->_properties + n;
 
+  /* Convert to `buf` before changing the instance, such that it is
+     unchanged on error and `obj` may refer to its current value. */
   if (p->ndims == 0) {
-    if (dlite_swig_set_scalar(ptr, p->type, p->size, obj)) goto fail;
+    if (!(buf = calloc(1, p->size))) FAIL("allocation failure");
+    if (dlite_swig_set_scalar(buf, p->type, p->size, obj)) goto fail;
   } else {
     if (!(shape = malloc(p->ndims*sizeof(int)))) FAIL("allocation failure");
     for (j=0; j<p->ndims; j++) {
       if (!p->shape[j])
         FAIL2("missing dimension %d of property %d", j, i);
-      shape[j] = (int)DLITE_PROP_DIM(inst, i, j);
+      shape[j] = (int)DLITE_PROP_DIM(inst, n, j);
+      nmemb *= shape[j];
     }
-    if (dlite_swig_set_array(ptr, p->ndims, shape, p->type, p->size, obj))
+    if (!(buf = calloc((nmemb) ? nmemb : 1, p->size)))
+      FAIL("allocation failure");
+    if (dlite_swig_set_array(&buf, p->ndims, shape, p->type, p->size, obj))
       goto fail;
+    ptr = *(char **)ptr;
   }
+  for (k=0; k<nmemb; k++)
+    dlite_type_clear(ptr + k*p->size, p->type, p->size);
+  if (nmemb) memcpy(ptr, buf, nmemb*p->size);
+  free(buf);
+  buf = NULL;
   if (dlite_instance_sync_from_properties(inst)) goto fail;
 
   status = 0;
  fail:
+  if (buf) {
+    for (k=0; k<nmemb; k++)
+      dlite_type_clear(buf + k*p->size, p->type, p->size);
+    free(buf);
+  }
   if (shape) free(shape);
   return status;
 }
-- 
2.43.0


From a8ed75fa08685e61e438057f744f43e1d48e94c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:14 +0000
Subject: [PATCH 068/132] fix: dlite_instance_get() with an empty id returned
 any instance that is alone in a storage in the storage path

---
 src/dlite-entity.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index eccd133..8410213 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -857,6 +857,11 @@ DLiteInstance *dlite_instance_get(const char *id)
   PendingGet this, *q;
   DLiteInstance *inst;
 
+  /* storages with a single instance would provide that for any empty id */
+  if (!id || !*id)
+    return err(dliteMissingInstanceError, "cannot get instance with empty id"),
+      NULL;
+
   /* check if instance `id` is already instantiated... */
   if ((inst = _instance_store_get(id))) {
     dlite_instance_incref(inst);
-- 
2.43.0


From fb9553e9dbe8fc046cf0e9d16eeb60aec9e4816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:34 +0000
Subject: [PATCH 069/132] fix: calculating the hash of a collection that
 contains itself caused infinite recursion

---
 src/dlite-collection.c | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 786b35e..d49f807 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -17,6 +17,19 @@
 
 
 
+/* Thread local storage, see utils/err.c */
+#if !defined thread_local
+# if !defined HAVE_THREADS
+#  define thread_local
+# elif __STDC_VERSION__ >= 201112 && !defined __STDC_NO_THREADS__
+#  define thread_local _Thread_local
+# elif defined _WIN32
+#  define thread_local __declspec(thread)
+# else
+#  define thread_local __thread
+# endif
+#endif
+
 /**************************************************************
  * Collection
  **************************************************************/
@@ -124,9 +137,37 @@ static void _sha3_update_triple(sha3_context *c, const Triple *t)
   }
 }
 
+/* Linked list of the collections whose hash is currently calculated */
+typedef struct _PendingHash {
+  const DLiteInstance *inst;
+  struct _PendingHash *next;
+} PendingHash;
+
+static int _gethash(const DLiteInstance *inst, uint8_t *hash, int hashsize);
+
 /* Calculate hash of a collection. */
 int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
                              int hashsize)
+{
+  static thread_local PendingHash *pending=NULL;
+  PendingHash this, *q;
+  int stat;
+
+  /* fail if the collection (directly or indirectly) contains itself */
+  for (q=pending; q; q=q->next)
+    if (q->inst == inst)
+      return errx(dliteValueError, "cannot calculate hash of collection that "
+                  "contains itself: %s", inst->uuid);
+  this.inst = inst;
+  this.next = pending;
+  pending = &this;
+  stat = _gethash(inst, hash, hashsize);
+  pending = this.next;
+  return stat;
+}
+
+/* Does the actual work for dlite_collection_gethash(). */
+static int _gethash(const DLiteInstance *inst, uint8_t *hash, int hashsize)
 {
   DLiteCollection *coll = (DLiteCollection *)inst;
   sha3_context c;
-- 
2.43.0


From 29a557e671ad8994e35c06326a8362f56aa6fafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:44 +0000
Subject: [PATCH 070/132] fix: JStore.get() and Instance.from_bytes() leaked a
 reference to the returned instance

Also release the buffer when to_bytes() fails and report errors of the
bytes typemap.
---
 bindings/python/dlite-entity.i | 7 +++++--
 bindings/python/dlite-jstore.i | 2 +-
 bindings/python/dlite-python.i | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/bindings/python/dlite-entity.i b/bindings/python/dlite-entity.i
index 1e1a1e1..04770cf 100644
--- a/bindings/python/dlite-entity.i
+++ b/bindings/python/dlite-entity.i
@@ -361,7 +361,7 @@ struct _DLiteInstance {
       DLiteStorage *s;
       DLiteInstance *inst;
       if (!(s = dlite_storage_open(driver, location, options))) return NULL;
-      inst = dlite_instance_load(s, id);
+      inst = dlite_instance_load_casted(s, id, metaid);
       dlite_storage_close(s);
       if (inst) dlite_errclr();
       return inst;
@@ -461,8 +461,10 @@ Call signatures:
       dlite_err(dliteMemoryError, "allocation failure");
       return;
     }
-    if ((m = dlite_instance_memsave(driver, buf, n+1, $self, options)) < 0)
+    if ((m = dlite_instance_memsave(driver, buf, n+1, $self, options)) < 0) {
+      free(buf);
       return;
+    }
     assert (m == n);
     *ARGOUT_BYTES = buf;
     *LEN = n;
@@ -867,6 +869,7 @@ void dlite_swig_set_property(struct _DLiteInstance *inst, const char *name,
 bool dlite_instance_has_property(struct _DLiteInstance *inst, const char *name);
 
 %rename(_from_bytes) dlite_instance_memload;
+%newobject dlite_instance_memload;
 %feature("docstring", "Loads instance from string.") dlite_instance_memload;
 struct _DLiteInstance *
          dlite_instance_memload(const char *driver,
diff --git a/bindings/python/dlite-jstore.i b/bindings/python/dlite-jstore.i
index 43bf05e..7b775cd 100644
--- a/bindings/python/dlite-jstore.i
+++ b/bindings/python/dlite-jstore.i
@@ -76,7 +76,7 @@ struct _JStore {};
            "Return instance with given `id` from store. "
            "If `id` is None and there is exactly one instance in the store, "
            "return the instance.  Otherwise raise an DLiteLookupError.") get;
-  %newobject get;
+  %newobject _get;
   struct _DLiteInstance *_get(const char *id=NULL) {
     if (!id && !(id = _single_id($self))) return NULL;
     return dlite_jstore_get($self, id);
diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index cc7fad7..4b22e15 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -1450,7 +1450,7 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
     if ((n = PyByteArray_Size($input)) < 0) SWIG_fail;
     if (!(tmp = PyByteArray_AsString($input))) SWIG_fail;
   } else {
-    SWIG_Error(SWIG_TypeError, "argument must be bytes or bytearray");
+    SWIG_exception_fail(SWIG_TypeError, "argument must be bytes or bytearray");
   }
   $1 = (unsigned char *)tmp;
   $2 = n;
-- 
2.43.0


From b6a5ac33bbe1cd861a6830e6fae68ba6415928a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:44 +0000
Subject: [PATCH 071/132] fix: Python conversions of instances to dict, JSON,
 BSON and pickle lost or garbled values

References, blobs, relations and the $ref of metadata properties were not
converted to something that can be read back, and pickling failed for
object arrays, uris and metadata.
---
 bindings/python/dlite-entity-python.i | 67 ++++++++++++++++-----------
 bindings/python/dlite-jstore-python.i | 14 +++---
 2 files changed, 46 insertions(+), 35 deletions(-)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index cec54a4..77905fc 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -123,24 +123,20 @@ def standardise(v, prop, asdict=False):
     """Represent property value `v` as a standard python type.
     If `asdict` is true, dimensions, properties and relations will be
     represented with a dict, otherwise as a list of strings."""
-    if asdict:
-        conv = lambda x: x.asdict() if hasattr(x, 'asdict') else x
-    else:
-        conv = lambda x: list(x.asstrings()) if hasattr(x, 'asstrings') else x
-
-    if prop.dtype == BlobType:
-        if prop.ndims:
-            V = np.fromiter(
-                (''.join(f'{c:02x}' for c in s.item()) for s in v.flat),
-                dtype=f'U{2*prop.size}')
-            V.shape = v.shape
-            return V.tolist()
-        else:
-            return ''.join(f'{c:02x}' for c in v)
-    elif hasattr(v, 'tolist'):
-        return [conv(x) for x in v.tolist()]
-    else:
-        return conv(v)
+    def conv(x):
+        if isinstance(x, list):
+            return [conv(e) for e in x]
+        if isinstance(x, Instance):  # reference
+            return x.uuid
+        if isinstance(x, (bytes, bytearray)):
+            return x.hex() if prop.dtype == BlobType else x.decode()
+        if asdict:
+            return x.asdict() if hasattr(x, 'asdict') else x
+        if hasattr(x, 'asstrings'):
+            return ['' if s is None else s for s in x.asstrings()]
+        return x
+
+    return conv(v.tolist() if isinstance(v, np.ndarray) else v)
 
 
 def get_instance(
@@ -251,7 +247,7 @@ def get_instance(
             d['name'] = self.name
         d['type'] = self.get_type()
         if self.ref:
-            d['ref'] = self.ref
+            d['$ref'] = self.ref
         if self.ndims:
             d['shape' if soft7 else 'dims'] = self.shape.tolist()
         if self.unit:
@@ -327,12 +323,17 @@ def get_instance(
     def asdict(self):
         """Returns a dict representation of self."""
         d = dict(s=self.s, p=self.p, o=self.o)
+        if self.d:
+            d['d'] = self.d
         if self.id:
-            d[id] = self.id
+            d['id'] = self.id
         return d
 
     def asstrings(self):
-        """Returns a representation of self as a tuple of strings."""
+        """Returns a representation of self as a tuple of strings.
+        The datatype `d` is only included if it is given."""
+        if self.d:
+            return (self.s, self.p, self.o, self.d)
         return (self.s, self.p, self.o)
   %}
 }
@@ -602,7 +603,7 @@ def get_instance(
                 "size of bson document does not match its content"
             )
         inst = Instance(
-            bsoninput=bsoninput,
+            bsoninput=bytes(bsoninput),
             dims=(), dimensions=(), properties=()  # arrays
         )
         return instance_cast(inst)
@@ -975,17 +976,27 @@ def get_instance(
     def __reduce__(self):
         # ensures that instances can be pickled
         def iterfun(inst):
+           conv = lambda x: (
+               ['' if s is None else s for s in x.asstrings()]
+               if isinstance(x, Relation) else x
+           )
            for i, prop in enumerate(inst.properties.values()):
                if isinstance(prop, np.ndarray):
-                   p = np.zeros_like(prop)
-                   p.flat = [p.asdict() if hasattr(p, 'asdict') else p
-                             for p in prop]
+                   p = prop.copy()
+                   if p.dtype == object:
+                       for j in range(p.size):
+                           p.flat[j] = conv(prop.flat[j])
                else:
-                   p = prop.asdict() if hasattr(prop, 'asdict') else prop
+                   p = conv(prop)
                yield i, p
+
+        if self.is_meta:
+            return (Instance.from_dict, (self.asdict(),))
+
         return (
             Instance.from_metaid,
-            (self.meta.uri, list(self.dimensions.values()), self.uuid),
+            (self.meta.uri, list(self.dimensions.values()),
+             self.uri if self.uri else self.uuid),
             None,
             None,
             iterfun(self),
@@ -1007,7 +1018,7 @@ def get_instance(
             single = self.is_meta
 
         if uuid is None:
-            uuid = single and self.uri
+            uuid = single and not self.uri
 
         if not single:
             d = {}
diff --git a/bindings/python/dlite-jstore-python.i b/bindings/python/dlite-jstore-python.i
index 31a3f9a..d72ee1b 100644
--- a/bindings/python/dlite-jstore-python.i
+++ b/bindings/python/dlite-jstore-python.i
@@ -56,7 +56,7 @@ def format_dict(
     if "properties" not in d:
         if single:
             if len(d) != 1:
-                raise dlite.DLiteValueError(
+                raise _dlite.DLiteValueError(
                     "Not possible to return single-instance format, use `id`"
                 )
         else:
@@ -120,7 +120,7 @@ def format_dict(
                 for name, value in zip(meta.dimnames(), d["dimensions"]):
                     dct["dimensions"][name] = value
         else:
-            raise dlite.DLiteValueError(
+            raise _dlite.DLiteValueError(
                 "'dimensions' must be a mapping or sequence, got: "
                 f"{type(d['dimensions'])}"
             )
@@ -136,7 +136,7 @@ def format_dict(
                 dct["properties"].append(prop)
     elif isinstance(d["properties"], Sequence):
         if not ismeta:
-            raise dlite.DLiteValueError(
+            raise _dlite.DLiteValueError(
                 "only metadata can have a sequence of properties"
             )
         if soft7:
@@ -147,13 +147,13 @@ def format_dict(
         else:
             dct["properties"].extend(d["properties"])
     else:
-        raise dlite.DLiteValueError(
+        raise _dlite.DLiteValueError(
             "'properties' must be a mapping or sequence, got: "
             f"{type(d['properties'])}"
         )
 
     if "relations" in d:
-        dct["relations"] = d["repations"].copy()
+        dct["relations"] = d["relations"].copy()
 
     if single:
         return dct
@@ -163,8 +163,8 @@ def format_dict(
 class _JSONEncoder(json.JSONEncoder):
     """JSON encoder that also handle bytes object."""
     def default(self, o):
-        if isinstance(o, bytes):
-            return "".join(f"{c:x}" for c in o)
+        if isinstance(o, (bytes, bytearray)):
+            return o.hex()
         elif (isinstance(o, (str, bool, int, float, list, dict)) or o is None):
             return super().default(o)
         else:
-- 
2.43.0


From c36f119460424b1a65992cebf9589ce6cc6750fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:44 +0000
Subject: [PATCH 072/132] fix: DictStore.add(), instance_from_dict() and the
 class and datamodel factories failed on valid input

---
 bindings/python/datamodel.py | 11 +++++--
 bindings/python/factory.py   |  6 ++--
 bindings/python/table.py     |  2 ++
 bindings/python/utils.py     | 58 +++++-------------------------------
 4 files changed, 21 insertions(+), 56 deletions(-)

diff --git a/bindings/python/datamodel.py b/bindings/python/datamodel.py
index d193d22..90b50ee 100644
--- a/bindings/python/datamodel.py
+++ b/bindings/python/datamodel.py
@@ -51,7 +51,9 @@ class DataModel:
         elif isinstance(schema, str):
             self._schema = dlite.get_instance(schema)
         else:
-            TypeError("`schema` must be a string or a DLite metadata schema.")
+            raise TypeError(
+                "`schema` must be a string or a DLite metadata schema."
+            )
 
     def add_dimension(self, name, description):
         """Add dimension with given `name` and description to data model."""
@@ -60,7 +62,8 @@ class DataModel:
         self.dimensions[name] = dlite.Dimension(name, description)
 
     def add_property(
-        self, name, type, shape=None, unit=None, description=None, dims=None
+        self, name, type, shape=None, unit=None, description=None, dims=None,
+        ref=None,
     ):
         """Add property to data model.
 
@@ -71,6 +74,7 @@ class DataModel:
             unit: Unit. Default is dimensionless.
             description: Human description.
             dims: Deprecated alias for `shape`.
+            ref: URI of the metadata that a property of type "ref" refers to.
         """
         if dims:
             if not shape:
@@ -87,6 +91,7 @@ class DataModel:
         self.properties[name] = dlite.Property(
             name=name,
             type=type,
+            ref=ref,
             shape=shape,
             unit=unit,
             description=description,
@@ -156,5 +161,5 @@ class DataModel:
             uri=self.uri,
             dimensions=list(self.dimensions.values()),
             properties=list(self.properties.values()),
-            description=self.description,
+            description=self.description or "",
         )
diff --git a/bindings/python/factory.py b/bindings/python/factory.py
index 4b368cb..713a362 100644
--- a/bindings/python/factory.py
+++ b/bindings/python/factory.py
@@ -141,7 +141,7 @@ class BaseExtension(metaclass=MetaExtension):
                                 f"{dims[n]} but got {array.shape[i]} for property "
                                 f"{prop.name!r}"
                             )
-        if min(dims) < 0:
+        if dims and min(dims) < 0:
             raise ValueError("Cannot infer all dimensions")
         return dims
 
@@ -178,7 +178,7 @@ class BaseExtension(metaclass=MetaExtension):
         """Loads dlite instance from storage and assign self from it.
         The arguments `args` are passed to dlite.Instance.from_storage()."""
         inst = Instance.from_storage(*args)
-        self._dlite_assign(inst)
+        self.dlite_assign(inst)
 
 
 def instancefactory(theclass: type, inst: Instance) -> "Any":
@@ -281,7 +281,7 @@ def classfactory(
             if isinstance(storage, Storage):
                 meta = Instance.from_storage(storage, id)
             else:
-                meta = Instance.from_driver(*storage, id=id)
+                meta = Instance.from_location(*storage, id=id)
         else:
             raise TypeError("`meta`, `url`, or `storage` must be provided.")
 
diff --git a/bindings/python/table.py b/bindings/python/table.py
index 347b953..c10698c 100644
--- a/bindings/python/table.py
+++ b/bindings/python/table.py
@@ -147,6 +147,8 @@ class DMTable():
                                 )
                         else:
                             prop[k] = value
+                    elif k == "ref":
+                        prop["$ref"] = value
                     else:
                         prop[k] = value
 
diff --git a/bindings/python/utils.py b/bindings/python/utils.py
index 5c9df6e..f4fb49b 100644
--- a/bindings/python/utils.py
+++ b/bindings/python/utils.py
@@ -101,67 +101,24 @@ class DictStore(dict):
         """
         if "properties" not in d:
             # `d` is in multi-instance format, add values separately
-            for v in d.values():
-                self.add(v)
+            for k, v in d.items():
+                self.add(v, id=k)
             return
 
         if "uuid" in d:
             uuid = d["uuid"]
         else:
-            uuid = dlite.get_uuid(d.get("uri", d.get("identiry")))
+            uuid = dlite.get_uuid(d.get("uri", d.get("identity", id)))
 
-        if id and uuid and dlite.get_uuid(id) != uuid:
+        if id and dlite.get_uuid(id) != uuid:
             raise dlite.DLiteInconsistentDataError(
                 f"id '{id}' is not consistent with existing uuid: {uuid}"
             )
-        elif not id and not uuid:
-            raise dlite.DLiteValueError(
-                "`id` argument is required when dict has no 'uuid', 'uri' "
-                "or 'identity' key"
-            )
-        elif not uuid:
-            uuid = dlite.get_uuid(id)
 
-        ismeta = (
-            "meta" not in d
-            or d["meta"] in (dlite.ENTITY_SCHEMA, dlite.BASIC_METADATA_SCHEMA)
-            or "properties" in d.get("properties", ())
+        self[uuid] = dlite.format_dict(
+            d, id=id, soft7=True, single=True, with_uuid=False
         )
 
-        dct = {}
-        dct["dimensions"] = {}
-        if "dimensions" in d:
-            if isinstance(d["dimensions"], Mapping):
-                dct["dimensions"].update(d["dimensions"])
-            elif isinstance(d["dimensions"], Sequence):
-                meta = dlite.get_instance(d.get("meta", dlite.ENTITY_SCHEMA))
-                for name, v in zip(meta.dimnames(), d["dimensions"]):
-                    dct["dimensions"][name] = v
-            else:
-                raise dlite.DLiteValueError(
-                    "'dimensions' must be a mapping or sequence, got: "
-                    f"{type(d['dimensions'])}"
-                )
-
-        dct["properties"] = {}
-        if isinstance(d["properties"], Mapping):
-            dct["properties"].update(d["properties"])
-        elif isinstance(d["properties"], Sequence):
-            if not ismeta:
-                raise dlite.DLiteValueError("properties can only metadata ")
-            for k, v in d["properties"]:
-                dct["properties"][k] = v
-        else:
-            raise dlite.DLiteValueError(
-                "'properties' must be a mapping or sequence, got: "
-                f"{type(d['properties'])}"
-            )
-
-        if "relations" in d:
-            dct["relations"] = d["repations"].copy()
-
-        self[uuid] = dct
-
 
 def instance_from_dict(d, id=None, single=None, check_storages=True):
     """Returns a new DLite instance created from dict.
@@ -183,7 +140,7 @@ def instance_from_dict(d, id=None, single=None, check_storages=True):
         )
 
     js = dlite.JStore()
-    js.load_dict(d)
+    js.load_dict(d, id=id if "properties" in d else None)
 
     if check_storages:
         if not id:
@@ -505,6 +462,7 @@ def infer_dimensions(meta, values, strict=True):
                         for item in arr:
                             result.append(
                                 like(item) if isinstance(item, Sequence)
+                                and not isinstance(item, str)
                                 else None
                             )
                         return result
-- 
2.43.0


From 6389770f4aa85f3c9ab0a77bdb49717d31a67e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:47 +0000
Subject: [PATCH 073/132] fix: 'store += other' in Python left the store
 without owner (use after free)

---
 bindings/python/dlite-jstore-python.i | 5 +++++
 bindings/python/dlite-jstore.i        | 5 ++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bindings/python/dlite-jstore-python.i b/bindings/python/dlite-jstore-python.i
index d72ee1b..2a5e5c2 100644
--- a/bindings/python/dlite-jstore-python.i
+++ b/bindings/python/dlite-jstore-python.i
@@ -189,6 +189,11 @@ class _JSONEncoder(json.JSONEncoder):
 
 %extend _JStore {
   %pythoncode %{
+      def __iadd__(self, other):
+          """Update this store with the content of `other`."""
+          self._iadd(other)
+          return self
+
       def get(self, id=None):
           """Return instance with given `id` from store.
 
diff --git a/bindings/python/dlite-jstore.i b/bindings/python/dlite-jstore.i
index 7b775cd..fb0525f 100644
--- a/bindings/python/dlite-jstore.i
+++ b/bindings/python/dlite-jstore.i
@@ -115,10 +115,9 @@ struct _JStore {};
     return jstore_count($self) > 0;
   }
 
-  struct _JStore *__iadd__(struct _JStore *other) {
+  void _iadd(struct _JStore *other) {
     if (jstore_update($self, other))
-      return dlite_err(dliteTypeError, "Cannot update store"), NULL;
-    return $self;
+      dlite_err(dliteTypeError, "Cannot update store");
   }
 
 }
-- 
2.43.0


From b396605abefd96ca066e7580285776e5523e9b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:56 +0000
Subject: [PATCH 074/132] fix: shape expressions were taken for dimensions when
 inferring dimensions and reading tables of datamodels

Also follow references in multi-dimensional arrays in
get_referred_instances() and read csv tables with embedded newlines.
---
 bindings/python/table.py |  7 +++++--
 bindings/python/utils.py | 12 +++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/bindings/python/table.py b/bindings/python/table.py
index c10698c..93adbcc 100644
--- a/bindings/python/table.py
+++ b/bindings/python/table.py
@@ -121,7 +121,8 @@ class DMTable():
                                 s.strip()
                                 for s in value.strip("[]").split(",")
                             ]
-                            for dim in prop[k]:
+                            # Shapes may be expressions, like "n+1"
+                            for dim in re.findall(r"[A-Za-z_]\w*", value):
                                 dims[dim] = f"{dim} dimension"
                     elif k == "unit" and HAVE_TRIPPER:
                         try:
@@ -266,7 +267,9 @@ class DMTable():
             return list(reader)
 
         if isinstance(csvfile, (str, Path)):
-            with open(csvfile, mode="rt", encoding=encoding) as f:
+            with open(
+                csvfile, mode="rt", encoding=encoding, newline=""
+            ) as f:
                 table = read(f, dialect)
         else:
             table = read(csvfile, dialect)
diff --git a/bindings/python/utils.py b/bindings/python/utils.py
index f4fb49b..dc093f3 100644
--- a/bindings/python/utils.py
+++ b/bindings/python/utils.py
@@ -438,6 +438,7 @@ def infer_dimensions(meta, values, strict=True):
                 f"invalid property names in `values`: {extra_props}"
             )
 
+    dimnames = {d.name for d in meta["dimensions"]}
     dims = {}
     for prop in meta["properties"]:
         if prop.name in values and prop.ndims:
@@ -453,7 +454,7 @@ def infer_dimensions(meta, values, strict=True):
                 # NumPy interpreat a list of instances as having inhomogenous
                 # shape.
                 val = values[prop.name]
-                if prop.type == "ref":
+                if prop.type == "ref" and not isinstance(val, np.ndarray):
 
                     def like(arr):
                         """Return a nested list of same shape as `arr`, but
@@ -480,6 +481,8 @@ def infer_dimensions(meta, values, strict=True):
                     f"{len(v.shape)} was provided"
                 )
             for i, dimname in enumerate(prop.shape):
+                if dimname not in dimnames:
+                    continue  # expression, like "n+1"
                 if dimname in dims and v.shape[i] != dims[dimname]:
                     raise CannotInferDimensionError(
                         f'inconsistent assignment of dimension "{dimname}" '
@@ -487,9 +490,8 @@ def infer_dimensions(meta, values, strict=True):
                     )
                 dims[dimname] = v.shape[i]
 
-    dimnames = {d.name for d in meta["dimensions"]}
-    if len(dims) != len(meta["dimensions"]):
-        missing_dims = dimnames.difference(dims.keys())
+    missing_dims = dimnames.difference(dims.keys())
+    if missing_dims:
         raise CannotInferDimensionError(
             f"insufficient number of properties provided to infer dimensions: "
             f"{missing_dims} for metadata: {meta.uri}"
@@ -541,7 +543,7 @@ def _get_referred_instances(inst, include_meta, references):
         for prop in inst.meta.properties["properties"]:
             if prop.type == "ref":
                 if prop.ndims:
-                    for i in inst[prop.name]:
+                    for i in inst[prop.name].flat:
                         _get_referred_instances(
                             i, include_meta, references
                         )
-- 
2.43.0


From 72dba615b48879a0ec2faf313913b9f26312d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:56 +0000
Subject: [PATCH 075/132] fix: collection iterators in Python used the
 collection after it was released and did not return collections as such

---
 bindings/python/dlite-collection-python.i | 6 +++---
 bindings/python/dlite-collection.i        | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/bindings/python/dlite-collection-python.i b/bindings/python/dlite-collection-python.i
index d7a0099..336115e 100644
--- a/bindings/python/dlite-collection-python.i
+++ b/bindings/python/dlite-collection-python.i
@@ -9,8 +9,8 @@
     def __next__(self):
         if self.rettype == 'I':  # instance
             v = self.next()
-            if v and v.is_meta:
-                v.__class__ = Metadata
+            if v is not None:
+                v = instance_cast(v)
         elif self.rettype in 'RTtspod':  # relation
             v = self.next_relation()
         else:
@@ -197,7 +197,7 @@ class Collection(Instance):
     def get_id(self, id):
         """Return instance with given id."""
         inst = _collection_get_id_new(self._coll, id)
-        return inst
+        return None if inst is None else instance_cast(inst)
 
     def has(self, label):
         """Returns true if an instance has been added with the given label."""
diff --git a/bindings/python/dlite-collection.i b/bindings/python/dlite-collection.i
index d35438a..d6dd10a 100644
--- a/bindings/python/dlite-collection.i
+++ b/bindings/python/dlite-collection.i
@@ -146,6 +146,7 @@ struct _DLiteCollection {
     struct _CollectionIter *iter = calloc(1, sizeof(struct _CollectionIter));
     DLiteCollection *coll = (DLiteCollection *)inst;
     iter->coll = coll;
+    dlite_collection_incref(coll);
     iter->s = (s) ? strdup(s) : NULL;
     iter->p = (p) ? strdup(p) : NULL;
     iter->o = (o) ? strdup(o) : NULL;
@@ -157,6 +158,7 @@ struct _DLiteCollection {
 
   ~_CollectionIter(void) {
     dlite_collection_deinit_state(&$self->state);
+    dlite_collection_decref($self->coll);
     if ($self->s) free($self->s);
     if ($self->p) free($self->p);
     if ($self->o) free($self->o);
-- 
2.43.0


From 60ceb0e9ee1c888957c8d7682260d88249970407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 076/132] fix: iterating over a storage from Python leaked all
 instances and used closed storages

---
 bindings/python/dlite-storage-python.i | 31 ++++++++++++++------------
 bindings/python/dlite-storage.i        | 27 ++++++++++++----------
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/bindings/python/dlite-storage-python.i b/bindings/python/dlite-storage-python.i
index 2acd8ac..9699919 100644
--- a/bindings/python/dlite-storage-python.i
+++ b/bindings/python/dlite-storage-python.i
@@ -2,6 +2,10 @@
 
 /* Python-spesific extensions to dlite-storage.i */
 
+%pythoncode %{
+from weakref import WeakSet
+%}
+
 %extend _DLiteStorage {
 
   %pythoncode %{
@@ -18,6 +22,9 @@
           return self
 
       def __exit__(self, *exc):
+          # Iterators must be closed before the storage
+          for iter in list(self.__dict__.get("_iters", ())):
+              iter._close()
           del self.this
 
       def __repr__(self):
@@ -89,17 +96,17 @@
           _dlite.StorageIterator_swiginit(
               self, _dlite.new_StorageIterator(s, pattern))
 
-          # Keep a reference to self, such that it is not garbage-collected
+          # Keep a reference to the storage, such that it is not closed
           # before end of iterations
-          if not hasattr(_dlite, "_storage_iters"):
-              _dlite._storage_iters = {}
-          _dlite._storage_iters[id(self.state)] = self
+          self._storage = s
+          s.__dict__.setdefault("_iters", WeakSet()).add(self)
+
+      def __iter__(self):
+          return self
 
       def __next__(self):
           inst = self.next()
-          if not inst:
-              # Delete reference to iterator object stored away in __init__()
-              _dlite._storage_iters.pop(id(self.this), None)
+          if inst is None:
               raise StopIteration()
           return instance_cast(inst)
   %}
@@ -112,17 +119,13 @@
           """Iterator over loaded storage plugins."""
           _dlite.StoragePluginIter_swiginit(
               self, _dlite.new_StoragePluginIter())
-          # Keep a reference to self, such that it is not garbage-collected
-          # before end of iterations
-          if not hasattr(_dlite, "_storage_iters"):
-              _dlite._storage_iters = {}
-          _dlite._storage_iters[id(self.iter)] = self
+
+      def __iter__(self):
+          return self
 
       def __next__(self):
           name = self.next()
           if not name:
-              # Delete reference to iterator object stored away in __init__()
-              _dlite._storage_iters.pop(id(self.this), None)
               raise StopIteration()
           return name
   %}
diff --git a/bindings/python/dlite-storage.i b/bindings/python/dlite-storage.i
index b6293d7..d4761d2 100644
--- a/bindings/python/dlite-storage.i
+++ b/bindings/python/dlite-storage.i
@@ -41,27 +41,32 @@ instances whos metadata URI matches `pattern` are returned.
     return iter;
   }
   ~StorageIterator(void) {
-    dlite_storage_iter_free($self->s, $self->state);
+    if ($self->s) dlite_storage_iter_free($self->s, $self->state);
     free($self);
   }
 
+  %feature("docstring",
+           "Close iterator.  Must be called before the storage is closed."
+           ) _close;
+  void _close(void) {
+    if ($self->s) dlite_storage_iter_free($self->s, $self->state);
+    $self->s = NULL;
+    $self->state = NULL;
+  }
+
   %feature("docstring", "\
 Returns next instance or None if exhausted.") next;
   %newobject next;
   struct _DLiteInstance *next(void) {
     char uuid[DLITE_UUID_LENGTH+1];
+    if (!$self->s)
+      return dlite_err(dliteStorageLoadError,
+                       "cannot iterate over a closed storage"), NULL;
     if (dlite_storage_iter_next($self->s, $self->state, uuid) == 0) {
-      DLiteInstance *inst = dlite_instance_load($self->s, uuid);
-      // Why isn't the refcount already increased?
-      if (inst) dlite_instance_incref(inst);
-      return inst;
+      return dlite_instance_load($self->s, uuid);
     }
     return NULL;
   }
-
-  struct StorageIterator *__iter__(void) {
-    return $self;
-  }
 }
 
 
@@ -226,15 +231,13 @@ Iterates over loaded storage plugins.
     const DLiteStoragePlugin *api = dlite_storage_plugin_iter_next(iter);
     return (api) ? api->name : NULL;
   }
-  struct StoragePluginIter *__iter__(void) {
-    return $self;
-  }
 }
 
 
 %rename(_load_all_storage_plugins) dlite_storage_plugin_load_all;
 int dlite_storage_plugin_load_all();
 
+%newobject _storage_plugin_help;
 char *_storage_plugin_help(const char *name);
 
 
-- 
2.43.0


From 58ce6d80f7b7cf2999f5ef5e1e55c8e94a8a061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 077/132] fix: use after free when adding objects that are not
 strings to search paths

---
 bindings/python/dlite-path.i | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/bindings/python/dlite-path.i b/bindings/python/dlite-path.i
index 01d827c..733e248 100644
--- a/bindings/python/dlite-path.i
+++ b/bindings/python/dlite-path.i
@@ -5,14 +5,13 @@
  * -------- */
 
 /* A typemap that allows using pathlib as input to paths */
-%typemap(in) (const char *path) {
-  if (PyUnicode_Check($input)) {
-    $1 = (char *)PyUnicode_AsUTF8($input);
-  } else {
-    PyObject *s = PyObject_Str($input);
-    $1 = (char *)PyUnicode_AsUTF8(s);
-    Py_DECREF(s);
-  }
+%typemap(in) (const char *path) (PyObject *str=NULL) {
+  /* The new reference is released by the freearg typemap */
+  if (!(str = PyObject_Str($input))) SWIG_fail;
+  if (!($1 = (char *)PyUnicode_AsUTF8(str))) SWIG_fail;
+}
+%typemap(freearg) (const char *path) {
+  Py_XDECREF(str$argnum);
 }
 
 /* --------
-- 
2.43.0


From cb2becf487dcd6eb0c9558482220701f6849b851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 078/132] fix: Collection.asdict() lost the datatype of
 relations

---
 bindings/python/dlite-collection-python.i | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bindings/python/dlite-collection-python.i b/bindings/python/dlite-collection-python.i
index 336115e..fb1644e 100644
--- a/bindings/python/dlite-collection-python.i
+++ b/bindings/python/dlite-collection-python.i
@@ -146,7 +146,12 @@ class Collection(Instance):
         doc='SWIG-internal representation of this collection.')
 
     properties = property(
-        lambda self: {'relations': list(self.get_relations())},
+        lambda self: {
+            'relations': [
+                r if r[3] is not None else r[:3]
+                for r in self.get_relations(rettype='T')
+            ]
+        },
         doc='Dictionary with property name-value pairs.')
 
     def __repr__(self):
-- 
2.43.0


From 527914921377bb2e6c4d7d9c8f66dbaf871bc123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 079/132] fix: lists of strings returned to Python, like
 get_uuids(), were leaked

---
 bindings/python/dlite-python.i | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 4b22e15..176b34d 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -1555,7 +1555,9 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
   if ($1) {
     char **p;
     for (p=$1; *p; p++) {
-      PyList_Append($result, PyUnicode_FromString(*p));
+      PyObject *str = PyUnicode_FromString(*p);
+      if (str) PyList_Append($result, str);
+      Py_XDECREF(str);  // PyList_Append() does not steal the reference
       free(*p);
     }
     free($1);
@@ -1571,8 +1573,11 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
   $result = PyList_New(0);
   if ($1) {
     char **p;
-    for (p=$1; *p; p++)
-      PyList_Append($result, PyUnicode_FromString(*p));
+    for (p=$1; *p; p++) {
+      PyObject *str = PyUnicode_FromString(*p);
+      if (str) PyList_Append($result, str);
+      Py_XDECREF(str);
+    }
   }
 }
 
-- 
2.43.0


From 740d0e180e7fa12657dee40f4634de64bec4daa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 080/132] fix: loading from a URL without fragment passed an
 empty id to the storage plugin

---
 src/dlite-entity.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 8410213..d4f1947 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -992,8 +992,11 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   if (!s) FAILCODE(dliteStorageLoadError,
                    "invalid storage, see previous errors");
 
+  /* an empty id is the same as no id */
+  if (id && !*id) id = NULL;
+
   /* check if id is already loaded */
-  if (lookup && id && *id && (inst = _instance_store_get(id))) {
+  if (lookup && id && (inst = _instance_store_get(id))) {
     if (metaid) return dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
     dlite_instance_incref(inst);
     //warn("trying to load existing instance from storage \"%s\": %s"
-- 
2.43.0


From b265f9ac28f5af109ad0c47e7b3c2f3ae300ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 081/132] fix: hdf5 storages lost the URI of instances, ignored
 mode=rw and did not check the shape of scalars

---
 src/dlite-entity.c      | 16 ++++++++++++++--
 storages/hdf5/dh5lite.c | 19 ++++++++++---------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index d4f1947..a159b6c 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1095,7 +1095,14 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
              id, s->location);
       }
     } else {
-      inst->uri = dlite_instance_default_uri(inst);
+      char uuid[DLITE_UUID_LENGTH+1];
+      char *name = (d->api->getDataName) ? d->api->getDataName(d) : NULL;
+      if (name && (dlite_get_uuid(uuid, name) != dliteIdHash ||
+                   strcmp(uuid, inst->uuid) != 0)) {
+        free(name);
+        name = NULL;
+      }
+      inst->uri = (name) ? name : dlite_instance_default_uri(inst);
     }
   }
 
@@ -1142,6 +1149,8 @@ int dlite_instance_save(DLiteStorage *s, const DLiteInstance *inst)
   int retval=1;
   DLiteDataModel *d=NULL;
   const DLiteMeta *meta;
+  const char *id=inst->uuid;
+  char uuid[DLITE_UUID_LENGTH+1];
   size_t i, *dims;
 
   if (!(meta = inst->meta)) return errx(dliteMissingMetadataError, "no metadata available");
@@ -1152,7 +1161,10 @@ int dlite_instance_save(DLiteStorage *s, const DLiteInstance *inst)
     return s->api->saveInstance(s, inst);
 
   /* proceede with the datamodel api... */
-  if (!(d = dlite_datamodel(s, inst->uuid))) goto fail;
+  if (inst->uri && dlite_get_uuid(uuid, inst->uri) == dliteIdHash &&
+      strcmp(uuid, inst->uuid) == 0)
+    id = inst->uri;  /* the uri is saved together with the instance */
+  if (!(d = dlite_datamodel(s, id))) goto fail;
   if (dlite_datamodel_set_meta_uri(d, meta->uri)) goto fail;
 
   dims = DLITE_DIMS(inst);
diff --git a/storages/hdf5/dh5lite.c b/storages/hdf5/dh5lite.c
index b656221..8f9ae0a 100644
--- a/storages/hdf5/dh5lite.c
+++ b/storages/hdf5/dh5lite.c
@@ -115,7 +115,7 @@ static hid_t get_space(size_t ndims, const size_t *shape)
   hid_t space=-1;
   hsize_t *hdims=NULL;
   size_t i;
-  if (!(hdims = calloc(ndims, sizeof(hsize_t))))
+  if (!(hdims = calloc(ndims + 1, sizeof(hsize_t))))
     return err(dliteMemoryError, "allocation failure");
   for (i=0; i<ndims; i++) hdims[i] = (shape) ? shape[i] : 1;
   if ((space = H5Screate_simple(ndims, hdims, NULL)) < 0)
@@ -194,22 +194,22 @@ static int get_data(const DLiteDataModel *d, hid_t group,
     DFAIL1(dliteStorageLoadError, d, "cannot get data space of '%s'", name);
   if ((dndims = H5Sget_simple_extent_ndims(dspace)) < 0)
     DFAIL1(dliteStorageLoadError, d, "cannot get number of dimimensions of '%s'", name);
-  if (!(ddims = calloc(dndims, sizeof(hsize_t))))
+  if (!(ddims = calloc(dndims + 1, sizeof(hsize_t))))
     FAILCODE(dliteMemoryError, "allocation failure");
+  ddims[0] = 1;
   if ((stat = H5Sget_simple_extent_dims(dspace, ddims, NULL)) < 0)
     DFAIL1(dliteStorageLoadError, d, "cannot get shape of '%s'", name);
 
   /* Check that dimensions matches */
   if (dndims == 0 && ndims == 1)
     dndims++;
-  else if (dndims != (int)ndims) {
+  else if (dndims != (int)ndims)
     DFAIL3(dliteIndexError, d, "trying to read '%s' with ndims=%d, but ndims=%d",
            name, (int)ndims, dndims);
-    for (i=0; i<ndims; i++)
-      if (ddims[i] != (hsize_t)((shape) ? shape[i] : 1))
-        DFAIL4(dliteIndexError, d, "dimension %d of '%s': expected %d, got %d",
-               (int)i, name, (shape) ? (int)shape[i] : 1, (int)ddims[i]);
-  }
+  for (i=0; i<ndims; i++)
+    if (ddims[i] != (hsize_t)((shape) ? shape[i] : 1))
+      DFAIL4(dliteIndexError, d, "dimension %d of '%s': expected %d, got %d",
+             (int)i, name, (shape) ? (int)shape[i] : 1, (int)ddims[i]);
   for (i=0; i<ndims; i++) nmemb *= (shape) ? shape[i] : 1;
 
   /* Get type of data saved in the hdf5 file */
@@ -455,7 +455,7 @@ dh5_open(const DLiteStoragePlugin *api, const char *uri, const char *options)
   } else if (strcmp(*mode, "rw") == 0) {
     s->root = H5Fopen(uri, H5F_ACC_RDWR, H5P_DEFAULT);
     s->flags |= dliteReadable;
-    s->flags &= ~dliteWritable;
+    s->flags |= dliteWritable;
   } else if (strcmp(*mode, "w") == 0) {
     s->root = H5Fcreate(uri, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     s->flags &= ~dliteReadable;
@@ -751,6 +751,7 @@ char *dh5_get_dataname(const DLiteDataModel *d)
 {
   DH5DataModel *dh5 = (DH5DataModel *)d;
   char *s=NULL;
+  if (H5Lexists(dh5->instance, "dataname", H5P_DEFAULT) <= 0) return NULL;
   if (get_data(d, dh5->instance, "dataname", &s,
                dliteStringPtr, sizeof(char *), 1, NULL)) return NULL;
   return s;
-- 
2.43.0


From dd85148e8da9fde6bbed5c5f18523a7a22a9d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 082/132] fix: dlite_storage_uuids() ignored the pattern for
 drivers with getUUIDs()

---
 src/dlite-storage.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/dlite-storage.c b/src/dlite-storage.c
index 7551c27..2ad140a 100644
--- a/src/dlite-storage.c
+++ b/src/dlite-storage.c
@@ -6,6 +6,7 @@
 #include "utils/compat.h"
 #include "utils/err.h"
 #include "utils/fileutils.h"
+#include "utils/globmatch.h"
 
 #include "config-paths.h"
 
@@ -323,9 +324,24 @@ char **dlite_storage_uuids(const DLiteStorage *s, const char *pattern)
       p = ptr;
       p[n] = NULL;
     }
-  } else if (s->api->getUUIDs)
+  } else if (s->api->getUUIDs) {
     p = s->api->getUUIDs(s);
-  else
+    if (p && pattern) {
+      /* remove instances whos metadata does not match */
+      char **src, **dst=p;
+      for (src=p; *src; src++) {
+        DLiteDataModel *d = dlite_datamodel(s, *src);
+        char *uri = (d) ? dlite_datamodel_get_meta_uri(d) : NULL;
+        if (uri && globmatch(pattern, uri) == 0)
+          *(dst++) = *src;
+        else
+          free(*src);
+        if (uri) free(uri);
+        if (d) dlite_datamodel_free(d);
+      }
+      *dst = NULL;
+    }
+  } else
     errx(1, "driver '%s' does not support getUUIDs()", s->api->name);
   return p;
 }
-- 
2.43.0


From 68e0926669352eeb9fa2f7cd1e13aadd5d4a6e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 083/132] fix: json and yaml storages only accepted a metadata
 URI, not a glob pattern, when iterating

---
 src/dlite-json.c | 21 ++++++++++++++++-----
 src/dlite-json.h |  3 ++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 31ef9aa..4cc818b 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -9,6 +9,7 @@
 
 #include "utils/err.h"
 #include "utils/compat.h"
+#include "utils/globmatch.h"
 #include "utils/strutils.h"
 
 #include "dlite.h"
@@ -1276,6 +1277,7 @@ const char *dlite_json_next(DLiteJsonIter *iter, int *length)
 struct _DLiteJStoreIter {
   JStoreIter jiter;                    /*!< jstore iterater */
   char metauuid[DLITE_UUID_LENGTH+1];  /*!< UUID of metadata */
+  char *pattern;                       /*!< glob pattern for metadata URI */
   jsmntok_t *tokens;                   /*!< pointer to allocated tokens */
   unsigned int ntokens;                /*!< number of allocated tokens */
 };
@@ -1418,7 +1420,8 @@ DLiteInstance *dlite_jstore_get(JStore *js, const char *id)
 /*
   Initiate iterator `init` from json store `js`.
   If `metaid` is provided, the iterator will only iterate over instances
-  of this metadata.
+  of this metadata.  It may also be a glob pattern matching the URI of
+  the metadata.
 
   Returns a new iterator or NULL on error.
  */
@@ -1429,6 +1432,8 @@ DLiteJStoreIter *dlite_jstore_iter_create(JStore *js, const char *metaid)
     FAILCODE(dliteMemoryError, "allocation failure");
   if (jstore_iter_init(js, &iter->jiter)) goto fail;
   if (metaid && dlite_get_uuid(iter->metauuid, metaid) < 0) goto fail;
+  if (metaid && !(iter->pattern = strdup(metaid)))
+    FAILCODE(dliteMemoryError, "allocation failure");
   return iter;
  fail:
   if (iter) dlite_jstore_iter_free(iter);
@@ -1442,6 +1447,7 @@ int dlite_jstore_iter_free(DLiteJStoreIter *iter)
 {
   jstore_iter_deinit(&iter->jiter);
   if (iter->tokens) free(iter->tokens);
+  if (iter->pattern) free(iter->pattern);
   free(iter);
   return 0;
 }
@@ -1457,9 +1463,9 @@ const char *dlite_jstore_iter_next(DLiteJStoreIter *iter)
   jsmn_parser parser;
   while ((iid = jstore_iter_next(&iter->jiter))) {
     if (iter->metauuid[0]) {
-      char metauuid[DLITE_UUID_LENGTH+1];
+      char metauuid[DLITE_UUID_LENGTH+1], *metauri;
       const char *val = jstore_get(js, iid);
-      int r;
+      int r, match;
 
       jsmn_init(&parser);
       if ((r = jsmn_parse_alloc(&parser, val, strlen(val),
@@ -1470,12 +1476,17 @@ const char *dlite_jstore_iter_next(DLiteJStoreIter *iter)
           err(dliteParseError, "json parse error: \"%s\"", jsmn_strerror(r));
         continue;
       }
-      if (get_meta_uuid(metauuid, val, iter->tokens)) {
+      if (!(metauri = get_meta_uri(val, iter->tokens)) ||
+          dlite_get_uuid(metauuid, metauri) < 0) {
         err(dliteMissingMetadataError,
             "json input has no meta uri: \"%s\"", val);
+        if (metauri) free(metauri);
         continue;
       }
-      if (strcmp(metauuid, iter->metauuid)) continue;
+      match = (strcmp(metauuid, iter->metauuid) == 0 ||
+               globmatch(iter->pattern, metauri) == 0);
+      free(metauri);
+      if (!match) continue;
     }
     return iid;
   }
diff --git a/src/dlite-json.h b/src/dlite-json.h
index 6467ba0..89a2da4 100644
--- a/src/dlite-json.h
+++ b/src/dlite-json.h
@@ -302,7 +302,8 @@ DLiteInstance *dlite_jstore_get(JStore *js, const char *id);
 /**
   Initiate iterator `init` from json store `js`.
   If `metaid` is provided, the iterator will only iterate over instances
-  of this metadata.
+  of this metadata.  It may also be a glob pattern matching the URI of
+  the metadata.
 
   Returns a new iterator or NULL on error.
  */
-- 
2.43.0


From a6fe55203cb59b18a4cb7798dfb8e994bfd4ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 084/132] fix: triplestore_find() and triplestore_remove() did
 not use the default namespace, unlike triplestore_add()

---
 src/triplestore-redland.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triplestore-redland.c b/src/triplestore-redland.c
index b68c496..c11b804 100644
--- a/src/triplestore-redland.c
+++ b/src/triplestore-redland.c
@@ -177,6 +177,8 @@ static librdf_statement *stream_map(librdf_stream *stream, void *context,
 
 
 
+static librdf_node *new_uri_node(TripleStore *ts, const char *uri);
+
 /*
   Returns a new librdf stream with all triples matching `s`, `p` and
   `o`.  Any of these may be NULL, allowing for multiple matches.
@@ -196,11 +198,9 @@ static librdf_stream *find(TripleStore *ts, const char *s, const char *p,
   librdf_stream *stream=NULL;
   int failed = 1;
 
-  if (s &&!(ns = librdf_new_node_from_uri_string(ts->world,
-                                                 (const unsigned char *)s)))
+  if (s && !(ns = new_uri_node(ts, s)))
     FAIL1("error creating node for subject: '%s'", s);
-  if (p && !(np = librdf_new_node_from_uri_string(ts->world,
-                                                  (const unsigned char *)p)))
+  if (p && !(np = new_uri_node(ts, p)))
     FAIL1("error creating node for predicate: '%s'", p);
 
   if (o && d && *d) {
-- 
2.43.0


From 498a08072ac604a7d2508a812e4e38cefc8a200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 085/132] fix: rdf driver lost precision, text arrays and unset
 text, kept old values and only loaded metadata with 6 properties

---
 storages/rdf/dlite-rdf.c | 55 +++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/storages/rdf/dlite-rdf.c b/storages/rdf/dlite-rdf.c
index 41658f3..58e998e 100644
--- a/storages/rdf/dlite-rdf.c
+++ b/storages/rdf/dlite-rdf.c
@@ -311,6 +311,14 @@ static int count(TripleStore *ts, const char *s, const char *p, const char *o)
 }
 
 
+/* Returns flags for writing and reading a value of property `p`.
+   Scalars are written raw, while the elements of arrays are quoted. */
+static DLiteTypeFlag value_flags(const DLiteProperty *p)
+{
+  return (p->ndims) ? dliteFlagDefault : dliteFlagRaw | dliteFlagStrip;
+}
+
+
 /*
   Loads instance from storage `s`.  Returns non-zero on error.
  */
@@ -321,7 +329,7 @@ DLiteInstance *rdf_load_instance(const DLiteStorage *storage, const char *id)
   TripleState state;
   const Triple *t=NULL, *t2;
   DLiteInstance *inst=NULL;
-  DLiteMeta *meta;
+  DLiteMeta *meta=NULL;
   size_t i, *dims=NULL;
   int ok=0, n, j;
   char uuid[DLITE_UUID_LENGTH+1], muuid[DLITE_UUID_LENGTH+1];
@@ -368,7 +376,7 @@ DLiteInstance *rdf_load_instance(const DLiteStorage *storage, const char *id)
     break;
   ErrEnd;
   if (!meta && !(meta = dlite_meta_load(storage, muuid)))
-    FAIL1("cannot load metadata: '%s'", t->o);
+    FAIL1("cannot load metadata: '%s'", muuid);
 
   /* allocate and read dimension values */
   if (meta->_ndimensions) {
@@ -426,11 +434,16 @@ DLiteInstance *rdf_load_instance(const DLiteStorage *storage, const char *id)
     j = dlite_meta_get_property_index(meta, name);
     if (!(name = getobj(s, prop, _P ":hasLabel", 1))) goto fail;
     if ((j = dlite_meta_get_property_index(meta, name)) < 0) goto fail;
-    if (!(val = getobj(s, prop, _P ":hasValue", 1))) goto fail;
     p = meta->_properties + j;
     pdims = DLITE_PROP_DIMS(inst, j);
     ptr = dlite_instance_get_property_by_index(inst, j);
-    if (dlite_property_scan(val, ptr, p, pdims, dliteFlagRaw) < 0) goto fail;
+    if (p->ndims || p->type != dliteStringPtr ||
+        count(ts, prop, _P ":hasValue", NULL)) {
+      if (!(val = getobj(s, prop, _P ":hasValue", 1))) goto fail;
+      if (dlite_property_scan(val, ptr, p, pdims,
+                              value_flags(p) & ~dliteFlagStrip) < 0)
+        goto fail;
+    }
     n++;
     free(prop);
   }
@@ -508,12 +521,14 @@ DLiteInstance *rdf_load_instance(const DLiteStorage *storage, const char *id)
       shape = getobj(s, propiri, _P ":hasFirstShape", 0);
       while (shape) {
         const char *expr;
-        char buf[64];
-        strncpy(buf, shape, sizeof(buf));
-        if (!(expr = getobj(s, buf, _P ":hasDimensionExpression", 1)))
-          FAIL2("%s has no dimension expression: %s", t2->s, s->location);
-        p->shape[i++] = strdup(expr);
-        shape = getobj(s, buf, _P ":hasNextShape", 0);
+        char *buf = strdup(shape);  // may be overwritten by getobj()
+        if ((expr = getobj(s, buf, _P ":hasDimensionExpression", 1))) {
+          p->shape[i++] = strdup(expr);
+          shape = getobj(s, buf, _P ":hasNextShape", 0);
+        }
+        free(buf);
+        if (!expr)
+          FAIL2("%s has no dimension expression: %s", propiri, s->location);
       }
       p++;
       n++;
@@ -524,8 +539,7 @@ DLiteInstance *rdf_load_instance(const DLiteStorage *storage, const char *id)
 
     /* reinitialise metadata after property dimensions have been set */
     dlite_meta_init((DLiteMeta *)inst);
-  }
-  if (n != (int)meta->_nproperties)
+  } else if (n != (int)meta->_nproperties)
     FAIL4("entity %s expect %d property values, but got %d: %s",
           id, (int)meta->_nproperties, n, s->location);
 
@@ -536,6 +550,7 @@ DLiteInstance *rdf_load_instance(const DLiteStorage *storage, const char *id)
   if (propiri) free(propiri);
   if (dims) free(dims);
   if (!ok && inst) dlite_instance_decref(inst);
+  if (meta) dlite_meta_decref(meta);
   return (ok) ? inst : NULL;
 }
 
@@ -644,6 +659,7 @@ int rdf_save_instance(DLiteStorage *storage, const DLiteInstance *inst)
       if (!(b1 = get_blank_node(ts, buf))) goto fail;
       asnprintf(&buf, &bufsize, "%d",
                 (int)dlite_instance_get_dimension_size_by_index(inst, i));
+      triplestore_remove(ts, b1, _P ":hasDimensionSize", NULL, NULL);
       triplestore_add_uri(ts, inst->uuid, _P ":hasDimensionValue", b1);
       triplestore_add(ts, b1, _P ":hasLabel", name, "xsd:Name");
       triplestore_add(ts, b1, _P ":hasDimensionSize", buf, "xsd:integer");
@@ -662,9 +678,14 @@ int rdf_save_instance(DLiteStorage *storage, const DLiteInstance *inst)
       triplestore_add_uri(ts, b1, "rdf:type", "owl:NamedIndividual");
       triplestore_add_uri(ts, b1, "rdf:type", _P ":PropertyValue");
       triplestore_add(ts, b1, _P ":hasLabel", name, "xsd:Name");
-      dlite_property_aprint(&buf, &bufsize, 0, ptr, p, shape, 0, -2,
-                            dliteFlagRaw | dliteFlagStrip);
-      triplestore_add(ts, b1, _P ":hasValue", buf, "rdf:PlainLiteral");
+      /* Remove old value, in case the instance is already stored */
+      triplestore_remove(ts, b1, _P ":hasValue", NULL, NULL);
+      /* An unset string has no value */
+      if (p->ndims || p->type != dliteStringPtr || *(char **)ptr) {
+        dlite_property_aprint(&buf, &bufsize, 0, ptr, p, shape, 0, -3,
+                              value_flags(p));
+        triplestore_add(ts, b1, _P ":hasValue", buf, "rdf:PlainLiteral");
+      }
       free(b1);
     }
   }
@@ -724,8 +745,8 @@ int rdf_iter_next(void *iter, char *buf)
     if (globmatch(riter->pattern, t->o) == 0) break;
   }
   assert(t);
-  if (dlite_get_uuid(buf, t->o) < 0)
-    return err(-1, "cannot create uuid from '%s'", t->o);
+  if (dlite_get_uuid(buf, t->s) < 0)
+    return err(-1, "cannot create uuid from '%s'", t->s);
   return 0;
 }
 
-- 
2.43.0


From 64a8ef0c00805c23f018cb89f767314577e72671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 086/132] fix: Python storage plugins leaked and closing them
 cleared the error from loading

---
 storages/python/dlite-plugins-python.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/storages/python/dlite-plugins-python.c b/storages/python/dlite-plugins-python.c
index 7bb89ea..aa6f091 100644
--- a/storages/python/dlite-plugins-python.c
+++ b/storages/python/dlite-plugins-python.c
@@ -108,9 +108,9 @@ opener(const DLiteStoragePlugin *api, const char *location,
 
   retval = (DLiteStorage *)s;
  fail:
-  if (s && !retval) {
-    Py_XDECREF(s->obj);
-    free(s);
+  if (!retval) {
+    Py_XDECREF(obj);
+    if (s) free(s);
   }
   Py_XDECREF(v);
   Py_XDECREF(readable);
@@ -132,17 +132,15 @@ int closer(DLiteStorage *s)
   PyObject *class = (PyObject *)s->api->data;
   const char *classname;
 
-  dlite_errclr();
   if (!(classname = dlite_pyembed_classname(class)))
     dlite_warnx("cannot get class name for storage plugin '%s'", s->api->name);
 
-  /* Return if close() is not defined */
-  if (!PyObject_HasAttrString(sp->obj, "close")) return retval;
-
-  v = PyObject_CallMethod(sp->obj, "close", "");
-  if (dlite_pyembed_err_check("calling close() in Python plugin '%s'%s",
-                              classname, failmsg()))
-    retval = 1;
+  if (PyObject_HasAttrString(sp->obj, "close")) {
+    v = PyObject_CallMethod(sp->obj, "close", "");
+    if (dlite_pyembed_err_check("calling close() in Python plugin '%s'%s",
+                                classname, failmsg()))
+      retval = 1;
+  }
   Py_XDECREF(v);
   Py_DECREF(sp->obj);
   return retval;
@@ -160,7 +158,6 @@ int flusher(DLiteStorage *s)
   PyObject *class = (PyObject *)s->api->data;
   const char *classname;
 
-  dlite_errclr();
   if (!(classname = dlite_pyembed_classname(class)))
     dlite_warnx("cannot get class name for storage plugin '%s'", s->api->name);
 
-- 
2.43.0


From 613f8da3e9a42ab737a8b38bdf6832fc01db3616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 087/132] fix: errors when closing a storage in a with
 statement were ignored

---
 bindings/python/dlite-storage-python.i | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bindings/python/dlite-storage-python.i b/bindings/python/dlite-storage-python.i
index 9699919..a8011e2 100644
--- a/bindings/python/dlite-storage-python.i
+++ b/bindings/python/dlite-storage-python.i
@@ -25,7 +25,11 @@ from weakref import WeakSet
           # Iterators must be closed before the storage
           for iter in list(self.__dict__.get("_iters", ())):
               iter._close()
-          del self.this
+          # Not just `del self.this`, since that ignores all errors
+          try:
+              self.__swig_destroy__(self)
+          finally:
+              del self.this
 
       def __repr__(self):
           return (
-- 
2.43.0


From 050337a6e98a7e939e69eb2e61a13cdc2c5746df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 088/132] fix: Collection.save(include_instances=False) raised
 TypeError

---
 bindings/python/dlite-collection-python.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/dlite-collection-python.i b/bindings/python/dlite-collection-python.i
index fb1644e..6abe57d 100644
--- a/bindings/python/dlite-collection-python.i
+++ b/bindings/python/dlite-collection-python.i
@@ -137,7 +137,7 @@ class Collection(Instance):
             else:
                 _collection_save_url(c, dst)
         elif isinstance(dst, Storage):
-            Instance.save(self, storage=dst)
+            Instance.save(self, dst)
         else:
             Instance.save(self, dst, loc, options)
 
-- 
2.43.0


From d334c45b9aafb9422a780bdc81fd6153826cd609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 089/132] fix: bson driver did not create files in append mode,
 accept URIs or no id, and left trailing bytes

---
 .../python/python-storage-plugins/bson.py     | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/storages/python/python-storage-plugins/bson.py b/storages/python/python-storage-plugins/bson.py
index e9a36fb..aa48763 100644
--- a/storages/python/python-storage-plugins/bson.py
+++ b/storages/python/python-storage-plugins/bson.py
@@ -49,7 +49,7 @@ class bson(dlite.DLiteStorageBase):
         self.generic = True
         self.uri = uri
         self._data = {}
-        if self.mode in ("rb", "rb+"):
+        if self.mode == "rb" or (self.mode == "rb+" and os.path.exists(uri)):
             with open(uri, self.mode) as handle:
                 bson_data = handle.read()
 
@@ -66,11 +66,6 @@ class bson(dlite.DLiteStorageBase):
         Assumes the data to store is in JSON format.
         """
         if self.writable:
-            if self.mode == "rb+" and not os.path.exists(self.uri):
-                mode = "wb"
-            else:
-                mode = self.mode
-
             for uuid in self.query():
                 props = self._data[uuid]["properties"]
                 if isinstance(props, dict):  # Metadata props is list
@@ -79,21 +74,33 @@ class bson(dlite.DLiteStorageBase):
                             props[key] = props[key].hex()
                     self._data[uuid]["properties"] = props
 
-            with open(self.uri, mode) as handle:
-                handle.write(pybson.encode(self._data))
+            # Encode before opening, to not truncate the file on failure
+            bson_data = pybson.encode(self._data)
+            with open(self.uri, "wb") as handle:
+                handle.write(bson_data)
 
     def load(self, uuid: str) -> dlite.Instance:
         """Load `uuid` from current storage and return it as a new instance.
 
         Parameters:
-            uuid: A UUID representing a DLite Instance to return from the RDF storage.
+            uuid: UUID or URI of the instance to return.  May be omitted if
+                the storage only holds one instance.
 
         Returns:
             A DLite Instance corresponding to the given UUID.
 
         """
+        if uuid:
+            uuid = dlite.get_uuid(uuid)
+        elif len(self._data) == 1:
+            (uuid,) = self._data
+        else:
+            raise ValueError(
+                "id must be provided when the storage does not hold exactly "
+                "one instance"
+            )
         if uuid in self._data:
-            return instance_from_dict(self._data[uuid])
+            return instance_from_dict(self._data[uuid], check_storages=False)
         raise KeyError(f"Instance with ID '{uuid}' not found")
 
     def save(self, inst: dlite.Instance) -> None:
-- 
2.43.0


From f555db2feb4e71a78e4feea52788d09504875749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 090/132] fix: yaml driver did not create files in append mode

---
 storages/python/python-storage-plugins/yaml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/storages/python/python-storage-plugins/yaml.py b/storages/python/python-storage-plugins/yaml.py
index b81e965..0e7428d 100644
--- a/storages/python/python-storage-plugins/yaml.py
+++ b/storages/python/python-storage-plugins/yaml.py
@@ -24,7 +24,8 @@ class yaml(dlite.DLiteStorageBase):
             location: Path to YAML file.
             options: Supported options:
             - `mode`: Mode for opening.  Valid values are:
-                - `a`: Open for writing, add to existing `location` (default).
+                - `a`: Open for writing, add to existing `location` or create
+                  a new file (default).
                 - `r`: Open existing `location` for reading.
                 - `w`: Open for writing. If `location` exists, it is truncated.
             - `soft7`: Whether to save using SOFT7 format.
@@ -43,7 +44,7 @@ class yaml(dlite.DLiteStorageBase):
         self.location = location
         self.flushed = True  # whether buffered data has been written to file
         self._store = dlite.JStore()  # data buffer
-        if "r" in mode or "a" in mode:
+        if "r" in mode or ("a" in mode and os.path.exists(location)):
             with open(location, "r") as f:
                 data = pyyaml.safe_load(f)
             if data:
-- 
2.43.0


From 97b870b4b31fda24fe6871c1696410695121fe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 091/132] fix: exception type was not shown when pandas options
 could not be parsed

---
 storages/python/python-storage-plugins/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storages/python/python-storage-plugins/csv.py b/storages/python/python-storage-plugins/csv.py
index 4f54ae7..b502cb3 100644
--- a/storages/python/python-storage-plugins/csv.py
+++ b/storages/python/python-storage-plugins/csv.py
@@ -237,5 +237,5 @@ def optstring2keywords(optstring: str) -> "dict[str, Any]":
         return ast.literal_eval("{%s}" % (optstring,))
     except Exception as exc:
         raise ValueError(
-            f"invalid in option string ({exc.__name__}): {optstring!r}"
+            f"invalid in option string ({type(exc).__name__}): {optstring!r}"
         ) from exc
-- 
2.43.0


From f50b6b28ccd2d792a8a6661d892c7aa681527ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 092/132] fix: pyrdf driver did not create files in append mode
 and could not save to bytes

---
 .../python/python-storage-plugins/pyrdf.py    | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/storages/python/python-storage-plugins/pyrdf.py b/storages/python/python-storage-plugins/pyrdf.py
index 1e0cfac..e0470d7 100644
--- a/storages/python/python-storage-plugins/pyrdf.py
+++ b/storages/python/python-storage-plugins/pyrdf.py
@@ -1,4 +1,5 @@
 """DLite Python storage plugin for RDF."""
+import os
 from typing import TYPE_CHECKING
 
 import rdflib
@@ -52,7 +53,9 @@ class pyrdf(dlite.DLiteStorageBase):
             else guess_format(location)
         )
         self.graph = rdflib.Graph()
-        if self.options.mode in "ra":
+        if self.options.mode == "r" or (
+            self.options.mode == "a" and os.path.exists(location)
+        ):
             self.graph.parse(location, format=self.format, publicID=PUBLIC_ID)
 
     def close(self) -> None:
@@ -84,7 +87,7 @@ class pyrdf(dlite.DLiteStorageBase):
             base_uri=self.options.get("base_uri"),
             base_prefix=self.options.get("base_prefix"),
             include_meta=(
-                dlite.asbool(self.options)
+                dlite.asbool(self.options.include_meta)
                 if "include_meta" in self.options
                 else None
             ),
@@ -124,21 +127,26 @@ class pyrdf(dlite.DLiteStorageBase):
             New instance.
         """
         opts = Options(options)
-        return from_rdf(data=buffer, id=id, format=opts.get("format"))
+        return from_rdf(data=buffer, id=id, format=opts.get("format", "turtle"))
 
     @classmethod
-    def to_bytes(cls, inst):
+    def to_bytes(cls, inst, options=None):
         """Save instance `inst` to bytes (or bytearray) object.
 
         Arguments:
             inst: Instance to save.
+            options: Options:
+                - `format`: File format to write.  Default is "turtle".
+                - `base_uri`: See open().
+                - `base_prefix`: See open().
 
         Returns:
             The bytes (or bytearray) object with serialised RDF.
         """
+        opts = Options(options)
         return to_rdf(
             inst,
-            format=self.options.get("format"),
-            base_uri=self.options.get("base_uri"),
-            base_prefix=self.options.get("base_prefix"),
-        )
+            format=opts.get("format", "turtle"),
+            base_uri=opts.get("base_uri"),
+            base_prefix=opts.get("base_prefix"),
+        ).encode()
-- 
2.43.0


From 06739b71876c918da265eac1a783ceba1d2749d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 093/132] fix: RDF serialisation in Python lost precision, text
 arrays, empty values and URIs and kept old values

---
 bindings/python/rdf.py | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/bindings/python/rdf.py b/bindings/python/rdf.py
index 2a6a65c..dc34ffb 100644
--- a/bindings/python/rdf.py
+++ b/bindings/python/rdf.py
@@ -46,7 +46,7 @@ def _value(graph, subject=None, predicate=None, object=None, **kwargs):
     value = graph.value(
         subject=subject, predicate=predicate, object=object, **kwargs
     )
-    if not value:
+    if value is None:
         raise ValueError(
             f"missing value for subject={subject}, predicate={predicate}, "
             f"object={object}"
@@ -59,6 +59,13 @@ def _ref(value):
     return URIRef(value) if _is_valid_uri(value) else Literal(value)
 
 
+def _flags(inst, name):
+    """Returns flags for converting property `name` to and from string.
+
+    Scalars are written raw, while the elements of arrays are quoted."""
+    return 0 if inst.meta.getprop(name).ndims else 1
+
+
 def to_graph(
     inst, graph=None, base_uri="", base_prefix=None, include_meta=None
 ):
@@ -89,7 +96,11 @@ def to_graph(
     ]:
         graph.bind(base_prefix, base_uri)
 
-    this = URIRef(_get_uri(inst, base_uri))
+    # If the graph already contains `inst` it will be updated
+    this = URIRef(
+        graph.value(None, DM.hasUUID, Literal(inst.uuid))
+        or _get_uri(inst, base_uri)
+    )
     sep = "/" if "#" in this else "#"
 
     graph.add((this, DM.hasUUID, Literal(inst.uuid)))
@@ -102,18 +113,27 @@ def to_graph(
             # Add type (DimensionInstance)?
             graph.add((dim, DM.instanceOf, URIRef(f"{inst.meta.uri}#{k}")))
             graph.add((dim, DM.hasLabel, Literal(k)))
-            graph.add((dim, DM.hasValue, Literal(v)))
+            graph.set((dim, DM.hasValue, Literal(v)))
         for k in inst.properties:
             prop = URIRef(this + sep + k)
+            if inst[k] is None:
+                # An unset string cannot be distinguished from "null"
+                graph.remove((this, DM.hasProperty, prop))
+                graph.remove((prop, None, None))
+                continue
             graph.add((this, DM.hasProperty, prop))
             # Add type (PropertyInstance)?
             graph.add((prop, DM.instanceOf, URIRef(f"{inst.meta.uri}#{k}")))
             graph.add((prop, DM.hasLabel, Literal(k)))
-            graph.add(
+            graph.set(
                 (
                     prop,
                     DM.hasValue,
-                    Literal(inst.get_property_as_string(k, flags=1)),
+                    Literal(
+                        inst.get_property_as_string(
+                            k, prec=-3, flags=_flags(inst, k)
+                        )
+                    ),
                 )
             )
     else:
@@ -233,7 +253,7 @@ def from_graph(graph, id=None):
             raise ValueError(
                 "id must be given when graph has move than one entity"
             )
-    elif _is_valid_uri(id):
+    elif _is_valid_uri(id) or (URIRef(id), DM.hasUUID, None) in graph:
         rdfid = URIRef(id)
     else:
         rdfid = URIRef(PUBLIC_ID + id)
@@ -299,7 +319,7 @@ def from_graph(graph, id=None):
             uri=dlite_id,
             dimensions=dims,
             properties=props,
-            description=graph.value(rdfid, DM.hasDescription),
+            description=graph.value(rdfid, DM.hasDescription) or "",
         )
     else:
         dims = {
@@ -310,9 +330,11 @@ def from_graph(graph, id=None):
         }
         inst = dlite.Instance.from_metaid(meta.uri, dims, id=dlite_id)
         for prop in properties:
-            label = _value(graph, prop, DM.hasLabel)
+            label = str(_value(graph, prop, DM.hasLabel))
             value = _value(graph, prop, DM.hasValue)
-            inst.set_property_from_string(label, value, flags=1)
+            inst.set_property_from_string(
+                label, value, flags=_flags(inst, label)
+            )
 
     return inst
 
-- 
2.43.0


From 59046b039d3650e4531beb0cde1ce3a6cecfeaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:24 +0000
Subject: [PATCH 094/132] fix: keep the text of the help of the yaml storage
 plugin

---
 storages/python/python-storage-plugins/yaml.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/storages/python/python-storage-plugins/yaml.py b/storages/python/python-storage-plugins/yaml.py
index 0e7428d..6693716 100644
--- a/storages/python/python-storage-plugins/yaml.py
+++ b/storages/python/python-storage-plugins/yaml.py
@@ -24,8 +24,7 @@ class yaml(dlite.DLiteStorageBase):
             location: Path to YAML file.
             options: Supported options:
             - `mode`: Mode for opening.  Valid values are:
-                - `a`: Open for writing, add to existing `location` or create
-                  a new file (default).
+                - `a`: Open for writing, add to existing `location` (default).
                 - `r`: Open existing `location` for reading.
                 - `w`: Open for writing. If `location` exists, it is truncated.
             - `soft7`: Whether to save using SOFT7 format.
-- 
2.43.0


From 46ad1fdfa27a8ea1637991c75e72fa27e65c4372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 095/132] fix: report an option without a value in
 parse_query()

---
 bindings/python/options.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bindings/python/options.py b/bindings/python/options.py
index 94089fb..ecac324 100644
--- a/bindings/python/options.py
+++ b/bindings/python/options.py
@@ -69,7 +69,13 @@ def parse_query(query):
     """Parse URL query string `query` and return a dict."""
     d = {}
     for token in re.split("[;&]", query):
-        k, v = token.split("=", 1) if "=" in token else (token, None)
+        if not token:
+            continue
+        if "=" not in token:
+            raise dlite.DLiteValueError(
+                f"no value for key '{token}' in query string '{query}'"
+            )
+        k, v = token.split("=", 1)
         key = dlite.uridecode(k)
         if v.startswith("%%"):
             val = json.loads(dlite.uridecode(v[2:]))
-- 
2.43.0


From 4cae29dc4948ae85dae8ed775ad1f1cae6ceac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 096/132] fix: raise an exception when a path that does not
 exist is loaded

---
 bindings/python/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/protocol.py b/bindings/python/protocol.py
index c8dc071..caf64dd 100644
--- a/bindings/python/protocol.py
+++ b/bindings/python/protocol.py
@@ -258,6 +258,8 @@ def load_path(
             else:
                 return b"".join(buf)
 
+    raise FileNotFoundError(f"no such file or directory: {path}")
+
 
 def save_path(data, path, overwrite=False, include=None, exclude=None):
     """Save `data` to file path.
-- 
2.43.0


From 3c267ef9c2fd631dbd4ccd088e1e6a239721987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:08 +0000
Subject: [PATCH 097/132] fix: archive_add() used an undefined variable

---
 bindings/python/protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/protocol.py b/bindings/python/protocol.py
index caf64dd..7a8c3d3 100644
--- a/bindings/python/protocol.py
+++ b/bindings/python/protocol.py
@@ -351,7 +351,8 @@ def archive_extract(data, name):
 def archive_add(data, name, content):
     """If `data` is an archieve, return a new bytes object with
     `content` added to `data` using the given name."""
-    with zipfile.ZipFile(file=archive_check(data), mode="a") as fzip:
+    buf = archive_check(data)
+    with zipfile.ZipFile(file=buf, mode="a") as fzip:
         with fzip.open(name, mode="w") as f:
             f.write(content.encode() if hasattr(content, "encode") else content)
     return buf.getvalue()
-- 
2.43.0


From 0f69329d27bd19b158876ec1fc21c9dd87588e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:08 +0000
Subject: [PATCH 098/132] fix: undefined variable when an archive cannot be
 unpacked over a directory

---
 bindings/python/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/protocol.py b/bindings/python/protocol.py
index 7a8c3d3..dea87c3 100644
--- a/bindings/python/protocol.py
+++ b/bindings/python/protocol.py
@@ -304,7 +304,7 @@ def save_path(data, path, overwrite=False, include=None, exclude=None):
                         if not filepath.is_file():
                             raise OSError(
                                 "cannot write to existing non-file path: "
-                                f"{filename}"
+                                f"{filepath}"
                             )
                     fzip.extract(name, path=path)
         elif p.exists():
-- 
2.43.0


From 80b832ec81482c6cb463992263ba20b602389881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:08 +0000
Subject: [PATCH 099/132] fix: deleting something that does not exist with the
 file protocol

---
 bindings/python/python-protocol-plugins/file.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/bindings/python/python-protocol-plugins/file.py b/bindings/python/python-protocol-plugins/file.py
index 49005d9..3393826 100644
--- a/bindings/python/python-protocol-plugins/file.py
+++ b/bindings/python/python-protocol-plugins/file.py
@@ -83,12 +83,6 @@ class file(dlite.DLiteProtocolBase):
         path = self.path/uuid
         if path.exists():
             path.unlink()
-        elif self.path.exists() and self.path.is_dir():
-            save_path(
-                data=load_path(self.path, exclude=uuid),
-                path=path,
-                overwrite=True,
-            )
         else:
             raise dlite.DLiteIOError(f"cannot delete {uuid} in: {self.path}")
 
-- 
2.43.0


From 4319a6accc7f5f3842a218bebfe6ef9e8a9bba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:08 +0000
Subject: [PATCH 100/132] fix: load an instance by its id from a file through
 the file protocol

---
 bindings/python/python-protocol-plugins/file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/python-protocol-plugins/file.py b/bindings/python/python-protocol-plugins/file.py
index 3393826..fb50c89 100644
--- a/bindings/python/python-protocol-plugins/file.py
+++ b/bindings/python/python-protocol-plugins/file.py
@@ -56,7 +56,8 @@ class file(dlite.DLiteProtocolBase):
         If `location` is a directory, it is returned as a zip archive.
         """
         self._required_mode("r", "load")
-        path = self.path/uuid if uuid else self.path
+        # If `location` is a file, the storage plugin picks the instance
+        path = self.path/uuid if uuid and not self.path.is_file() else self.path
         return load_path(
             path=path,
             include=self.options.get("include"),
-- 
2.43.0


From f02debea85ab49444f9be24689bdc6398d16b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:08 +0000
Subject: [PATCH 101/132] fix: load through a protocol with a storage plugin
 without from_bytes()

---
 bindings/python/dlite-entity-python.i | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index 77905fc..eddbefc 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -490,8 +490,8 @@ def get_instance(
             return cls.from_bytes(
                 driver, buffer, id=id, options=options, metaid=metaid
             )
-        except _dlite.DLiteUnsupportedError:
-            pass
+        except (_dlite.DLiteAttributeError, _dlite.DLiteUnsupportedError):
+            errclr()
         tmpfile = None
         try:
             with tempfile.NamedTemporaryFile(delete=False) as f:
-- 
2.43.0


From 6cea1a4e7684808d36c1a2999f70b178baecb08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:54 +0000
Subject: [PATCH 102/132] fix: loading an instance with `metaid` given created
 a new instance instead (Python)

---
 bindings/python/dlite-entity.i | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/dlite-entity.i b/bindings/python/dlite-entity.i
index 04770cf..2d46c73 100644
--- a/bindings/python/dlite-entity.i
+++ b/bindings/python/dlite-entity.i
@@ -320,7 +320,8 @@ struct _DLiteInstance {
                  struct _DLiteDimension *dimensions=NULL, int ndimensions=0,
                  struct _DLiteProperty *properties=NULL, int nproperties=0,
                  const char *description=NULL) {
-    if (dims && metaid) {
+    if (dims && metaid && !url && !storage && !driver && !jsoninput &&
+        !bsoninput) {
       DLiteInstance *inst;
       DLiteMeta *meta;
       size_t i, *d, n=ndims;
-- 
2.43.0


From d47dded3e25b2db5fe48c2b398c8c13ce7d77553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:45 +0000
Subject: [PATCH 103/132] fix: Instance.from_url() passed an empty id to the
 protocol and storage plugins when the URL has no fragment

---
 bindings/python/dlite-entity-python.i | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index eddbefc..1c29202 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -538,8 +538,8 @@ def get_instance(
                 )
             location = f"{protocol}://{p.netloc}{p.path}"
             inst = cls.load(
-                protocol, driver, location, options=p.query, id=p.fragment,
-                metaid=metaid
+                protocol, driver, location, options=p.query,
+                id=p.fragment or None, metaid=metaid
             )
         else:
             errclr()  # Clear internal error before calling Instance()
-- 
2.43.0


From 74c3b70f2c720bdedceeb8ee4d08f912f6e8b10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:30 +0000
Subject: [PATCH 104/132] fix: saving to a location or URL returned success
 when closing the storage failed

---
 src/dlite-collection.c | 3 ++-
 src/dlite-entity.c     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index d49f807..b50f5c5 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -488,7 +488,8 @@ int dlite_collection_save_url(DLiteCollection *coll, const char *url)
   if (!(s = dlite_storage_open(driver, path, options))) goto fail;
   retval = dlite_collection_save(coll, s);
  fail:
-  if (s) dlite_storage_close(s);
+  /* Some storages are first written to disk when they are closed */
+  if (s && dlite_storage_close(s) && !retval) retval = 1;
   if (str) free(str);
   return retval;
 }
diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index a159b6c..9d20016 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1201,7 +1201,8 @@ int dlite_instance_save_loc(const char *driver, const char *location,
   if (!(s = dlite_storage_open(driver, location, options))) goto fail;
   retval = dlite_instance_save(s, inst);
  fail:
-  if (s) dlite_storage_close(s);
+  /* Some storages are first written to disk when they are closed */
+  if (s && dlite_storage_close(s) && !retval) retval = 1;
   return retval;
 }
 
-- 
2.43.0


From 2ed34a2029c5e9de2966918725fbd1f932aff2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:30 +0000
Subject: [PATCH 105/132] fix: errors from flushing a storage were lost when it
 was closed

---
 src/dlite-storage.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dlite-storage.c b/src/dlite-storage.c
index 2ad140a..1f256fe 100644
--- a/src/dlite-storage.c
+++ b/src/dlite-storage.c
@@ -140,16 +140,24 @@ DLiteStorage *dlite_storage_open_url(const char *url)
 int dlite_storage_close(DLiteStorage *s)
 {
   int stat=0;
+  volatile int closestat=0;
   assert(s);
   if (s->api->flush) stat = s->api->flush(s);
 
   /* Only free the storage when there are no more references to it. */
-  if (--s->refcount > 0) return 0;
+  if (--s->refcount > 0) return stat;
 
   if (s->flags & dliteReadable && s->flags & dliteGeneric)
     dlite_storage_hotlist_remove(s);
 
-  stat |= s->api->close(s);
+  /* Closing must not clear an error from flush() */
+ ErrTry:
+  if ((closestat = s->api->close(s)) && !err_geteval())
+    err(dliteIOError, "error closing storage: %s", s->location);
+  break;
+ ErrEnd;
+  stat |= closestat;
+
   free(s->location);
   if (s->options) free(s->options);
   map_deinit(&s->cache);
-- 
2.43.0


From 8412e5fb8024ea29e054aa53c0b779fe07d361aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:30 +0000
Subject: [PATCH 106/132] fix: report when the rdf storage cannot write its
 file

---
 storages/rdf/dlite-rdf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/storages/rdf/dlite-rdf.c b/storages/rdf/dlite-rdf.c
index 58e998e..6857e28 100644
--- a/storages/rdf/dlite-rdf.c
+++ b/storages/rdf/dlite-rdf.c
@@ -260,8 +260,9 @@ int rdf_close(DLiteStorage *storage)
       if (strcmp(s->filename, "-") == 0) {
         fprintf(stdout, "%s", buf);
       } else if ((fp = fopen(s->filename, "w"))) {
-        fprintf(fp, "%s", buf);
-        fclose(fp);
+        int n = fprintf(fp, "%s", buf);
+        if (fclose(fp) || n < 0)
+          retval = err(dliteIOError, "error writing rdf file: %s", s->filename);
       } else {
         retval = err(dliteIOError, "cannot write rdf file: %s", s->filename);
       }
-- 
2.43.0


From 2532ab935beecd32c548258506cb99076c6baf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:30 +0000
Subject: [PATCH 107/132] fix: dlite-codegen: report when the output cannot be
 written

---
 tools/dlite-codegen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/dlite-codegen.c b/tools/dlite-codegen.c
index 6c11818..6244b2f 100644
--- a/tools/dlite-codegen.c
+++ b/tools/dlite-codegen.c
@@ -166,10 +166,12 @@ int main(int argc, char *argv[])
   if (output) {
     FILE *fp = fopen(output, "wb");
     if (!fp) FAIL1("cannot open \"%s\" for writing", output);
-    fwrite(text, 1, strlen(text), fp);
-    fclose(fp);
+    size_t n = fwrite(text, 1, strlen(text), fp);
+    if (fclose(fp) || n != strlen(text))
+      FAIL1("error writing to \"%s\"", output);
   } else {
     fwrite(text, 1, strlen(text), stdout);
+    if (fflush(stdout) || ferror(stdout)) FAIL("error writing to stdout");
   }
 
   /* Cleanup */
-- 
2.43.0


From bf286f7719ca0a7914b3c2dff0745446c9bc1438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:57 +0000
Subject: [PATCH 108/132] fix: freeing a Python proxy of a DLite object cleared
 the error of an ongoing operation

---
 bindings/python/dlite.i | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bindings/python/dlite.i b/bindings/python/dlite.i
index d679c6b..0e82171 100644
--- a/bindings/python/dlite.i
+++ b/bindings/python/dlite.i
@@ -29,6 +29,7 @@
 
 %{
 #include "dlite.h"
+#include "utils/err.h"
 %}
 
 
@@ -67,6 +68,25 @@
   if (strcmp("$name", "dlite_errval") == 0 ||
       strcmp("$name", "dlite_errmsg") == 0) {
     $action
+  } else if ("$name"[0] == '~') {
+    /* Destructors may be called from within another operation when Python
+       releases its objects.  Hence, they should not touch the error that
+       this operation may have reported. */
+    int failed = 0;
+    ErrTry:
+      $action
+      if (dlite_errval()) {
+#ifdef SWIGPYTHON
+        PyErr_SetString(dlite_python_module_error(dlite_errval()),
+                        dlite_errmsg());
+#endif
+        failed = 1;
+      }
+      break;
+    ErrOther:
+      break;
+    ErrEnd;
+    if (failed) SWIG_fail;
   } else {
     /* Clear the error indicator (except for errcheck()). */
     if (strcmp("$name", "errcheck") != 0) dlite_swig_errclr();
-- 
2.43.0


From a366c11a8d578d2e4ac39a11aaaec7259e9908cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:53 +0000
Subject: [PATCH 109/132] fix: report when to_bytes() of a Python storage
 plugin fails

---
 bindings/python/dlite.i                | 20 --------------------
 storages/python/dlite-plugins-python.c |  5 ++++-
 2 files changed, 4 insertions(+), 21 deletions(-)

diff --git a/bindings/python/dlite.i b/bindings/python/dlite.i
index 0e82171..d679c6b 100644
--- a/bindings/python/dlite.i
+++ b/bindings/python/dlite.i
@@ -29,7 +29,6 @@
 
 %{
 #include "dlite.h"
-#include "utils/err.h"
 %}
 
 
@@ -68,25 +67,6 @@
   if (strcmp("$name", "dlite_errval") == 0 ||
       strcmp("$name", "dlite_errmsg") == 0) {
     $action
-  } else if ("$name"[0] == '~') {
-    /* Destructors may be called from within another operation when Python
-       releases its objects.  Hence, they should not touch the error that
-       this operation may have reported. */
-    int failed = 0;
-    ErrTry:
-      $action
-      if (dlite_errval()) {
-#ifdef SWIGPYTHON
-        PyErr_SetString(dlite_python_module_error(dlite_errval()),
-                        dlite_errmsg());
-#endif
-        failed = 1;
-      }
-      break;
-    ErrOther:
-      break;
-    ErrEnd;
-    if (failed) SWIG_fail;
   } else {
     /* Clear the error indicator (except for errcheck()). */
     if (strcmp("$name", "errcheck") != 0) dlite_swig_errclr();
diff --git a/storages/python/dlite-plugins-python.c b/storages/python/dlite-plugins-python.c
index aa6f091..076a477 100644
--- a/storages/python/dlite-plugins-python.c
+++ b/storages/python/dlite-plugins-python.c
@@ -408,6 +408,10 @@ int memsaver(const DLiteStoragePlugin *api, unsigned char *buf, size_t size,
   else
     v = PyObject_CallMethod(class, "to_bytes", "O", pyinst);
 
+  /* Release `pyinst` before checking for errors, since its destructor clears
+     the DLite error indicator */
+  Py_DECREF(pyinst);
+
   if (dlite_pyembed_err_check("calling to_bytes() in Python plugin '%s'%s",
                               classname, failmsg()))
     goto fail;
@@ -425,7 +429,6 @@ int memsaver(const DLiteStoragePlugin *api, unsigned char *buf, size_t size,
   memcpy(buf, buffer, (size > (size_t)length) ? (size_t)length : size);
   retval = (int)length;
  fail:
-  Py_XDECREF(pyinst);
   Py_XDECREF(v);
   return retval;
 }
-- 
2.43.0


From f5e0b212479bf837a09cd2e18596e4b4740cf0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:37 +0000
Subject: [PATCH 110/132] fix: isurl() accepted future IP addresses without
 address, like http://[v1.]

---
 src/utils/urlsplit.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/urlsplit.c b/src/utils/urlsplit.c
index 7067c77..46b09cf 100644
--- a/src/utils/urlsplit.c
+++ b/src/utils/urlsplit.c
@@ -130,7 +130,9 @@ static int _urlsplit(const char *url, int len, UrlComponents *components)
         if (!isxdigit(url[++n])) return 0;
         while (isxdigit(url[n])) n++;
         if (url[n++] != '.') return 0;
-        n += jspn(url+n, strcatSubDelims, 1, ":");
+        int k = jspn(url+n, strcatSubDelims, 1, ":");
+        if (k <= 0) return 0;
+        n += k;
       } else {
         /* IPv6 host */
         while (isxdigit(url[n]) || url[n] == ':') n++;
-- 
2.43.0


From 1b2dd38e56b8a47f418c94ae6c59ce5a84801f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:29 +0000
Subject: [PATCH 111/132] fix: dlite-env returned success when the command
 failed

---
 src/utils/execprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils/execprocess.c b/src/utils/execprocess.c
index 7f7e017..920ca9a 100644
--- a/src/utils/execprocess.c
+++ b/src/utils/execprocess.c
@@ -51,7 +51,8 @@ extern char **environ;
           NULL-terminated array of pointers to NUL-terminated
           strings.
 
-  Returns non-zero on error.
+  Returns the exit status of the process, which is non-zero on error
+  (128 plus the signal number if it was terminated by a signal).
 */
 int exec_process(const char *pathname, char *const argv[], char *const env[])
 {
@@ -106,7 +107,9 @@ int exec_process(const char *pathname, char *const argv[], char *const env[])
     return err(-1, "error forking: %s", pathname);
   else if (pid > 0) {
     /* parent process */
-    wait(&status);
+    if (waitpid(pid, &status, 0) < 0)
+      return err(-1, "error waiting for: %s", pathname);
+    status = (WIFEXITED(status)) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
   } else {
     /* child process */
     char *const a[2] = {(char *)pathname, NULL};
-- 
2.43.0


From ebf09df73df91d597f3cdcb9383929073c15b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:29 +0000
Subject: [PATCH 112/132] fix: dlite-env ignored errors in its arguments and
 crashed with an empty environment

---
 tools/dlite-env.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tools/dlite-env.c b/tools/dlite-env.c
index 7b9e6f1..45308fd 100644
--- a/tools/dlite-env.c
+++ b/tools/dlite-env.c
@@ -89,7 +89,7 @@ void set_platform(const char *s)
 
 int main(int argc, char *argv[])
 {
-  int retval = 0;
+  int retval = 1;
   char **q;
 
   /* Command line arguments */
@@ -135,6 +135,8 @@ int main(int argc, char *argv[])
   if (with_env)  {
     /* -- load current environment */
     env = get_environment();
+  } else if (!(env = calloc(1, sizeof(char *)))) {
+    FAILCODE(dliteMemoryError, "allocation failure");
   }
   if (with_install) {
     /* -- add install paths */
@@ -177,14 +179,18 @@ int main(int argc, char *argv[])
   }
   if (vars) {
     /* -- add additional variables from command line */
-    for (q=vars; *q; q++)
-      env = set_envitem(env, *q);
+    for (q=vars; *q; q++) {
+      char **newenv = set_envitem(env, *q);
+      if (!newenv) goto fail;
+      env = newenv;
+    }
   }
 
   if (print) {
     /* Print environment */
     for (q=env; *q; q++)
       printf("%s\n", *q);
+    retval = 0;
 
   } else  {
     /* Run command */
-- 
2.43.0


From f9b61fb654de524dd55a5c0d46e24dd5df9fa3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:29 +0000
Subject: [PATCH 113/132] fix: dlite-env set DLITE_ROOT to the package root and
 used "(null)" as root of relative paths

---
 tools/dlite-env.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/dlite-env.c b/tools/dlite-env.c
index 45308fd..a265718 100644
--- a/tools/dlite-env.c
+++ b/tools/dlite-env.c
@@ -129,7 +129,8 @@ int main(int argc, char *argv[])
   }
 
   dlite_root = (with_env) ? dlite_root_get() : DLITE_ROOT;
-  dlite_root = (with_env) ? dlite_pkg_root_get() : DLITE_PKG_ROOT;
+  dlite_pkg_root = (with_env) ? dlite_pkg_root_get() : DLITE_PKG_ROOT;
+  if (!dlite_pkg_root) dlite_pkg_root = DLITE_PKG_ROOT;
 
   /* Create environment */
   if (with_env)  {
-- 
2.43.0


From 5ac958842322ab731a14050fdec1ae5807a28ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:29 +0000
Subject: [PATCH 114/132] fix: dlite-getuuid: accept the documented
 --normalise-id, do not truncate ids and report errors

---
 tools/dlite-getuuid.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tools/dlite-getuuid.c b/tools/dlite-getuuid.c
index 458e655..39ef0c2 100644
--- a/tools/dlite-getuuid.c
+++ b/tools/dlite-getuuid.c
@@ -37,7 +37,7 @@ void help()
 
 int main(int argc, char *argv[])
 {
-  char *id=NULL, *uri=NULL, buf[512];
+  char *id=NULL, *uri=NULL, uuid[DLITE_UUID_LENGTH+1], *buf=uuid;
   int normalise_id = 0;
 
   /* Command line arguments */
@@ -48,6 +48,7 @@ int main(int argc, char *argv[])
     int longindex = 0;
     struct option longopts[] = {
       {"help",             0, NULL, 'h'},
+      {"normalise-id",     0, NULL, 'n'},
       {"normalised-id",    0, NULL, 'n'},
       {"uri",              1, NULL, 'u'},
       {NULL, 0, NULL, 0}
@@ -66,11 +67,16 @@ int main(int argc, char *argv[])
   if (optind != argc)
     return errx(1, "Too many arguments. Try `dlite-getuuid --help`.");
 
-  if (normalise_id)
-    dlite_normalise_id(buf, sizeof(buf), id, uri);
-  else
-    dlite_get_uuid(buf, id);
+  if (normalise_id) {
+    int n = dlite_normalise_id(NULL, 0, id, uri);
+    if (n < 0 || !(buf = malloc(n + 1)))
+      return errx(1, "cannot normalise id: %s", id);
+    dlite_normalise_id(buf, n + 1, id, uri);
+  } else if (dlite_get_uuid(buf, id) < 0) {
+    return errx(1, "cannot generate UUID from: %s", (id) ? id : "");
+  }
 
   printf("%s\n", buf);
+  if (buf != uuid) free(buf);
   return 0;
 }
-- 
2.43.0


From 080dcccbdda06009419ef540f42d2ffc05ceb61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:29 +0000
Subject: [PATCH 115/132] fix: read before the start of an empty namespace when
 normalising an id

---
 src/dlite-misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 3ab8266..552b832 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -150,7 +150,7 @@ int dlite_normalise_idn(char *buff, size_t n,
   if (isurln(id, len))
     return snprintf(buff, n, "%.*s", (int)len, id);
 
-  if (!uri) uri = DLITE_DATA_NS;
+  if (!uri || !*uri) uri = DLITE_DATA_NS;
   char *sep = (strchr("/#", uri[strlen(uri)-1])) ? "" : "/";
 
   // id: uuid, id
-- 
2.43.0


From 1bbaff4dc957f6045fa015b3172ae2d6640ac0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:03 +0000
Subject: [PATCH 116/132] fix: setting relations of a collection lost instances
 only referred to by the collection

---
 src/dlite-collection.c | 53 ++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index b50f5c5..4de9e79 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -45,21 +45,22 @@ int dlite_collection_init(DLiteInstance *inst)
 }
 
 
-/* Help function that releases the references that the collection holds to
-   the instances of all "_has-uuid" relations matching `s`, `o` and `d`.
+/* Help function that assigns `*instances` to an allocated array with the
+   instances of all "_has-uuid" relations matching `s`, `o` and `d`.
 
-   The relations themselves are not removed.  Instances are only looked
-   up in memory, since instances that are referred to must be there. */
-static void release_instances(DLiteCollection *coll, const char *s,
-                              const char *o, const char *d)
+   Instances are only looked up in memory, since instances that are
+   referred to must be there.
+
+   Returns the number of instances. */
+static size_t collect_instances(DLiteCollection *coll, const char *s,
+                                const char *o, const char *d,
+                                DLiteInstance ***instances)
 {
   DLiteCollectionState state;
   DLiteInstance **insts=NULL;
   const DLiteRelation *r;
-  size_t i, n=0, size=0;
+  size_t n=0, size=0;
 
-  /* Collect the instances before releasing them, since releasing an
-     instance may free it */
   dlite_collection_init_state(coll, &state);
   while ((r=dlite_collection_find(coll, &state, s, "_has-uuid", o, d))) {
     DLiteInstance *inst = dlite_instance_has(r->o, 0);
@@ -79,11 +80,31 @@ static void release_instances(DLiteCollection *coll, const char *s,
     insts[n++] = inst;
   }
   dlite_collection_deinit_state(&state);
+  *instances = insts;
+  return n;
+}
 
+/* Help function releasing the references to the `n` instances collected
+   with collect_instances(). */
+static void release_collected(DLiteInstance **insts, size_t n)
+{
+  size_t i;
   for (i=0; i<n; i++) dlite_instance_decref(insts[i]);
   if (insts) free(insts);
 }
 
+/* Help function releasing the references that `coll` holds to instances
+   matching subject `s`, object `o` and datatype `d`.  The instances are
+   collected before they are released, since releasing an instance may
+   free it. */
+static void release_instances(DLiteCollection *coll, const char *s,
+                              const char *o, const char *d)
+{
+  DLiteInstance **insts=NULL;
+  size_t n = collect_instances(coll, s, o, d, &insts);
+  release_collected(insts, n);
+}
+
 /* Help function returning non-zero and issuing an error if `coll` is frozen. */
 static int is_immutable(const DLiteCollection *coll)
 {
@@ -257,7 +278,8 @@ int dlite_collection_loadprop(const DLiteInstance *inst, size_t i)
   DLiteCollection *coll = (DLiteCollection *)inst;
   TripleState state;
   const Triple *t;
-  size_t j;
+  DLiteInstance **old=NULL;
+  size_t j, nold;
   if (i != 0) return errx(dliteIndexError,
                          "index out of range: %lu", (unsigned long)i);
   for (j=0; j < coll->nrelations; j++)
@@ -265,10 +287,16 @@ int dlite_collection_loadprop(const DLiteInstance *inst, size_t i)
         !coll->relations[j].o)
       return errx(dliteValueError, "relation %lu of collection %s has no "
                   "subject, predicate or object", (unsigned long)j, coll->uuid);
-  release_instances(coll, NULL, NULL, NULL);
+
+  /* The old instances are not released before the new ones are loaded,
+     since they may be the same */
+  nold = collect_instances(coll, NULL, NULL, NULL, &old);
   triplestore_clear(coll->rstore);
-  if (triplestore_add_triples(coll->rstore, coll->relations, coll->nrelations))
+  if (triplestore_add_triples(coll->rstore, coll->relations,
+                              coll->nrelations)) {
+    release_collected(old, nold);
     return -1;
+  }
 
   /* Iterate over all newly added triples and load instances corresponding
      to "_has-uuid" relations. */
@@ -286,6 +314,7 @@ int dlite_collection_loadprop(const DLiteInstance *inst, size_t i)
     free(id);
   }
   triplestore_deinit_state(&state);
+  release_collected(old, nold);
 
   return retval;
 }
-- 
2.43.0


From eecc6d48ca9b08acf5bb4de5728aad67b58b9a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:12 +0000
Subject: [PATCH 117/132] fix: Fortran: converting a C string read outside it
 and left the last character unset

---
 bindings/fortran/c_interface.f90 | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bindings/fortran/c_interface.f90 b/bindings/fortran/c_interface.f90
index afe27d5..306544a 100644
--- a/bindings/fortran/c_interface.f90
+++ b/bindings/fortran/c_interface.f90
@@ -59,14 +59,12 @@ module c_interface
       f_string = ' '
     else      
       call c_f_pointer(c_string, p_chars, [len(f_string) + 1])
-      print *, "c_f_string_ptr: len(f_string)=", len(f_string)
-      print *, "c_f_string_ptr: p_chars      =", p_chars 
       i = 1
       do while((p_chars(i).ne.c_null_char) .and. (i.le.len(f_string)))
         f_string(i:i) = p_chars(i)
         i = i + 1
       end do
-      if (i .lt. len(f_string)) f_string(i:) = ' '
+      if (i .le. len(f_string)) f_string(i:) = ' '
     end if
   end subroutine c_f_string_ptr
 
@@ -80,7 +78,7 @@ module c_interface
       f_string(i:i) = c_string(i)
       i=i+1
     end do
-    if (i<len(f_string)) f_string(i:) = ' '
+    if (i<=len(f_string)) f_string(i:) = ' '
   end subroutine c_f_string_chars
 
   ! Copy a Fortran string to an allocated C string pointer.
-- 
2.43.0


From 2bba5946bbb5ae46c08f96ae0e13c963e081c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:12 +0000
Subject: [PATCH 118/132] fix: Fortran: id which is not a uuid ignored when
 creating an instance

---
 bindings/fortran/dlite.f90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/fortran/dlite.f90 b/bindings/fortran/dlite.f90
index 8bb00f3..c4dca78 100644
--- a/bindings/fortran/dlite.f90
+++ b/bindings/fortran/dlite.f90
@@ -413,9 +413,9 @@ contains
     dims1_p => dims1
     cptr = c_loc(dims1_p)
 
-    ! check if uuid is empty or not
-    if (len_trim(id) == 36) then
-      ! copy uuid in a C string
+    ! check if id is empty or not
+    if (len_trim(id) > 0) then
+      ! copy id in a C string
       call f_c_string(id, id_c)
       instance%cinst = dlite_instance_create_from_id_c(metaid_c, dims1, id_c)
     else
-- 
2.43.0


From c08f4bce52dc8719e36a8ba2754cd5bd4825bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:12 +0000
Subject: [PATCH 119/132] fix: Fortran: modules generated for entities with
 boolean, short or long properties or without dimensions did not compile

---
 tools/templates/fortran-module.txt | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/tools/templates/fortran-module.txt b/tools/templates/fortran-module.txt
index 425894d..bac0d89 100644
--- a/tools/templates/fortran-module.txt
+++ b/tools/templates/fortran-module.txt
@@ -20,7 +20,8 @@
 module {name}
     USE iso_c_binding, only : c_ptr, c_int, c_char, c_null_char, c_size_t,    &
                               c_double, c_null_ptr, c_f_pointer, c_associated,&
-                              c_loc, c_float
+                              c_loc, c_float, c_bool, c_short, c_long,        &
+                              c_long_long
     USE c_interface, only: c_f_string, c_strlen_safe, f_c_string
     USE DLite
 
@@ -107,8 +108,8 @@ module {name}
   subroutine readFromInstance({name%c}, instance)
     class(T{name})                        :: {name%c}
     type(DLiteInstance), intent(in)       :: instance
-    {@if:{_ndimensions}>0}{@3}type(c_ptr){@42}:: cptr{@endif}
-    {@if:{_ndimensions}>0}{@3}integer(8), dimension(*), allocatable :: shape(:){@endif}
+    type(c_ptr)                           :: cptr
+    integer(8), dimension(*), allocatable :: shape(:)
 {@if:{have_fixstring_arr}\.}\
     integer(8)                            :: strlen, nstring, i
 {@endif}\
@@ -124,6 +125,13 @@ module {name}
 {@4}{prop.isoctype}, pointer {@42}:: {prop.name}_p\n\
 {@endif}\ }
 
+    ! not all variables are used for all entities
+    cptr = c_null_ptr
+    if (allocated(shape)) deallocate(shape)
+    strlen = 0
+    nstring = 0
+    i = 0
+
     if (instance%check()) then
       {name%c}%instance = instance
       {name%c}%uuid = instance%get_uuid()
@@ -164,8 +172,8 @@ module {name}
   function writeToInstance({name%c}) result(instance)
     class(T{name})                        :: {name%c}
     type(DLiteInstance)                   :: instance
-    {@if:{_ndimensions}>0}{@3}type(c_ptr){@42}:: cptr{@endif}
-    {@if:{_ndimensions}>0}{@3}integer(8), dimension(*), allocatable :: dims(:){@endif}
+    type(c_ptr)                           :: cptr
+    integer(8), dimension(*), allocatable :: dims(:)
     integer(8), dimension({_ndimensions}) :: dimensions
 {list_properties:\
 {@if:{prop.typeno}=5}\
@@ -175,6 +183,10 @@ module {name}
 {@else}\
 {@4}{prop.isoctype}, pointer {@42}:: {prop.name}_p\n\
 {@endif}\ }
+    ! not all variables are used for all entities
+    cptr = c_null_ptr
+    if (allocated(dims)) deallocate(dims)
+
     if ({name%c}%check()) then
       instance = {name%c}%instance
     else
-- 
2.43.0


From a266aada53d8d0f0c1212b20f24357bf8b0f9086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:12 +0000
Subject: [PATCH 120/132] fix: invalid Fortran types for unsigned integers in
 generated modules

---
 src/dlite-type.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 7edc6af..a72aeef 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -328,6 +328,8 @@ int dlite_type_set_isoctype(DLiteType dtype, size_t size,
     snprintf(isoctype, n, "integer(c_%s)", native);
     break;
   case dliteUInt:
+    /* Fortran has no unsigned integers, use the kind of the signed ones */
+    native = dlite_type_get_native_typename(dliteInt, size);
     snprintf(isoctype, n, "integer(c_%s)", native);
     break;
   case dliteFloat:
-- 
2.43.0


From cb6235e2ef03a731abbb01a83e6f93ccb84ff26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:05 +0000
Subject: [PATCH 121/132] fix: Fortran: objects that failed to be loaded had an
 uninitialised pointer

---
 bindings/fortran/dlite.f90 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bindings/fortran/dlite.f90 b/bindings/fortran/dlite.f90
index c4dca78..801c031 100644
--- a/bindings/fortran/dlite.f90
+++ b/bindings/fortran/dlite.f90
@@ -13,8 +13,8 @@ module DLite
   public :: dlite_instance_set_property_value
 
   type, public :: DLiteStorage
-     type(c_ptr) :: cptr
-     logical     :: readonly
+     type(c_ptr) :: cptr = c_null_ptr
+     logical     :: readonly = .false.
    contains
      procedure :: close => dlite_storage_close
      procedure :: is_writable => dlite_storage_is_writable
@@ -32,7 +32,7 @@ module DLite
   end interface dlite_instance_set_property_value
 
   type, public :: DLiteInstance
-     type(c_ptr)                   :: cinst
+     type(c_ptr)                   :: cinst = c_null_ptr
    contains
      procedure :: check => check_instance
      procedure :: save => dlite_instance_save
@@ -55,7 +55,7 @@ module DLite
   end interface DLiteInstance
 
   type, public :: DLiteMeta
-    type(c_ptr) :: cptr
+    type(c_ptr) :: cptr = c_null_ptr
   contains
     procedure :: check => dlite_meta_check
     procedure :: has_dimension => dlite_meta_has_dimension
@@ -68,7 +68,7 @@ module DLite
   end interface DLiteMeta
 
   type, public :: DLiteMetaModel
-    type(c_ptr) :: cptr
+    type(c_ptr) :: cptr = c_null_ptr
   contains
     procedure :: add_string => dlite_metamodel_add_string
     procedure :: add_dimension => dlite_metamodel_add_dimension
-- 
2.43.0


From 164f7e51ce16f8b6dff489405957022919d336bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:54 +0000
Subject: [PATCH 122/132] fix: Fortran: generated modules ignored the values of
 properties with more than two dimensions

---
 tools/templates/fortran-module.txt | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/templates/fortran-module.txt b/tools/templates/fortran-module.txt
index bac0d89..aacd6c1 100644
--- a/tools/templates/fortran-module.txt
+++ b/tools/templates/fortran-module.txt
@@ -110,9 +110,7 @@ module {name}
     type(DLiteInstance), intent(in)       :: instance
     type(c_ptr)                           :: cptr
     integer(8), dimension(*), allocatable :: shape(:)
-{@if:{have_fixstring_arr}\.}\
     integer(8)                            :: strlen, nstring, i
-{@endif}\
 
 {list_properties:\
 {@if:({prop.typeno}=5)&({prop.ndims}=0)}\
@@ -165,6 +163,10 @@ module {name}
 {@6}{name%c}%{prop.name} = {prop.name}_p\n\
 {@elif:({prop.typeno}!5)&({prop.ndims}=2)}\
 {@6}{name%c}%{prop.name} = transpose({prop.name}_p)\n\
+{@elif:({prop.typeno}!5)&({prop.ndims}>2)}\
+{@6}{name%c}%{prop.name} = reshape({prop.name}_p, &
+           [(ubound({prop.name}_p, int(i)), i = {prop.ndims},1,-1)], &
+           order=[(i, i = {prop.ndims},1,-1)])\n\
 {@endif}\ }
     endif
   end subroutine readFromInstance
@@ -175,6 +177,7 @@ module {name}
     type(c_ptr)                           :: cptr
     integer(8), dimension(*), allocatable :: dims(:)
     integer(8), dimension({_ndimensions}) :: dimensions
+    integer(8)                            :: i
 {list_properties:\
 {@if:{prop.typeno}=5}\
 {@4}! {prop.isoctype} {@42}:: {prop.name}\n\
@@ -186,6 +189,7 @@ module {name}
     ! not all variables are used for all entities
     cptr = c_null_ptr
     if (allocated(dims)) deallocate(dims)
+    i = 0
 
     if ({name%c}%check()) then
       instance = {name%c}%instance
@@ -217,6 +221,10 @@ module {name}
 {@4}{prop.name}_p = {name%c}%{prop.name}\n\
 {@elif:({prop.typeno}!5)&({prop.ndims}=2)}\
 {@4}{prop.name}_p = transpose({name%c}%{prop.name})\n\
+{@elif:({prop.typeno}!5)&({prop.ndims}>2)}\
+{@4}{prop.name}_p = reshape({name%c}%{prop.name}, &
+         [(ubound({name%c}%{prop.name}, int(i)), i = {prop.ndims},1,-1)], &
+         order=[(i, i = {prop.ndims},1,-1)])\n\
 {@endif}\ }
   end function writeToInstance
 
-- 
2.43.0


From 60705ce47a966ab45e5fbf9d018231c62c6338e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:26 +0000
Subject: [PATCH 123/132] fix: an instance that could not be loaded kept a
 reference to its metadata

---
 src/dlite-entity.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 9d20016..3f7bcfe 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1059,12 +1059,10 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
       goto fail;
 
   /* Create instance
-     This increases the refcount of meta, but we already own a reference
-     to meta that we want to hand over to `inst`.  Therefore, decrease
-     the additional refcount after calling dlite_instance_create()...
+     This increases the refcount of meta.  The reference that we own is
+     released below, also if something fails.
    */
   if (!(inst = _instance_create(meta, dims, id, lookup))) goto fail;
-  dlite_meta_decref(meta);
 
   /* assign properties */
   for (i=0; i<meta->_nproperties; i++) {
@@ -1117,6 +1115,7 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   if (!inst && !err_geteval())
     err(dliteIOError, "cannot load id '%s' from storage '%s'", id, s->location);
   if (!instance && inst) dlite_instance_decref(inst);
+  if (meta) dlite_meta_decref(meta);
   if (d) dlite_datamodel_free(d);
   if (uri) free((char *)uri);
   if (dims) free(dims);
-- 
2.43.0


From 5c416314a1d5d52c47a72232983a0bbabc3207d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:26 +0000
Subject: [PATCH 124/132] fix: errors from freeing the datamodel were lost when
 saving an instance

---
 src/dlite-entity.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 3f7bcfe..8f7e92f 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1181,7 +1181,8 @@ int dlite_instance_save(DLiteStorage *s, const DLiteInstance *inst)
   }
   retval = 0;
  fail:
-  if (d) dlite_datamodel_free(d);
+  /* Some storages write the instance when the datamodel is freed */
+  if (d && dlite_datamodel_free(d) && !retval) retval = 1;
   return retval;
 }
 
-- 
2.43.0


From 5dde380d4fca57ee38afebdf36fecb2c4e7902d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:26 +0000
Subject: [PATCH 125/132] fix: errors from setting the name of an instance in a
 storage were lost

---
 src/dlite-datamodel.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dlite-datamodel.c b/src/dlite-datamodel.c
index d74d2df..71efdac 100644
--- a/src/dlite-datamodel.c
+++ b/src/dlite-datamodel.c
@@ -63,8 +63,11 @@ DLiteDataModel *dlite_datamodel(const DLiteStorage *s, const char *id)
   d->s = (DLiteStorage *)s;
   memcpy(d->uuid, uuid, sizeof(d->uuid));
 
-  if (uuidver == dliteIdHash && s->flags & dliteWritable && s->api->setDataName)
-    s->api->setDataName(d, id);
+  if (uuidver == dliteIdHash && s->flags & dliteWritable &&
+      s->api->setDataName && s->api->setDataName(d, id)) {
+    dlite_datamodel_free(d);
+    d = NULL;
+  }
 
  fail:
   if (uuids) dlite_storage_uuids_free(uuids);
-- 
2.43.0


From ef73e9dfb03ef7d3c731a71f8228c2db79dfcff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:16 +0000
Subject: [PATCH 126/132] fix: half-loaded metadata stayed in memory after an
 error

---
 src/dlite-entity.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 8f7e92f..96474f3 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -988,6 +988,7 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   DLiteDataModel *d=NULL;
   size_t i, *dims=NULL;
   const char *uri=NULL;
+  int loaded=0;
 
   if (!s) FAILCODE(dliteStorageLoadError,
                    "invalid storage, see previous errors");
@@ -1104,6 +1105,8 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
     }
   }
 
+  loaded = 1;
+
   /* cast if `metaid` is not NULL */
   if (inst && metaid) {
     instance = dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
@@ -1114,7 +1117,11 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
  fail:
   if (!inst && !err_geteval())
     err(dliteIOError, "cannot load id '%s' from storage '%s'", id, s->location);
-  if (!instance && inst) dlite_instance_decref(inst);
+  if (!instance && inst) {
+    /* The instance store has a reference to metadata */
+    if (!loaded && dlite_instance_is_meta(inst)) dlite_instance_decref(inst);
+    dlite_instance_decref(inst);
+  }
   if (meta) dlite_meta_decref(meta);
   if (d) dlite_datamodel_free(d);
   if (uri) free((char *)uri);
-- 
2.43.0


From 2b1d85fdc17cdda8bac3d8e8b4311c0faa44191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:16 +0000
Subject: [PATCH 127/132] fix: loading the only instance of a storage overwrote
 the instance in memory

---
 src/dlite-entity.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 96474f3..6ed2b43 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1018,7 +1018,16 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
 
   /* create datamodel and get metadata uri */
   if (!(d = dlite_datamodel(s, id))) goto fail;
-  if (!id || !*id) id = d->uuid;
+  if (!id || !*id) {
+    id = d->uuid;
+    if (lookup && (inst = _instance_store_get(id))) {
+      dlite_datamodel_free(d);
+      if (metaid)
+        return dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
+      dlite_instance_incref(inst);
+      return inst;
+    }
+  }
 
   if (!(uri = dlite_datamodel_get_meta_uri(d))) goto fail;
 
-- 
2.43.0


From 46db34e22c6fb62ba1d1cb167d632c30400337f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:00 +0000
Subject: [PATCH 128/132] fix: crash when loading a property without elements
 failed

---
 src/dlite-entity.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 6ed2b43..bf87d3b 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1080,10 +1080,8 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
     void *ptr = (void *)dlite_instance_get_property_by_index(inst, i);
     size_t *pdims = DLITE_PROP_DIMS(inst, i);
     if (dlite_datamodel_get_property(d, p->name, ptr, p->type, p->size,
-				     p->ndims, pdims)) {
-      dlite_type_clear(ptr, p->type, p->size);
+				     p->ndims, pdims))
       goto fail;
-    }
   }
 
   /* initiates metadata of the new instance is metadata */
-- 
2.43.0


From 29fc3147895f1e9567acee77cb509ccd0c82645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:00 +0000
Subject: [PATCH 129/132] fix: collections lost their content when loaded with
 the datamodel api

---
 src/dlite-entity.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index bf87d3b..38c604a 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1077,13 +1077,18 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   /* assign properties */
   for (i=0; i<meta->_nproperties; i++) {
     DLiteProperty *p = (DLiteProperty *)meta->_properties + i;
-    void *ptr = (void *)dlite_instance_get_property_by_index(inst, i);
+    /* not via the internal state of extended metadata, which is set below */
+    void *ptr = DLITE_PROP(inst, i);
     size_t *pdims = DLITE_PROP_DIMS(inst, i);
+    if (p->ndims > 0 && p->shape) ptr = *(void **)ptr;
     if (dlite_datamodel_get_property(d, p->name, ptr, p->type, p->size,
 				     p->ndims, pdims))
       goto fail;
   }
 
+  /* update internal state of extended metadata */
+  if (dlite_instance_sync_from_properties(inst)) goto fail;
+
   /* initiates metadata of the new instance is metadata */
   if (dlite_meta_is_metameta(inst->meta) && dlite_meta_init((DLiteMeta *)inst))
     goto fail;
-- 
2.43.0


From 41543ae09bab8a00702c8ba4990321fc983f8270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:21 +0000
Subject: [PATCH 130/132] fix: no error when a property could not be loaded

---
 src/dlite-entity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 38c604a..6f3c873 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1127,7 +1127,7 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
     instance = inst;
 
  fail:
-  if (!inst && !err_geteval())
+  if (!instance && !err_geteval())
     err(dliteIOError, "cannot load id '%s' from storage '%s'", id, s->location);
   if (!instance && inst) {
     /* The instance store has a reference to metadata */
-- 
2.43.0


From 8baca734d1c50218652da7e8a4f4bfcd7372f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:21 +0000
Subject: [PATCH 131/132] fix: crash when loading from or saving to a storage
 that supports neither

---
 src/dlite-datamodel.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/dlite-datamodel.c b/src/dlite-datamodel.c
index 71efdac..7d5843d 100644
--- a/src/dlite-datamodel.c
+++ b/src/dlite-datamodel.c
@@ -28,6 +28,10 @@ DLiteDataModel *dlite_datamodel(const DLiteStorage *s, const char *id)
   char uuid[DLITE_UUID_LENGTH+1];
   int uuidver;
 
+  if (!s->api->dataModel)
+    FAILCODE1(dliteUnsupportedError, "driver '%s' does not support dataModel()",
+              s->api->name);
+
   /* allow id to be NULL if the storage only contains one instance */
   if (!id || !*id) {
     int n=0;
@@ -93,6 +97,9 @@ int dlite_datamodel_free(DLiteDataModel *d)
  */
 char *dlite_datamodel_get_meta_uri(const DLiteDataModel *d)
 {
+  if (!d->api->getMetaURI)
+    return errx(dliteUnsupportedError, "driver '%s' does not support "
+                "getMetaURI()", d->api->name), NULL;
   return d->api->getMetaURI(d);
 }
 
@@ -108,6 +115,9 @@ void dlite_datamodel_resolve_dimensions(DLiteDataModel *d, const DLiteMeta *meta
 int dlite_datamodel_get_dimension_size(const DLiteDataModel *d,
                                        const char *name)
 {
+  if (!d->api->getDimensionSize)
+    return errx(-1, "driver '%s' does not support getDimensionSize()",
+                d->api->name);
   return d->api->getDimensionSize(d, name);
 }
 
@@ -123,6 +133,9 @@ int dlite_datamodel_get_property(const DLiteDataModel *d, const char *name,
                                  void *ptr, DLiteType type, size_t size,
                                  size_t ndims, const size_t *shape)
 {
+  if (!d->api->getProperty)
+    return errx(dliteUnsupportedError, "driver '%s' does not support "
+                "getProperty()", d->api->name);
   return d->api->getProperty(d, name, ptr, type, size, ndims, shape);
 }
 
-- 
2.43.0


From 27a643d68de6d74a5ec57f044035cfdac3529b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:25 +0000
Subject: [PATCH 132/132] fix: errors while iterating over a storage were
 ignored when listing its uuids

---
 src/dlite-storage.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dlite-storage.c b/src/dlite-storage.c
index 1f256fe..57de9f2 100644
--- a/src/dlite-storage.c
+++ b/src/dlite-storage.c
@@ -309,10 +309,10 @@ char **dlite_storage_uuids(const DLiteStorage *s, const char *pattern)
   if (s->api->iterCreate && s->api->iterNext && s->api->iterFree) {
     char buf[DLITE_UUID_LENGTH+1];
     void *ptr, *iter = s->api->iterCreate(s, pattern);
-    int n=0, len=0;
+    int n=0, len=0, stat;
 
     if (!iter) return NULL;
-    while (s->api->iterNext(iter, buf) == 0) {
+    while ((stat = s->api->iterNext(iter, buf)) == 0) {
       if (n >= len) {
         len += 32;
         if (!(ptr = realloc(p, len*sizeof(char *)))) {
@@ -324,6 +324,13 @@ char **dlite_storage_uuids(const DLiteStorage *s, const char *pattern)
       p[n++] = strdup(buf);
     }
     s->api->iterFree(iter);
+    if (stat < 0) {
+      while (n > 0) free(p[--n]);
+      free(p);
+      if (!err_geteval())
+        err(dliteIOError, "cannot list instances in storage: %s", s->location);
+      return NULL;
+    }
     if (p) {
       if (!(ptr = realloc(p, (n+1)*sizeof(char *)))) {
         free(p);
-- 
2.43.0

