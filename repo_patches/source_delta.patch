From 629c4c0543119d984b71bcc762acb2efcd50e037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 01/37] fix: simd_strcmp compares both strings to their ends

---
 src/swar.c | 37 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 89beccd..6ce19b5 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -389,37 +389,20 @@ RAII_INLINE uint64_t simd_htou(const char *s, uint32_t len) {
 }
 
 RAII_INLINE int simd_strcmp(const char *str0, const char *str1) {
-    int len = simd_strlen(str0);
-    int fast = len / sizeof(size_t) + 1;
-    int offset = (fast - 1) * sizeof(size_t);
-    int current_block = 0;
-
-    if (len <= sizeof(size_t)) { fast = 0; }
-
-    size_t *lstr0 = (size_t *)str0;
-    size_t *lstr1 = (size_t *)str1;
-
-    while (current_block < fast) {
-        if ((lstr0[current_block] ^ lstr1[current_block])) {
-            int pos;
-            for (pos = current_block * sizeof(size_t); pos < len; ++pos) {
-                if ((str0[pos] ^ str1[pos]) || (str0[pos] == 0) || (str1[pos] == 0)) {
-                    return  (int)((unsigned char)str0[pos] - (unsigned char)str1[pos]);
-                }
-            }
-        }
+    size_t len0 = simd_strlen(str0);
+    size_t len1 = simd_strlen(str1);
+    size_t len = len0 < len1 ? len0 : len1;
+    size_t offset = 0;
 
-        ++current_block;
-    }
+    /* Skip the equal whole words, never reading beyond either terminator. */
+    while (len - offset >= sizeof(uintptr_t) && cast(str0 + offset) == cast(str1 + offset))
+        offset += sizeof(uintptr_t);
 
-    while (len > offset) {
-        if ((str0[offset] ^ str1[offset])) {
-            return (int)((unsigned char)str0[offset] - (unsigned char)str1[offset]);
-        }
+    /* The first difference, or the end of the shorter string. */
+    while (offset < len && str0[offset] == str1[offset])
         ++offset;
-    }
 
-    return 0;
+    return (int)((unsigned char)str0[offset] - (unsigned char)str1[offset]);
 }
 
 RAII_INLINE size_t simd_strlen(const char *str) {
-- 
2.43.0


From 002c6e33ca0057af1c8f81859f28c14736506821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 02/37] fix: memchr/memrchr family, short strings, misses and
 reverse offsets

---
 src/swar.c | 78 ++++++++++++++++++++++++------------------------------
 1 file changed, 35 insertions(+), 43 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 6ce19b5..225e92b 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -140,34 +140,33 @@ RAII_INLINE uint32_t memchr8k(const char *s, uint8_t c) {
     return _memchr8(false, true, false, s, c);
 }
 
+// Get the word of a string of less than 8 chars, the bytes past len never match c
+static RAII_INLINE uint64_t _partial(const char *s, uint32_t len, uint8_t c) {
+    uint64_t x = extend(c ^ 1);
+    memcpy(&x, s, len);
+    return x;
+}
+
 // Find char, in reverse, in const binary string
 static RAII_INLINE uint32_t _memrchr(bool Printable, bool Known, const char *s, uint32_t len, uint8_t c) {
     const char *p = s + len;
-
-    // If shorter than 8 bytes, we have to mask away c bytes past len
-    uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
-
-    // Advance to leave multiple of 8 bytes
-    p -= partLen;
-
-    // Check first 8 bytes
-    if (hasbyte(first, c)) {
-        return (p - s) + _memchr8(Printable, true, true, (char *)&first, c);
-    }
+    uint32_t partLen = len & 7;
 
     // Check words for that byte
-    for (;;) {
-        if (hasbyte(cast(p), c)) {
-            return (p - s) + _memchr8(Printable, true, true, p, c);
-        }
+    while (p - s >= 8) {
         p -= 8;
-        if (!Known) {
-            if (p == s)
-                return -1;
-        }
+        if (hasbyte(cast(p), c))
+            return (p - s) + _memchr8(Printable, true, true, p, c);
+    }
+
+    // Check first bytes, if not multiple of 8
+    if (partLen) {
+        uint64_t first = _partial(s, partLen, c);
+        if (hasbyte(first, c))
+            return _memchr8(Printable, true, true, (char *)&first, c);
     }
+
+    return -1;
 }
 
 // Find char in const binary string
@@ -175,29 +174,20 @@ static RAII_INLINE uint32_t _memchr(bool Printable, bool Known, const char *s, u
     const char *p = s;
     const char *end = s + len;
 
-    // If shorter than 8 bytes, we have to mask away c bytes past len
-    uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
-
-    // Check first 8 bytes
-    if (hasbyte(first, c))
-        return _memchr8(Printable, true, false, (char *)&first, c);
-
-    // Advance to leave multiple of 8 bytes
-    p += partLen;
-
     // Check words for that byte
-    for (;;) {
-        if (hasbyte(cast(p), c)) {
+    for (; end - p >= 8; p += 8) {
+        if (hasbyte(cast(p), c))
             return (p - s) + _memchr8(Printable, true, false, p, c);
-        }
-        p += 8;
-        if (!Known) {
-            if (p == end)
-                return -1;
-        }
     }
+
+    // Check last bytes, if not multiple of 8
+    if (p != end) {
+        uint64_t last = _partial(p, end - p, c);
+        if (hasbyte(last, c))
+            return (p - s) + _memchr8(Printable, true, false, (char *)&last, c);
+    }
+
+    return -1;
 }
 
 // Convert uint, of less than 100, to %02u, as int 16
@@ -476,11 +466,13 @@ RAII_INLINE size_t simd_strlen(const char *str) {
 }
 
 RAII_INLINE string simd_memchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memchr(false, false, s, len, c);
+    uint32_t pos = _memchr(false, false, s, len, c);
+    return pos == (uint32_t)-1 ? NULL : (char *)s + pos;
 }
 
 RAII_INLINE string simd_memrchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memrchr(false, false, s, len, c) - 3;
+    uint32_t pos = _memrchr(false, false, s, len, c);
+    return pos == (uint32_t)-1 ? NULL : (char *)s + pos;
 }
 
 // Find char in binary string. Char c is known to be in s + len
-- 
2.43.0


From 7b3ae9f094cc1064b31b01390596c690c88656f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 03/37] fix: simd_itoa beyond 32 bits

---
 src/swar.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 225e92b..1f3c780 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -257,25 +257,25 @@ RAII_INLINE uint32_t simd_itoa(int64_t x, char *buf) {
     bool neg = x < 0;
     *buf = '-'; // Always write
     buf += neg; // But advance only if negative
-    x = abs(x);
+    uint64_t u = neg ? 0 - (uint64_t)x : (uint64_t)x;
 
     char tmp[20];
     char *p = tmp + 20;
 
-    while (x >= 100) {
+    while (u >= 100) {
         p -= 2;
-        utoa2p_ex(x % 100, p);
-        x /= 100;
+        utoa2p_ex(u % 100, p);
+        u /= 100;
     }
 
     p -= 2;
-    utoa2p_ex(x, p);
+    utoa2p_ex(u, p);
 
-    p += x < 10;
+    p += u < 10;
 
     uint32_t len = tmp + 20 - p;
 
-    memcpy(buf, p, 20);
+    memcpy(buf, p, len);
     buf[len] = '\0';
 
     return len + neg;
-- 
2.43.0


From d8ee68010d2bce43a96b8d1d6252539b04ecf424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 04/37] fix: simd_atod decimals sign and scale

---
 src/swar.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 1f3c780..29c45bf 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -10,7 +10,7 @@
 // *** dst is up to 63 bit
 static RAII_INLINE int64_t _copySign(int64_t src, uint64_t dst) {
     // This is better than `src > 0 ? dst : -dst` that is using cmov
-    uint64_t m = ~(src >> 63); // all 1s if >= 0 (opposite of abs)
+    uint64_t m = src >> 63; // all 1s if negative
     return (dst + m) ^ m; // flip if src negative
 }
 
@@ -519,6 +519,7 @@ RAII_INLINE double simd_atod(const char *s, uint32_t len) {
     }
 
     // Do the int part
+    bool neg = ilen > 0 && *s == '-';
     int64_t ipart = simd_atoi(s, ilen);
     s += ilen + 1;
     len -= ilen + 1;
@@ -527,11 +528,11 @@ RAII_INLINE double simd_atod(const char *s, uint32_t len) {
     int64_t dpart = simd_atou(s, len);
 
     // To add the two parts we need matching signs
-    dpart = _copySign(ipart, dpart);
+    dpart = _copySign(neg ? -1 : 1, dpart);
 
-    // Array of 20 * 8 = 160 bytes
-    static const CODE_SECTION double scales[20] = {
-        1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10,
+    // Array of 21 * 8 = 168 bytes
+    static const CODE_SECTION double scales[21] = {
+        1e0, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10,
         1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 1e-16, 1e-17, 1e-18, 1e-19, 1e-20};
 
     return ipart + dpart * scales[len];
-- 
2.43.0


From 90b1a0ca4c71b5ebdd0055fbbd06346780af1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 05/37] fix: raii_decode64 as the first call of a thread

---
 src/raii.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raii.c b/src/raii.c
index 9130d51..b63fcb5 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -194,7 +194,7 @@ RAII_INLINE u_string raii_encode64(u_string_t src) {
 }
 
 RAII_INLINE u_string raii_decode64(u_string_t src) {
-    return str_decode64_ex(raii_local(), src);
+    return str_decode64_ex(raii_init(), src);
 }
 
 unique_t *unique_init(void) {
-- 
2.43.0


From f1d6db98a03595e89ad825179f100c6432b8a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 06/37] fix: args_for long strings and pointers

---
 src/raii.c | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index b63fcb5..2990c1a 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -591,10 +591,8 @@ RAII_INLINE values_type args_in(args_t params, size_t index) {
 }
 
 args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
-    size_t i, len, count = simd_strlen(desc);
+    size_t i, count = simd_strlen(desc);
     args_t params = try_calloc(1, sizeof(struct args_s));
-    void_t p;
-    string s;
     params->args_size = sizeof(raii_values_t);
     params->args = try_calloc(count, params->args_size);
     params->args_size = params->args_size * count;
@@ -627,15 +625,7 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
                 break;
             case 's':
                 // string argument
-                s = (char *)va_arg(argp, char *);
-                len = simd_strlen(s);
-                if (len > sizeof(raii_values_t)) {
-                    params->args_size += len + 1;
-                    params->args = try_realloc(params->args, params->args_size);
-                    strncpy(params->args[i].value.char_ptr, s, len);
-                } else {
-                    params->args[i].value.char_ptr = s;
-                }
+                params->args[i].value.char_ptr = (char *)va_arg(argp, char *);
                 break;
             case 'a':
                 // array argument
@@ -651,13 +641,8 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
                 break;
             case 'p':
                 // void pointer (any arbitrary pointer) argument
-                params->args[i].value.object = va_arg(argp, void *);
             default:
-                p = va_arg(argp, void *);
-                len = sizeof(p);
-                params->args_size += len;
-                params->args = try_realloc(params->args, params->args_size);
-                memcpy(params->args[i].value.object, p, sizeof(p));
+                params->args[i].value.object = va_arg(argp, void *);
                 break;
         }
     }
-- 
2.43.0


From eb588dea65bb6878ec29b0332c228f7236e0e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 07/37] fix: try blocks leave parts of their context
 uninitialised

---
 include/exception.h |  5 ++---
 src/except.c        | 22 ++++++++++++++++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/exception.h b/include/exception.h
index 7ced475..ee7c06d 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -107,6 +107,7 @@ C_API int ex_uncaught_exception(void);
 C_API void ex_terminate(void);
 C_API ex_context_t *ex_init(void);
 C_API ex_context_t *ex_local(void);
+C_API void ex_context_init(ex_context_t *);
 C_API void ex_update(ex_context_t *);
 C_API void ex_unwind_set(ex_context_t *ctx, bool flag);
 C_API void ex_data_set(ex_context_t *ctx, void *data);
@@ -301,9 +302,7 @@ throws an exception of given message. */
     /* local context */                     \
     ex_context_t ex_err;                    \
     ex_err.next = ex_init();                \
-    ex_err.stack = 0;                       \
-    ex_err.ex = 0;                          \
-    ex_err.unstack = 0;                     \
+    ex_context_init(&ex_err);               \
     /* global context updated */            \
     ex_update(&ex_err);                     \
     /* save jump location */                \
diff --git a/src/except.c b/src/except.c
index 088d247..26688e5 100644
--- a/src/except.c
+++ b/src/except.c
@@ -328,6 +328,28 @@ void ex_update(ex_context_t *context) {
 #endif
 }
 
+void ex_context_init(ex_context_t *context) {
+    context->type = ex_context_st;
+    context->is_unwind = false;
+    context->is_rethrown = false;
+    context->is_guarded = false;
+    context->is_raii = false;
+    context->is_emulated = false;
+    context->unstack = 0;
+    context->caught = -1;
+    context->line = 0;
+    context->data = NULL;
+    context->prev = NULL;
+    context->stack = NULL;
+    context->panic = NULL;
+    context->function = NULL;
+    context->ex = NULL;
+    context->file = NULL;
+#ifndef _WIN32
+    context->backtrace->size = 0;
+#endif
+}
+
 ex_context_t *ex_init(void) {
     ex_context_t *context = NULL;
     if (is_empty(context = ex_local())) {
-- 
2.43.0


From 797762f0f594587ae3809e9cfdff646fe0423abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 08/37] fix: a NULL protected pointer ends the unwinding of the
 others

---
 src/except.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 26688e5..658f066 100644
--- a/src/except.c
+++ b/src/except.c
@@ -115,7 +115,7 @@ static void ex_unwind_stack(ex_context_t *ctx) {
         raii_deferred_clean();
     } else {
         while (p && p->type == ex_protected_st) {
-            if ((got_uncaught_exception = (temp == *p->ptr)))
+            if ((got_uncaught_exception = (!is_empty(*p->ptr) && temp == *p->ptr)))
                 break;
 
             if (*p->ptr) {
-- 
2.43.0


From 3d16a865aa6f32b508d187e24ff548a04e164af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 09/37] fix: a throw treats scope memory as a protected pointer
 variable

---
 src/future.c |  5 -----
 src/raii.c   | 25 -------------------------
 2 files changed, 30 deletions(-)

diff --git a/src/future.c b/src/future.c
index 53d67a6..7bba7f8 100644
--- a/src/future.c
+++ b/src/future.c
@@ -209,8 +209,6 @@ future_t thrd_scope(void) {
     pool->cpu_present = thrd_cpu_count();
     pool->futures = NULL;
     pool->results = NULL;
-    ex_protect_ptr(scope->protector, &pool->futures, RAII_FREE);
-    ex_protect_ptr(scope->protector, &pool->results, RAII_FREE);
     pool->type = RAII_SPAWN;
     spawn->arena = pool;
 
@@ -229,7 +227,6 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
 
     promise *p = promise_create();
     future f = future_create(fn);
-    ex_protect_ptr(raii_local()->protector, &f, RAII_FREE);
     future_arg *f_arg = try_calloc(1, sizeof(future_arg));
     f_arg->func = f->func;
     f_arg->arg = args;
@@ -295,11 +292,9 @@ void thrd_then(result_func_t callback, future_t iter, void_t result) {
 void thrd_destroy(future_t f) {
     if (is_type(f, RAII_SPAWN)) {
         memory_t *scope = f->scope;
-        ex_ptr_t *err = scope->protector;
         f->type = -1;
         RAII_FREE(f->futures);
         RAII_FREE(f->results);
-        ex_unprotected_ptr(err);
         raii_delete(scope);
     }
 }
diff --git a/src/raii.c b/src/raii.c
index 2990c1a..e5e9275 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -219,11 +219,6 @@ unique_t *unique_init_arena(void) {
 
 void *malloc_full(memory_t *scope, size_t size, func_t func) {
     void *arena = try_malloc(size);
-    if (is_empty(scope->protector))
-        scope->protector = try_malloc(sizeof(ex_ptr_t));
-
-    scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
     scope->is_protected = true;
     scope->mid = raii_deferred(scope, func, arena);
 
@@ -247,11 +242,6 @@ RAII_INLINE void *malloc_arena(memory_t *scope, size_t size) {
 
 void *calloc_full(memory_t *scope, int count, size_t size, func_t func) {
     void *arena = try_calloc(count, size);
-    if (is_empty(scope->protector))
-        scope->protector = try_calloc(1, sizeof(ex_ptr_t));
-
-    scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
     scope->is_protected = true;
     scope->mid = raii_deferred(scope, func, arena);
 
@@ -395,14 +385,12 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
     defer_func_t *defers = array->base;
-    bool defer_ran = false;
     size_t i;
 
     scope->is_recovered = is_empty(scope->err);
 
     for (i = array->elements; i != generation; i--) {
         defer_func_t *defer = &defers[i - 1];
-        defer_ran = true;
 
         if (!is_empty(scope->err) && !is_empty(defer->check))
             scope->is_recovered = false;
@@ -411,20 +399,7 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
         defer->data = NULL;
     }
 
-    if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
-        scope->is_protected = false;
-        if (!defer_ran) {
-            scope->protector->func(*scope->protector->ptr);
-            *scope->protector->ptr = NULL;
-        }
-    }
-
     array->elements = generation;
-    if (!is_empty(scope->protector)) {
-        ex_unprotected_ptr(scope->protector);
-        RAII_FREE(scope->protector);
-        scope->protector = NULL;
-    }
 }
 
 size_t raii_deferred_count(memory_t *scope) {
-- 
2.43.0


From 7b4455a8a83b2cf1a890e56f9504ee43c86e5ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 10/37] fix: cancel and fire address the wrong deferred
 function

---
 src/raii.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index e5e9275..b2757c6 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -332,18 +332,18 @@ static RAII_INLINE void raii_deferred_array_free(defer_t *array) {
     raii_array_free((raii_array_t *)array);
 }
 
-static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, raii_array_t *elem) {
-    RAII_ASSERT(elem >= (raii_array_t *)array->base.base);
-    return (size_t)(elem - (raii_array_t *)array->base.base);
+static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, defer_func_t *elem) {
+    RAII_ASSERT(elem >= (defer_func_t *)((raii_array_t *)array)->base);
+    return (size_t)(elem - (defer_func_t *)((raii_array_t *)array)->base);
 }
 
-static RAII_INLINE raii_array_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
-    RAII_ASSERT(index <= array->base.elements);
-    return &((raii_array_t *)array->base.base)[index];
+static RAII_INLINE defer_func_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
+    RAII_ASSERT(index <= ((raii_array_t *)array)->elements);
+    return &((defer_func_t *)((raii_array_t *)array)->base)[index];
 }
 
 static RAII_INLINE size_t raii_deferred_array_len(const defer_t *array) {
-    return array->base.elements;
+    return ((raii_array_t *)array)->elements;
 }
 
 static void deferred_canceled(void *data) {}
@@ -353,7 +353,7 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 
     RAII_ASSERT(num_defers != 0 && deferred != NULL);
 
-    if (deferred == (defer_func_t *)raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
+    if (deferred == raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
         /* If we're cancelling the last defer we armed, there's no need to waste
          * space of a deferred callback to an empty function like
          * disarmed_defer(). */
@@ -368,13 +368,13 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 void raii_deferred_cancel(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    raii_deferred_internal(scope, (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index));
+    raii_deferred_internal(scope, raii_deferred_array_get_element(&scope->defer, index));
 }
 
 void raii_deferred_fire(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    defer_func_t *deferred = (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index);
+    defer_func_t *deferred = raii_deferred_array_get_element(&scope->defer, index);
     RAII_ASSERT(scope);
 
     deferred->func(deferred->data);
@@ -435,7 +435,7 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
         deferred->data = data;
         deferred->check = check;
 
-        return raii_deferred_array_get_index(&scope->defer, (raii_array_t *)deferred);
+        return raii_deferred_array_get_index(&scope->defer, deferred);
     }
 }
 
-- 
2.43.0


From ea80b7aa2893dbd0e61efd1423ab2c48611526a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 11/37] fix: deferred functions that defer others, or throw,
 while running

---
 src/raii.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index b2757c6..0590308 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -377,29 +377,26 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
     defer_func_t *deferred = raii_deferred_array_get_element(&scope->defer, index);
     RAII_ASSERT(scope);
 
-    deferred->func(deferred->data);
-
+    defer_func_t fired = *deferred;
     raii_deferred_internal(scope, deferred);
+
+    fired.func(fired.data);
 }
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
-    defer_func_t *defers = array->base;
-    size_t i;
 
     scope->is_recovered = is_empty(scope->err);
 
-    for (i = array->elements; i != generation; i--) {
-        defer_func_t *defer = &defers[i - 1];
+    /* Each is removed before its call, which may add others, or throw. */
+    while (array->elements > generation) {
+        defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
 
-        if (!is_empty(scope->err) && !is_empty(defer->check))
+        if (!is_empty(scope->err) && !is_empty(defer.check))
             scope->is_recovered = false;
 
-        defer->func(defer->data);
-        defer->data = NULL;
+        defer.func(defer.data);
     }
-
-    array->elements = generation;
 }
 
 size_t raii_deferred_count(memory_t *scope) {
-- 
2.43.0


From 6dd42c1d9489f333340299a55747625a5bda2ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 12/37] fix: what a scope defers after an unwinding never runs

---
 src/raii.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raii.c b/src/raii.c
index 0590308..e64746c 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -411,6 +411,7 @@ void raii_deferred_free(memory_t *scope) {
     if (is_type(&scope->defer, RAII_DEF_ARR)) {
         raii_deferred_run(scope, 0);
         raii_deferred_array_reset(&scope->defer);
+        raii_deferred_init(&scope->defer);
     }
 }
 
-- 
2.43.0


From dc281ba4b0d19d16953007846ee1a945829f1c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 13/37] fix: raii_caught and raii_message answer for another
 exception than the current

---
 src/raii.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index e64746c..6164098 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -129,7 +129,7 @@ memory_t *raii_init(void) {
 }
 
 RAII_INLINE size_t raii_mid(void) {
-    return raii_local()->mid;
+    return raii_init()->mid;
 }
 
 RAII_INLINE size_t raii_last_mid(memory_t *scope) {
@@ -416,7 +416,7 @@ void raii_deferred_free(memory_t *scope) {
 }
 
 RAII_INLINE void raii_deferred_clean(void) {
-    raii_deferred_free(raii_local());
+    raii_deferred_free(raii_init());
 }
 
 static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *check) {
@@ -442,11 +442,11 @@ RAII_INLINE size_t raii_deferred(memory_t *scope, func_t func, void *data) {
 }
 
 RAII_INLINE size_t raii_defer(func_t func, void *data) {
-    return raii_deferred(raii_local(), func, data);
+    return raii_deferred(raii_init(), func, data);
 }
 
 RAII_INLINE void raii_recover(func_t func, void *data) {
-    raii_deferred_any(raii_local(), func, data, (void *)"err");
+    raii_deferred_any(raii_init(), func, data, (void *)"err");
 }
 
 RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
@@ -454,16 +454,23 @@ RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
 }
 
 bool raii_caught(const char *err) {
-    memory_t *scope = raii_local();
+    ex_context_t *ctx = ex_init();
+    memory_t *scope = raii_init();
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
 
-    if (exception == NULL && is_str_eq(err, ex_local()->ex)) {
-        ex_local()->state = ex_catch_st;
-        return true;
+    /* The condition at hand comes before one the scope still holds from earlier. */
+    if (!is_empty((void *)ctx->ex)) {
+        if (is_str_eq(err, ctx->ex) || is_str_eq(err, ctx->panic)) {
+            scope->is_recovered = true;
+            ctx->state = ex_catch_st;
+            return true;
+        }
+
+        return false;
     }
 
     if ((scope->is_recovered = is_str_eq(err, exception)))
-        ex_local()->state = ex_catch_st;
+        ctx->state = ex_catch_st;
 
     return scope->is_recovered;
 }
@@ -477,9 +484,14 @@ bool raii_is_caught(memory_t *scope, const char *err) {
 }
 
 const char *raii_message(void) {
-    memory_t *scope = raii_local();
+    ex_context_t *ctx = ex_init();
+    memory_t *scope = raii_init();
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
-    return exception == NULL ? ex_local()->ex : exception;
+
+    if (!is_empty((void *)ctx->ex))
+        return !is_empty((void *)ctx->panic) ? ctx->panic : ctx->ex;
+
+    return exception;
 }
 
 RAII_INLINE const char *raii_message_by(memory_t *scope) {
-- 
2.43.0


From 682e0a64819208128b0c0bd8432bc2a11cefd337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 14/37] fix: guards recover, keep to their own thread, and
 unwind with their handler in place

---
 include/raii.h | 15 ++++++---------
 src/except.c   | 26 +++++++++++++-------------
 src/raii.c     |  9 +++------
 3 files changed, 22 insertions(+), 28 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index 2bb3d15..01d5f81 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -470,7 +470,7 @@ C_API void *try_malloc(size_t);
 C_API void *try_realloc(void *, size_t);
 
 C_API void guard_set(ex_context_t *ctx, const char *ex, const char *message);
-C_API void guard_reset(void *scope, ex_setup_func set, ex_unwind_func unwind);
+C_API void guard_reset(void *scope);
 C_API void guard_delete(memory_t *ptr);
 
 #ifndef MAX
@@ -517,7 +517,7 @@ throws an exception of given message. */
 return given `value` when done, use `NONE` for no return. */
 #define _return(value)              \
     raii_delete(_$##__FUNCTION__);  \
-    guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+    guard_reset(s##__FUNCTION__);   \
     ex_update(ex_err.next);         \
     if (ex_local() == &ex_err)      \
         ex_update(ex_err.next);     \
@@ -533,14 +533,11 @@ are only valid between these sections.
     if (!exception_signal_set)                          \
         ex_signal_setup();                              \
     void *s##__FUNCTION__ = raii_init()->arena;         \
-    ex_setup_func sf##__FUNCTION__ = exception_setup_func;      \
-    ex_unwind_func uf##__FUNCTION__ = exception_unwind_func;    \
-    exception_unwind_func = (ex_unwind_func)raii_deferred_free; \
-    exception_setup_func = guard_set;                   \
     unique_t *_$##__FUNCTION__ = unique_init();         \
     (_$##__FUNCTION__)->status = RAII_GUARDED_STATUS;   \
     raii_local()->arena = (void *)_$##__FUNCTION__;     \
     ex_try {                                            \
+        ex_err.is_guarded = true;                       \
         do {
 
     /* This ends an scoped guard section, it replaces `}`.
@@ -553,7 +550,7 @@ are only valid between these sections.
         if ((is_type(&(_$##__FUNCTION__)->defer, RAII_DEF_ARR)))    \
             raii_deferred_free(_$##__FUNCTION__);                   \
     } ex_finally {                                                  \
-        guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+        guard_reset(s##__FUNCTION__);   \
         guard_delete(_$##__FUNCTION__);                             \
     } ex_end_try;                                                   \
     return result;                                                  \
@@ -567,7 +564,7 @@ are only valid between these sections.
     } ex_catch_if {                                                 \
         raii_deferred_free(_$##__FUNCTION__);                       \
     } ex_finally {                                                  \
-        guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+        guard_reset(s##__FUNCTION__);   \
         guard_delete(_$##__FUNCTION__);                             \
     } ex_end_try;                                                   \
 }
@@ -587,7 +584,7 @@ are only valid between these sections.
             ((memory_t *)error)->backtrace = ex_err.backtrace;      \
         }                                                           \
     } ex_finally{\
-        guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+        guard_reset(s##__FUNCTION__);   \
         guard_delete(_$##__FUNCTION__);                             \
     } ex_end_try;                                                   \
 }
diff --git a/src/except.c b/src/except.c
index 658f066..b1d02d5 100644
--- a/src/except.c
+++ b/src/except.c
@@ -398,6 +398,16 @@ void ex_terminate(void) {
         exit(EXIT_FAILURE);
 }
 
+/* A guard handles what reaches its own handler, whatever other threads do. */
+static void ex_setup(ex_context_t *ctx) {
+    if (ctx->is_guarded)
+        guard_set(ctx, ctx->ex, ctx->panic);
+    else if (exception_setup_func)
+        exception_setup_func(ctx, ctx->ex, ctx->panic);
+    else if (ctx->is_raii)
+        raii_unwind_set(ctx, ctx->ex, ctx->panic);
+}
+
 void ex_throw(string_t exception, string_t file, int line, string_t function, string_t message, ex_backtrace_t *dump) {
     ex_context_t *ctx = ex_init();
 
@@ -415,11 +425,7 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
     ctx->function = function;
     ctx->panic = message;
 
-    if (exception_setup_func)
-        exception_setup_func(ctx, ctx->ex, ctx->panic);
-    else if (ctx->is_raii)
-        raii_unwind_set(ctx, ctx->ex, ctx->panic);
-
+    ex_setup(ctx);
     ex_unwind_stack(ctx);
     ex_signal_unblock(all);
 
@@ -477,10 +483,7 @@ int catch_seh(const char *exception, DWORD code, struct _EXCEPTION_POINTERS *ep)
                 ctx->function = NULL;
             }
 
-            if (exception_setup_func)
-                exception_setup_func(ctx, ctx->ex, ctx->panic);
-            else if (ctx->is_raii)
-                raii_unwind_set(ctx, ctx->ex, ctx->panic);
+            ex_setup(ctx);
             return EXCEPTION_EXECUTE_HANDLER;
         }
     }
@@ -509,10 +512,7 @@ int catch_filter_seh(DWORD code, struct _EXCEPTION_POINTERS *ep) {
             ctx->line = 0;
             ctx->function = NULL;
 
-            if (exception_setup_func)
-                exception_setup_func(ctx, ctx->ex, ctx->panic);
-            else if (ctx->is_raii)
-                raii_unwind_set(ctx, ctx->ex, ctx->panic);
+            ex_setup(ctx);
 
             if (!ctx->is_guarded || ctx->is_raii)
                 ex_unwind_stack(ctx);
diff --git a/src/raii.c b/src/raii.c
index 6164098..6e3c827 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -512,15 +512,12 @@ void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
     scope->panic = message;
     ctx->is_guarded = true;
     ex_swap_set(ctx, (void *)scope);
-    ex_unwind_set(ctx, scope->is_protected);
+    /* The guard itself unwinds, with its handler in place for what is deferred to recover. */
+    ex_unwind_set(ctx, false);
 }
 
-void guard_reset(void *scope, ex_setup_func set, ex_unwind_func unwind) {
+void guard_reset(void *scope) {
     raii_local()->arena = scope;
-    ex_swap_reset(ex_local());
-    ex_local()->is_guarded = false;
-    exception_setup_func = set;
-    exception_unwind_func = unwind;
 }
 
 void guard_delete(memory_t *ptr) {
-- 
2.43.0


From 1527a8c221280cd9aaf5699912b534470143b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 15/37] fix: protected pointers are not released when the scope
 owns memory too

---
 src/except.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/except.c b/src/except.c
index b1d02d5..b63b4c6 100644
--- a/src/except.c
+++ b/src/except.c
@@ -113,19 +113,19 @@ static void ex_unwind_stack(ex_context_t *ctx) {
         exception_unwind_func(ctx->data);
     } else if (ctx->is_unwind && ctx->is_raii && ctx->data == (void *)raii_local()) {
         raii_deferred_clean();
-    } else {
-        while (p && p->type == ex_protected_st) {
-            if ((got_uncaught_exception = (!is_empty(*p->ptr) && temp == *p->ptr)))
-                break;
+    }
 
-            if (*p->ptr) {
-                p->type = -1;
-                p->func(*p->ptr);
-            }
+    while (p && p->type == ex_protected_st) {
+        if ((got_uncaught_exception = (!is_empty(*p->ptr) && temp == *p->ptr)))
+            break;
 
-            temp = *p->ptr;
-            p = p->next;
+        if (*p->ptr) {
+            p->type = -1;
+            p->func(*p->ptr);
         }
+
+        temp = *p->ptr;
+        p = p->next;
     }
 
     ctx->unstack = 0;
-- 
2.43.0


From 6c6f14cd0d618db1046d48b009f2f6934120b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 16/37] fix: an uncaught signal skips what the thread deferred
 inside a try or guard

---
 src/except.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/except.c b/src/except.c
index b63b4c6..504621f 100644
--- a/src/except.c
+++ b/src/except.c
@@ -374,8 +374,7 @@ int ex_uncaught_exception(void) {
 }
 
 void ex_terminate(void) {
-    if (ex_local()->is_raii)
-        raii_destroy();
+    raii_destroy();
 
     if (ex_uncaught_exception() || got_uncaught_exception)
         ex_print(ex_local(), "\nException during stack unwinding leading to an undefined behavior");
-- 
2.43.0


From 1b3cbf1eda5ed2eaa4655ec1b0c9c3bf19728421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 17/37] fix: memory that its scope cannot register leaks
 unreported

---
 src/raii.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/raii.c b/src/raii.c
index 6e3c827..b29f605 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -221,6 +221,11 @@ void *malloc_full(memory_t *scope, size_t size, func_t func) {
     void *arena = try_malloc(size);
     scope->is_protected = true;
     scope->mid = raii_deferred(scope, func, arena);
+    if (UNLIKELY(scope->mid == (size_t)-1)) {
+        RAII_FREE(arena);
+        errno = ENOMEM;
+        raii_panic("Malloc failed!");
+    }
 
     return arena;
 }
@@ -244,6 +249,11 @@ void *calloc_full(memory_t *scope, int count, size_t size, func_t func) {
     void *arena = try_calloc(count, size);
     scope->is_protected = true;
     scope->mid = raii_deferred(scope, func, arena);
+    if (UNLIKELY(scope->mid == (size_t)-1)) {
+        RAII_FREE(arena);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
 
     return arena;
 }
-- 
2.43.0


From cc46796ec9ec2476c52a57a40cd520cdcb482ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 18/37] fix: arena_clear and arena_free lose track of chunks

---
 src/arena.c | 72 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 27 deletions(-)

diff --git a/src/arena.c b/src/arena.c
index 1459b31..078271e 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -7,6 +7,7 @@ union header {
 
 static arena_t free_list = NULL;
 static int num_free = 0;
+static atomic_spinlock free_lock = {0};
 
 /**
  * Will allow to translate back and forth between the pointer
@@ -27,16 +28,53 @@ arena_t arena_init(size_t threshold) {
     return arena;
 }
 
+/* Takes the chunks off one by one, newest first, up to `keep` stay available to any arena. */
+static void arena_release(arena_t arena, int keep) {
+    while (!arena->is_global && arena->next && is_type(arena->next, RAII_ARENA)) {
+        arena_t ptr = arena->next;
+        struct arena_s tmp = *ptr;
+
+        atomic_lock(&free_lock);
+        if (num_free < keep) {
+            ptr->next = free_list;
+            ptr->limit = arena->limit;
+            free_list = ptr;
+            num_free++;
+            ptr = NULL;
+        }
+        atomic_unlock(&free_lock);
+
+        if (!is_empty(ptr)) {
+            memset(ptr, -1, sizeof(arena_t));
+            RAII_FREE(ptr);
+        }
+
+        arena->next = tmp.next;
+        arena->avail = tmp.avail;
+        arena->limit = tmp.limit;
+        arena->bytes = tmp.bytes;
+    }
+
+    if (!arena->is_global)
+        arena->base = NULL;
+}
+
+void arena_clear(arena_t arena) {
+    if (is_empty(arena))
+        return;
+
+    arena_release(arena, (int)arena->threshold);
+}
+
 void arena_free(arena_t arena) {
     if (is_empty(arena))
         return;
 
     if (is_type(arena, RAII_ARENA + RAII_STRUCT)) {
-        num_free += (int)arena->threshold + 1;
         if (arena->is_global)
             RAII_FREE(arena->base);
         else
-            arena_clear(arena);
+            arena_release(arena, 0);
 
         memset(arena, -1, sizeof(arena_t));
         RAII_FREE(arena);
@@ -53,9 +91,14 @@ void *arena_alloc(arena_t arena, long nbytes) {
     while (nbytes > arena->limit - arena->avail) {
         arena_t ptr;
         char *limit;
+        atomic_lock(&free_lock);
         if ((ptr = free_list) != NULL) {
             free_list = free_list->next;
             num_free--;
+        }
+        atomic_unlock(&free_lock);
+
+        if (ptr != NULL) {
             limit = ptr->limit;
         } else {
             long m = align_up(sizeof(union header) + nbytes + arena->threshold * 1024, sizeof(u16));
@@ -104,31 +147,6 @@ void *arena_calloc(arena_t arena, long count, long nbytes) {
     return ptr;
 }
 
-void arena_clear(arena_t arena) {
-    if (is_empty(arena))
-        return;
-
-    while (!arena->is_global && arena->next && is_type(arena->next, RAII_ARENA)) {
-        arena_t tmp = arena->next;
-        if (num_free < (int)arena->threshold) {
-            arena->next->next = free_list;
-            free_list = arena->next;
-            num_free++;
-            free_list->limit = arena->limit;
-            if (is_zero(free_list->bytes))
-                arena->avail -= arena->bytes;
-            else
-                arena->avail -= free_list->bytes;
-        } else {
-            memset(arena->next, -1, sizeof(arena_t));
-            RAII_FREE(arena->next);
-            arena->next = NULL;
-        }
-
-        arena = tmp;
-    }
-}
-
 void arena_print(const arena_t arena) {
     printf("capacity: %zu, total: %zu, free_list:: %d\n", arena_capacity(arena), arena_total(arena), num_free);
 }
-- 
2.43.0


From 1e03e169122aeab1866ea44c1f7a60f0d0c82328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 19/37] fix: arena_alloc returns NULL rather than panics when
 memory runs out

---
 src/arena.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arena.c b/src/arena.c
index 078271e..cdc6eed 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -109,8 +109,9 @@ void *arena_alloc(arena_t arena, long nbytes) {
                 ptr = RAII_MALLOC(arena->total);
 
             if (ptr == NULL) {
+                arena->total -= m;
                 errno = ENOMEM;
-                return NULL;
+                raii_panic("Arena allocation failed!");
             }
 
             if (arena->is_global) {
-- 
2.43.0


From c9c8edf15ed06206f1010398c6a352fddf55f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 20/37] fix: workers write into the scope of the thread that
 created them

Each promise has a scope of its own now: allocating there raced with the
creator's thread, a worker's failure showed up as the creator's (and other
futures') exception, and a NULL or plain argument was read as an args_t.
---
 include/raii.h |  3 +++
 src/future.c   | 33 +++++++++++++++++++++++----------
 src/raii.c     |  1 +
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index 01d5f81..a312120 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -172,6 +172,8 @@ struct memory_s {
     ex_backtrace_t *backtrace;
     void *volatile err;
     const char *volatile panic;
+    /* The promise of a worker `thread`, in its own `thread` smart pointer. */
+    void *promised;
 };
 
 typedef struct args_s {
@@ -199,6 +201,7 @@ typedef struct _promise {
     atomic_spinlock mutex;
     memory_t *scope;
     raii_values_t *result;
+    raii_values_t *returning;
 } promise;
 
 typedef struct {
diff --git a/src/future.c b/src/future.c
index 7bba7f8..dce17fb 100644
--- a/src/future.c
+++ b/src/future.c
@@ -12,7 +12,14 @@ Modified from https://gist.github.com/Geal/8f85e02561d101decf9a
 
 static promise *promise_create(void) {
     promise *p = calloc_default(1, sizeof(promise));
-    p->scope = raii_local();
+    /* Only the worker uses this scope until joined, never its creator's. */
+    p->scope = unique_init();
+    if (UNLIKELY(raii_deferred(raii_init(), (func_t)raii_delete, p->scope) == (size_t)-1)) {
+        raii_delete(p->scope);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
     atomic_flag_clear(&p->mutex);
     atomic_flag_clear(&p->done);
     p->type = RAII_PROMISE;
@@ -20,11 +27,11 @@ static promise *promise_create(void) {
     return p;
 }
 
-static void promise_set(promise *p, void_t res, bool is_args) {
+static void promise_set(promise *p, void_t res) {
     atomic_lock(&p->mutex);
     if (!is_empty(res)) {
-        if (is_args) {
-            p->result = (raii_values_t *)res;
+        if (res == (void_t)p->returning) {
+            p->result = p->returning;
         } else {
             p->result = (raii_values_t *)calloc_full(p->scope, 1, sizeof(raii_values_t), RAII_FREE);
             p->result->value.object = res;
@@ -71,14 +78,14 @@ static int thrd_raii_wrapper(void_t arg) {
     future_arg *f = (future_arg *)arg;
     int err = 0;
     void_t res = nullptr;
-    f->value->scope->err = nullptr;
     rpmalloc_init();
+    raii_init()->promised = (void_t)f->value;
 
     guard {
         res = f->func((args_t)f->arg);
     } guarded_exception(f->value->scope);
 
-    promise_set(f->value, res, (is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
+    promise_set(f->value, res);
     if (is_type(f, RAII_FUTURE_ARG)) {
         memset(f, 0, sizeof(f));
         RAII_FREE(f);
@@ -132,12 +139,18 @@ RAII_INLINE void thrd_wait(future f, wait_func yield) {
 }
 
 RAII_INLINE raii_values_t *thrd_returning(args_t args, void_t value, size_t size) {
-    raii_deferred(args->context, RAII_FREE, value);
-    raii_values_t *result = (raii_values_t *)calloc_full(args->context, 1, sizeof(raii_values_t), RAII_FREE);
+    promise *p = (promise *)raii_init()->promised;
+    memory_t *scope = is_empty(p) ? args->context : p->scope;
+    raii_deferred(scope, RAII_FREE, value);
+    raii_values_t *result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
     result->value.object = value;
     result->size = size;
     result->extended = value;
-    args->is_returning = true;
+    if (is_empty(p))
+        args->is_returning = true;
+    else
+        p->returning = result;
+
     return result;
 }
 
@@ -249,7 +262,7 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
 result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
     va_list args;
     va_start(args, desc);
-    args_t params = raii_args_ex(raii_local(), desc, args);
+    args_t params = raii_args_ex(nullptr, desc, args);
     va_end(args);
 
     return thrd_spawn(fn, (void_t)params);
diff --git a/src/raii.c b/src/raii.c
index b29f605..7f7a5fb 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -114,6 +114,7 @@ memory_t *raii_init(void) {
         scope->is_protected = false;
         scope->is_recovered = false;
         scope->mid = -1;
+        scope->promised = NULL;
 
         ex_context_t *ctx = ex_init();
         ctx->data = (void *)scope;
-- 
2.43.0


From fd7555d8a0af6d1725053f387bdbe48368b527d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 21/37] fix: thrd_get reads its future after freeing it, and a
 result that is not there

---
 src/future.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/future.c b/src/future.c
index dce17fb..ead8e1d 100644
--- a/src/future.c
+++ b/src/future.c
@@ -117,11 +117,13 @@ future thrd_async(thrd_func_t fn, void_t args) {
 
 values_type thrd_get(future f) {
     if (is_type(f, RAII_FUTURE) && !is_empty(f->value) && is_type(f->value, RAII_PROMISE)) {
-        raii_values_t *r = promise_get(f->value);
+        values_type none = {0};
+        promise *p = f->value;
+        raii_values_t *r = promise_get(p);
         future_close(f);
-        promise_close(f->value);
+        promise_close(p);
         if (is_empty(r))
-            return thrd_value(0)->value;
+            return none;
 
         return r->value;
     }
-- 
2.43.0


From 40eab9dbc4bab7d0bed08449d55d31abe55364b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 22/37] fix: a guard and a thrd_scope replace each other

Both lived in the thread smart pointer's arena field: spawning inside a guard
found no scope, and an exception in a guard that opened one was stored in it.
---
 include/raii.h | 2 ++
 src/future.c   | 9 ++++++---
 src/raii.c     | 1 +
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index a312120..dba6c46 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -174,6 +174,8 @@ struct memory_s {
     const char *volatile panic;
     /* The promise of a worker `thread`, in its own `thread` smart pointer. */
     void *promised;
+    /* The `thrd_scope` in use, in the `thread` smart pointer of its creator. */
+    void *spawned;
 };
 
 typedef struct args_s {
diff --git a/src/future.c b/src/future.c
index ead8e1d..fcd1d3a 100644
--- a/src/future.c
+++ b/src/future.c
@@ -225,16 +225,16 @@ future_t thrd_scope(void) {
     pool->futures = NULL;
     pool->results = NULL;
     pool->type = RAII_SPAWN;
-    spawn->arena = pool;
+    spawn->spawned = (void_t)pool;
 
     return pool;
 }
 
 result_t thrd_spawn(thrd_func_t fn, void_t args) {
-    if (is_raii_empty() || !is_type(raii_local()->arena, RAII_SPAWN))
+    future_t pool = (future_t)raii_init()->spawned;
+    if (is_empty(pool))
         raii_panic("No initialization, No `thrd_scope`!");
 
-    future_t pool = (future_t)raii_local()->arena;
     if (pool->thread_count % pool->cpu_present == 0) {
         pool->futures = try_realloc(pool->futures, (pool->thread_count + pool->cpu_present) * sizeof(pool->futures[0]));
         pool->results = try_realloc(pool->results, (pool->thread_count + pool->cpu_present) * sizeof(pool->results[0]));
@@ -308,6 +308,9 @@ void thrd_destroy(future_t f) {
     if (is_type(f, RAII_SPAWN)) {
         memory_t *scope = f->scope;
         f->type = -1;
+        if (raii_init()->spawned == (void_t)f)
+            raii_init()->spawned = nullptr;
+
         RAII_FREE(f->futures);
         RAII_FREE(f->results);
         raii_delete(scope);
diff --git a/src/raii.c b/src/raii.c
index 7f7a5fb..d1cc66d 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -115,6 +115,7 @@ memory_t *raii_init(void) {
         scope->is_recovered = false;
         scope->mid = -1;
         scope->promised = NULL;
+        scope->spawned = NULL;
 
         ex_context_t *ctx = ex_init();
         ctx->data = (void *)scope;
-- 
2.43.0


From f4f256fa29e189bb176b8cdd930e9c0708970dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 23/37] fix: thrd_sync loses workers, and results, once one
 throws or returns nothing

Every worker is joined, and each result copied, before the first exception
among them is thrown; a later thrd_sync only waits for workers spawned since.
---
 src/future.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/future.c b/src/future.c
index fcd1d3a..7aaf6ad 100644
--- a/src/future.c
+++ b/src/future.c
@@ -274,26 +274,42 @@ future_t thrd_sync(future_t v) {
     if (!is_type(v, RAII_SPAWN))
         throw(logic_error);
 
-    int i, x;
+    int i;
     memory_t *scope = v->scope;
+    memory_t failed = {0};
     for (i = 0; i < v->thread_count; i++) {
-        raii_values_t *result = promise_get(v->futures[i]->value);
-        size_t size = result->size;
+        /* Joined by an earlier call. */
+        if (is_empty(v->futures[i]))
+            continue;
+
+        promise *p = v->futures[i]->value;
+        raii_values_t *result = promise_get(p);
+        future_close(v->futures[i]);
+        v->futures[i] = NULL;
+        if (!is_empty(p->scope->err)) {
+            if (is_empty(failed.err))
+                failed = *p->scope;
+
+            continue;
+        }
+
+        size_t size = is_empty(result) ? 0 : result->size;
         v->results[i]->result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
         if (size > 0) {
             v->results[i]->result->extended = calloc_full(scope, 1, size, RAII_FREE);
             memcpy(v->results[i]->result->extended, result->extended, size);
             v->results[i]->result->value.object = v->results[i]->result->extended;
-        } else {
+        } else if (!is_empty(result)) {
             v->results[i]->result->value.array = result->value.array;
         }
 
         v->results[i]->is_ready = true;
-        future_close(v->futures[i]);
-        promise_close(v->futures[i]->value);
     }
 
     raii_deferred_clean();
+    if (!is_empty(failed.err))
+        ex_throw(failed.err, "unknown", 0, "thrd_raii_wrapper", failed.panic, failed.backtrace);
+
     return v;
 }
 
@@ -320,7 +336,7 @@ void thrd_destroy(future_t f) {
 RAII_INLINE bool thrd_is_finish(future_t f) {
     size_t i;
     for (i = 0; i < f->thread_count; i++) {
-        if (!thrd_is_done(f->futures[i]))
+        if (!is_empty(f->futures[i]) && !thrd_is_done(f->futures[i]))
             return false;
     }
 
-- 
2.43.0


From 79a648eabf08ef89561f835be8ca7cf877295ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 24/37] fix: release what was allocated when a later allocation
 of the same call fails

---
 src/raii.c | 7 +++++--
 src/swar.c | 5 +----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index d1cc66d..cd612a8 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -213,7 +213,9 @@ unique_t *unique_init(void) {
 
 unique_t *unique_init_arena(void) {
     unique_t *raii = unique_init();
+    protected(raii, RAII_FREE);
     raii->arena = (void *)arena_init(0);
+    unprotected(raii);
     raii->is_arena = true;
 
     return raii;
@@ -560,11 +562,10 @@ values_type raii_get_args(memory_t *scope, void_t params, int item) {
     args_t args = (args_t)params;
     memory_t *scoped = scope;
     if (!args->defer_set) {
-        args->defer_set = true;
         if (is_empty(scope))
             scoped = is_empty(args->context) ? raii_init() : args->context;
 
-        raii_deferred(scoped, (func_t)args_free, params);
+        args->defer_set = raii_deferred(scoped, (func_t)args_free, params) != (size_t)-1;
     }
 
     return args_in(args, item);
@@ -588,7 +589,9 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
     size_t i, count = simd_strlen(desc);
     args_t params = try_calloc(1, sizeof(struct args_s));
     params->args_size = sizeof(raii_values_t);
+    protected(params, RAII_FREE);
     params->args = try_calloc(count, params->args_size);
+    unprotected(params);
     params->args_size = params->args_size * count;
 
     for (i = 0; i < count; i++) {
diff --git a/src/swar.c b/src/swar.c
index 29c45bf..88b7b06 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -650,7 +650,7 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     for (i = 0; i < num_args; i++)
         strsize += simd_strlen(va_arg(ap, string));
 
-    string res = try_calloc(1, strsize + 1);
+    string res = defer ? calloc_full(defer, 1, strsize + 1, RAII_FREE) : try_calloc(1, strsize + 1);
     strsize = 0;
 
     va_copy(ap, ap_copy);
@@ -661,9 +661,6 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     }
     va_end(ap);
 
-    if (defer)
-        raii_deferred(defer, RAII_FREE, res);
-
     return res;
 }
 
-- 
2.43.0


From 48c5880c1929c5c6602019b26f35bfc423031558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 25/37] fix: with emulated thread-local storage every throw
 ended the program, and storage was looked up before it was made

---
 include/cthread.h   |  4 ++--
 include/exception.h |  3 +++
 src/except.c        | 27 ++++++++++++++++++++-------
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/cthread.h b/include/cthread.h
index cb63015..be2deaa 100644
--- a/include/cthread.h
+++ b/include/cthread.h
@@ -420,7 +420,7 @@ extern "C" {
 
 #ifndef thrd_local
 #if defined(emulate_tls) || defined(__TINYC__)
-#   define thrd_local_return(type, var)    return (type *)tss_get(thrd_##var##_tss);
+#   define thrd_local_return(type, var)    return thrd_##var##_tls == 0 ? NULL : (type *)tss_get(thrd_##var##_tss);
 #   define thrd_local_get(type, var, initial, prefix)   \
         prefix type* var(void) {                        \
             if (thrd_##var##_tls == 0) {	            \
@@ -462,7 +462,7 @@ extern "C" {
             *var() = *value;                                 \
         }                                                   \
         prefix FORCEINLINE bool is_##var##_empty(void) {    \
-            return (type *)tss_get(thrd_##var##_tss) == (type *)initial;     \
+            return thrd_##var##_tls == 0 || (type *)tss_get(thrd_##var##_tss) == (type *)initial;     \
         }
 
     /* Initialize and setup thread local storage `var name` as functions. */
diff --git a/include/exception.h b/include/exception.h
index ee7c06d..5d1cdf9 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -397,6 +397,9 @@ struct ex_context_s {
     ex_context_t *next;
     ex_ptr_t *stack;
 
+    /* The handler in force, only of a thread's own context with emulated thread-local storage. */
+    ex_context_t *current;
+
     /** The panic error message thrown */
     const char *volatile panic;
 
diff --git a/src/except.c b/src/except.c
index 504621f..a452256 100644
--- a/src/except.c
+++ b/src/except.c
@@ -315,14 +315,26 @@ void ex_flags_reset(void) {
     got_ctrl_c = false;
 }
 
+#ifdef emulate_tls
+/* The storage belongs to the thread, and holds the handler in force, which does not. */
+static ex_context_t *ex_base(void) {
+    thrd_local_return(ex_context_t, except)
+}
+
+RAII_INLINE ex_context_t *ex_local(void) {
+    ex_context_t *base = ex_base();
+
+    return is_empty(base) ? NULL : base->current;
+}
+#else
 RAII_INLINE ex_context_t *ex_local(void) {
     thrd_local_return(ex_context_t *, except)
 }
+#endif
 
 void ex_update(ex_context_t *context) {
 #ifdef emulate_tls
-        if (tss_set(thrd_except_tss, context) != thrd_success)
-            raii_panic("Except `tss_set` failed!");
+    ex_base()->current = context;
 #else
         thrd_except_tls = context;
 #endif
@@ -361,6 +373,10 @@ ex_context_t *ex_init(void) {
         context->is_emulated = false;
         context->ex = NULL;
         context->panic = NULL;
+        context->next = NULL;
+        context->stack = NULL;
+        context->unstack = 0;
+        context->current = context;
         memset(context->backtrace->ctx, 0, sizeof(context->backtrace->ctx));
         context->caught = -1;
         context->type = ex_context_st;
@@ -428,11 +444,8 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
     ex_unwind_stack(ctx);
     ex_signal_unblock(all);
 
-#ifdef emulate_tls
-    if (ctx == ex_local())
-#else
-    if (ctx == &thrd_except_buffer)
-#endif
+    /* only the handlers made by a `try` are linked to another */
+    if (is_empty(ctx->next))
         ex_terminate();
 
 #ifdef _WIN32
-- 
2.43.0


From 53c34fd143c0da98748db84dbfc66b8b8ec5147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 26/37] fix: operate on atomic objects with their own size

atomic_store, atomic_load, atomic_fetch_* and atomic_compare_exchange_* were
always 64 bits wide: on an atomic_int or atomic_bool they overwrote and
compared what lies behind it.
---
 include/catomic.h | 75 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 73 insertions(+), 2 deletions(-)

diff --git a/include/catomic.h b/include/catomic.h
index 5f12f11..1c53cec 100644
--- a/include/catomic.h
+++ b/include/catomic.h
@@ -2635,7 +2635,15 @@ static C89ATOMIC_INLINE void c89atomic_spinlock_unlock(atomic_spinlock *pSpinloc
 #endif
 #endif
 
-#if defined(__i386__) || defined(__ppc__) || defined(__arm__) || defined(_M_ARM) || defined(__i386) || defined(_M_IX86)
+#if defined(__GNUC__) && !defined(__clang__) && !defined(__TINYC__) && !defined(_STDATOMIC_H)
+    /* Every operation has to be of the size of the object. */
+#   define C89ATOMIC_BY_TYPE
+#endif
+
+#if defined(C89ATOMIC_BY_TYPE)
+/* reads a value from an atomic object then cast to type */
+#   define atomic_get(type, obj)  (type)__atomic_load_n((obj), __ATOMIC_SEQ_CST)
+#elif defined(__i386__) || defined(__ppc__) || defined(__arm__) || defined(_M_ARM) || defined(__i386) || defined(_M_IX86)
 /* reads a value from an atomic object then cast to type */
 #   define atomic_get(type, obj)  (type)c89atomic_load_32((atomic_uint *)obj)
 #else
@@ -2668,7 +2676,70 @@ static C89ATOMIC_INLINE void c89atomic_spinlock_unlock(atomic_spinlock *pSpinloc
 /* sets an atomic_flag to true and returns the old value */
 #define atomic_flag_test_and_set_explicit(obj, order)	c89atomic_flag_test_and_set_explicit((atomic_flag *)obj, order)
 
-#if defined(__i386__) || defined(__ppc__) || defined(__arm__) || defined(_M_ARM) || defined(__i386) || defined(_M_IX86)
+#if defined(C89ATOMIC_BY_TYPE)
+/* a value of the type of the atomic object */
+#define c89atomic_value(obj, value)	(__typeof__((void)0, *(obj)))(value)
+
+/* indicates whether the atomic object is lock-free */
+#define atomic_is_lock_free(obj)  __atomic_is_lock_free(sizeof(*(obj)), (obj))
+
+/* stores a value in an atomic object */
+#define atomic_store(obj, desired)	atomic_store_explicit(obj, desired, __ATOMIC_SEQ_CST)
+/* stores a value in an atomic object */
+#define atomic_store_explicit(obj, desired, order)	__atomic_store_n((obj), c89atomic_value(obj, desired), order)
+
+/* reads a value from an atomic object */
+#define atomic_load(obj)	atomic_load_explicit(obj, __ATOMIC_SEQ_CST)
+/* reads a value from an atomic object */
+#define atomic_load_explicit(obj, order)	__atomic_load_n((obj), order)
+
+/* initializes an existing atomic object */
+#define atomic_init(obj, desired)  atomic_store(obj, desired)
+
+/* atomic addition */
+#define atomic_fetch_add(obj, arg)	atomic_fetch_add_explicit(obj, arg, __ATOMIC_SEQ_CST)
+/* atomic addition */
+#define atomic_fetch_add_explicit(obj, arg, order)	__atomic_fetch_add((obj), arg, order)
+
+/* atomic subtraction */
+#define atomic_fetch_sub(obj, arg)	atomic_fetch_sub_explicit(obj, arg, __ATOMIC_SEQ_CST)
+/* atomic subtraction */
+#define atomic_fetch_sub_explicit(obj, arg, order)	__atomic_fetch_sub((obj), arg, order)
+
+/* atomic bitwise OR */
+#define atomic_fetch_or(obj, arg)	atomic_fetch_or_explicit(obj, arg, __ATOMIC_SEQ_CST)
+/* atomic bitwise OR */
+#define atomic_fetch_or_explicit(obj, arg, order)	__atomic_fetch_or((obj), arg, order)
+
+/* atomic bitwise exclusive OR */
+#define atomic_fetch_xor(obj, arg)	atomic_fetch_xor_explicit(obj, arg, __ATOMIC_SEQ_CST)
+/* atomic bitwise exclusive OR */
+#define atomic_fetch_xor_explicit(obj, arg, order)	__atomic_fetch_xor((obj), arg, order)
+
+/* atomic bitwise AND */
+#define atomic_fetch_and(obj, arg)	atomic_fetch_and_explicit(obj, arg, __ATOMIC_SEQ_CST)
+/* atomic bitwise AND */
+#define atomic_fetch_and_explicit(obj, arg, order)	__atomic_fetch_and((obj), arg, order)
+
+/* swaps a value with the value of an atomic object */
+#define atomic_exchange(obj, desired)	atomic_exchange_explicit(obj, desired, __ATOMIC_SEQ_CST)
+/* swaps a value with the value of an atomic object */
+#define atomic_exchange_explicit(obj, desired, order)	__atomic_exchange_n((obj), c89atomic_value(obj, desired), order)
+
+/* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
+#define atomic_compare_exchange_weak(obj, expected, desired)	\
+    atomic_compare_exchange_weak_explicit(obj, expected, desired, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
+/* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
+#define atomic_compare_exchange_weak_explicit(obj, expected, desired, succ, fail)	\
+    __atomic_compare_exchange_n((obj), (expected), c89atomic_value(obj, desired), 1, succ, fail)
+
+/* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
+#define atomic_compare_exchange_strong(obj, expected, desired)	\
+    atomic_compare_exchange_strong_explicit(obj, expected, desired, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
+/* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
+#define atomic_compare_exchange_strong_explicit(obj, expected, desired, succ, fail)	\
+    __atomic_compare_exchange_n((obj), (expected), c89atomic_value(obj, desired), 0, succ, fail)
+#elif defined(__i386__) || defined(__ppc__) || defined(__arm__) || defined(_M_ARM) || defined(__i386) || defined(_M_IX86)
 /* sets an atomic_flag to true and returns the old value */
 #define atomic_is_lock_free(obj)  c89atomic_is_lock_free_32((atomic_uint *)obj)
 
-- 
2.43.0


From d6102ae0202a72b0084e992a932da2055bfd8e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 27/37] fix: atomic addition and subtraction of floating point
 values

c89atomic_fetch_add_f32, _f64 and the subtractions added the bit patterns.
---
 include/catomic.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/catomic.h b/include/catomic.h
index 1c53cec..19a11e0 100644
--- a/include/catomic.h
+++ b/include/catomic.h
@@ -2401,8 +2401,10 @@ static C89ATOMIC_INLINE float c89atomic_fetch_add_explicit_f32(volatile float* d
 {
     c89atomic_if32 r;
     c89atomic_if32 x;
-    x.f = src;
-    r.i = c89atomic_fetch_add_explicit_32((volatile c89atomic_uint32*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_32((volatile c89atomic_uint32*)dst, c89atomic_memory_order_relaxed);
+    do {
+        x.f = r.f + src;
+    } while (!c89atomic_compare_exchange_weak_explicit_32((volatile c89atomic_uint32*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed));
     return r.f;
 }
 
@@ -2410,8 +2412,10 @@ static C89ATOMIC_INLINE double c89atomic_fetch_add_explicit_f64(volatile double*
 {
     c89atomic_if64 r;
     c89atomic_if64 x;
-    x.f = src;
-    r.i = c89atomic_fetch_add_explicit_64((volatile c89atomic_uint64*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_64((volatile c89atomic_uint64*)dst, c89atomic_memory_order_relaxed);
+    do {
+        x.f = r.f + src;
+    } while (!c89atomic_compare_exchange_weak_explicit_64((volatile c89atomic_uint64*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed));
     return r.f;
 }
 
@@ -2420,8 +2424,10 @@ static C89ATOMIC_INLINE float c89atomic_fetch_sub_explicit_f32(volatile float* d
 {
     c89atomic_if32 r;
     c89atomic_if32 x;
-    x.f = src;
-    r.i = c89atomic_fetch_sub_explicit_32((volatile c89atomic_uint32*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_32((volatile c89atomic_uint32*)dst, c89atomic_memory_order_relaxed);
+    do {
+        x.f = r.f - src;
+    } while (!c89atomic_compare_exchange_weak_explicit_32((volatile c89atomic_uint32*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed));
     return r.f;
 }
 
@@ -2429,8 +2435,10 @@ static C89ATOMIC_INLINE double c89atomic_fetch_sub_explicit_f64(volatile double*
 {
     c89atomic_if64 r;
     c89atomic_if64 x;
-    x.f = src;
-    r.i = c89atomic_fetch_sub_explicit_64((volatile c89atomic_uint64*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_64((volatile c89atomic_uint64*)dst, c89atomic_memory_order_relaxed);
+    do {
+        x.f = r.f - src;
+    } while (!c89atomic_compare_exchange_weak_explicit_64((volatile c89atomic_uint64*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed));
     return r.f;
 }
 
-- 
2.43.0


From ca64e733b9e0110b24abf5c9064d0dc5f148693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 28/37] fix: first use of an emulated thread-local variable by
 two threads at once

---
 include/cthread.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/cthread.h b/include/cthread.h
index be2deaa..c7864e8 100644
--- a/include/cthread.h
+++ b/include/cthread.h
@@ -423,12 +423,11 @@ extern "C" {
 #   define thrd_local_return(type, var)    return thrd_##var##_tls == 0 ? NULL : (type *)tss_get(thrd_##var##_tss);
 #   define thrd_local_get(type, var, initial, prefix)   \
         prefix type* var(void) {                        \
+            call_once(&thrd_##var##_once, thrd_##var##_make);   \
             if (thrd_##var##_tls == 0) {	            \
-                thrd_##var##_tls = sizeof(type);        \
-                if (tss_create(&thrd_##var##_tss, ZE_FREE) == thrd_success)	\
-                    atexit(var##_del);      \
-                else                        \
-                      goto err;			    \
+                thrd_##var##_make();    \
+                if (thrd_##var##_tls == 0)  \
+                    goto err;			    \
             }								\
             void *ptr = tss_get(thrd_##var##_tss);  \
             if (ptr == NULL) {                      \
@@ -457,11 +456,19 @@ extern "C" {
         static type thrd_##var##_buffer;                    \
         prefix int thrd_##var##_tls = 0;                    \
         prefix tss_t thrd_##var##_tss = 0;                  \
+        static once_flag thrd_##var##_once = ONCE_FLAG_INIT; \
         thrd_local_del(type, var, initial, prefix)          \
+        static void thrd_##var##_make(void) {               \
+            if (tss_create(&thrd_##var##_tss, ZE_FREE) == thrd_success) {    \
+                thrd_##var##_tls = sizeof(type);            \
+                atexit(var##_del);                          \
+            }                                               \
+        }                                                   \
         prefix FORCEINLINE void var##_update(type *value) {  \
             *var() = *value;                                 \
         }                                                   \
         prefix FORCEINLINE bool is_##var##_empty(void) {    \
+            call_once(&thrd_##var##_once, thrd_##var##_make); \
             return thrd_##var##_tls == 0 || (type *)tss_get(thrd_##var##_tss) == (type *)initial;     \
         }
 
-- 
2.43.0


From fcb96f88b07e9b7295766eac02de3d75828628da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 29/37] fix: a thread that could not be started or lacked
 memory left memory behind, or ended the program

---
 src/future.c | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/future.c b/src/future.c
index 7aaf6ad..8ffd747 100644
--- a/src/future.c
+++ b/src/future.c
@@ -28,18 +28,17 @@ static promise *promise_create(void) {
 }
 
 static void promise_set(promise *p, void_t res) {
-    atomic_lock(&p->mutex);
-    if (!is_empty(res)) {
-        if (res == (void_t)p->returning) {
-            p->result = p->returning;
-        } else {
-            p->result = (raii_values_t *)calloc_full(p->scope, 1, sizeof(raii_values_t), RAII_FREE);
-            p->result->value.object = res;
-        }
+    raii_values_t *result = p->returning;
+    if (!is_empty(res) && res != (void_t)result) {
+        result = (raii_values_t *)calloc_full(p->scope, 1, sizeof(raii_values_t), RAII_FREE);
+        result->value.object = res;
     }
 
+    atomic_lock(&p->mutex);
+    if (!is_empty(res))
+        p->result = result;
+
     atomic_unlock(&p->mutex);
-    atomic_flag_test_and_set(&p->done);
 }
 
 static RAII_INLINE raii_values_t *promise_get(promise *p) {
@@ -81,11 +80,20 @@ static int thrd_raii_wrapper(void_t arg) {
     rpmalloc_init();
     raii_init()->promised = (void_t)f->value;
 
-    guard {
-        res = f->func((args_t)f->arg);
-    } guarded_exception(f->value->scope);
+    /* Out of memory around the function is for whoever waits for the result too. */
+    ex_try {
+        guard {
+            res = f->func((args_t)f->arg);
+        } guarded_exception(f->value->scope);
+
+        promise_set(f->value, res);
+    } ex_catch_any {
+        f->value->scope->err = (void_t)ex_err.ex;
+        f->value->scope->panic = ex_err.panic;
+        f->value->scope->backtrace = ex_err.backtrace;
+    } ex_end_try;
 
-    promise_set(f->value, res);
+    atomic_flag_test_and_set(&f->value->done);
     if (is_type(f, RAII_FUTURE_ARG)) {
         memset(f, 0, sizeof(f));
         RAII_FREE(f);
@@ -98,13 +106,18 @@ static int thrd_raii_wrapper(void_t arg) {
 }
 
 static void thrd_start(future f, promise *value, void_t arg) {
+    protected(f, RAII_FREE);
     future_arg *f_arg = try_calloc(1, sizeof(future_arg));
+    protected(f_arg, RAII_FREE);
     f_arg->func = f->func;
     f_arg->arg = arg;
     f_arg->value = value;
     f_arg->type = RAII_FUTURE_ARG;
     if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
         throw(future_error);
+
+    unprotected(f_arg);
+    unprotected(f);
 }
 
 future thrd_async(thrd_func_t fn, void_t args) {
-- 
2.43.0


From 8e133ac392d14c7603322a8d7ced29fce39886e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 30/37] fix: a failing thrd_spawn, thrd_spawn_ex or thrd_scope
 left its thread, arguments or scope behind

---
 src/future.c | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/future.c b/src/future.c
index 8ffd747..5e25ec5 100644
--- a/src/future.c
+++ b/src/future.c
@@ -230,7 +230,9 @@ future_t thrd_pool(size_t count, size_t queue_count) {
 
 future_t thrd_scope(void) {
     unique_t *scope = unique_init(), *spawn = raii_init();
+    protected(scope, (func_t)raii_delete);
     future_t pool = (future_t)calloc_full(scope, 1, sizeof(struct future_pool), RAII_FREE);
+    unprotected(scope);
 
     pool->scope = scope;
     pool->thread_count = 0;
@@ -253,25 +255,17 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
         pool->results = try_realloc(pool->results, (pool->thread_count + pool->cpu_present) * sizeof(pool->results[0]));
     }
 
-    promise *p = promise_create();
-    future f = future_create(fn);
-    future_arg *f_arg = try_calloc(1, sizeof(future_arg));
-    f_arg->func = f->func;
-    f_arg->arg = args;
-    f_arg->value = p;
-    f_arg->type = RAII_FUTURE_ARG;
-    f->value = p;
-    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
-        throw(future_error);
+    result_t result = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
+    result->is_ready = false;
+    result->result = NULL;
+    result->type = RAII_VALUE;
 
-    pool->futures[pool->thread_count] = f;
-    pool->results[pool->thread_count] = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
-    pool->results[pool->thread_count]->is_ready = false;
-    pool->results[pool->thread_count]->result = NULL;
-    pool->results[pool->thread_count]->type = RAII_VALUE;
+    /* Once the thread runs nothing may fail anymore. */
+    pool->futures[pool->thread_count] = thrd_async(fn, args);
+    pool->results[pool->thread_count] = result;
     pool->thread_count++;
 
-    return pool->results[pool->thread_count - 1];
+    return result;
 }
 
 result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
@@ -280,7 +274,11 @@ result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
     args_t params = raii_args_ex(nullptr, desc, args);
     va_end(args);
 
-    return thrd_spawn(fn, (void_t)params);
+    protected(params, (func_t)args_free);
+    result_t result = thrd_spawn(fn, (void_t)params);
+    unprotected(params);
+
+    return result;
 }
 
 future_t thrd_sync(future_t v) {
-- 
2.43.0


From 30fa2bf2e0bfbfb5dac719f0da80c4cbe5b81cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 31/37] fix: out of memory in thrd_sync or thrd_returning lost
 results and objects

---
 src/future.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/future.c b/src/future.c
index 5e25ec5..f38cb88 100644
--- a/src/future.c
+++ b/src/future.c
@@ -156,7 +156,12 @@ RAII_INLINE void thrd_wait(future f, wait_func yield) {
 RAII_INLINE raii_values_t *thrd_returning(args_t args, void_t value, size_t size) {
     promise *p = (promise *)raii_init()->promised;
     memory_t *scope = is_empty(p) ? args->context : p->scope;
-    raii_deferred(scope, RAII_FREE, value);
+    if (UNLIKELY(raii_deferred(scope, RAII_FREE, value) == (size_t)-1)) {
+        RAII_FREE(value);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
     raii_values_t *result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
     result->value.object = value;
     result->size = size;
@@ -295,26 +300,26 @@ future_t thrd_sync(future_t v) {
 
         promise *p = v->futures[i]->value;
         raii_values_t *result = promise_get(p);
-        future_close(v->futures[i]);
-        v->futures[i] = NULL;
         if (!is_empty(p->scope->err)) {
             if (is_empty(failed.err))
                 failed = *p->scope;
-
-            continue;
-        }
-
-        size_t size = is_empty(result) ? 0 : result->size;
-        v->results[i]->result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
-        if (size > 0) {
-            v->results[i]->result->extended = calloc_full(scope, 1, size, RAII_FREE);
-            memcpy(v->results[i]->result->extended, result->extended, size);
-            v->results[i]->result->value.object = v->results[i]->result->extended;
-        } else if (!is_empty(result)) {
-            v->results[i]->result->value.array = result->value.array;
+        } else {
+            size_t size = is_empty(result) ? 0 : result->size;
+            v->results[i]->result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
+            if (size > 0) {
+                v->results[i]->result->extended = calloc_full(scope, 1, size, RAII_FREE);
+                memcpy(v->results[i]->result->extended, result->extended, size);
+                v->results[i]->result->value.object = v->results[i]->result->extended;
+            } else if (!is_empty(result)) {
+                v->results[i]->result->value.array = result->value.array;
+            }
+
+            v->results[i]->is_ready = true;
         }
 
-        v->results[i]->is_ready = true;
+        /* Not before its result is taken, for another call when out of memory. */
+        future_close(v->futures[i]);
+        v->futures[i] = NULL;
     }
 
     raii_deferred_clean();
-- 
2.43.0


From 6b4368df9030b8b3650fce4f33fad28c0a61fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 32/37] fix: the arguments of thrd_spawn_ex leaked when its
 function did not look at them

---
 src/future.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/future.c b/src/future.c
index f38cb88..2c4dd29 100644
--- a/src/future.c
+++ b/src/future.c
@@ -279,11 +279,15 @@ result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
     args_t params = raii_args_ex(nullptr, desc, args);
     va_end(args);
 
-    protected(params, (func_t)args_free);
-    result_t result = thrd_spawn(fn, (void_t)params);
-    unprotected(params);
+    /* Kept until synchronised, whether the function looks at them or not. */
+    params->defer_set = raii_deferred(raii_init(), (func_t)args_free, params) != (size_t)-1;
+    if (UNLIKELY(!params->defer_set)) {
+        args_free(params);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
 
-    return result;
+    return thrd_spawn(fn, (void_t)params);
 }
 
 future_t thrd_sync(future_t v) {
-- 
2.43.0


From ec24f742ff0e780f4cd857d194f718b4f7dd5e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 33/37] fix: splitting by an empty delimiter and replacing an
 empty needle never ended

---
 src/swar.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/swar.c b/src/swar.c
index 88b7b06..626152b 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -612,7 +612,7 @@ string *str_split_ex(memory_t *defer, string_t s, string_t delim, int *count) {
     string_t *ptrs;
     size_t ptrsSize, nbWords = 1, sLen = simd_strlen(s), delimLen = simd_strlen(delim);
 
-    while ((_s = strstr(_s, delim))) {
+    while (delimLen && (_s = strstr(_s, delim))) {
         _s += delimLen;
         ++nbWords;
     }
@@ -673,6 +673,9 @@ string str_replace_ex(memory_t *defer, string_t haystack, string_t needle, strin
     size_t newWlen = simd_strlen(replace);
     size_t oldWlen = simd_strlen(needle);
 
+    if (oldWlen == 0)
+        return NULL;
+
     for (i = 0; haystack[i] != '\0'; i++) {
         if (strstr(&haystack[i], needle) == &haystack[i]) {
             cnt++;
-- 
2.43.0


From 28185283a4b109b858d7c8c0485af2012f1648af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:06 +0000
Subject: [PATCH 34/37] fix: what a function wrote was not visible after
 thrd_wait or thrd_is_done said it had ended

---
 src/future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 2c4dd29..e8b635e 100644
--- a/src/future.c
+++ b/src/future.c
@@ -145,7 +145,7 @@ values_type thrd_get(future f) {
 }
 
 RAII_INLINE bool thrd_is_done(future f) {
-    return atomic_flag_load_explicit(&f->value->done, memory_order_relaxed);
+    return atomic_flag_load_explicit(&f->value->done, memory_order_acquire);
 }
 
 RAII_INLINE void thrd_wait(future f, wait_func yield) {
-- 
2.43.0


From 4c3e3fbc83ece35d986419d9aea192c597c18c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:56 +0000
Subject: [PATCH 35/37] fix: a size so large that rounding it up overflowed was
 taken as allocated from an arena

---
 src/arena.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/arena.c b/src/arena.c
index cdc6eed..0b899f6 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -1,4 +1,5 @@
 #include "raii.h"
+#include <limits.h>
 
 union header {
     arena_t tag;
@@ -86,6 +87,12 @@ void *arena_alloc(arena_t arena, long nbytes) {
     if (is_empty(arena))
         raii_panic("Bad block, `NULL` detected!");
 
+    /* What would overflow once rounded up, or came as more than a `long` can hold. */
+    if (nbytes < 0 || nbytes > LONG_MAX / 2) {
+        errno = ENOMEM;
+        raii_panic("Arena allocation failed!");
+    }
+
     RAII_ASSERT(nbytes > 0);
     nbytes = align_up(nbytes, sizeof(u16));
     while (nbytes > arena->limit - arena->avail) {
@@ -142,8 +149,14 @@ void *arena_alloc(arena_t arena, long nbytes) {
 }
 
 void *arena_calloc(arena_t arena, long count, long nbytes) {
+    void *ptr;
+    if (count < 0 || nbytes < 0 || (nbytes > 0 && count > LONG_MAX / nbytes)) {
+        errno = ENOMEM;
+        raii_panic("Arena allocation failed!");
+    }
+
     RAII_ASSERT(count > 0);
-    void *ptr = arena_alloc(arena, count * nbytes);
+    ptr = arena_alloc(arena, count * nbytes);
     memset(ptr, 0, count * nbytes);
     return ptr;
 }
-- 
2.43.0


From 0dc112ecd0218f042073309dd154f255a61523c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:37 +0000
Subject: [PATCH 36/37] fix: getopt took the leading + or - of the option
 string for an option after its first call, and did not see a colon behind it

---
 include/compat/getopt.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/compat/getopt.c b/include/compat/getopt.c
index c56791a..e63a0db 100644
--- a/include/compat/getopt.c
+++ b/include/compat/getopt.c
@@ -515,8 +515,6 @@ _getopt_internal (argc, argv, optstring, longopts, longind, long_only)
      int long_only;
 {
   int print_errors = opterr;
-  if (optstring[0] == ':')
-    print_errors = 0;
 
   if (argc < 1)
     return -1;
@@ -530,6 +528,11 @@ _getopt_internal (argc, argv, optstring, longopts, longind, long_only)
       optstring = _getopt_initialize (argc, argv, optstring);
       __getopt_initialized = 1;
     }
+  else if (optstring[0] == '-' || optstring[0] == '+')
+    ++optstring;
+
+  if (optstring[0] == ':')
+    print_errors = 0;
 
   /* Test whether ARGV[optind] points to a non-option argument.
      Either it does not have option syntax, or there is an environment flag
-- 
2.43.0


From 0bcf73c8a5486d7bd2972ec964ebba0f0a47472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:37 +0000
Subject: [PATCH 37/37] fix: the second letter of a group of short options was
 taken for a long one by getopt_long_only

---
 include/compat/getopt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/compat/getopt.c b/include/compat/getopt.c
index e63a0db..1918617 100644
--- a/include/compat/getopt.c
+++ b/include/compat/getopt.c
@@ -640,7 +640,8 @@ _getopt_internal (argc, argv, optstring, longopts, longind, long_only)
 
   if (longopts != NULL
       && (argv[optind][1] == '-'
-          || (long_only && (argv[optind][2] || !my_index (optstring, argv[optind][1])))))
+          || (long_only && nextchar == argv[optind] + 1
+              && (argv[optind][2] || !my_index (optstring, argv[optind][1])))))
     {
       char *nameend;
       const struct option *p;
-- 
2.43.0

